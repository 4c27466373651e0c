// Residuals of robots from operations, and an actuation of only some joints.
#pragma once
#include "mbc.hpp"
#include "crocoddyl/core/residuals/control.hpp"
#include "crocoddyl/core/residuals/joint-acceleration.hpp"
#include "crocoddyl/core/residuals/joint-effort.hpp"
#include "crocoddyl/multibody/residuals/centroidal-momentum.hpp"
#include "crocoddyl/multibody/residuals/com-position.hpp"
#include "crocoddyl/multibody/residuals/contact-control-gravity.hpp"
#include "crocoddyl/multibody/residuals/contact-cop-position.hpp"
#include "crocoddyl/multibody/residuals/contact-force.hpp"
#include "crocoddyl/multibody/residuals/contact-friction-cone.hpp"
#include "crocoddyl/multibody/residuals/contact-wrench-cone.hpp"
#include "crocoddyl/multibody/residuals/control-gravity.hpp"
#include "crocoddyl/multibody/residuals/frame-placement.hpp"
#include "crocoddyl/multibody/residuals/frame-rotation.hpp"
#include "crocoddyl/multibody/residuals/frame-translation.hpp"
#include "crocoddyl/multibody/residuals/frame-velocity.hpp"
#include "crocoddyl/multibody/residuals/impulse-com.hpp"
#include "crocoddyl/multibody/residuals/state.hpp"
namespace mb {
// tau = S (u (1 + k v)) - c v - s q (s only on one-dimensional joints), on the joints in the mask
template <typename Scalar>
class PartTpl : public crocoddyl::ActuationModelAbstractTpl<Scalar> {
 public:
  typedef Scalar S;
  typedef crocoddyl::ActuationModelAbstractTpl<S> Base;
  typedef crocoddyl::ActuationDataAbstractTpl<S> Data;
  typedef Eigen::Matrix<S, Eigen::Dynamic, 1> Vx;
  CROCODDYL_DERIVED_CAST(crocoddyl::ActuationModelBase, PartTpl)
  PartTpl(std::shared_ptr<crocoddyl::StateAbstractTpl<S> > st, std::vector<long> on, double c, double s, double k)
      : Base(st, on.size()), on_(on), c_(c), s_(s), k_(k) {}
  void calc(const std::shared_ptr<Data>& d, const Eigen::Ref<const Vx>& x, const Eigen::Ref<const Vx>& u) override {
    const int nv = (int)this->state_->get_nv(), nq = (int)this->state_->get_nq();
    d->tau = -(S)c_ * x.tail(nv);
    for (int k = (nq > nv ? 6 : 0); k < nv; ++k) d->tau[k] -= (S)s_ * x[k + nq - nv];
    for (std::size_t j = 0; j < on_.size(); ++j) d->tau[on_[j]] += u[j] * (1 + (S)k_ * x[nq + on_[j]]);
  }
  void calcDiff(const std::shared_ptr<Data>& d, const Eigen::Ref<const Vx>& x, const Eigen::Ref<const Vx>& u) override {
    const int nv = (int)this->state_->get_nv(), nq = (int)this->state_->get_nq();
    d->dtau_dx.setZero();
    d->dtau_du.setZero();
    for (int k = 0; k < nv; ++k) d->dtau_dx(k, nv + k) = -(S)c_;
    for (int k = (nq > nv ? 6 : 0); k < nv; ++k) d->dtau_dx(k, k) = -(S)s_;
    for (std::size_t j = 0; j < on_.size(); ++j) {
      d->dtau_dx(on_[j], nv + on_[j]) += u[j] * (S)k_;
      d->dtau_du(on_[j], j) = 1 + (S)k_ * x[nq + on_[j]];
    }
  }
  void commands(const std::shared_ptr<Data>& d, const Eigen::Ref<const Vx>&, const Eigen::Ref<const Vx>& tau) override {
    for (std::size_t j = 0; j < on_.size(); ++j) d->u[j] = tau[on_[j]];
  }
  std::shared_ptr<Data> createData() override {
    auto d = std::make_shared<Data>(this);
    for (std::size_t k = 0; k < d->tau_set.size(); ++k) d->tau_set[k] = false;
    for (std::size_t j = 0; j < on_.size(); ++j) {
      d->tau_set[on_[j]] = true;
      d->Mtau(j, on_[j]) = 1;
    }
    return d;
  }
  void torqueTransform(const std::shared_ptr<Data>&, const Eigen::Ref<const Vx>&, const Eigen::Ref<const Vx>&) override {}
  template <typename N>
  PartTpl<N> cast() const {
    return PartTpl<N>(this->state_->template cast<N>(), on_, c_, s_, k_);
  }

 private:
  std::vector<long> on_;
  double c_, s_, k_;
};
// r kind; fr frame; ty reference frame; ref reference; nu inputs
inline std::shared_ptr<crocoddyl::ResidualModelAbstract> residual(State st, std::shared_ptr<crocoddyl::ActuationModelAbstract> act, const tr::Op& o, std::size_t nu, bool fwd,
                                                                  std::size_t nc) {
  using namespace crocoddyl;
  const std::string r = o.s("r");
  const V ref = o.v("ref");
  const auto id = fid(*st->get_pinocchio(), o.i("fr"));
  if (r == "x") return std::make_shared<ResidualModelState>(st, ref, nu);
  if (r == "u") return std::make_shared<ResidualModelControl>(st, ref);
  if (r == "acc") return std::make_shared<ResidualModelJointAcceleration>(st, ref, nu);
  if (r == "tau") return std::make_shared<ResidualModelJointEffort>(st, act, ref, nu, fwd);
  if (r == "mom") return std::make_shared<ResidualModelCentroidalMomentum>(st, ref, nu);
  if (r == "com") return std::make_shared<ResidualModelCoMPosition>(st, ref, nu);
  if (r == "pos") return std::make_shared<ResidualModelFrameTranslation>(st, id, ref, nu);
  if (r == "rot") return std::make_shared<ResidualModelFrameRotation>(st, id, rot(ref), nu);
  if (r == "pla") return std::make_shared<ResidualModelFramePlacement>(st, id, pose(ref.head(9), ref.tail(3)), nu);
  if (r == "vel") return std::make_shared<ResidualModelFrameVelocity>(st, id, pinocchio::Motion(ref), frame(o.s("ty")), nu);
  if (r == "fc") return std::make_shared<ResidualModelContactForce>(st, id, pinocchio::Force(ref), nc, nu, fwd);
  if (r == "dvc") return std::make_shared<ResidualModelImpulseCoM>(st);
  throw std::runtime_error("residual " + r);
}
}  // namespace mb
