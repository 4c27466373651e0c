// Cost and constraint items written by "the user", with small integer values the specification computes too.
#pragma once
#include "crocoddyl/core/activations/quadratic.hpp"
#include "crocoddyl/core/constraint-base.hpp"
#include "crocoddyl/core/cost-base.hpp"
#include "crocoddyl/core/states/euclidean.hpp"
#include "trace.hpp"

namespace titems {
typedef Eigen::VectorXd V;
typedef Eigen::MatrixXd M;
typedef Eigen::Ref<const V> CV;

struct TCost : public crocoddyl::CostModelAbstractTpl<double> {
  typedef crocoddyl::CostModelAbstractTpl<double> Base;
  typedef crocoddyl::CostDataAbstractTpl<double> D;
  long id;
  TCost(std::shared_ptr<crocoddyl::StateAbstractTpl<double> > s, std::size_t nr, std::size_t nu, long i) : Base(s, nr, nu), id(i) {}
  void calc(const std::shared_ptr<D>& d, const CV& x, const CV& u) override { d->cost = id * x.sum() + u.sum() + 7 * id; }
  // the first kind leaves the evaluation without control to the library
  void calc(const std::shared_ptr<D>& d, const CV& x) override {
    if (id == 1) { Base::calc(d, x); return; }
    d->cost = 3 * id - x.sum();
  }
  void calcDiff(const std::shared_ptr<D>& d, const CV& x, const CV& u) override {
    const long nx = x.size(), nu = u.size();
    for (long j = 0; j < nx; ++j) d->Lx[j] = id + (j + 1) * x[j] + u.sum();
    for (long j = 0; j < nu; ++j) d->Lu[j] = id * (j + 1) + u[j] - x[0];
    for (long j = 0; j < nx; ++j) for (long k = 0; k < nx; ++k) d->Lxx(j, k) = id * (j + k + 2) + x[0];
    for (long j = 0; j < nx; ++j) for (long k = 0; k < nu; ++k) d->Lxu(j, k) = id + 2 * (j + 1) - (k + 1) + u[0];
    for (long j = 0; j < nu; ++j) for (long k = 0; k < nu; ++k) d->Luu(j, k) = id * ((j + 1) * (k + 1)) + u[0];
  }
  void calcDiff(const std::shared_ptr<D>& d, const CV& x) override {
    if (id == 1) { Base::calcDiff(d, x); return; }
    const long nx = x.size();
    for (long j = 0; j < nx; ++j) d->Lx[j] = 5 * id + (j + 1) + x[j];
    for (long j = 0; j < nx; ++j) for (long k = 0; k < nx; ++k) d->Lxx(j, k) = id - (j + k + 2) + x[1];
  }
  std::shared_ptr<crocoddyl::CostModelBase> cloneAsDouble() const override { return nullptr; }
  std::shared_ptr<crocoddyl::CostModelBase> cloneAsFloat() const override { return nullptr; }
};

struct TConstraint : public crocoddyl::ConstraintModelAbstractTpl<double> {
  typedef crocoddyl::ConstraintModelAbstractTpl<double> Base;
  typedef crocoddyl::ConstraintDataAbstractTpl<double> D;
  long id;
  TConstraint(std::shared_ptr<crocoddyl::StateAbstractTpl<double> > s, std::size_t nu, std::size_t ng, std::size_t nh, bool T, long i)
      : Base(s, nu, ng, nh, T), id(i) {
    bounds(0);
  }
  void bounds(long s) {
    V lb(ng_), ub(ng_);
    for (long k = 0; k < static_cast<long>(ng_); ++k) { lb[k] = -id - (k + 1) + s; ub[k] = id + 2 * (k + 1) + s; }
    if (ng_ > 0) update_bounds(lb, ub);
  }
  void calc(const std::shared_ptr<D>& d, const CV& x, const CV& u) override {
    for (long k = 0; k < static_cast<long>(ng_); ++k) d->g[k] = id * (k + 1) + x.sum() - u.sum();
    for (long k = 0; k < static_cast<long>(nh_); ++k) d->h[k] = 10 * id + (k + 1) + x[0] + u[0];
  }
  // the first two kinds leave the evaluation without control to the library
  void calc(const std::shared_ptr<D>& d, const CV& x) override {
    if (id <= 2) { Base::calc(d, x); return; }
    for (long k = 0; k < static_cast<long>(ng_); ++k) d->g[k] = 2 * id + (k + 1) + x[1];
    for (long k = 0; k < static_cast<long>(nh_); ++k) d->h[k] = -id - (k + 1) + x.sum();
  }
  void calcDiff(const std::shared_ptr<D>& d, const CV& x, const CV& u) override {
    fill(d->Gx, 1, x[0] + u[0]); fill(d->Gu, 2, u[0]); fill(d->Hx, 3, x[1]); fill(d->Hu, 4, u.sum());
  }
  void calcDiff(const std::shared_ptr<D>& d, const CV& x) override {
    if (id <= 2) { Base::calcDiff(d, x); return; }
    fill(d->Gx, 5, x[0]);
    fill(d->Hx, 6, x[1]);
  }
  template <typename X>
  void fill(X& m, long c, double v) {
    for (long i = 0; i < m.rows(); ++i) for (long j = 0; j < m.cols(); ++j) m(i, j) = 100 * id + c * (i + 1) + 7 * (j + 1) + v;
  }
  std::shared_ptr<crocoddyl::ConstraintModelBase> cloneAsDouble() const override { return nullptr; }
  std::shared_ptr<crocoddyl::ConstraintModelBase> cloneAsFloat() const override { return nullptr; }
};

inline std::string ivec(const Eigen::Ref<const V>& v) {
  std::string r = "[";
  for (long i = 0; i < v.size(); ++i) r += (i ? "," : "") + std::to_string(static_cast<long>(std::llround(v[i])));
  return r + "]";
}
inline std::string imat(const Eigen::Ref<const M>& m) {
  std::string r = "[";
  for (long i = 0; i < m.rows(); ++i) {
    r += i ? ",[" : "[";
    for (long j = 0; j < m.cols(); ++j) r += (j ? "," : "") + std::to_string(static_cast<long>(std::llround(m(i, j))));
    r += "]";
  }
  return r + "]";
}
}  // namespace titems
