// Contacts, impulses and frame kinematics for the robot drivers.
#pragma once
#include "mb.hpp"
#include "crocoddyl/multibody/contacts/contact-1d.hpp"
#include "crocoddyl/multibody/contacts/contact-2d.hpp"
#include "crocoddyl/multibody/contacts/contact-3d.hpp"
#include "crocoddyl/multibody/contacts/contact-6d.hpp"
#include "crocoddyl/multibody/contacts/multiple-contacts.hpp"
#include "crocoddyl/multibody/impulses/impulse-3d.hpp"
#include "crocoddyl/multibody/impulses/impulse-6d.hpp"
#include "crocoddyl/multibody/impulses/multiple-impulses.hpp"
#include "crocoddyl/multibody/states/multibody.hpp"
namespace mb {
using crocoddyl::StateMultibody;
typedef std::shared_ptr<StateMultibody> State;
inline pinocchio::ReferenceFrame frame(const std::string& t) { return t == "L" ? pinocchio::LOCAL : t == "W" ? pinocchio::WORLD : pinocchio::LOCAL_WORLD_ALIGNED; }
inline pinocchio::FrameIndex fid(const Model& m, long i) { return m.getFrameId("f" + std::to_string(i)); }
inline Eigen::Matrix3d rot(const V& R) { return pose(R, V::Zero(3)).rotation(); }
// a contact from an operation: k kind, fr frame, ty type, Ra axis (1d), pr and Rr reference, g gains, nu
inline std::shared_ptr<crocoddyl::ContactModelAbstract> contact(State st, const tr::Op& o) {
  using namespace crocoddyl;
  const std::string k = o.s("k");
  const auto ty = frame(o.s("ty"));
  const auto id = fid(*st->get_pinocchio(), o.i("fr"));
  const Eigen::Vector2d g = o.v("g");
  const Eigen::Vector3d p = o.v("pr");
  const std::size_t nu = o.i("nu");
  if (k == "1d") return std::make_shared<ContactModel1D>(st, id, p[2], ty, rot(o.v("Ra")), nu, g);
  if (k == "2d") return std::make_shared<ContactModel2D>(st, id, Eigen::Vector2d(p[0], p[2]), nu, g);
  if (k == "3d") return std::make_shared<ContactModel3D>(st, id, p, ty, nu, g);
  return std::make_shared<ContactModel6D>(st, id, pose(o.v("Rr"), o.v("pr")), ty, nu, g);
}
inline std::shared_ptr<crocoddyl::ImpulseModelAbstract> impulse(State st, const tr::Op& o) {
  using namespace crocoddyl;
  const auto id = fid(*st->get_pinocchio(), o.i("fr"));
  if (o.s("k") == "3d") return std::make_shared<ImpulseModel3D>(st, id, frame(o.s("ty")));
  return std::make_shared<ImpulseModel6D>(st, id, frame(o.s("ty")));
}
inline void prepare(const Model& m, pinocchio::Data& d, const V& q, const V& v, const V& a) {
  pinocchio::forwardKinematics(m, d, q, v, a);
  pinocchio::computeJointJacobians(m, d, q);
  pinocchio::updateFramePlacements(m, d);
}
inline void prepareDiff(const Model& m, pinocchio::Data& d, const V& q, const V& v, const V& a) {
  pinocchio::computeForwardKinematicsDerivatives(m, d, q, v, a);
}
inline V flat(const Eigen::Matrix3d& R) {
  V r(9);
  for (int i = 0; i < 9; ++i) r[i] = R(i / 3, i % 3);
  return r;
}
// what the library says about each frame: placement, velocity, acceleration and Jacobian in the frame
inline std::vector<tr::Obj> frames(const Model& m, pinocchio::Data& d, std::size_t n) {
  std::vector<tr::Obj> l;
  for (std::size_t i = 1; i <= n; ++i) {
    const auto id = fid(m, i);
    tr::Obj o;
    M J = M::Zero(6, m.nv);
    pinocchio::getFrameJacobian(m, d, id, pinocchio::LOCAL, J);
    o.vec("R", flat(d.oMf[id].rotation())).vec("p", d.oMf[id].translation()).mat("J", J);
    o.vec("v", pinocchio::getFrameVelocity(m, d, id).toVector()).vec("a", pinocchio::getFrameAcceleration(m, d, id).toVector());
    l.push_back(o);
  }
  return l;
}
}  // namespace mb
