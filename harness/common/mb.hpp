// Robots described by operations, built on the stand-in rigid-body library.
#pragma once
#include <pinocchio/minipin.hpp>
#include "trace.hpp"
namespace mb {
typedef Eigen::VectorXd V;
typedef Eigen::MatrixXd M;
typedef pinocchio::Model Model;
inline pinocchio::SE3 pose(const V& R, const V& t) {
  Eigen::Matrix3d r;
  for (int i = 0; i < 9; ++i) r(i / 3, i % 3) = R[i];
  return pinocchio::SE3(r, Eigen::Vector3d(t));
}
// jk kinds (1 revolute, 2 prismatic, 3 free flyer), jp parents, ax axes, jR/jt placements, jm/jc/jI inertias,
// jl/ju/jv limits, ar armature; fj/fR/ft operational frames; root: the first joint is called root_joint
inline std::shared_ptr<Model> robot(const tr::Op& o) {
  auto m = std::make_shared<Model>();
  const std::vector<long> k = o.is("jk"), p = o.is("jp"), fj = o.is("fj");
  const std::vector<V> ax = o.vs("ax"), R = o.vs("jR"), t = o.vs("jt"), c = o.vs("jc"), I = o.vs("jI"), fR = o.vs("fR"), ft = o.vs("ft");
  const V mass = o.v("jm"), lo = o.v("jl"), hi = o.v("ju"), ve = o.v("jv");
  for (std::size_t i = 0; i < k.size(); ++i) {
    pinocchio::InertiaTpl<double> Y;
    Y.m = mass[i];
    Y.c = c[i];
    Y.I = Eigen::Vector3d(I[i]).asDiagonal();
    m->addJoint(p[i], k[i] == 1 ? pinocchio::REVOLUTE : k[i] == 2 ? pinocchio::PRISMATIC : pinocchio::FREEFLYER, ax[i], pose(R[i], t[i]),
                i == 0 && o.b("root") ? "root_joint" : "joint" + std::to_string(i + 1), Y, lo[i], hi[i], ve[i], 1e3);
  }
  const V ar = o.v("ar");
  for (int i = 0; i < m->nv; ++i) m->armature[i] = ar[i];
  for (std::size_t i = 0; i < fj.size(); ++i) m->addFrame("f" + std::to_string(i + 1), fj[i], pose(fR[i], ft[i]));
  return m;
}
}  // namespace mb
