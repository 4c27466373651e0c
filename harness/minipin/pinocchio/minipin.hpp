// A small rigid-body library with the names, conventions and contracts of the part of Pinocchio that crocoddyl's
// multibody code calls (the real library is not in the sandbox). Trees of revolute, prismatic and free-flyer joints.
// Values come from the textbook recursions; derivatives are differences of fourth order of these values, so nothing in
// here shares a formula with the code under test. As in Pinocchio: spatial vectors are (linear, angular); Jacobian
// getters write only the columns of the supporting joints; the mass matrix is only written in its upper triangle; the
// Lie-group Jacobians write only the diagonal blocks of the joints; data.a does not contain gravity.
#pragma once
#include <Eigen/Core>
#include <Eigen/Cholesky>
#include <Eigen/Geometry>
#include <Eigen/LU>
#include <Eigen/StdVector>
#include <cmath>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
#include <pinocchio/utils/static-if.hpp>

namespace pinocchio {
typedef std::size_t Index;
typedef std::size_t JointIndex;
typedef std::size_t FrameIndex;
typedef std::size_t PairIndex;
typedef std::size_t GeomIndex;
enum ReferenceFrame { WORLD = 0, LOCAL = 1, LOCAL_WORLD_ALIGNED = 2 };
enum ArgumentPosition { ARG0 = 0, ARG1 = 1, ARG2 = 2, ARG3 = 3, ARG4 = 4 };
enum AssignmentOperatorType { SETTO, ADDTO, RMTO };
enum FrameType { OP_FRAME = 1, JOINT = 2, FIXED_JOINT = 4, BODY = 8, SENSOR = 16 };
namespace container {
template <typename T>
using aligned_vector_base = std::vector<T, Eigen::aligned_allocator<T> >;
template <typename T>
struct aligned_vector : public aligned_vector_base<T> {
  using aligned_vector_base<T>::aligned_vector_base;
};
}  // namespace container

template <typename S>
Eigen::Matrix<S, 3, 3> skewOf(const Eigen::Matrix<S, 3, 1>& v) {
  Eigen::Matrix<S, 3, 3> M;
  M << S(0), -v[2], v[1], v[2], S(0), -v[0], -v[1], v[0], S(0);
  return M;
}
template <typename D>
Eigen::Matrix<typename D::Scalar, 3, 3> skew(const Eigen::MatrixBase<D>& v) {
  return skewOf<typename D::Scalar>(v);
}
template <typename D, typename M>
void skew(const Eigen::MatrixBase<D>& v, const Eigen::MatrixBase<M>& m) {
  const_cast<Eigen::MatrixBase<M>&>(m).derived() = skewOf<typename D::Scalar>(v);
}

template <typename S, int O = 0>
struct ForceTpl;
template <typename S, int O = 0>
struct MotionTpl;

#define MINIPIN_VECTOR6(Class)                                                                     \
  typedef S Scalar;                                                                                \
  typedef Eigen::Matrix<S, 3, 1> Vector3;                                                          \
  typedef Eigen::Matrix<S, 6, 1> Vector6;                                                          \
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW                                                                  \
  Vector6 d;                                                                                       \
  Class() { d.setZero(); }                                                                         \
  template <typename A>                                                                            \
  explicit Class(const Eigen::MatrixBase<A>& v) : d(v) {}                                          \
  template <typename A, typename B>                                                                \
  Class(const Eigen::MatrixBase<A>& l, const Eigen::MatrixBase<B>& a) {                            \
    d << l, a;                                                                                     \
  }                                                                                                \
  template <typename A>                                                                            \
  Class& operator=(const Eigen::MatrixBase<A>& v) {                                                \
    d = v;                                                                                         \
    return *this;                                                                                  \
  }                                                                                                \
  static Class Zero() { return Class(); }                                                          \
  static Class Random() { return Class(Vector6::Random()); }                                       \
  Class& setZero() {                                                                               \
    d.setZero();                                                                                   \
    return *this;                                                                                  \
  }                                                                                                \
  Class& setRandom() {                                                                             \
    d.setRandom();                                                                                 \
    return *this;                                                                                  \
  }                                                                                                \
  Eigen::VectorBlock<Vector6, 3> linear() { return d.template head<3>(); }                         \
  Eigen::VectorBlock<const Vector6, 3> linear() const { return d.template head<3>(); }             \
  Eigen::VectorBlock<Vector6, 3> angular() { return d.template tail<3>(); }                        \
  Eigen::VectorBlock<const Vector6, 3> angular() const { return d.template tail<3>(); }            \
  template <typename A>                                                                            \
  void linear(const Eigen::MatrixBase<A>& v) {                                                     \
    d.template head<3>() = v;                                                                      \
  }                                                                                                \
  template <typename A>                                                                            \
  void angular(const Eigen::MatrixBase<A>& v) {                                                    \
    d.template tail<3>() = v;                                                                      \
  }                                                                                                \
  const Vector6& toVector() const { return d; }                                                    \
  Vector6& toVector() { return d; }                                                                \
  Class operator+(const Class& o) const { return Class(Vector6(d + o.d)); }                        \
  Class operator-(const Class& o) const { return Class(Vector6(d - o.d)); }                        \
  Class operator-() const { return Class(Vector6(-d)); }                                           \
  Class operator*(const S& s) const { return Class(Vector6(d * s)); }                              \
  Class operator/(const S& s) const { return Class(Vector6(d / s)); }                              \
  friend Class operator*(const S& s, const Class& m) { return Class(Vector6(m.d * s)); }           \
  Class& operator+=(const Class& o) {                                                              \
    d += o.d;                                                                                      \
    return *this;                                                                                  \
  }                                                                                                \
  Class& operator-=(const Class& o) {                                                              \
    d -= o.d;                                                                                      \
    return *this;                                                                                  \
  }                                                                                                \
  bool operator==(const Class& o) const { return d == o.d; }                                       \
  bool operator!=(const Class& o) const { return d != o.d; }                                       \
  bool isApprox(const Class& o, const S& p = Eigen::NumTraits<S>::dummy_precision()) const {       \
    return (d - o.d).norm() <= p * std::min(d.norm(), o.d.norm());                                 \
  }                                                                                                \
  bool isZero(const S& p = Eigen::NumTraits<S>::dummy_precision()) const { return d.isZero(p); }   \
  template <typename N>                                                                            \
  Class##Of<N> cast() const {                                                                      \
    return Class##Of<N>(d.template cast<N>().eval());                                              \
  }                                                                                                \
  friend std::ostream& operator<<(std::ostream& os, const Class& m) {                              \
    return os << "  v = " << m.linear().transpose() << "\n  w = " << m.angular().transpose() << "\n"; \
  }

template <typename N>
using MotionTplOf = MotionTpl<N, 0>;
template <typename N>
using ForceTplOf = ForceTpl<N, 0>;

template <typename S, int O>
struct ForceTpl {
  MINIPIN_VECTOR6(ForceTpl)
};
template <typename S, int O>
struct MotionTpl {
  MINIPIN_VECTOR6(MotionTpl)
  MotionTpl cross(const MotionTpl& m) const {
    return MotionTpl(Vector3(angular().cross(m.linear()) + linear().cross(m.angular())),
                     Vector3(angular().cross(m.angular())));
  }
  ForceTpl<S> cross(const ForceTpl<S>& f) const {
    return ForceTpl<S>(Vector3(angular().cross(f.linear())),
                       Vector3(linear().cross(f.linear()) + angular().cross(f.angular())));
  }
};

template <typename S, int O = 0>
struct SE3Tpl {
  typedef S Scalar;
  typedef Eigen::Matrix<S, 3, 1> Vector3;
  typedef Eigen::Matrix<S, 3, 3> Matrix3;
  typedef Eigen::Matrix<S, 4, 4> Matrix4;
  typedef Eigen::Matrix<S, 6, 6> Matrix6;
  typedef Matrix6 ActionMatrixType;
  typedef Eigen::Quaternion<S> Quaternion;
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  Matrix3 R;
  Vector3 p;
  SE3Tpl() {}
  SE3Tpl(int) { setIdentity(); }
  template <typename A, typename B>
  SE3Tpl(const Eigen::MatrixBase<A>& r, const Eigen::MatrixBase<B>& t) : R(r), p(t) {}
  template <typename A, typename B>
  SE3Tpl(const Eigen::QuaternionBase<A>& q, const Eigen::MatrixBase<B>& t) : R(q.matrix()), p(t) {}
  static SE3Tpl Identity() { return SE3Tpl(Matrix3(Matrix3::Identity()), Vector3(Vector3::Zero())); }
  static SE3Tpl Random() {
    return SE3Tpl(Eigen::Quaternion<S>(Eigen::Matrix<S, 4, 1>::Random().normalized()), Vector3(Vector3::Random()));
  }
  SE3Tpl& setIdentity() {
    R.setIdentity();
    p.setZero();
    return *this;
  }
  SE3Tpl& setRandom() { return *this = Random(); }
  const Matrix3& rotation() const { return R; }
  Matrix3& rotation() { return R; }
  const Vector3& translation() const { return p; }
  Vector3& translation() { return p; }
  template <typename A>
  void rotation(const Eigen::MatrixBase<A>& r) {
    R = r;
  }
  template <typename A>
  void translation(const Eigen::MatrixBase<A>& t) {
    p = t;
  }
  SE3Tpl inverse() const { return SE3Tpl(Matrix3(R.transpose()), Vector3(-(R.transpose() * p))); }
  SE3Tpl operator*(const SE3Tpl& m) const { return SE3Tpl(Matrix3(R * m.R), Vector3(p + R * m.p)); }
  SE3Tpl act(const SE3Tpl& m) const { return *this * m; }
  SE3Tpl actInv(const SE3Tpl& m) const { return inverse() * m; }
  MotionTpl<S> act(const MotionTpl<S>& m) const {
    const Vector3 w = R * m.angular();
    return MotionTpl<S>(Vector3(R * m.linear() + p.cross(w)), w);
  }
  MotionTpl<S> actInv(const MotionTpl<S>& m) const {
    const Vector3 t = m.linear() - p.cross(Vector3(m.angular()));
    return MotionTpl<S>(Vector3(R.transpose() * t), Vector3(R.transpose() * m.angular()));
  }
  ForceTpl<S> act(const ForceTpl<S>& f) const {
    const Vector3 l = R * f.linear();
    return ForceTpl<S>(l, Vector3(R * f.angular() + p.cross(l)));
  }
  ForceTpl<S> actInv(const ForceTpl<S>& f) const {
    const Vector3 t = f.angular() - p.cross(Vector3(f.linear()));
    return ForceTpl<S>(Vector3(R.transpose() * f.linear()), Vector3(R.transpose() * t));
  }
  Vector3 act(const Vector3& v) const { return R * v + p; }
  Vector3 actInv(const Vector3& v) const { return R.transpose() * (v - p); }
  Matrix6 toActionMatrix() const {
    Matrix6 M;
    M << R, skewOf<S>(p) * R, Matrix3::Zero(), R;
    return M;
  }
  Matrix6 toActionMatrixInverse() const { return inverse().toActionMatrix(); }
  Matrix6 toDualActionMatrix() const {
    Matrix6 M;
    M << R, Matrix3::Zero(), skewOf<S>(p) * R, R;
    return M;
  }
  Matrix4 toHomogeneousMatrix() const {
    Matrix4 M;
    M << R, p, Eigen::Matrix<S, 1, 3>::Zero(), S(1);
    return M;
  }
  operator Matrix4() const { return toHomogeneousMatrix(); }
  bool isApprox(const SE3Tpl& m, const S& e = Eigen::NumTraits<S>::dummy_precision()) const {
    return R.isApprox(m.R, e) && p.isApprox(m.p, e);
  }
  bool operator==(const SE3Tpl& m) const { return R == m.R && p == m.p; }
  bool operator!=(const SE3Tpl& m) const { return !(*this == m); }
  template <typename N>
  SE3Tpl<N> cast() const {
    return SE3Tpl<N>(R.template cast<N>().eval(), p.template cast<N>().eval());
  }
  friend std::ostream& operator<<(std::ostream& os, const SE3Tpl& m) {
    return os << "  R =\n" << m.R << "\n  p = " << m.p.transpose() << "\n";
  }
};
typedef SE3Tpl<double> SE3;
typedef MotionTpl<double> Motion;
typedef ForceTpl<double> Force;

namespace quaternion {
template <typename D, typename M>
void assignQuaternion(Eigen::QuaternionBase<D>& q, const Eigen::MatrixBase<M>& R) {
  q.derived() = Eigen::Quaternion<typename D::Scalar>(Eigen::Matrix<typename D::Scalar, 3, 3>(R));
}
}  // namespace quaternion

// ------------------------------------------------------------------------------------------------ exponential, logarithm
namespace mini {
typedef Eigen::Vector3d V3;
typedef Eigen::Matrix3d M3;
typedef Eigen::VectorXd V;
typedef Eigen::MatrixXd M;
typedef Eigen::Matrix<double, 6, 6> M6;
inline M3 exp3(const V3& w) {
  const double t = w.norm();
  const M3 K = skewOf<double>(w);
  if (t < 1e-5) return M3::Identity() + K + 0.5 * K * K;
  return M3::Identity() + std::sin(t) / t * K + (1 - std::cos(t)) / (t * t) * K * K;
}
inline V3 log3(const M3& R) {
  Eigen::Quaterniond q(R);
  q.normalize();
  if (q.w() < 0) q.coeffs() *= -1;
  const double n = q.vec().norm();
  if (n < 1e-10) return 2 * q.vec() / q.w();
  return 2 * std::atan2(n, q.w()) / n * q.vec();
}
inline M3 leftJ(const V3& w) {  // integral of exp3(s w), s in [0, 1]
  const double t = w.norm();
  const M3 K = skewOf<double>(w);
  if (t < 1e-3) return M3::Identity() + 0.5 * (1 - t * t / 12) * K + (1 - t * t / 20) / 6 * K * K;
  return M3::Identity() + (1 - std::cos(t)) / (t * t) * K + (t - std::sin(t)) / (t * t * t) * K * K;
}
inline SE3 exp6(const Motion& m) {
  return SE3(exp3(m.angular()), V3(leftJ(m.angular()) * m.linear()));
}
inline Motion log6(const SE3& T) {
  const V3 w = log3(T.R);
  return Motion(V3(leftJ(w).inverse() * T.p), w);
}
// derivative (fourth order) of f : R^n -> R^m at zero
template <typename F>
M diff(const F& f, int n, int m, double h = 1e-3) {
  M J(m, n);
  V e = V::Zero(n);
  for (int i = 0; i < n; ++i) {
    V r[4];
    const double s[4] = {-2, -1, 1, 2};
    for (int k = 0; k < 4; ++k) {
      e[i] = s[k] * h;
      r[k] = f(e);
    }
    e[i] = 0;
    J.col(i) = (r[0] - 8 * r[1] + 8 * r[2] - r[3]) / (12 * h);
  }
  return J;
}
}  // namespace mini

template <typename D>
Eigen::Matrix<typename D::Scalar, 3, 1> log3(const Eigen::MatrixBase<D>& R) {
  return mini::log3(R.template cast<double>()).template cast<typename D::Scalar>();
}
template <typename D>
Eigen::Matrix<typename D::Scalar, 3, 3> exp3(const Eigen::MatrixBase<D>& w) {
  return mini::exp3(w.template cast<double>()).template cast<typename D::Scalar>();
}
template <typename S>
MotionTpl<S> log6(const SE3Tpl<S>& m) {
  return mini::log6(m.template cast<double>()).template cast<S>();
}
template <typename S>
SE3Tpl<S> exp6(const MotionTpl<S>& m) {
  return mini::exp6(m.template cast<double>()).template cast<S>();
}
template <typename D, typename J>
void Jlog3(const Eigen::MatrixBase<D>& R, const Eigen::MatrixBase<J>& out) {
  const mini::M3 Rd = R.template cast<double>();
  const mini::M D_ = mini::diff([&](const mini::V& e) -> mini::V { return mini::log3(Rd * mini::exp3(e)); }, 3, 3);
  const_cast<Eigen::MatrixBase<J>&>(out).derived() = D_.template cast<typename J::Scalar>();
}
template <typename S, typename J>
void Jlog6(const SE3Tpl<S>& T, const Eigen::MatrixBase<J>& out) {
  const SE3 Td = T.template cast<double>();
  const mini::M D_ = mini::diff(
      [&](const mini::V& e) -> mini::V { return mini::log6(Td * mini::exp6(Motion(e))).toVector(); }, 6, 6);
  const_cast<Eigen::MatrixBase<J>&>(out).derived() = D_.template cast<typename J::Scalar>();
}

// ------------------------------------------------------------------------------------------------ model
enum JointKind { UNIVERSE, REVOLUTE, PRISMATIC, FREEFLYER };
template <typename S>
struct JointModelTpl {
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  JointKind kind;
  Eigen::Matrix<S, 3, 1> axis;
  int iq, iv;
  JointIndex id_;
  JointModelTpl() : kind(UNIVERSE), axis(Eigen::Matrix<S, 3, 1>::Zero()), iq(0), iv(0), id_(0) {}
  int nq() const { return kind == UNIVERSE ? 0 : kind == FREEFLYER ? 7 : 1; }
  int nv() const { return kind == UNIVERSE ? 0 : kind == FREEFLYER ? 6 : 1; }
  int idx_q() const { return iq; }
  int idx_v() const { return iv; }
  JointIndex id() const { return id_; }
  std::string shortname() const { return "JointModel"; }
  template <typename N>
  JointModelTpl<N> cast() const {
    JointModelTpl<N> r;
    r.kind = kind;
    r.axis = axis.template cast<N>();
    r.iq = iq;
    r.iv = iv;
    r.id_ = id_;
    return r;
  }
};
template <typename S>
struct InertiaTpl {
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  S m;
  Eigen::Matrix<S, 3, 1> c;
  Eigen::Matrix<S, 3, 3> I;  // about the centre of mass
  InertiaTpl() : m(0), c(Eigen::Matrix<S, 3, 1>::Zero()), I(Eigen::Matrix<S, 3, 3>::Zero()) {}
  const S& mass() const { return m; }
  const Eigen::Matrix<S, 3, 1>& lever() const { return c; }
  ForceTpl<S> operator*(const MotionTpl<S>& v) const {
    const Eigen::Matrix<S, 3, 1> l = m * (v.linear() + Eigen::Matrix<S, 3, 1>(v.angular()).cross(c));
    return ForceTpl<S>(l, Eigen::Matrix<S, 3, 1>(I * v.angular() + c.cross(l)));
  }
  template <typename N>
  InertiaTpl<N> cast() const {
    InertiaTpl<N> r;
    r.m = N(m);
    r.c = c.template cast<N>();
    r.I = I.template cast<N>();
    return r;
  }
};
template <typename S>
struct FrameTpl {
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  std::string name;
  JointIndex parentJoint;
  FrameIndex parentFrame;
  SE3Tpl<S> placement;
  FrameType type;
  template <typename N>
  FrameTpl<N> cast() const {
    FrameTpl<N> r;
    r.name = name;
    r.parentJoint = parentJoint;
    r.parentFrame = parentFrame;
    r.placement = placement.template cast<N>();
    r.type = type;
    return r;
  }
};

template <typename S, int O = 0>
struct DataTpl;

template <typename S, int O = 0>
struct ModelTpl {
  typedef S Scalar;
  typedef Eigen::Matrix<S, Eigen::Dynamic, 1> VectorXs;
  typedef SE3Tpl<S> SE3;
  typedef DataTpl<S> Data;
  typedef JointModelTpl<S> JointModel;
  typedef Eigen::Matrix<S, 3, 1> Vector3;
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  int nq, nv, njoints, nbodies, nframes;
  std::string name;
  std::vector<std::string> names;
  std::vector<int> idx_qs, nqs, idx_vs, nvs;
  std::map<std::string, VectorXs> referenceConfigurations;
  container::aligned_vector<JointModelTpl<S> > joints;
  std::vector<JointIndex> parents;
  container::aligned_vector<SE3Tpl<S> > jointPlacements;
  container::aligned_vector<InertiaTpl<S> > inertias;
  container::aligned_vector<FrameTpl<S> > frames;
  VectorXs lowerPositionLimit, upperPositionLimit, velocityLimit, effortLimit, armature, rotorInertia, rotorGearRatio;
  MotionTpl<S> gravity;
  ModelTpl() : nq(0), nv(0), njoints(1), nbodies(1), nframes(0), name("minipin") {
    names.push_back("universe");
    joints.push_back(JointModelTpl<S>());
    parents.push_back(0);
    idx_qs.push_back(0);
    nqs.push_back(0);
    idx_vs.push_back(0);
    nvs.push_back(0);
    jointPlacements.push_back(SE3Tpl<S>::Identity());
    inertias.push_back(InertiaTpl<S>());
    gravity.linear()[2] = S(-9.81);
    addFrame("universe", 0, SE3Tpl<S>::Identity(), FIXED_JOINT);
  }
  FrameIndex addFrame(const std::string& n, JointIndex j, const SE3Tpl<S>& P, FrameType t = OP_FRAME) {
    FrameTpl<S> f;
    f.name = n;
    f.parentJoint = j;
    f.parentFrame = 0;
    f.placement = P;
    f.type = t;
    frames.push_back(f);
    nframes = (int)frames.size();
    return frames.size() - 1;
  }
  JointIndex addJoint(JointIndex parent, JointKind k, const Vector3& axis, const SE3Tpl<S>& P, const std::string& n,
                      const InertiaTpl<S>& Y, S lo, S hi, S vel, S eff) {
    JointModelTpl<S> j;
    j.kind = k;
    j.axis = axis;
    j.iq = nq;
    j.iv = nv;
    j.id_ = joints.size();
    joints.push_back(j);
    names.push_back(n);
    parents.push_back(parent);
    idx_qs.push_back(j.iq);
    nqs.push_back(j.nq());
    idx_vs.push_back(j.iv);
    nvs.push_back(j.nv());
    jointPlacements.push_back(P);
    inertias.push_back(Y);
    nq += j.nq();
    nv += j.nv();
    njoints = nbodies = (int)joints.size();
    const auto grow = [](VectorXs& v, int n_, S x) {
      const int o = (int)v.size();
      v.conservativeResize(n_);
      for (int i = o; i < n_; ++i) v[i] = x;
    };
    grow(lowerPositionLimit, nq, lo);
    grow(upperPositionLimit, nq, hi);
    grow(velocityLimit, nv, vel);
    grow(effortLimit, nv, eff);
    grow(armature, nv, S(0));
    grow(rotorInertia, nv, S(0));
    grow(rotorGearRatio, nv, S(0));
    addFrame(n, j.id_, SE3Tpl<S>::Identity(), JOINT);
    return j.id_;
  }
  bool existJointName(const std::string& n) const {
    for (const auto& s : names)
      if (s == n) return true;
    return false;
  }
  JointIndex getJointId(const std::string& n) const {
    for (std::size_t i = 0; i < names.size(); ++i)
      if (names[i] == n) return i;
    return names.size();
  }
  bool existFrame(const std::string& n, const FrameType = OP_FRAME) const { return getFrameId(n) < frames.size(); }
  FrameIndex getFrameId(const std::string& n, const FrameType = OP_FRAME) const {
    for (std::size_t i = 0; i < frames.size(); ++i)
      if (frames[i].name == n) return i;
    return frames.size();
  }
  template <typename N>
  ModelTpl<N> cast() const {
    ModelTpl<N> r;
    r.nq = nq;
    r.nv = nv;
    r.njoints = njoints;
    r.nbodies = nbodies;
    r.nframes = nframes;
    r.name = name;
    r.names = names;
    r.idx_qs = idx_qs;
    r.nqs = nqs;
    r.idx_vs = idx_vs;
    r.nvs = nvs;
    for (const auto& c : referenceConfigurations) r.referenceConfigurations[c.first] = c.second.template cast<N>();
    r.parents = parents;
    r.joints.clear();
    r.jointPlacements.clear();
    r.inertias.clear();
    r.frames.clear();
    for (const auto& j : joints) r.joints.push_back(j.template cast<N>());
    for (const auto& j : jointPlacements) r.jointPlacements.push_back(j.template cast<N>());
    for (const auto& j : inertias) r.inertias.push_back(j.template cast<N>());
    for (const auto& j : frames) r.frames.push_back(j.template cast<N>());
    r.lowerPositionLimit = lowerPositionLimit.template cast<N>();
    r.upperPositionLimit = upperPositionLimit.template cast<N>();
    r.velocityLimit = velocityLimit.template cast<N>();
    r.effortLimit = effortLimit.template cast<N>();
    r.armature = armature.template cast<N>();
    r.rotorInertia = rotorInertia.template cast<N>();
    r.rotorGearRatio = rotorGearRatio.template cast<N>();
    r.gravity = gravity.template cast<N>();
    return r;
  }
  friend std::ostream& operator<<(std::ostream& os, const ModelTpl& m) {
    return os << "Nb joints = " << m.njoints << " (nq=" << m.nq << ",nv=" << m.nv << ")";
  }
};
typedef ModelTpl<double> Model;

template <typename S, int O>
struct DataTpl {
  typedef S Scalar;
  typedef Eigen::Matrix<S, Eigen::Dynamic, 1> VectorXs;
  typedef Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic> MatrixXs;
  typedef Eigen::Matrix<S, 3, 1> Vector3;
  typedef Eigen::Matrix<S, 3, Eigen::Dynamic> Matrix3x;
  typedef Eigen::Matrix<S, 6, Eigen::Dynamic> Matrix6x;
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  container::aligned_vector<SE3Tpl<S> > oMi, oMf, liMi;
  container::aligned_vector<MotionTpl<S> > v, a;
  container::aligned_vector<ForceTpl<S> > f;
  MatrixXs M, Minv, dtau_dq, dtau_dv, ddq_dq, ddq_dv, ddq_dtau;
  VectorXs nle, tau, ddq, g, lambda_c, dq_after, impulse_c;
  Matrix6x J;
  Matrix3x Jcom;
  container::aligned_vector<Vector3> com, vcom, acom;
  ForceTpl<S> hg;
  Eigen::VectorXd q_, v_, a_;       // inputs of the last kinematics with derivatives
  Eigen::MatrixXd Mc_, JMinvJt_;    // what the last decomposition holds
  Eigen::VectorXd jq_;              // configuration of the Jacobians
  DataTpl() {}
  explicit DataTpl(const ModelTpl<S>& m)
      : oMi(m.njoints, SE3Tpl<S>::Identity()), oMf(m.nframes, SE3Tpl<S>::Identity()),
        liMi(m.njoints, SE3Tpl<S>::Identity()), v(m.njoints), a(m.njoints), f(m.njoints) {
    M = Minv = dtau_dq = dtau_dv = ddq_dq = ddq_dv = ddq_dtau = MatrixXs::Zero(m.nv, m.nv);
    nle = tau = ddq = g = dq_after = VectorXs::Zero(m.nv);
    J = Matrix6x::Zero(6, m.nv);
    Jcom = Matrix3x::Zero(3, m.nv);
    com.assign(m.njoints, Vector3::Zero());
    vcom = acom = com;
    q_ = jq_ = Eigen::VectorXd::Zero(m.nq);
    v_ = a_ = Eigen::VectorXd::Zero(m.nv);
  }
};
typedef DataTpl<double> Data;

// ------------------------------------------------------------------------------------------------ engine (double)
namespace mini {
typedef std::vector<SE3, Eigen::aligned_allocator<SE3> > SE3s;
typedef std::vector<Motion, Eigen::aligned_allocator<Motion> > Motions;
typedef std::vector<Force, Eigen::aligned_allocator<Force> > Forces;
struct Kin {
  SE3s oMi, liMi;
  Motions v, a;
};
inline V integrate(const Model& m, const V& q, const V& d) {
  V r(m.nq);
  for (const auto& j : m.joints) {
    if (j.kind == FREEFLYER) {
      Eigen::Quaterniond Q(q[j.iq + 6], q[j.iq + 3], q[j.iq + 4], q[j.iq + 5]);
      const SE3 T = SE3(Q.matrix(), V3(q.segment<3>(j.iq))) * exp6(Motion(Eigen::Matrix<double, 6, 1>(d.segment<6>(j.iv))));
      Eigen::Quaterniond N(T.R);
      N.normalize();
      if (N.dot(Q) < 0) N.coeffs() *= -1;
      r.segment<3>(j.iq) = T.p;
      r.segment<4>(j.iq + 3) = N.coeffs();
    } else if (j.kind != UNIVERSE) {
      r[j.iq] = q[j.iq] + d[j.iv];
    }
  }
  return r;
}
inline V difference(const Model& m, const V& q0, const V& q1) {
  V r(m.nv);
  for (const auto& j : m.joints) {
    if (j.kind == FREEFLYER) {
      const auto T = [&](const V& q) {
        return SE3(Eigen::Quaterniond(q[j.iq + 6], q[j.iq + 3], q[j.iq + 4], q[j.iq + 5]).matrix(),
                   V3(q.segment<3>(j.iq)));
      };
      r.segment<6>(j.iv) = log6(T(q0).actInv(T(q1))).toVector();
    } else if (j.kind != UNIVERSE) {
      r[j.iv] = q1[j.iq] - q0[j.iq];
    }
  }
  return r;
}
inline V neutral(const Model& m) {
  V r = V::Zero(m.nq);
  for (const auto& j : m.joints)
    if (j.kind == FREEFLYER) r[j.iq + 6] = 1;
  return r;
}
inline Kin fk(const Model& m, const V& q, const V& v, const V& a) {
  Kin k;
  k.oMi.assign(m.njoints, SE3::Identity());
  k.liMi = k.oMi;
  k.v.assign(m.njoints, Motion());
  k.a = k.v;
  for (int i = 1; i < m.njoints; ++i) {
    const auto& j = m.joints[i];
    SE3 T = SE3::Identity();
    Motion vj, aj;
    if (j.kind == FREEFLYER) {
      T = SE3(Eigen::Quaterniond(q[j.iq + 6], q[j.iq + 3], q[j.iq + 4], q[j.iq + 5]).matrix(), V3(q.segment<3>(j.iq)));
      vj.toVector() = v.segment<6>(j.iv);
      aj.toVector() = a.segment<6>(j.iv);
    } else if (j.kind == REVOLUTE) {
      T.R = exp3(V3(j.axis * q[j.iq]));
      vj.angular() = j.axis * v[j.iv];
      aj.angular() = j.axis * a[j.iv];
    } else {
      T.p = j.axis * q[j.iq];
      vj.linear() = j.axis * v[j.iv];
      aj.linear() = j.axis * a[j.iv];
    }
    const JointIndex p = m.parents[i];
    k.liMi[i] = m.jointPlacements[i] * T;
    k.oMi[i] = k.oMi[p] * k.liMi[i];
    k.v[i] = k.liMi[i].actInv(k.v[p]) + vj;
    k.a[i] = k.liMi[i].actInv(k.a[p]) + aj + k.v[i].cross(vj);
  }
  return k;
}
inline V motionSubspaceT(const JointModelTpl<double>& j, const Force& f) {
  V r(j.nv());
  if (j.kind == FREEFLYER)
    r = f.toVector();
  else if (j.kind == REVOLUTE)
    r[0] = j.axis.dot(V3(f.angular()));
  else
    r[0] = j.axis.dot(V3(f.linear()));
  return r;
}
inline V rnea(const Model& m, const V& q, const V& v, const V& a, const Forces& fext, bool gravity = true) {
  const Kin k = fk(m, q, v, a);
  Forces f(m.njoints);
  V tau = V::Zero(m.nv);
  for (int i = 1; i < m.njoints; ++i) {
    Motion ag = k.a[i];
    if (gravity) ag -= k.oMi[i].actInv(m.gravity);
    f[i] = m.inertias[i] * ag + k.v[i].cross(m.inertias[i] * k.v[i]);
    if (!fext.empty()) f[i] -= fext[i];
  }
  for (int i = m.njoints - 1; i > 0; --i) {
    const auto& j = m.joints[i];
    tau.segment(j.iv, j.nv()) = motionSubspaceT(j, f[i]);
    if (m.parents[i] > 0) f[m.parents[i]] += k.liMi[i].act(f[i]);
  }
  return tau + m.armature.cwiseProduct(a);
}
inline M mass(const Model& m, const V& q) {
  M r(m.nv, m.nv);
  const V z = V::Zero(m.nv);
  for (int i = 0; i < m.nv; ++i) r.col(i) = rnea(m, q, z, V(V::Unit(m.nv, i)), Forces(), false);
  return 0.5 * (r + r.transpose());
}
inline bool supports(const Model& m, JointIndex j, int col) {
  for (; j > 0; j = m.parents[j])
    if (col >= m.joints[j].iv && col < m.joints[j].iv + m.joints[j].nv()) return true;
  return false;
}
// motion of a frame placed at P in joint j, expressed as asked
inline Motion express(const Kin& k, JointIndex j, const SE3& P, ReferenceFrame rf, const Motion& m) {
  if (rf == WORLD) return k.oMi[j].act(m);
  const Motion l = P.actInv(m);
  if (rf == LOCAL) return l;
  const M3 R = k.oMi[j].R * P.R;
  return Motion(V3(R * l.linear()), V3(R * l.angular()));
}
inline M jacobian(const Model& m, const V& q, JointIndex j, const SE3& P, ReferenceFrame rf) {
  M r = M::Zero(6, m.nv);
  const V z = V::Zero(m.nv);
  for (int i = 0; i < m.nv; ++i) {
    const Kin k = fk(m, q, V(V::Unit(m.nv, i)), z);
    r.col(i) = express(k, j, P, rf, k.v[j]).toVector();
  }
  return r;
}
inline void com(const Model& m, const V& q, const V& v, const V& a, V3& c, V3& vc, V3& ac) {
  const Kin k = fk(m, q, v, a);
  double M_ = 0;
  c.setZero();
  vc.setZero();
  ac.setZero();
  for (int i = 1; i < m.njoints; ++i) {
    const double mi = m.inertias[i].m;
    const V3 l = m.inertias[i].c, w = k.v[i].angular();
    const V3 vl = k.v[i].linear() + w.cross(l);
    const V3 al = k.a[i].linear() + V3(k.a[i].angular()).cross(l) + w.cross(vl);
    M_ += mi;
    c += mi * k.oMi[i].act(l);
    vc += mi * (k.oMi[i].R * vl);
    ac += mi * (k.oMi[i].R * al);
  }
  c /= M_;
  vc /= M_;
  ac /= M_;
}
inline Force momentum(const Model& m, const V& q, const V& v) {
  const Kin k = fk(m, q, v, V::Zero(m.nv));
  Force h;
  for (int i = 1; i < m.njoints; ++i) h += k.oMi[i].act(m.inertias[i] * k.v[i]);
  V3 c, a, b;
  com(m, q, v, V::Zero(m.nv), c, a, b);
  h.angular() -= c.cross(V3(h.linear()));
  return h;
}
inline V solve(const M& A, const V& b) { return A.ldlt().solve(b); }
inline M symmetric(const M& A) { return A.selfadjointView<Eigen::Upper>(); }
inline Forces none() { return Forces(); }
template <typename C>
Forces forces(const C& f) {
  Forces r;
  for (const auto& x : f) r.push_back(Force(Eigen::Matrix<double, 6, 1>(x.toVector().template cast<double>())));
  return r;
}
inline const Model& dbl(const Model& m) { return m; }
template <typename S>
Model dbl(const ModelTpl<S>& m) {
  return m.template cast<double>();
}
template <typename D>
V dv(const Eigen::MatrixBase<D>& x) {
  return x.template cast<double>();
}
template <typename D, typename A>
void set(const Eigen::MatrixBase<D>& o, const A& x) {
  const_cast<Eigen::MatrixBase<D>&>(o).derived() = x.template cast<typename D::Scalar>();
}
template <typename S>
void store(DataTpl<S>& d, const Kin& k, bool acc = true) {
  for (std::size_t i = 0; i < k.oMi.size(); ++i) {
    d.oMi[i] = k.oMi[i].template cast<S>();
    d.liMi[i] = k.liMi[i].template cast<S>();
    d.v[i] = k.v[i].template cast<S>();
    if (acc) d.a[i] = k.a[i].template cast<S>();
  }
}
template <typename D, typename A>
void setUpper(const Eigen::MatrixBase<D>& o, const A& x) {
  auto& m = const_cast<Eigen::MatrixBase<D>&>(o).derived();
  for (int i = 0; i < x.rows(); ++i)
    for (int j = i; j < x.cols(); ++j) m(i, j) = (typename D::Scalar)x(i, j);
}
template <typename D>
void setColumns(const Model& m, JointIndex j, const Eigen::MatrixBase<D>& o, const M& x) {
  auto& r = const_cast<Eigen::MatrixBase<D>&>(o).derived();
  for (int c = 0; c < m.nv; ++c)
    if (supports(m, j, c)) r.col(c) = x.col(c).template cast<typename D::Scalar>();
}
template <typename S>
Kin kin(const DataTpl<S>& d) {
  Kin k;
  for (std::size_t i = 0; i < d.oMi.size(); ++i) {
    k.oMi.push_back(d.oMi[i].template cast<double>());
    k.v.push_back(d.v[i].template cast<double>());
    k.a.push_back(d.a[i].template cast<double>());
  }
  return k;
}
}  // namespace mini

// ------------------------------------------------------------------------------------------------ configuration space
template <typename S>
Eigen::Matrix<S, Eigen::Dynamic, 1> neutral(const ModelTpl<S>& m) {
  return mini::neutral(mini::dbl(m)).template cast<S>();
}
template <typename S>
Eigen::Matrix<S, Eigen::Dynamic, 1> randomConfiguration(const ModelTpl<S>& m) {
  const Model& M_ = mini::dbl(m);
  return mini::integrate(M_, mini::neutral(M_), Eigen::VectorXd::Random(m.nv)).template cast<S>();
}
template <typename S, typename A, typename B, typename C>
void integrate(const ModelTpl<S>& m, const Eigen::MatrixBase<A>& q, const Eigen::MatrixBase<B>& v,
               const Eigen::MatrixBase<C>& out) {
  mini::set(out, mini::integrate(mini::dbl(m), mini::dv(q), mini::dv(v)));
}
template <typename S, typename A, typename B>
Eigen::Matrix<S, Eigen::Dynamic, 1> integrate(const ModelTpl<S>& m, const Eigen::MatrixBase<A>& q,
                                              const Eigen::MatrixBase<B>& v) {
  return mini::integrate(mini::dbl(m), mini::dv(q), mini::dv(v)).template cast<S>();
}
template <typename S, typename A, typename B, typename C>
void difference(const ModelTpl<S>& m, const Eigen::MatrixBase<A>& q0, const Eigen::MatrixBase<B>& q1,
                const Eigen::MatrixBase<C>& out) {
  mini::set(out, mini::difference(mini::dbl(m), mini::dv(q0), mini::dv(q1)));
}
template <typename S, typename A, typename B>
Eigen::Matrix<S, Eigen::Dynamic, 1> difference(const ModelTpl<S>& m, const Eigen::MatrixBase<A>& q0,
                                               const Eigen::MatrixBase<B>& q1) {
  return mini::difference(mini::dbl(m), mini::dv(q0), mini::dv(q1)).template cast<S>();
}
namespace mini {
inline M dIntegrate(const Model& m, const V& q, const V& v, ArgumentPosition arg) {
  const V q1 = integrate(m, q, v);
  return diff([&](const V& e) -> V {
    return difference(m, q1, arg == ARG0 ? integrate(m, integrate(m, q, e), v) : integrate(m, q, V(v + e)));
  }, m.nv, m.nv);
}
// only the diagonal blocks of the joints are touched
template <typename D>
void blocks(const Model& m, const M& J, const Eigen::MatrixBase<D>& out, AssignmentOperatorType op) {
  auto& o = const_cast<Eigen::MatrixBase<D>&>(out).derived();
  for (const auto& j : m.joints) {
    const int n = j.nv();
    for (int a = j.iv; a < j.iv + n; ++a)
      for (int b = j.iv; b < j.iv + n; ++b) {
        const typename D::Scalar x = (typename D::Scalar)J(a, b);
        if (op == SETTO) o(a, b) = x;
        if (op == ADDTO) o(a, b) += x;
        if (op == RMTO) o(a, b) -= x;
      }
  }
}
}  // namespace mini
template <typename S, typename A, typename B, typename C>
void dIntegrate(const ModelTpl<S>& m, const Eigen::MatrixBase<A>& q, const Eigen::MatrixBase<B>& v,
                const Eigen::MatrixBase<C>& J, const ArgumentPosition arg, const AssignmentOperatorType op = SETTO) {
  const Model& M_ = mini::dbl(m);
  mini::blocks(M_, mini::dIntegrate(M_, mini::dv(q), mini::dv(v), arg), J, op);
}
template <typename S, typename A, typename B, typename C>
void dIntegrateTransport(const ModelTpl<S>& m, const Eigen::MatrixBase<A>& q, const Eigen::MatrixBase<B>& v,
                         const Eigen::MatrixBase<C>& J, const ArgumentPosition arg) {
  const mini::M T = mini::dIntegrate(mini::dbl(m), mini::dv(q), mini::dv(v), arg);
  const mini::M r = T * mini::M(J.template cast<double>());
  mini::set(J, r);
}
template <typename S, typename A, typename B, typename C>
void dDifference(const ModelTpl<S>& m, const Eigen::MatrixBase<A>& q0, const Eigen::MatrixBase<B>& q1,
                 const Eigen::MatrixBase<C>& J, const ArgumentPosition arg) {
  const Model& M_ = mini::dbl(m);
  const mini::V a = mini::dv(q0), b = mini::dv(q1);
  mini::blocks(M_, mini::diff([&](const mini::V& e) -> mini::V {
    return arg == ARG0 ? mini::difference(M_, mini::integrate(M_, a, e), b)
                       : mini::difference(M_, a, mini::integrate(M_, b, e));
  }, m.nv, m.nv), J, SETTO);
}

// ------------------------------------------------------------------------------------------------ kinematics
template <typename S, typename A>
void forwardKinematics(const ModelTpl<S>& m, DataTpl<S>& d, const Eigen::MatrixBase<A>& q) {
  const mini::V z = mini::V::Zero(m.nv);
  const mini::Kin k = mini::fk(mini::dbl(m), mini::dv(q), z, z);
  for (std::size_t i = 0; i < k.oMi.size(); ++i) {
    d.oMi[i] = k.oMi[i].template cast<S>();
    d.liMi[i] = k.liMi[i].template cast<S>();
  }
  d.jq_ = mini::dv(q);
}
template <typename S, typename A, typename B>
void forwardKinematics(const ModelTpl<S>& m, DataTpl<S>& d, const Eigen::MatrixBase<A>& q,
                       const Eigen::MatrixBase<B>& v) {
  mini::store(d, mini::fk(mini::dbl(m), mini::dv(q), mini::dv(v), mini::V::Zero(m.nv)), false);
  d.jq_ = mini::dv(q);
}
template <typename S, typename A, typename B, typename C>
void forwardKinematics(const ModelTpl<S>& m, DataTpl<S>& d, const Eigen::MatrixBase<A>& q,
                       const Eigen::MatrixBase<B>& v, const Eigen::MatrixBase<C>& a) {
  mini::store(d, mini::fk(mini::dbl(m), mini::dv(q), mini::dv(v), mini::dv(a)));
  d.jq_ = mini::dv(q);
}
template <typename S>
void updateGlobalPlacements(const ModelTpl<S>& m, DataTpl<S>& d) {
  for (int i = 1; i < m.njoints; ++i) d.oMi[i] = d.oMi[m.parents[i]] * d.liMi[i];
}
template <typename S>
const SE3Tpl<S>& updateFramePlacement(const ModelTpl<S>& m, DataTpl<S>& d, const FrameIndex f) {
  return d.oMf[f] = d.oMi[m.frames[f].parentJoint] * m.frames[f].placement;
}
template <typename S>
void updateFramePlacements(const ModelTpl<S>& m, DataTpl<S>& d) {
  for (int f = 0; f < m.nframes; ++f) updateFramePlacement(m, d, (FrameIndex)f);
}
template <typename S, typename A>
const typename DataTpl<S>::Matrix6x& computeJointJacobians(const ModelTpl<S>& m, DataTpl<S>& d,
                                                           const Eigen::MatrixBase<A>& q) {
  forwardKinematics(m, d, q);
  return d.J;
}
template <typename S>
const typename DataTpl<S>::Matrix6x& computeJointJacobians(const ModelTpl<S>&, DataTpl<S>& d) {
  return d.J;
}
template <typename S, typename A>
void getJointJacobian(const ModelTpl<S>& m, const DataTpl<S>& d, const JointIndex j, const ReferenceFrame rf,
                      const Eigen::MatrixBase<A>& J) {
  const Model& M_ = mini::dbl(m);
  mini::setColumns(M_, j, J, mini::jacobian(M_, d.jq_, j, SE3::Identity(), rf));
}
template <typename S, typename A>
void getFrameJacobian(const ModelTpl<S>& m, DataTpl<S>& d, const FrameIndex f, const ReferenceFrame rf,
                      const Eigen::MatrixBase<A>& J) {
  const Model& M_ = mini::dbl(m);
  mini::setColumns(M_, M_.frames[f].parentJoint, J,
                   mini::jacobian(M_, d.jq_, M_.frames[f].parentJoint, M_.frames[f].placement, rf));
}
template <typename S>
MotionTpl<S> getFrameVelocity(const ModelTpl<S>& m, const DataTpl<S>& d, const FrameIndex f,
                              const ReferenceFrame rf = LOCAL) {
  const JointIndex j = m.frames[f].parentJoint;
  const mini::Kin k = mini::kin(d);
  return mini::express(k, j, m.frames[f].placement.template cast<double>(), rf, k.v[j]).template cast<S>();
}
template <typename S>
MotionTpl<S> getFrameAcceleration(const ModelTpl<S>& m, const DataTpl<S>& d, const FrameIndex f,
                                  const ReferenceFrame rf = LOCAL) {
  const JointIndex j = m.frames[f].parentJoint;
  const mini::Kin k = mini::kin(d);
  return mini::express(k, j, m.frames[f].placement.template cast<double>(), rf, k.a[j]).template cast<S>();
}
template <typename S>
MotionTpl<S> getFrameClassicalAcceleration(const ModelTpl<S>& m, const DataTpl<S>& d, const FrameIndex f,
                                           const ReferenceFrame rf = LOCAL) {
  const MotionTpl<S> v = getFrameVelocity(m, d, f, rf);
  MotionTpl<S> a = getFrameAcceleration(m, d, f, rf);
  a.linear() += Eigen::Matrix<S, 3, 1>(v.angular()).cross(Eigen::Matrix<S, 3, 1>(v.linear()));
  return a;
}
template <typename S, typename A, typename B, typename C>
void computeForwardKinematicsDerivatives(const ModelTpl<S>& m, DataTpl<S>& d, const Eigen::MatrixBase<A>& q,
                                         const Eigen::MatrixBase<B>& v, const Eigen::MatrixBase<C>& a) {
  d.q_ = d.jq_ = mini::dv(q);
  d.v_ = mini::dv(v);
  d.a_ = mini::dv(a);
  mini::store(d, mini::fk(mini::dbl(m), d.q_, d.v_, d.a_));
}
namespace mini {
template <typename S>
void motionDerivatives(const ModelTpl<S>& m, const DataTpl<S>& d, JointIndex j, const SE3& P, ReferenceFrame rf,
                       M& vq, M& vv, M& aq, M& av, M& aa) {
  const Model& M_ = dbl(m);
  const auto at = [&](const V& q, const V& v, const V& a, bool acc) -> V {
    const Kin k = fk(M_, q, v, a);
    return express(k, j, P, rf, acc ? k.a[j] : k.v[j]).toVector();
  };
  const V &q = d.q_, &v = d.v_, &a = d.a_;
  vq = diff([&](const V& e) { return at(integrate(M_, q, e), v, a, false); }, m.nv, 6);
  vv = diff([&](const V& e) { return at(q, V(v + e), a, false); }, m.nv, 6);
  aq = diff([&](const V& e) { return at(integrate(M_, q, e), v, a, true); }, m.nv, 6);
  av = diff([&](const V& e) { return at(q, V(v + e), a, true); }, m.nv, 6);
  aa = diff([&](const V& e) { return at(q, v, V(a + e), true); }, m.nv, 6);
}
}  // namespace mini
template <typename S, typename A, typename B>
void getJointVelocityDerivatives(const ModelTpl<S>& m, const DataTpl<S>& d, const JointIndex j,
                                 const ReferenceFrame rf, const Eigen::MatrixBase<A>& vq_,
                                 const Eigen::MatrixBase<B>& vv_) {
  mini::M vq, vv, aq, av, aa;
  mini::motionDerivatives(m, d, j, SE3::Identity(), rf, vq, vv, aq, av, aa);
  const Model& M_ = mini::dbl(m);
  mini::setColumns(M_, j, vq_, vq);
  mini::setColumns(M_, j, vv_, vv);
}
template <typename S, typename A, typename B>
void getFrameVelocityDerivatives(const ModelTpl<S>& m, DataTpl<S>& d, const FrameIndex f, const ReferenceFrame rf,
                                 const Eigen::MatrixBase<A>& vq_, const Eigen::MatrixBase<B>& vv_) {
  mini::M vq, vv, aq, av, aa;
  const Model& M_ = mini::dbl(m);
  mini::motionDerivatives(m, d, M_.frames[f].parentJoint, M_.frames[f].placement, rf, vq, vv, aq, av, aa);
  mini::setColumns(M_, M_.frames[f].parentJoint, vq_, vq);
  mini::setColumns(M_, M_.frames[f].parentJoint, vv_, vv);
}
template <typename S, typename A, typename B, typename C, typename D>
void getJointAccelerationDerivatives(const ModelTpl<S>& m, const DataTpl<S>& d, const JointIndex j,
                                     const ReferenceFrame rf, const Eigen::MatrixBase<A>& vq_,
                                     const Eigen::MatrixBase<B>& aq_, const Eigen::MatrixBase<C>& av_,
                                     const Eigen::MatrixBase<D>& aa_) {
  mini::M vq, vv, aq, av, aa;
  mini::motionDerivatives(m, d, j, SE3::Identity(), rf, vq, vv, aq, av, aa);
  const Model& M_ = mini::dbl(m);
  mini::setColumns(M_, j, vq_, vq);
  mini::setColumns(M_, j, aq_, aq);
  mini::setColumns(M_, j, av_, av);
  mini::setColumns(M_, j, aa_, aa);
}

// ------------------------------------------------------------------------------------------------ centre of mass
namespace mini {
template <typename S>
void setCom(const Model& M_, DataTpl<S>& d, const V& q, const V& v, const V& a, bool vel, bool acc) {
  V3 c, vc, ac;
  com(M_, q, v, a, c, vc, ac);
  d.com[0] = c.template cast<S>();
  if (vel) d.vcom[0] = vc.template cast<S>();
  if (acc) d.acom[0] = ac.template cast<S>();
}
template <typename S>
void setJcom(const Model& M_, DataTpl<S>& d, const V& q) {
  for (int i = 0; i < M_.nv; ++i) {
    V3 c, vc, ac;
    com(M_, q, V(V::Unit(M_.nv, i)), V(V::Zero(M_.nv)), c, vc, ac);
    d.Jcom.col(i) = vc.template cast<S>();
  }
}
}  // namespace mini
template <typename S, typename A>
const typename DataTpl<S>::Vector3& centerOfMass(const ModelTpl<S>& m, DataTpl<S>& d, const Eigen::MatrixBase<A>& q,
                                                 const bool = true) {
  forwardKinematics(m, d, q);
  mini::setCom(mini::dbl(m), d, mini::dv(q), mini::V::Zero(m.nv), mini::V::Zero(m.nv), false, false);
  return d.com[0];
}
template <typename S, typename A, typename B>
const typename DataTpl<S>::Vector3& centerOfMass(const ModelTpl<S>& m, DataTpl<S>& d, const Eigen::MatrixBase<A>& q,
                                                 const Eigen::MatrixBase<B>& v, const bool = true) {
  forwardKinematics(m, d, q, v);
  d.q_ = mini::dv(q);
  d.v_ = mini::dv(v);
  mini::setCom(mini::dbl(m), d, d.q_, d.v_, mini::V::Zero(m.nv), true, false);
  return d.com[0];
}
template <typename S, typename A, typename B, typename C>
const typename DataTpl<S>::Vector3& centerOfMass(const ModelTpl<S>& m, DataTpl<S>& d, const Eigen::MatrixBase<A>& q,
                                                 const Eigen::MatrixBase<B>& v, const Eigen::MatrixBase<C>& a,
                                                 const bool = true) {
  forwardKinematics(m, d, q, v, a);
  mini::setCom(mini::dbl(m), d, mini::dv(q), mini::dv(v), mini::dv(a), true, true);
  return d.com[0];
}
template <typename S>
const typename DataTpl<S>::Matrix3x& jacobianCenterOfMass(const ModelTpl<S>& m, DataTpl<S>& d, const bool = true) {
  mini::setJcom(mini::dbl(m), d, d.jq_);
  return d.Jcom;
}
template <typename S, typename A>
void getCenterOfMassVelocityDerivatives(const ModelTpl<S>& m, DataTpl<S>& d, const Eigen::MatrixBase<A>& out) {
  const Model& M_ = mini::dbl(m);
  mini::set(out, mini::diff([&](const mini::V& e) -> mini::V {
    mini::V3 c, vc, ac;
    mini::com(M_, mini::integrate(M_, d.q_, e), d.v_, mini::V::Zero(M_.nv), c, vc, ac);
    return vc;
  }, m.nv, 3));
}
template <typename S>
const ForceTpl<S>& computeCentroidalMomentum(const ModelTpl<S>& m, DataTpl<S>& d) {
  const mini::Kin k = mini::kin(d);
  const Model& M_ = mini::dbl(m);
  Force h;
  mini::V3 c = mini::V3::Zero();
  double mass = 0;
  for (int i = 1; i < M_.njoints; ++i) {
    h += k.oMi[i].act(M_.inertias[i] * k.v[i]);
    c += M_.inertias[i].m * k.oMi[i].act(M_.inertias[i].c);
    mass += M_.inertias[i].m;
  }
  c /= mass;
  d.com[0] = c.template cast<S>();
  d.vcom[0] = (h.linear() / mass).template cast<S>();
  h.angular() -= c.cross(mini::V3(h.linear()));
  d.hg = h.template cast<S>();
  return d.hg;
}
template <typename S, typename A, typename B, typename C, typename D>
void getCentroidalDynamicsDerivatives(const ModelTpl<S>& m, DataTpl<S>& d, const Eigen::MatrixBase<A>& hq,
                                      const Eigen::MatrixBase<B>& hdq, const Eigen::MatrixBase<C>& hdv,
                                      const Eigen::MatrixBase<D>& hda) {
  const Model& M_ = mini::dbl(m);
  const mini::V &q = d.q_, &v = d.v_, &a = d.a_;
  const auto h = [&](const mini::V& q1, const mini::V& v1) -> mini::V {
    return mini::momentum(M_, q1, v1).toVector();
  };
  const auto hdot = [&](const mini::V& q1, const mini::V& v1, const mini::V& a1) -> mini::V {
    return mini::diff([&](const mini::V& t) -> mini::V {
      return h(mini::integrate(M_, q1, mini::V(v1 * t[0])), mini::V(v1 + a1 * t[0]));
    }, 1, 6);
  };
  mini::set(hq, mini::diff([&](const mini::V& e) { return h(mini::integrate(M_, q, e), v); }, m.nv, 6));
  mini::set(hdq, mini::diff([&](const mini::V& e) { return hdot(mini::integrate(M_, q, e), v, a); }, m.nv, 6));
  mini::set(hdv, mini::diff([&](const mini::V& e) { return hdot(q, mini::V(v + e), a); }, m.nv, 6));
  mini::set(hda, mini::diff([&](const mini::V& e) { return hdot(q, v, mini::V(a + e)); }, m.nv, 6));
}

// ------------------------------------------------------------------------------------------------ dynamics
template <typename S, typename A, typename B>
void computeAllTerms(const ModelTpl<S>& m, DataTpl<S>& d, const Eigen::MatrixBase<A>& q_,
                     const Eigen::MatrixBase<B>& v_) {
  const Model& M_ = mini::dbl(m);
  const mini::V q = mini::dv(q_), v = mini::dv(v_), z = mini::V::Zero(m.nv);
  mini::store(d, mini::fk(M_, q, v, z));
  d.jq_ = q;
  mini::setUpper(d.M, mini::mass(M_, q));
  mini::set(d.nle, mini::rnea(M_, q, v, z, mini::none()));
  mini::set(d.g, mini::rnea(M_, q, z, z, mini::none()));
  mini::setCom(M_, d, q, v, z, true, false);
  mini::setJcom(M_, d, q);
}
template <typename S, typename A, typename B, typename C>
const typename DataTpl<S>::VectorXs& rnea(const ModelTpl<S>& m, DataTpl<S>& d, const Eigen::MatrixBase<A>& q,
                                          const Eigen::MatrixBase<B>& v, const Eigen::MatrixBase<C>& a) {
  const Model& M_ = mini::dbl(m);
  const mini::Kin k = mini::fk(M_, mini::dv(q), mini::dv(v), mini::dv(a));
  for (std::size_t i = 0; i < k.oMi.size(); ++i) {
    d.liMi[i] = k.liMi[i].template cast<S>();
    d.v[i] = k.v[i].template cast<S>();
  }
  d.tau = mini::rnea(M_, mini::dv(q), mini::dv(v), mini::dv(a), mini::none()).template cast<S>();
  return d.tau;
}
template <typename S, typename A, typename B, typename C, typename F>
const typename DataTpl<S>::VectorXs& rnea(const ModelTpl<S>& m, DataTpl<S>& d, const Eigen::MatrixBase<A>& q,
                                          const Eigen::MatrixBase<B>& v, const Eigen::MatrixBase<C>& a,
                                          const container::aligned_vector<F>& fext) {
  const Model& M_ = mini::dbl(m);
  const mini::Kin k = mini::fk(M_, mini::dv(q), mini::dv(v), mini::dv(a));
  for (std::size_t i = 0; i < k.oMi.size(); ++i) {
    d.liMi[i] = k.liMi[i].template cast<S>();
    d.v[i] = k.v[i].template cast<S>();
  }
  d.tau = mini::rnea(M_, mini::dv(q), mini::dv(v), mini::dv(a), mini::forces(fext)).template cast<S>();
  return d.tau;
}
namespace mini {
template <typename S>
void rneaDerivatives(const ModelTpl<S>& m, DataTpl<S>& d, const V& q, const V& v, const V& a, const Forces& f) {
  const Model& M_ = dbl(m);
  d.q_ = d.jq_ = q;
  d.v_ = v;
  d.a_ = a;
  store(d, fk(M_, q, v, a));
  set(d.dtau_dq, diff([&](const V& e) { return rnea(M_, integrate(M_, q, e), v, a, f); }, M_.nv, M_.nv));
  set(d.dtau_dv, diff([&](const V& e) { return rnea(M_, q, V(v + e), a, f); }, M_.nv, M_.nv));
  setUpper(d.M, mass(M_, q));
  set(d.tau, rnea(M_, q, v, a, f));
}
}  // namespace mini
template <typename S, typename A, typename B, typename C>
void computeRNEADerivatives(const ModelTpl<S>& m, DataTpl<S>& d, const Eigen::MatrixBase<A>& q,
                            const Eigen::MatrixBase<B>& v, const Eigen::MatrixBase<C>& a) {
  mini::rneaDerivatives(m, d, mini::dv(q), mini::dv(v), mini::dv(a), mini::none());
}
template <typename S, typename A, typename B, typename C, typename F>
void computeRNEADerivatives(const ModelTpl<S>& m, DataTpl<S>& d, const Eigen::MatrixBase<A>& q,
                            const Eigen::MatrixBase<B>& v, const Eigen::MatrixBase<C>& a,
                            const container::aligned_vector<F>& fext) {
  mini::rneaDerivatives(m, d, mini::dv(q), mini::dv(v), mini::dv(a), mini::forces(fext));
}
namespace mini {
inline V aba(const Model& m, const V& q, const V& v, const V& tau) {
  return solve(mass(m, q), tau - rnea(m, q, v, V::Zero(m.nv), none()));
}
}  // namespace mini
template <typename S, typename A, typename B, typename C>
const typename DataTpl<S>::VectorXs& aba(const ModelTpl<S>& m, DataTpl<S>& d, const Eigen::MatrixBase<A>& q,
                                         const Eigen::MatrixBase<B>& v, const Eigen::MatrixBase<C>& tau) {
  const Model& M_ = mini::dbl(m);
  const mini::V z = mini::V::Zero(m.nv);
  const mini::Kin k = mini::fk(M_, mini::dv(q), mini::dv(v), z);
  for (std::size_t i = 0; i < k.oMi.size(); ++i) {
    d.liMi[i] = k.liMi[i].template cast<S>();
    d.v[i] = k.v[i].template cast<S>();
  }
  d.jq_ = mini::dv(q);
  d.ddq = mini::aba(M_, mini::dv(q), mini::dv(v), mini::dv(tau)).template cast<S>();
  return d.ddq;
}
template <typename S, typename A, typename B, typename C, typename D, typename E, typename F>
void computeABADerivatives(const ModelTpl<S>& m, DataTpl<S>& d, const Eigen::MatrixBase<A>& q_,
                           const Eigen::MatrixBase<B>& v_, const Eigen::MatrixBase<C>& tau_,
                           const Eigen::MatrixBase<D>& dq, const Eigen::MatrixBase<E>& dv,
                           const Eigen::MatrixBase<F>& dtau) {
  const Model& M_ = mini::dbl(m);
  const mini::V q = mini::dv(q_), v = mini::dv(v_), t = mini::dv(tau_);
  const mini::V a = mini::aba(M_, q, v, t);
  d.q_ = d.jq_ = q;
  d.v_ = v;
  d.a_ = a;
  mini::store(d, mini::fk(M_, q, v, a));
  d.ddq = a.template cast<S>();
  mini::set(dq, mini::diff([&](const mini::V& e) { return mini::aba(M_, mini::integrate(M_, q, e), v, t); }, m.nv, m.nv));
  mini::set(dv, mini::diff([&](const mini::V& e) { return mini::aba(M_, q, mini::V(v + e), t); }, m.nv, m.nv));
  mini::set(dtau, mini::M(mini::mass(M_, q).inverse()));
}
template <typename S, typename A>
const typename DataTpl<S>::VectorXs& computeGeneralizedGravity(const ModelTpl<S>& m, DataTpl<S>& d,
                                                               const Eigen::MatrixBase<A>& q) {
  const mini::V z = mini::V::Zero(m.nv);
  const Model& M_ = mini::dbl(m);
  const mini::Kin k = mini::fk(M_, mini::dv(q), z, z);
  for (std::size_t i = 0; i < k.oMi.size(); ++i) d.liMi[i] = k.liMi[i].template cast<S>();
  d.g = mini::rnea(M_, mini::dv(q), z, z, mini::none()).template cast<S>();
  return d.g;
}
template <typename S, typename A, typename B>
void computeGeneralizedGravityDerivatives(const ModelTpl<S>& m, DataTpl<S>& d, const Eigen::MatrixBase<A>& q_,
                                          const Eigen::MatrixBase<B>& out) {
  const mini::V z = mini::V::Zero(m.nv), q = mini::dv(q_);
  const Model& M_ = mini::dbl(m);
  d.g = mini::rnea(M_, q, z, z, mini::none()).template cast<S>();
  mini::set(out, mini::diff([&](const mini::V& e) { return mini::rnea(M_, mini::integrate(M_, q, e), z, z, mini::none()); },
                            m.nv, m.nv));
}
template <typename S, typename A, typename F>
const typename DataTpl<S>::VectorXs& computeStaticTorque(const ModelTpl<S>& m, DataTpl<S>& d,
                                                         const Eigen::MatrixBase<A>& q,
                                                         const container::aligned_vector<F>& fext) {
  const mini::V z = mini::V::Zero(m.nv);
  d.tau = mini::rnea(mini::dbl(m), mini::dv(q), z, z, mini::forces(fext)).template cast<S>();
  return d.tau;
}
template <typename S, typename A, typename F, typename B>
void computeStaticTorqueDerivatives(const ModelTpl<S>& m, DataTpl<S>& d, const Eigen::MatrixBase<A>& q_,
                                    const container::aligned_vector<F>& fext, const Eigen::MatrixBase<B>& out) {
  const mini::V z = mini::V::Zero(m.nv), q = mini::dv(q_);
  const Model& M_ = mini::dbl(m);
  const mini::Forces f = mini::forces(fext);
  d.tau = mini::rnea(M_, q, z, z, f).template cast<S>();
  mini::set(out, mini::diff([&](const mini::V& e) { return mini::rnea(M_, mini::integrate(M_, q, e), z, z, f); }, m.nv, m.nv));
}
namespace cholesky {
template <typename S>
const typename DataTpl<S>::MatrixXs& decompose(const ModelTpl<S>&, DataTpl<S>& d) {
  d.Mc_ = mini::symmetric(d.M.template cast<double>());
  return d.M;
}
template <typename S, typename A>
void computeMinv(const ModelTpl<S>&, const DataTpl<S>& d, const Eigen::MatrixBase<A>& out) {
  mini::set(out, mini::M(d.Mc_.inverse()));
}
}  // namespace cholesky
template <typename S, typename A, typename B, typename C>
const typename DataTpl<S>::VectorXs& forwardDynamics(const ModelTpl<S>& m, DataTpl<S>& d,
                                                     const Eigen::MatrixBase<A>& tau, const Eigen::MatrixBase<B>& J_,
                                                     const Eigen::MatrixBase<C>& gamma, const S inv_damping = S(0)) {
  cholesky::decompose(m, d);
  const mini::M J = J_.template cast<double>();
  const Eigen::LDLT<mini::M> M_(d.Mc_);
  const mini::V b = mini::dv(tau) - d.nle.template cast<double>();
  const mini::V a0 = M_.solve(b);
  mini::V l(J.rows());
  d.JMinvJt_ = J * M_.solve(mini::M(J.transpose()));
  d.JMinvJt_.diagonal().array() += (double)inv_damping;
  mini::V a = a0;
  if (J.rows() > 0) {
    l = mini::solve(d.JMinvJt_, mini::V(-mini::dv(gamma) - J * a0));
    a += M_.solve(mini::V(J.transpose() * l));
  }
  d.lambda_c = l.template cast<S>();
  d.ddq = a.template cast<S>();
  return d.ddq;
}
template <typename S, typename A, typename B>
const typename DataTpl<S>::VectorXs& impulseDynamics(const ModelTpl<S>& m, DataTpl<S>& d,
                                                     const Eigen::MatrixBase<A>& v_, const Eigen::MatrixBase<B>& J_,
                                                     const S r = S(0), const S inv_damping = S(0)) {
  cholesky::decompose(m, d);
  const mini::M J = J_.template cast<double>();
  const mini::V v = mini::dv(v_);
  const Eigen::LDLT<mini::M> M_(d.Mc_);
  d.JMinvJt_ = J * M_.solve(mini::M(J.transpose()));
  d.JMinvJt_.diagonal().array() += (double)inv_damping;
  mini::V l(J.rows()), a = v;
  if (J.rows() > 0) {
    l = mini::solve(d.JMinvJt_, mini::V(-(1 + (double)r) * (J * v)));
    a += M_.solve(mini::V(J.transpose() * l));
  }
  d.impulse_c = l.template cast<S>();
  d.dq_after = a.template cast<S>();
  return d.dq_after;
}
// inverse of [M J'; J -damping] for the mass matrix and damping of the last forward or impulse dynamics
template <typename S, typename A, typename B>
void getKKTContactDynamicMatrixInverse(const ModelTpl<S>& m, const DataTpl<S>& d, const Eigen::MatrixBase<A>& J_,
                                       const Eigen::MatrixBase<B>& out) {
  const mini::M J = J_.template cast<double>(), Mi = d.Mc_.inverse();
  const int n = m.nv, c = (int)J.rows();
  mini::M K(n + c, n + c);
  if (c > 0) {
    const mini::M L = d.JMinvJt_.inverse();
    K.topLeftCorner(n, n) = Mi - Mi * J.transpose() * L * J * Mi;
    K.bottomLeftCorner(c, n) = L * J * Mi;
    K.topRightCorner(n, c) = K.bottomLeftCorner(c, n).transpose();
    K.bottomRightCorner(c, c) = -L;
  } else {
    K = Mi;
  }
  mini::set(out, K);
}
}  // namespace pinocchio
