// A differential action model described by an operation line (polynomial functions of state and control), and the group state.
#pragma once
#include "crocoddyl/core/diff-action-base.hpp"
#include "crocoddyl/core/state-base.hpp"
#include "crocoddyl/core/states/euclidean.hpp"
#include "trace.hpp"

namespace dm {
typedef Eigen::VectorXd V;
typedef Eigen::MatrixXd M;
typedef crocoddyl::StateAbstractTpl<double> State;
typedef crocoddyl::DifferentialActionModelAbstractTpl<double> DAM;
typedef crocoddyl::DifferentialActionDataAbstractTpl<double> DAD;

// Configurations (a, b, c) multiply as (a + a', b + b', c + c' + a b'); points are a configuration and a velocity.
struct HeisState : public State {
  HeisState() : State(6, 6) { nq_ = 3; nv_ = 3; }
  V zero() const override { return V::Zero(6); }
  V rand() const override { return V::Random(6); }
  void diff(const Eigen::Ref<const V>& p, const Eigen::Ref<const V>& q, Eigen::Ref<V> d) const override {
    V r = q - p;
    r[2] = -p[2] + p[0] * p[1] + q[2] - p[0] * q[1] - 0.5 * r[0] * r[1];
    d = r;
  }
  void integrate(const Eigen::Ref<const V>& q, const Eigen::Ref<const V>& d, Eigen::Ref<V> o) const override {
    V r = q + d;
    r[2] = q[2] + d[2] + 0.5 * d[0] * d[1] + q[0] * d[1];
    o = r;
  }
  static M jac(double k, const V& d) {
    M J = M::Identity(6, 6);
    J(2, 0) = k * d[1];
    J(2, 1) = -k * d[0];
    return J;
  }
  static void put(Eigen::Ref<M> o, const M& J, crocoddyl::AssignmentOp op) {
    if (op == crocoddyl::setto) o = J;
    if (op == crocoddyl::addto) o += J;
    if (op == crocoddyl::rmfrom) o -= J;
  }
  void Jdiff(const Eigen::Ref<const V>& p, const Eigen::Ref<const V>& q, Eigen::Ref<M> a, Eigen::Ref<M> b, const crocoddyl::Jcomponent c) const override {
    V d(6);
    diff(p, q, d);
    if (c != crocoddyl::second) a = -jac(0.5, d);
    if (c != crocoddyl::first) b = jac(0.5, d).inverse();
  }
  void Jintegrate(const Eigen::Ref<const V>&, const Eigen::Ref<const V>& d0, Eigen::Ref<M> a, Eigen::Ref<M> b, const crocoddyl::Jcomponent c, const crocoddyl::AssignmentOp op) const override {
    const V d = d0;
    if (c != crocoddyl::second) put(a, jac(1., d), op);
    if (c != crocoddyl::first) put(b, jac(0.5, d), op);
  }
  void JintegrateTransport(const Eigen::Ref<const V>&, const Eigen::Ref<const V>& d0, Eigen::Ref<M> J, const crocoddyl::Jcomponent c) const override {
    const V d = d0;
    const M r = jac(c == crocoddyl::first ? 1. : 0.5, d) * J;
    J = r;
  }
  // Coordinates of a small motion at x.
  static M tangent(const V& x) {
    M T = M::Identity(6, 6);
    T(2, 1) = x[0];
    return T;
  }
  std::shared_ptr<crocoddyl::StateBase> cloneAsDouble() const override { return nullptr; }
  std::shared_ptr<crocoddyl::StateBase> cloneAsFloat() const override { return nullptr; }
};

// value_i = c_i + L_i z + sum k z_p z_q
struct Poly {
  M L;
  V c, k;
  M idx;
  Poly() {}
  Poly(const tr::Op& o, const std::string& n, std::size_t nz) {
    c = o.v(n + "c");
    k = o.v(n + "k");
    L = c.size() ? o.m(n + "L") : M::Zero(0, nz);
    idx = k.size() ? o.m(n + "i") : M::Zero(0, 3);
  }
  V value(const V& z, std::size_t rows) const {
    V r = c + L * z;
    for (long j = 0; j < k.size(); ++j) r[long(idx(j, 0)) - 1] += k[j] * z[long(idx(j, 1)) - 1] * z[long(idx(j, 2)) - 1];
    return r.head(rows);
  }
  M jac(const V& z, std::size_t rows) const {
    M J = L;
    for (long j = 0; j < k.size(); ++j) {
      const long i = long(idx(j, 0)) - 1, p = long(idx(j, 1)) - 1, q = long(idx(j, 2)) - 1;
      J(i, p) += k[j] * z[q];
      J(i, q) += k[j] * z[p];
    }
    return J.topRows(rows);
  }
};

struct PolyDAM;
struct PolyDAD : public DAD {
  const DAM* owner;
  explicit PolyDAD(DAM* m) : DAD(m), owner(m) {}
};

struct PolyDAM : public DAM {
  bool heis;
  Poly a, g, h, r;
  M H;
  V c;
  PolyDAM(std::shared_ptr<State> st, bool heis, const tr::Op& o)
      : DAM(st, o.i("nw"), o.v("rc").size(), o.v("gc").size(), o.v("hc").size(), o.i("ngT"), o.i("nhT")), heis(heis) {
    const std::size_t nz = st->get_nx() + nu_;
    a = Poly(o, "a", nz);
    g = Poly(o, "g", nz);
    h = Poly(o, "h", nz);
    r = Poly(o, "r", nz);
    H = o.m("H");
    c = o.v("c");
    if (o.b("lim")) {
      set_u_lb(o.v("lb"));
      set_u_ub(o.v("ub"));
    }
    if (g.c.size()) {
      set_g_lb(o.v("glb"));
      set_g_ub(o.v("gub"));
    }
  }
  std::shared_ptr<DAD> createData() override { return std::make_shared<PolyDAD>(this); }
  bool checkData(const std::shared_ptr<DAD>& d) override {
    std::shared_ptr<PolyDAD> p = std::dynamic_pointer_cast<PolyDAD>(d);
    return p && p->owner == this;
  }
  V z(const V& x, const V& w) const {
    V r(x.size() + nu_);
    r << x, w;
    return r;
  }
  void val(DAD& d, const V& x, const V& w, bool run) const {
    const V v = z(x, w);
    if (run) d.xout = a.value(v, state_->get_nv());
    d.cost = 0.5 * v.dot(H * v) + c.dot(v);
    d.g = g.value(v, run ? ng_ : ng_T_);
    d.h = h.value(v, run ? nh_ : nh_T_);
    d.r = r.value(v, nr_);
  }
  void der(DAD& d, const V& x, const V& w, bool run) const {
    const V v = z(x, w);
    const std::size_t n = x.size();
    const M T = heis ? HeisState::tangent(x) : M(M::Identity(n, n));
    const V l = H * v + c;
    d.Lx = T.transpose() * l.head(n);
    d.Lxx = T.transpose() * H.topLeftCorner(n, n) * T;
    const M Jg = g.jac(v, run ? ng_ : ng_T_), Jh = h.jac(v, run ? nh_ : nh_T_);
    d.Gx = Jg.leftCols(n) * T;
    d.Hx = Jh.leftCols(n) * T;
    d.Gu = Jg.rightCols(nu_);
    d.Hu = Jh.rightCols(nu_);
    if (!run) return;
    const M Ja = a.jac(v, state_->get_nv());
    d.Fx = Ja.leftCols(n) * T;
    d.Fu = Ja.rightCols(nu_);
    d.Lu = l.tail(nu_);
    d.Lxu = T.transpose() * H.topRightCorner(n, nu_);
    d.Luu = H.bottomRightCorner(nu_, nu_);
  }
  typedef Eigen::Ref<const V> RV;
  void calc(const std::shared_ptr<DAD>& d, const RV& x, const RV& u) override { val(*d, x, u, true); }
  void calcDiff(const std::shared_ptr<DAD>& d, const RV& x, const RV& u) override { der(*d, x, u, true); }
  void calc(const std::shared_ptr<DAD>& d, const RV& x) override { val(*d, x, V::Zero(nu_), false); }
  void calcDiff(const std::shared_ptr<DAD>& d, const RV& x) override { der(*d, x, V::Zero(nu_), false); }
  std::shared_ptr<crocoddyl::DifferentialActionModelBase> cloneAsDouble() const override { return nullptr; }
  std::shared_ptr<crocoddyl::DifferentialActionModelBase> cloneAsFloat() const override { return nullptr; }
};
}  // namespace dm
