// A polynomial shooting-node model described by an operation line: bilinear dynamics, quartic cost, affine constraints.
#pragma once
#include "crocoddyl/core/action-base.hpp"
#include "crocoddyl/core/state-base.hpp"
#include "trace.hpp"

namespace pm {
typedef Eigen::VectorXd V;
typedef Eigen::MatrixXd M;
typedef crocoddyl::ActionModelAbstractTpl<double> Action;
typedef crocoddyl::ActionDataAbstractTpl<double> Data;

// A vector space whose points carry `pad` extra coordinates no displacement moves.
struct PState : public crocoddyl::StateAbstractTpl<double> {
  PState(std::size_t n, std::size_t pad) : crocoddyl::StateAbstractTpl<double>(n + pad, n) { nq_ = n; nv_ = 0; }
  V zero() const override { return V::Zero(nx_); }
  V rand() const override { return V::Zero(nx_); }
  void diff(const Eigen::Ref<const V>& a, const Eigen::Ref<const V>& b, Eigen::Ref<V> d) const override { d = (b - a).head(ndx_); }
  void integrate(const Eigen::Ref<const V>& x, const Eigen::Ref<const V>& d, Eigen::Ref<V> o) const override { V t = x; t.head(ndx_) += d; o = t; }
  void Jdiff(const Eigen::Ref<const V>&, const Eigen::Ref<const V>&, Eigen::Ref<M> a, Eigen::Ref<M> b, const crocoddyl::Jcomponent) const override { a.setIdentity(); a *= -1; b.setIdentity(); }
  void Jintegrate(const Eigen::Ref<const V>&, const Eigen::Ref<const V>&, Eigen::Ref<M> a, Eigen::Ref<M> b, const crocoddyl::Jcomponent, const crocoddyl::AssignmentOp) const override { a.setIdentity(); b.setIdentity(); }
  void JintegrateTransport(const Eigen::Ref<const V>&, const Eigen::Ref<const V>&, Eigen::Ref<M>, const crocoddyl::Jcomponent) const override {}
  std::shared_ptr<crocoddyl::StateBase> cloneAsDouble() const override { return nullptr; }
  std::shared_ptr<crocoddyl::StateBase> cloneAsFloat() const override { return nullptr; }
};

struct PModel : public Action {
  std::size_t n;
  M A, B, Q, N, R, Gx, Gu, Hx, Hu;
  V c, q, r, gc, hc;
  double e, f, w, nanat;
  bool term;
  static M mat(const tr::Op& o, const char* k, std::size_t rows, std::size_t cols) {
    M m = o.m(k);
    return (rows && cols) ? m : M::Zero(rows, cols);
  }
  static std::size_t rows(const tr::Op& o, const char* k) { return o.vs(k).size(); }
  PModel(std::shared_ptr<crocoddyl::StateAbstractTpl<double> > st, const tr::Op& o)
      : Action(st, o.i("nu"), 0, o.b("term") ? 0 : rows(o, "Gx"), o.b("term") ? 0 : rows(o, "Hx"), o.b("term") ? rows(o, "Gx") : 0, o.b("term") ? rows(o, "Hx") : 0) {
    n = st->get_ndx();
    const std::size_t ng = rows(o, "Gx"), nh = rows(o, "Hx");
    A = o.m("A"); B = mat(o, "B", n, nu_); Q = o.m("Q"); N = mat(o, "N", n, nu_); R = mat(o, "R", nu_, nu_);
    Gx = mat(o, "Gx", ng, n); Gu = mat(o, "Gu", ng, nu_); Hx = mat(o, "Hx", nh, n); Hu = mat(o, "Hu", nh, nu_);
    c = o.v("c"); q = o.v("q"); r = o.v("r"); gc = o.v("gc"); hc = o.v("hc");
    e = o.d("e"); f = o.d("f"); w = o.d("w"); nanat = o.d("nanat");
    term = o.b("term");
    if (ng) { set_g_lb(o.v("glb")); set_g_ub(o.v("gub")); }
    if (o.b("lim")) { set_u_lb(o.v("lb")); set_u_ub(o.v("ub")); }
  }
  std::shared_ptr<Data> createData() override { return std::make_shared<Data>(static_cast<Action*>(this)); }
  bool checkData(const std::shared_ptr<Data>& d) override { return d != nullptr; }
  void dyn(Data& d, const V& x, const V& u, bool running) const {
    const V v = x.head(n);
    d.cost = 0.5 * v.dot(Q * v) + q.dot(v) + w * (std::pow(v[0], 4) / 4 - std::pow(v[0], 2) / 2);
    d.xnext = x;
    if (running) {
      V p = A * v + c + e * v[0] * v;
      if (nu_) {
        p += B * u + f * u[0] * v;
        d.cost += v.dot(N * u) + 0.5 * u.dot(R * u) + r.dot(u);
      }
      d.xnext.head(n) = p;
    }
    if (v[0] >= nanat) d.cost = NAN;
    if (d.g.size()) { d.g = Gx * v + gc; if (running && nu_) d.g += Gu * u; }
    if (d.h.size()) { d.h = Hx * v + hc; if (running && nu_) d.h += Hu * u; }
  }
  void ddyn(Data& d, const V& x, const V& u, bool running) const {
    const V v = x.head(n);
    d.Lx = Q * v + q;
    d.Lx[0] += w * (std::pow(v[0], 3) - v[0]);
    d.Lxx = Q;
    d.Lxx(0, 0) += w * (3 * v[0] * v[0] - 1);
    d.Fx.setIdentity();
    if (running) {
      d.Fx = A + e * v[0] * M::Identity(n, n);
      d.Fx.col(0) += e * v;
      if (nu_) {
        d.Fx += f * u[0] * M::Identity(n, n);
        d.Fu = B;
        d.Fu.col(0) += f * v;
        d.Lx += N * u;
        d.Lu = N.transpose() * v + R * u + r;
        d.Luu = R;
        d.Lxu = N;
      }
    }
    if (d.g.size()) { d.Gx = Gx; if (running && nu_) d.Gu = Gu; }
    if (d.h.size()) { d.Hx = Hx; if (running && nu_) d.Hu = Hu; }
  }
  void calc(const std::shared_ptr<Data>& d, const Eigen::Ref<const V>& x, const Eigen::Ref<const V>& u) override { dyn(*d, x, u, true); }
  void calcDiff(const std::shared_ptr<Data>& d, const Eigen::Ref<const V>& x, const Eigen::Ref<const V>& u) override { ddyn(*d, x, u, true); }
  void calc(const std::shared_ptr<Data>& d, const Eigen::Ref<const V>& x) override { dyn(*d, x, V(0), !term && nu_ == 0); }
  void calcDiff(const std::shared_ptr<Data>& d, const Eigen::Ref<const V>& x) override { ddyn(*d, x, V(0), !term && nu_ == 0); }
  std::shared_ptr<crocoddyl::ActionModelBase> cloneAsDouble() const override { return nullptr; }
  std::shared_ptr<crocoddyl::ActionModelBase> cloneAsFloat() const override { return nullptr; }
};
}  // namespace pm
