// LINK: activation-base activations/.* residual-base residuals/.* cost-base costs/.* constraint-base constraints/.* actuation-base actuation/.* action-base diff-action-base actions/.* integ-action-base integrator/.* control-base controls/.* data-collector-base data/.* state-base states/euclidean numdiff/(action|diff-action|state|activation)$ optctrl/shooting utils/.*
// SCALARS: double float
// Built-in components converted between double and single precision: descriptions, evaluations, independence of the copies.
#include <functional>
#include <map>

#include <pinocchio/utils/static-if.hpp>
#include "crocoddyl/core/activations/2norm-barrier.hpp"
#include "crocoddyl/core/activations/quadratic-barrier.hpp"
#include "crocoddyl/core/activations/quadratic-flat-exp.hpp"
#include "crocoddyl/core/activations/quadratic-flat-log.hpp"
#include "crocoddyl/core/activations/quadratic.hpp"
#include "crocoddyl/core/activations/smooth-1norm.hpp"
#include "crocoddyl/core/activations/smooth-2norm.hpp"
#include "crocoddyl/core/activations/weighted-quadratic-barrier.hpp"
#include "crocoddyl/core/activations/weighted-quadratic.hpp"
#include "crocoddyl/core/actions/diff-lqr.hpp"
#include "crocoddyl/core/actions/lqr.hpp"
#include "crocoddyl/core/actions/unicycle.hpp"
#include "crocoddyl/core/actuation-base.hpp"
#include "crocoddyl/core/actuation/actuation-squashing.hpp"
#include "crocoddyl/core/actuation/squashing/smooth-sat.hpp"
#include "crocoddyl/core/constraints/constraint-manager.hpp"
#include "crocoddyl/core/constraints/residual.hpp"
#include "crocoddyl/core/controls/poly-one.hpp"
#include "crocoddyl/core/controls/poly-two-rk.hpp"
#include "crocoddyl/core/controls/poly-zero.hpp"
#include "crocoddyl/core/costs/cost-sum.hpp"
#include "crocoddyl/core/costs/residual.hpp"
#include "crocoddyl/core/data/joint.hpp"
#include "crocoddyl/core/integrator/euler.hpp"
#include "crocoddyl/core/integrator/rk.hpp"
#include "crocoddyl/core/numdiff/action.hpp"
#include "crocoddyl/core/numdiff/control.hpp"
#include "crocoddyl/core/numdiff/diff-action.hpp"
#include "crocoddyl/core/numdiff/state.hpp"
#include "crocoddyl/core/optctrl/shooting.hpp"
#include "crocoddyl/core/residuals/control.hpp"
#include "crocoddyl/core/residuals/joint-acceleration.hpp"
#include "crocoddyl/core/residuals/joint-effort.hpp"
#include "trace.hpp"
using namespace crocoddyl;
template <typename S> using Vec = Eigen::Matrix<S, Eigen::Dynamic, 1>;
template <typename S> using Mat = Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic>;
template <typename T> using P = std::shared_ptr<T>;

// An actuation of our own: torques are twice the inputs, repeated.
template <typename _S>
struct OwnActuation : public ActuationModelAbstractTpl<_S> {
  typedef _S Scalar;
  typedef ActuationModelAbstractTpl<Scalar> Base;
  typedef ActuationDataAbstractTpl<Scalar> Data;
  CROCODDYL_DERIVED_CAST(ActuationModelBase, OwnActuation)
  OwnActuation(P<StateAbstractTpl<Scalar> > st, std::size_t nu) : Base(st, nu) {}
  void calc(const P<Data>& d, const Eigen::Ref<const Vec<Scalar> >&, const Eigen::Ref<const Vec<Scalar> >& u) override {
    for (long i = 0; i < d->tau.size(); ++i) d->tau[i] = 2 * u[i % this->nu_];
  }
  void calcDiff(const P<Data>& d, const Eigen::Ref<const Vec<Scalar> >&, const Eigen::Ref<const Vec<Scalar> >&) override {
    d->dtau_du.setZero();
    for (long i = 0; i < d->tau.size(); ++i) d->dtau_du(i, i % this->nu_) = 2;
  }
  void commands(const P<Data>& d, const Eigen::Ref<const Vec<Scalar> >&, const Eigen::Ref<const Vec<Scalar> >& tau) override { d->u = tau.head(this->nu_) / 2; }
  template <typename NewScalar>
  OwnActuation<NewScalar> cast() const { return OwnActuation<NewScalar>(this->state_->template cast<NewScalar>(), this->nu_); }
};

template <typename S>
struct Comp {
  P<StateAbstractTpl<S> > st;
  P<ActionModelAbstractTpl<S> > am;
  P<DifferentialActionModelAbstractTpl<S> > dm;
  P<ActivationModelAbstractTpl<S> > act;
  P<ResidualModelAbstractTpl<S> > res;
  P<CostModelAbstractTpl<S> > cost;
  P<CostModelSumTpl<S> > sum;
  P<ConstraintModelAbstractTpl<S> > con;
  P<ConstraintModelManagerTpl<S> > man;
  P<ControlParametrizationModelAbstractTpl<S> > ctl;
  P<SquashingModelAbstractTpl<S> > sat;
  P<ActuationModelAbstractTpl<S> > asq;
  P<ShootingProblemTpl<S> > prob;
};
template <typename T, typename S>
static P<T> dyn(const P<S>& p) { return std::dynamic_pointer_cast<T>(p); }

// ------------------------------------------------------------ descriptions
// the largest number of a type stands for an unbounded component of a barrier
template <typename S>
static Vec<S> open(Vec<S> v) { for (long i = 0; i < v.size(); ++i) if (std::fabs(v[i]) == std::numeric_limits<S>::max()) v[i] = v[i] > 0 ? std::numeric_limits<S>::infinity() : -std::numeric_limits<S>::infinity(); return v; }
struct Desc {
  tr::Obj nums, tags;
  template <typename V> void v(const std::string& k, const V& x) { nums.vec(k, x); }
  void d(const std::string& k, double x) { Vec<double> w(1); w[0] = x; nums.vec(k, w); }
  template <typename S> void m(const std::string& k, const Mat<S>& x) { nums.vec(k, Vec<S>(Eigen::Map<const Vec<S> >(x.data(), x.size()))); tags.str(k + ":rows", std::to_string(x.rows())); }
  void t(const std::string& k, const std::string& x) { tags.str(k, x); }
  void i(const std::string& k, long x) { tags.str(k, std::to_string(x)); }
};
template <typename S>
static void desc(Desc& d, const std::string& p, const P<StateAbstractTpl<S> >& s) {
  d.i(p + "nx", s->get_nx()); d.i(p + "ndx", s->get_ndx()); d.i(p + "nq", s->get_nq()); d.i(p + "nv", s->get_nv()); d.i(p + "has", s->get_has_limits());
  d.v(p + "lb", s->get_lb()); d.v(p + "ub", s->get_ub());
  d.t(p + "kind", dyn<StateVectorTpl<S> >(s) ? "vector" : dyn<StateNumDiffTpl<S> >(s) ? "numdiff" : "?");
}
template <typename S, typename T>
static void lqr(Desc& d, const std::string& p, const T& m) {
  d.m<S>(p + "B", m.get_B()); d.m<S>(p + "Q", m.get_Q()); d.m<S>(p + "R", m.get_R()); d.m<S>(p + "N", m.get_N()); d.m<S>(p + "G", m.get_G()); d.m<S>(p + "H", m.get_H());
  d.v(p + "f", m.get_f()); d.v(p + "q", m.get_q()); d.v(p + "r", m.get_r()); d.v(p + "g", m.get_g()); d.v(p + "h", m.get_h());
}
template <typename S, typename T>
static void dims(Desc& d, const std::string& p, const T& m) {
  d.i(p + "nu", m->get_nu()); d.i(p + "nr", m->get_nr()); d.i(p + "ng", m->get_ng()); d.i(p + "nh", m->get_nh()); d.i(p + "ngT", m->get_ng_T()); d.i(p + "nhT", m->get_nh_T());
  d.v(p + "ulb", m->get_u_lb()); d.v(p + "uub", m->get_u_ub()); d.v(p + "glb", m->get_g_lb()); d.v(p + "gub", m->get_g_ub()); d.i(p + "has", m->get_has_control_limits());
  desc<S>(d, p + "state.", m->get_state());
}
template <typename S>
static void desc(Desc& d, const std::string& p, const P<ControlParametrizationModelAbstractTpl<S> >& c) {
  d.i(p + "nw", c->get_nw()); d.i(p + "nu", c->get_nu());
  d.t(p + "kind", dyn<ControlParametrizationModelPolyZeroTpl<S> >(c) ? "zero" : dyn<ControlParametrizationModelPolyOneTpl<S> >(c) ? "one" : dyn<ControlParametrizationModelPolyTwoRKTpl<S> >(c) ? "two" : dyn<ControlParametrizationModelNumDiffTpl<S> >(c) ? "numdiff" : "?");
  if (auto n = dyn<ControlParametrizationModelNumDiffTpl<S> >(c)) desc<S>(d, p + "model.", n->get_model());
}
template <typename S>
static void desc(Desc& d, const std::string& p, const P<DifferentialActionModelAbstractTpl<S> >& m) {
  dims<S>(d, p, m);
  if (auto l = dyn<DifferentialActionModelLQRTpl<S> >(m)) { d.t(p + "kind", "dlqr"); d.m<S>(p + "Aq", l->get_Aq()); d.m<S>(p + "Av", l->get_Av()); lqr<S>(d, p, *l); }
  else if (auto n = dyn<DifferentialActionModelNumDiffTpl<S> >(m)) { d.t(p + "kind", "numdiff"); d.i(p + "gauss", n->get_with_gauss_approx()); desc<S>(d, p + "model.", n->get_model()); }
  else d.t(p + "kind", "?");
}
template <typename S>
static void desc(Desc& d, const std::string& p, const P<ActionModelAbstractTpl<S> >& m) {
  dims<S>(d, p, m);
  if (auto l = dyn<ActionModelLQRTpl<S> >(m)) { d.t(p + "kind", "lqr"); d.m<S>(p + "A", l->get_A()); lqr<S>(d, p, *l); }
  else if (auto u = dyn<ActionModelUnicycleTpl<S> >(m)) { d.t(p + "kind", "uni"); d.d(p + "dt", u->get_dt()); d.v(p + "w", u->get_cost_weights()); }
  else if (auto n = dyn<ActionModelNumDiffTpl<S> >(m)) { d.t(p + "kind", "numdiff"); d.i(p + "gauss", n->get_with_gauss_approx()); desc<S>(d, p + "model.", n->get_model()); }
  else if (auto g = dyn<IntegratedActionModelAbstractTpl<S> >(m)) {
    d.t(p + "kind", dyn<IntegratedActionModelEulerTpl<S> >(m) ? "euler" : "rk"); d.d(p + "dt", g->get_dt());
    if (auto r = dyn<IntegratedActionModelRKTpl<S> >(m)) d.i(p + "ni", r->get_ni());
    desc<S>(d, p + "diff.", g->get_differential()); desc<S>(d, p + "ctl.", g->get_control());
  } else d.t(p + "kind", "?");
}
template <typename S>
static void desc(Desc& d, const std::string& p, const P<ActivationModelAbstractTpl<S> >& a) {
  d.i(p + "nr", a->get_nr());
  std::string k = "?";
  if (dyn<ActivationModelQuadTpl<S> >(a)) k = "quad";
  if (auto w = dyn<ActivationModelWeightedQuadTpl<S> >(a)) { k = "wquad"; d.v(p + "w", w->get_weights()); }
  if (auto w = dyn<ActivationModel2NormBarrierTpl<S> >(a)) { k = "norm"; d.d(p + "alpha", w->get_alpha()); }
  if (dyn<ActivationModelSmooth1NormTpl<S> >(a)) k = "s1";
  if (dyn<ActivationModelSmooth2NormTpl<S> >(a)) k = "s2";
  if (auto w = dyn<ActivationModelQuadFlatExpTpl<S> >(a)) { k = "exp"; d.d(p + "alpha", w->get_alpha()); }
  if (auto w = dyn<ActivationModelQuadFlatLogTpl<S> >(a)) { k = "log"; d.d(p + "alpha", w->get_alpha()); }
  if (auto w = dyn<ActivationModelQuadraticBarrierTpl<S> >(a)) { k = "bar"; d.v(p + "lb", open<S>(w->get_bounds().lb)); d.v(p + "ub", open<S>(w->get_bounds().ub)); d.d(p + "beta", w->get_bounds().beta); }
  if (auto w = dyn<ActivationModelWeightedQuadraticBarrierTpl<S> >(a)) { k = "wbar"; d.v(p + "w", w->get_weights()); d.v(p + "lb", open<S>(w->get_bounds().lb)); d.v(p + "ub", open<S>(w->get_bounds().ub)); d.d(p + "beta", w->get_bounds().beta); }
  d.t(p + "kind", k);
}
template <typename S>
static void desc(Desc& d, const std::string& p, const P<ResidualModelAbstractTpl<S> >& r) {
  d.i(p + "nr", r->get_nr()); d.i(p + "nu", r->get_nu()); d.i(p + "dq", r->get_q_dependent()); d.i(p + "dv", r->get_v_dependent()); d.i(p + "du", r->get_u_dependent());
  std::string k = "?";
  if (auto c = dyn<ResidualModelControlTpl<S> >(r)) { k = "ctrl"; d.v(p + "ref", c->get_reference()); }
  if (auto c = dyn<ResidualModelJointAccelerationTpl<S> >(r)) { k = "acc"; d.v(p + "ref", c->get_reference()); }
  if (auto c = dyn<ResidualModelJointEffortTpl<S> >(r)) { k = "effort"; d.v(p + "ref", c->get_reference()); }
  d.t(p + "kind", k);
  desc<S>(d, p + "state.", r->get_state());
}
template <typename S>
static void desc(Desc& d, const std::string& p, const P<CostModelAbstractTpl<S> >& c) {
  d.i(p + "nu", c->get_nu()); desc<S>(d, p + "state.", c->get_state()); desc<S>(d, p + "act.", c->get_activation()); desc<S>(d, p + "res.", c->get_residual());
}
template <typename S>
static void desc(Desc& d, const std::string& p, const P<ConstraintModelAbstractTpl<S> >& c) {
  d.i(p + "nu", c->get_nu()); d.i(p + "ng", c->get_ng()); d.i(p + "nh", c->get_nh()); d.i(p + "type", c->get_type()); d.i(p + "T", c->get_T_constraint());
  if (c->get_type() != ConstraintType::Equality) { d.v(p + "lb", c->get_lb()); d.v(p + "ub", c->get_ub()); }
  desc<S>(d, p + "state.", c->get_state()); desc<S>(d, p + "res.", c->get_residual());
}
static std::string names(const std::set<std::string>& s) { std::string r; for (const auto& n : s) r += n + " "; return r; }
template <typename S>
static void desc(Desc& d, const std::string& p, const P<SquashingModelAbstractTpl<S> >& s) {
  d.i(p + "ns", s->get_ns()); d.v(p + "slb", s->get_s_lb()); d.v(p + "sub", s->get_s_ub());
  if (auto q = dyn<SquashingModelSmoothSatTpl<S> >(s)) { d.d(p + "smooth", q->get_smooth()); }
}
template <typename S>
static Desc desc(const Comp<S>& c) {
  Desc d;
  if (c.am) desc<S>(d, "", c.am);
  else if (c.dm) desc<S>(d, "", c.dm);
  else if (c.cost) desc<S>(d, "", c.cost);
  else if (c.con) desc<S>(d, "", c.con);
  else if (c.act) desc<S>(d, "", c.act);
  else if (c.res) desc<S>(d, "", c.res);
  else if (c.ctl) desc<S>(d, "", c.ctl);
  else if (c.asq) {
    d.i("nu", c.asq->get_nu()); desc<S>(d, "state.", c.asq->get_state());
    if (auto q = dyn<ActuationSquashingModelTpl<S> >(c.asq)) { desc<S>(d, "sat.", q->get_squashing()); d.i("inner.nu", q->get_actuation()->get_nu()); }
  } else if (c.sat) desc<S>(d, "", c.sat);
  else if (c.sum) {
    d.i("nu", c.sum->get_nu()); d.i("nr", c.sum->get_nr()); d.i("nrt", c.sum->get_nr_total()); d.t("active", names(c.sum->get_active_set())); d.t("inactive", names(c.sum->get_inactive_set()));
    desc<S>(d, "state.", c.sum->get_state());
    for (const auto& i : c.sum->get_costs()) { const std::string p = i.first + "/"; d.t(p + "name", i.second->name); d.i(p + "active", i.second->active); d.d(p + "weight", i.second->weight); desc<S>(d, p, i.second->cost); }
  } else if (c.man) {
    d.i("nu", c.man->get_nu()); d.i("ng", c.man->get_ng()); d.i("nh", c.man->get_nh()); d.i("ngT", c.man->get_ng_T()); d.i("nhT", c.man->get_nh_T());
    d.t("active", names(c.man->get_active_set())); d.t("inactive", names(c.man->get_inactive_set()));
    desc<S>(d, "state.", c.man->get_state());
    for (const auto& i : c.man->get_constraints()) { const std::string p = i.first + "/"; d.t(p + "name", i.second->name); d.i(p + "active", i.second->active); desc<S>(d, p, i.second->constraint); }
  } else if (c.prob) {
    d.i("T", c.prob->get_T()); d.i("nx", c.prob->get_nx()); d.i("ndx", c.prob->get_ndx()); d.i("threads", c.prob->get_nthreads()); d.v("x0", c.prob->get_x0());
    for (std::size_t t = 0; t < c.prob->get_T(); ++t) desc<S>(d, "m" + std::to_string(t) + ".", c.prob->get_runningModels()[t]);
    desc<S>(d, "end.", c.prob->get_terminalModel());
  } else desc<S>(d, "", c.st);
  return d;
}
// -------------------------------------------------------------- conversion
template <typename T, typename S>
static Comp<T> convert(const Comp<S>& c, bool base) {
  Comp<T> r;
  (void)base;
#define ONE(f) if (c.f) r.f = c.f->template cast<T>();
  ONE(st) ONE(am) ONE(dm) ONE(act) ONE(res) ONE(cost) ONE(con) ONE(ctl) ONE(sat) ONE(asq)
  if (c.sum) r.sum = std::make_shared<CostModelSumTpl<T> >(c.sum->template cast<T>());
  if (c.man) r.man = std::make_shared<ConstraintModelManagerTpl<T> >(c.man->template cast<T>());
  if (c.prob) r.prob = std::make_shared<ShootingProblemTpl<T> >(c.prob->template cast<T>());
  return r;
}
// -------------------------------------------------------------- evaluation
struct Nums {  // numbers drawn in turn from the operation's list
  Vec<double> p;
  std::size_t k = 0;
  double next() { return p[k++ % p.size()]; }
  template <typename S> Vec<S> vec(long n) { Vec<S> r(n); for (long i = 0; i < n; ++i) r[i] = S(next()); return r; }
  template <typename S> Mat<S> mat(long m, long n) { Mat<S> r(m, n); for (long i = 0; i < m * n; ++i) r(i / n, i % n) = S(next()); return r; }
};
struct OutV {
  std::vector<double> vals, ders;
  template <typename M> static void add(std::vector<double>& v, const M& m) { for (long j = 0; j < m.cols(); ++j) for (long i = 0; i < m.rows(); ++i) v.push_back(m(i, j)); }
  template <typename M> void v(const M& m) { add(vals, m); }
  template <typename M> void d(const M& m) { add(ders, m); }
};
template <typename S, typename A>
static void action(OutV& o, const A& m, Nums n, bool t) {
  auto d = m->createData();
  const Vec<S> x = n.vec<S>(m->get_state()->get_nx()), u = n.vec<S>(m->get_nu());
  if (t) { m->calc(d, x); m->calcDiff(d, x); } else { m->calc(d, x, u); m->calcDiff(d, x, u); }
  o.vals.push_back(d->cost); o.d(d->Lx); o.d(d->Lxx);
  if (!t) { o.v(d->r); o.v(d->g); o.v(d->h); o.d(d->Lu); o.d(d->Lxu); o.d(d->Luu); o.d(d->Fx); o.d(d->Fu); o.d(d->Gx); o.d(d->Gu); o.d(d->Hx); o.d(d->Hu); }
}
template <typename S>
static void eval(OutV& o, const Comp<S>& c, Nums n, bool t) {
  DataCollectorAbstractTpl<S>* col = nullptr;
  auto joint = [&](const P<StateAbstractTpl<S> >& st, std::size_t nu) {
    auto j = std::make_shared<JointDataAbstractTpl<S> >(st, std::make_shared<OwnActuation<S> >(st, nu), nu);
    const long nv = st->get_nv(), ndx = st->get_ndx();
    j->tau = n.vec<S>(j->tau.size()); j->a = n.vec<S>(nv); j->dtau_dx = n.mat<S>(j->tau.size(), ndx); j->dtau_du = n.mat<S>(j->tau.size(), nu); j->da_dx = n.mat<S>(nv, ndx); j->da_du = n.mat<S>(nv, nu);
    return std::make_shared<DataCollectorJointTpl<S> >(j);
  };
  (void)col;
  if (c.am) {
    action<S>(o, c.am, n, t);
    if (!t) { auto d = c.am->createData(); const Vec<S> x = n.vec<S>(c.am->get_state()->get_nx()), u = n.vec<S>(c.am->get_nu()); c.am->calc(d, x, u); o.v(d->xnext); }
  } else if (c.dm) {
    action<S>(o, c.dm, n, t);
    if (!t) { auto d = c.dm->createData(); const Vec<S> x = n.vec<S>(c.dm->get_state()->get_nx()), u = n.vec<S>(c.dm->get_nu()); c.dm->calc(d, x, u); o.v(d->xout); }
  } else if (c.cost) {
    auto cl = joint(c.cost->get_state(), c.cost->get_nu());
    auto d = c.cost->createData(cl.get());
    const Vec<S> x = n.vec<S>(c.cost->get_state()->get_nx()), u = n.vec<S>(c.cost->get_nu());
    if (t) { c.cost->calc(d, x); c.cost->calcDiff(d, x); } else { c.cost->calc(d, x, u); c.cost->calcDiff(d, x, u); }
    o.vals.push_back(d->cost); o.d(d->Lx); o.d(d->Lxx);
    if (!t) { o.v(d->residual->r); o.d(d->Lu); o.d(d->Luu); o.d(d->Lxu); }
  } else if (c.con) {
    auto cl = joint(c.con->get_state(), c.con->get_nu());
    auto d = c.con->createData(cl.get());
    const Vec<S> x = n.vec<S>(c.con->get_state()->get_nx()), u = n.vec<S>(c.con->get_nu());
    if (t) { c.con->calc(d, x); c.con->calcDiff(d, x); } else { c.con->calc(d, x, u); c.con->calcDiff(d, x, u); }
    if (!t) { o.v(d->g); o.v(d->h); o.d(d->Gx); o.d(d->Gu); o.d(d->Hx); o.d(d->Hu); }
  } else if (c.act) {
    auto d = c.act->createData();
    const Vec<S> r = n.vec<S>(c.act->get_nr());
    c.act->calc(d, r); c.act->calcDiff(d, r);
    o.vals.push_back(d->a_value); o.d(d->Ar); o.d(Mat<S>(d->Arr.diagonal()));
  } else if (c.res) {
    auto cl = joint(c.res->get_state(), c.res->get_nu());
    auto d = c.res->createData(cl.get());
    const Vec<S> x = n.vec<S>(c.res->get_state()->get_nx()), u = n.vec<S>(c.res->get_nu());
    if (t) { c.res->calc(d, x); c.res->calcDiff(d, x); } else { c.res->calc(d, x, u); c.res->calcDiff(d, x, u); o.v(d->r); o.d(d->Rx); o.d(d->Ru); }
  } else if (c.ctl) {
    auto d = c.ctl->createData();
    const Vec<S> u = n.vec<S>(c.ctl->get_nu());
    for (double at : {0., 0.25, 0.5, 1.}) { c.ctl->calc(d, S(at), u); c.ctl->calcDiff(d, S(at), u); o.v(d->w); o.d(d->dw_du); }
  } else if (c.asq) {
    auto d = c.asq->createData();
    const Vec<S> x = n.vec<S>(c.asq->get_state()->get_nx()), u = n.vec<S>(c.asq->get_nu());
    c.asq->calc(d, x, u); c.asq->calcDiff(d, x, u); o.v(d->tau); o.d(d->dtau_dx); o.d(d->dtau_du);
  } else if (c.sat) {
    auto d = c.sat->createData();
    const Vec<S> s = n.vec<S>(c.sat->get_ns());
    c.sat->calc(d, s); c.sat->calcDiff(d, s); o.v(d->u); o.d(d->du_ds);
  } else if (c.sum) {
    DataCollectorAbstractTpl<S> cl;
    auto d = c.sum->createData(&cl);
    const Vec<S> x = n.vec<S>(c.sum->get_state()->get_nx()), u = n.vec<S>(c.sum->get_nu());
    if (t) { c.sum->calc(d, x); c.sum->calcDiff(d, x); } else { c.sum->calc(d, x, u); c.sum->calcDiff(d, x, u); }
    o.vals.push_back(d->cost); o.d(d->Lx); o.d(d->Lxx);
    if (!t) { o.d(d->Lu); o.d(d->Luu); o.d(d->Lxu); }
  } else if (c.man) {
    DataCollectorAbstractTpl<S> cl;
    auto d = c.man->createData(&cl);
    d->resize(c.man.get(), !t);
    const Vec<S> x = n.vec<S>(c.man->get_state()->get_nx()), u = n.vec<S>(c.man->get_nu());
    if (t) { c.man->calc(d, x); c.man->calcDiff(d, x); } else { c.man->calc(d, x, u); c.man->calcDiff(d, x, u); }
    o.v(d->g); o.v(d->h);
    if (!t) { o.d(d->Gx); o.d(d->Gu); o.d(d->Hx); o.d(d->Hu); }
  } else if (c.prob) {
    std::vector<Vec<S> > xs, us;
    for (std::size_t k = 0; k <= c.prob->get_T(); ++k) xs.push_back(n.vec<S>(c.prob->get_nx()));
    for (std::size_t k = 0; k < c.prob->get_T(); ++k) us.push_back(n.vec<S>(c.prob->get_runningModels()[k]->get_nu()));
    o.vals.push_back(c.prob->calc(xs, us)); c.prob->calcDiff(xs, us);
    for (const auto& d : c.prob->get_runningDatas()) { o.v(d->xnext); o.d(d->Fx); o.d(d->Lx); }
    o.d(c.prob->get_terminalData()->Lx);
  } else {
    const long nx = c.st->get_nx(), ndx = c.st->get_ndx();
    const Vec<S> a = n.vec<S>(nx), b = n.vec<S>(nx), dx = n.vec<S>(ndx);
    Vec<S> e(ndx), f(nx);
    Mat<S> J(ndx, ndx), K(ndx, ndx);
    c.st->diff(a, b, e); c.st->integrate(a, dx, f); o.v(e); o.v(f);
    c.st->Jdiff(a, b, J, K); o.d(J); o.d(K); c.st->Jintegrate(a, dx, J, K); o.d(J); o.d(K);
  }
}
// ------------------------------------------------------------------ changes
template <typename S>
static void change(Comp<S>& c, Nums n, long w) {
  auto limits = [&](P<StateAbstractTpl<S> > st) { st->set_lb(n.vec<S>(st->get_nx())); };
  auto act = [&](P<ActivationModelAbstractTpl<S> > a) {
    if (auto q = dyn<ActivationModelWeightedQuadTpl<S> >(a)) q->set_weights(n.vec<S>(a->get_nr()).cwiseAbs());
    if (auto q = dyn<ActivationModel2NormBarrierTpl<S> >(a)) q->set_alpha(S(11. / 64));
    if (auto q = dyn<ActivationModelQuadFlatExpTpl<S> >(a)) q->set_alpha(S(0.7));
    if (auto q = dyn<ActivationModelQuadFlatLogTpl<S> >(a)) q->set_alpha(S(0.7));
    if (auto q = dyn<ActivationModelWeightedQuadraticBarrierTpl<S> >(a)) q->set_weights(n.vec<S>(a->get_nr()).cwiseAbs());
    if (auto q = dyn<ActivationModelQuadraticBarrierTpl<S> >(a)) { const long k = a->get_nr(); q->set_bounds(ActivationBoundsTpl<S>(Vec<S>::Constant(k, S(-3. / 64)), Vec<S>::Constant(k, S(35. / 64)), S(0.5))); }
  };
  auto res = [&](P<ResidualModelAbstractTpl<S> > r) {
    if (auto q = dyn<ResidualModelControlTpl<S> >(r)) q->set_reference(n.vec<S>(r->get_nr()));
    if (auto q = dyn<ResidualModelJointAccelerationTpl<S> >(r)) q->set_reference(n.vec<S>(r->get_nr()));
    if (auto q = dyn<ResidualModelJointEffortTpl<S> >(r)) q->set_reference(n.vec<S>(r->get_nr()));
  };
  auto sat = [&](P<SquashingModelAbstractTpl<S> > s) {
    if (auto q = dyn<SquashingModelSmoothSatTpl<S> >(s)) { if (w % 2) q->set_smooth(S(std::fabs(n.next()))); else q->set_s_lb(n.vec<S>(s->get_ns())); }
  };
  std::function<void(P<DifferentialActionModelAbstractTpl<S> >)> diff = [&](P<DifferentialActionModelAbstractTpl<S> > m) {
    if (w % 3 == 0) m->set_u_lb(n.vec<S>(m->get_nu()));
    else if (w % 3 == 1) limits(m->get_state());
    else m->set_g_ub(n.vec<S>(m->get_ng()));
  };
  std::function<void(P<ActionModelAbstractTpl<S> >)> run = [&](P<ActionModelAbstractTpl<S> > m) {
    if (w % 4 == 0) m->set_u_ub(n.vec<S>(m->get_nu()));
    else if (w % 4 == 1) limits(m->get_state());
    else if (auto u = dyn<ActionModelUnicycleTpl<S> >(m)) { if (w % 4 == 2) u->set_dt(S(0.25)); else u->set_cost_weights(n.vec<S>(2)); }
    else if (auto g = dyn<IntegratedActionModelAbstractTpl<S> >(m)) { if (w % 4 == 2) g->set_dt(S(std::fabs(n.next()))); else diff(g->get_differential()); }
    else m->set_g_lb(n.vec<S>(m->get_ng()));
  };
  if (c.am) run(c.am);
  else if (c.dm) diff(c.dm);
  else if (c.cost) { if (w % 3 == 0) limits(c.cost->get_state()); else if (w % 3 == 1) act(c.cost->get_activation()); else res(c.cost->get_residual()); }
  else if (c.con) {
    if (w % 3 == 0) limits(c.con->get_state());
    else if (w % 3 == 1 && c.con->get_type() == ConstraintType::Inequality) { const long k = c.con->get_ng(); const Vec<S> lo = n.vec<S>(k); c.con->update_bounds(lo, lo + Vec<S>::Ones(k)); }
    else res(c.con->get_residual());
  }
  else if (c.act) act(c.act);
  else if (c.res) { if (w % 2) limits(c.res->get_state()); else res(c.res); }
  else if (c.asq) { if (auto q = dyn<ActuationSquashingModelTpl<S> >(c.asq)) sat(q->get_squashing()); }
  else if (c.sat) sat(c.sat);
  else if (c.sum) {
    for (const auto& i : c.sum->get_costs()) {
      if (w % 4 == 0) { c.sum->changeCostStatus(i.first, !i.second->active); break; }
      if (w % 4 == 1) i.second->weight = S(n.next());
      if (w % 4 == 2) act(i.second->cost->get_activation());
      if (w % 4 == 3) res(i.second->cost->get_residual());
    }
  } else if (c.man) {
    for (const auto& i : c.man->get_constraints()) {
      if (w % 2 == 0) { c.man->changeConstraintStatus(i.first, !i.second->active); break; }
      res(i.second->constraint->get_residual());
    }
  } else if (c.prob) {
    if (w % 3 == 0) c.prob->set_x0(n.vec<S>(c.prob->get_nx()));
    else { ++w; run(c.prob->get_runningModels()[0]); }
  } else if (c.st) limits(c.st);
}
// ------------------------------------------------------------- construction
typedef double D;
static double thr(double v) { return (2 * std::floor(8 * v) + 1) / 64.; }  // a threshold no input meets
static Mat<D> diag(Nums& n, long k) { Mat<D> m = Mat<D>::Zero(k, k); for (long i = 0; i < k; ++i) m(i, i) = std::fabs(n.next()) + 1; return m; }
static P<ActivationModelAbstract> mkact(long k, long nr, Nums& n) {
  Vec<D> lb(nr), ub(nr);
  for (long i = 0; i < nr; ++i) { const double a = thr(n.next()), b = thr(n.next()); lb[i] = std::min(a, b); ub[i] = std::max(a, b); }
  if (k % 3 == 1) lb[0] = -std::numeric_limits<double>::infinity();
  const ActivationBounds b(lb, ub, (k / 9) % 3 == 0 ? 1. : (k / 9) % 3 == 1 ? 0.5 : 0.75);
  const double al = std::fabs(thr(n.next())) + 0.5;
  switch (k % 9) {
    case 0: return std::make_shared<ActivationModelQuad>(nr);
    case 1: return std::make_shared<ActivationModelWeightedQuad>(n.vec<D>(nr).cwiseAbs());
    case 2: return std::make_shared<ActivationModel2NormBarrier>(nr, al, (k / 9) % 2);
    case 3: return std::make_shared<ActivationModelSmooth1Norm>(nr, al);
    case 4: return std::make_shared<ActivationModelSmooth2Norm>(nr, al);
    case 5: return std::make_shared<ActivationModelQuadFlatExp>(nr, al);
    case 6: return std::make_shared<ActivationModelQuadFlatLog>(nr, al);
    case 7: return std::make_shared<ActivationModelQuadraticBarrier>(b);
    default: return std::make_shared<ActivationModelWeightedQuadraticBarrier>(b, n.vec<D>(nr).cwiseAbs());
  }
}
static P<StateVector> mkstate(long nx, Nums& n, long lim) {
  auto s = std::make_shared<StateVector>(nx);
  if (lim % 2) s->set_ub(n.vec<D>(nx));
  if (lim % 3 == 1) s->set_lb(n.vec<D>(nx));
  return s;
}
static P<ResidualModelAbstract> mkres(long k, P<StateAbstract> st, long nu, Nums& n) {
  const long nv = st->get_nv();
  if (k % 3 == 0) return std::make_shared<ResidualModelControl>(st, n.vec<D>(nu));
  if (k % 3 == 1) return std::make_shared<ResidualModelJointAcceleration>(st, n.vec<D>(nv), nu);
  return std::make_shared<ResidualModelJointEffort>(st, std::make_shared<OwnActuation<D> >(st, nu), n.vec<D>(nu), nu, (k / 3) % 2);
}
static P<SquashingModelAbstract> mksat(long ns, Nums& n, long k) {
  Vec<D> lb = n.vec<D>(ns), ub = lb + n.vec<D>(ns).cwiseAbs() + Vec<D>::Ones(ns);
  auto s = std::make_shared<SquashingModelSmoothSat>(lb, ub, ns);
  if (k % 2) s->set_smooth(std::fabs(n.next()) + 0.125);
  if (k % 3 == 1) s->set_s_ub(n.vec<D>(ns));
  return s;
}
static P<ControlParametrizationModelAbstract> mkctl(long k, long nw) {
  if (k % 5 == 0) return std::make_shared<ControlParametrizationModelPolyZero>(nw);
  if (k % 5 == 1) return std::make_shared<ControlParametrizationModelPolyOne>(nw);
  return std::make_shared<ControlParametrizationModelPolyTwoRK>(nw, k % 5 == 2 ? RKType::two : k % 5 == 3 ? RKType::three : RKType::four);
}
template <typename T>
static void limits(T& m, Nums& n, long k) {
  if (k % 2) m.set_u_lb(n.vec<D>(m.get_nu()));
  if (k % 3 == 1) m.set_u_ub(n.vec<D>(m.get_nu()));
  if (k % 5 == 2) m.set_g_lb(n.vec<D>(m.get_ng()));
  if (k % 2) m.get_state()->set_lb(n.vec<D>(m.get_state()->get_nx()));
}
static P<DifferentialActionModelAbstract> mkdiff(long k, Nums& n) {
  const long nq = 1 + k % 2, nu = 1 + (k / 2) % 2, nx = 2 * nq, ng = (k / 4) % 2, nh = (k / 8) % 2;
  auto m = std::make_shared<DifferentialActionModelLQR>(n.mat<D>(nq, nq), n.mat<D>(nq, nq), n.mat<D>(nq, nu), diag(n, nx), diag(n, nu), Mat<D>::Zero(nx, nu), n.mat<D>(ng, nx + nu), n.mat<D>(nh, nx + nu), n.vec<D>(nq), n.vec<D>(nx), n.vec<D>(nu), n.vec<D>(ng), n.vec<D>(nh));
  limits(*m, n, k);
  return m;
}
static P<ActionModelAbstract> mkact2(long k, long j, Nums& n, bool four) {
  P<ActionModelAbstract> m;
  if (k % 4 == 0 && !four) m = std::make_shared<ActionModelUnicycle>();
  else if (k % 4 == 1) {
    const long nx = four ? 4 : 1 + j % 3, nu = 1 + (j / 3) % 2, ng = (j / 6) % 2, nh = (j / 12) % 2;
    m = std::make_shared<ActionModelLQR>(n.mat<D>(nx, nx), n.mat<D>(nx, nu), diag(n, nx), diag(n, nu), Mat<D>::Zero(nx, nu), n.mat<D>(ng, nx + nu), n.mat<D>(nh, nx + nu), n.vec<D>(nx), n.vec<D>(nx), n.vec<D>(nu), n.vec<D>(ng), n.vec<D>(nh));
  } else {
    auto d = mkdiff(four ? 2 * j + 1 : j, n);
    const double dt = std::fabs(n.next()) + 0.125;
    auto c = mkctl(j / 2, d->get_nu());
    if (k % 4 == 2) m = j % 3 ? std::make_shared<IntegratedActionModelEuler>(d, c, dt, j % 2) : std::make_shared<IntegratedActionModelEuler>(d, dt, j % 2);
    else { const RKType t = j % 3 == 0 ? RKType::two : j % 3 == 1 ? RKType::three : RKType::four; m = (j / 3) % 3 ? std::make_shared<IntegratedActionModelRK>(d, c, t, dt, j % 2) : std::make_shared<IntegratedActionModelRK>(d, t, dt, j % 2); }
    if (j % 4 == 3) return m;  // limits of the continuous model only
  }
  if (j % 2) m->set_u_lb(n.vec<D>(m->get_nu()));
  if (j % 3 == 1) m->set_u_ub(n.vec<D>(m->get_nu()));
  if (j % 5 == 1) m->get_state()->set_lb(n.vec<D>(m->get_state()->get_nx()));
  if (auto u = dyn<ActionModelUnicycle>(m)) { u->set_dt(std::fabs(n.next()) + 0.125); u->set_cost_weights(n.vec<D>(2)); }
  return m;
}
static Comp<D> build(const std::string& kind, long j, long k, Nums n) {
  Comp<D> c;
  if (kind == "state") c.st = mkstate(1 + k % 5, n, j);
  else if (kind == "ndstate") c.st = std::make_shared<StateNumDiff>(mkstate(1 + k % 5, n, j));
  else if (kind == "action") c.am = mkact2(k, j, n, false);
  else if (kind == "ndaction") c.am = std::make_shared<ActionModelNumDiff>(mkact2(k, j, n, false), (j / 2) % 2);
  else if (kind == "diff") c.dm = mkdiff(k, n);
  else if (kind == "nddiff") c.dm = std::make_shared<DifferentialActionModelNumDiff>(mkdiff(k, n), j % 2);
  else if (kind == "act") c.act = mkact(k, 1 + j % 3, n);
  else if (kind == "res") c.res = mkres(k, mkstate(4, n, j), 1 + j % 2, n);
  else if (kind == "cost") {
    auto st = mkstate(4, n, j);
    auto r = mkres(k, st, 1 + j % 2, n);
    const long nr = r->get_nr();
    c.cost = j % 5 == 0 ? std::make_shared<CostModelResidual>(st, r) : std::make_shared<CostModelResidual>(st, mkact(j, nr, n), r);
  } else if (kind == "con") {
    auto st = mkstate(4, n, j);
    auto r = mkres(k, st, 1 + j % 2, n);
    const long nr = r->get_nr();
    Vec<D> lo = n.vec<D>(nr);
    const Vec<D> up = lo + n.vec<D>(nr).cwiseAbs();
    if (j % 7 == 0) lo[0] = -std::numeric_limits<double>::infinity();
    c.con = j % 3 ? std::make_shared<ConstraintModelResidual>(st, r, lo, up, (j / 2) % 2) : std::make_shared<ConstraintModelResidual>(st, r, (j / 2) % 2);
  } else if (kind == "sum" || kind == "man") {
    auto st = mkstate(4, n, j);
    const long nu = 1 + j % 2;
    if (kind == "sum") c.sum = std::make_shared<CostModelSum>(st, nu); else c.man = std::make_shared<ConstraintModelManager>(st, nu);
    static const char* nm[4] = {"b", "a", "d", "c"};
    for (long i = 0; i < k % 5; ++i) {
      auto r = std::make_shared<ResidualModelControl>(st, n.vec<D>(nu));
      const bool on = ((j >> i) & 1) == 0;
      if (kind == "sum") c.sum->addCost(nm[i % 4], std::make_shared<CostModelResidual>(st, mkact(j + 2 * i, nu, n), r), n.next(), on);
      else {
        const Vec<D> lo = n.vec<D>(nu), up = lo + n.vec<D>(nu).cwiseAbs();
        c.man->addConstraint(nm[i % 4], (j + i) % 2 ? std::make_shared<ConstraintModelResidual>(st, r, lo, up, i % 3 != 0) : std::make_shared<ConstraintModelResidual>(st, r, i % 3 != 1), on);
      }
    }
  } else if (kind == "ctl") c.ctl = mkctl(k, 1 + j % 3);
  else if (kind == "ndctl") c.ctl = std::make_shared<ControlParametrizationModelNumDiff>(mkctl(k, 1 + j % 3));
  else if (kind == "sat") c.sat = mksat(1 + j % 3, n, k);
  else if (kind == "asq") {
    const long nu = 1 + j % 2;
    auto st = mkstate(4, n, j);
    c.asq = std::make_shared<ActuationSquashingModel>(std::make_shared<OwnActuation<D> >(st, nu), mksat(nu, n, k), nu);
  } else {
    const long T = 1 + k % 3;
    std::vector<P<ActionModelAbstract> > ms;
    for (long t = 0; t < T; ++t) ms.push_back(t == 2 ? ms[0] : mkact2(1 + (j + t) % 3, j + 5 * t, n, true));
    c.prob = std::make_shared<ShootingProblem>(n.vec<D>(4), ms, mkact2(1 + j % 3, j + 2, n, true));
  }
  return c;
}
template <typename S>
static tr::Obj rep(const std::string& slot, const Comp<S>& c, const char* prec) {
  Desc d = desc(c);
  tr::Obj o;
  return o.str("s", slot).str("prec", prec).raw("nums", d.nums.text()).raw("tags", d.tags.text());
}

int main(int, char** argv) {
  std::cerr.setstate(std::ios::failbit);
  std::cout.setstate(std::ios::failbit);
  tr::Out out(argv[2]);
  std::map<std::string, Comp<double> > ds;
  std::map<std::string, Comp<float> > fs;
  for (const tr::Op& op : tr::readops(argv[1])) {
    tr::Obj o;
    o.str("op", op.name).raw("in", op.s("json"));
    if (op.name == "build") {
      ds.clear(); fs.clear();
      Nums n; n.p = op.v("p");
      ds["a"] = build(op.s("kind"), op.i("j"), op.i("k"), n);
    } else if (op.name == "cast") {
      const std::string a = op.s("s"), b = op.s("t");
      if (ds.count(a)) { Comp<float> r = convert<float>(ds[a], true); ds.erase(b); fs[b] = r; }
      else { Comp<double> r = convert<double>(fs[a], true); fs.erase(b); ds[b] = r; }
    } else if (op.name == "change") {
      const std::string a = op.s("s");
      Nums n; n.p = op.v("p");
      if (ds.count(a)) change(ds[a], n, op.i("w")); else change(fs[a], n, op.i("w"));
    } else if (op.name == "eval") {
      Nums n; n.p = op.v("p");
      std::vector<tr::Obj> l;
      auto put = [&](const std::string& s, const OutV& v) {
        tr::Obj r;
        r.str("s", s).vec("v", v.vals).vec("d", v.ders);
        l.push_back(r);
      };
      for (const auto& p : ds) { OutV v; eval(v, p.second, n, op.b("t")); put(p.first, v); }
      for (const auto& p : fs) { OutV v; eval(v, p.second, n, op.b("t")); put(p.first, v); }
      o.objs("ev", l);
    }
    std::vector<tr::Obj> l;
    for (const auto& p : ds) l.push_back(rep(p.first, p.second, "double"));
    for (const auto& p : fs) l.push_back(rep(p.first, p.second, "float"));
    o.objs("os", l);
    out.line(o);
  }
  return 0;
}
