// LINK: mb/states/.* mb/contact-base mb/force-base action-base diff-action-base state-base states/euclidean control-base actuation-base activation-base cost-base residual-base constraint-base data-collector-base activations/weighted-quadratic numdiff/.* utils/.*
// OPTS: minipin
// Finite-difference wrappers around components written by "the user" as cubic functions.
#include <boost/function.hpp>
#include <functional>
#include <map>
#include "crocoddyl/core/activations/weighted-quadratic.hpp"
#include "crocoddyl/core/constraint-base.hpp"
#include "crocoddyl/core/cost-base.hpp"
#include "crocoddyl/core/numdiff/action.hpp"
#include "crocoddyl/core/numdiff/activation.hpp"
#include "crocoddyl/core/numdiff/actuation.hpp"
#include "crocoddyl/core/numdiff/constraint.hpp"
#include "crocoddyl/core/numdiff/control.hpp"
#include "crocoddyl/core/numdiff/cost.hpp"
#include "crocoddyl/core/numdiff/diff-action.hpp"
#include "crocoddyl/core/numdiff/residual.hpp"
#include "crocoddyl/core/numdiff/state.hpp"
#include "crocoddyl/multibody/contact-base.hpp"
#include "crocoddyl/multibody/numdiff/contact.hpp"
#include "crocoddyl/multibody/states/multibody.hpp"
#include "dmodel.hpp"
#include "fmodel.hpp"
#include "mb.hpp"
template class crocoddyl::CostModelNumDiffTpl<double>;
template struct crocoddyl::CostDataNumDiffTpl<double>;
using namespace crocoddyl;
using dm::M;
using dm::State;
using dm::V;
using fm::Fn;
using fm::cat;
typedef Eigen::Ref<const V> RV;

struct Fns {
  std::map<std::string, Fn> f;
  Fns(const tr::Op& o, const std::string& names) {
    for (char c : names) for (const char* p : {"R", "E"}) if (o.has(std::string(p) + c + "n")) f[std::string(p) + c] = Fn(o, std::string(p) + c);
  }
  V run(char c, const V& x, const V& u) const { return f.at(std::string("R") + c).val(cat(x, u)); }
  V end(char c, const V& x) const { return f.at(std::string("E") + c).val(x); }
};
static std::shared_ptr<State> space(const tr::Op& o) {
  std::shared_ptr<State> s;
  if (o.s("st") == "heis") s = std::make_shared<dm::HeisState>();
  else s = std::make_shared<StateVector>(o.i("nx"));
  s->set_lb(o.v("xlb"));
  s->set_ub(o.v("xub"));
  return s;
}
#define NOCLONE(B) \
  std::shared_ptr<B> cloneAsDouble() const override { return nullptr; } \
  std::shared_ptr<B> cloneAsFloat() const override { return nullptr; }

struct Act : public ActionModelAbstract {
  Fns F;
  bool heis;
  Act(std::shared_ptr<State> s, const tr::Op& o)
      : ActionModelAbstract(s, o.i("nu"), o.i("nr"), o.i("ng"), o.i("nh"), o.i("ngT"), o.i("nhT")), F(o, "flrgh"), heis(o.s("st") == "heis") {
    set_u_lb(o.v("ulb")); set_u_ub(o.v("uub")); set_g_lb(o.v("glb")); set_g_ub(o.v("gub"));
  }
  typedef std::shared_ptr<ActionDataAbstract> D;
  void calc(const D& d, const RV& x, const RV& u) override {
    state_->integrate(x, F.run('f', x, u), d->xnext);
    d->cost = F.run('l', x, u)[0]; d->r = F.run('r', x, u); d->g = F.run('g', x, u); d->h = F.run('h', x, u);
  }
  void calc(const D& d, const RV& x) override {
    d->xnext = x;
    d->cost = F.end('l', x)[0]; d->r = F.end('r', x); d->g = F.end('g', x); d->h = F.end('h', x);
  }
  void calcDiff(const D& d, const RV& x, const RV& u) override {
    const long n = state_->get_ndx();
    const V v = F.run('f', x, u);
    const M J = F.f.at("Rf").jac(cat(x, u)), T = heis ? dm::HeisState::tangent(x) : M(M::Identity(n, n));
    const M a = heis ? dm::HeisState::jac(1., v) : M(M::Identity(n, n)), b = heis ? dm::HeisState::jac(.5, v) : M(M::Identity(n, n));
    d->Fx = a + b * J.leftCols(n) * T;
    d->Fu = b * J.rightCols(nu_);
  }
  void calcDiff(const D&, const RV&) override {}
  NOCLONE(ActionModelBase)
};
struct Dam : public DifferentialActionModelAbstract {
  Fns F;
  bool heis;
  Dam(std::shared_ptr<State> s, const tr::Op& o)
      : DifferentialActionModelAbstract(s, o.i("nu"), o.i("nr"), o.i("ng"), o.i("nh"), o.i("ngT"), o.i("nhT")), F(o, "alrgh"), heis(o.s("st") == "heis") {
    set_u_lb(o.v("ulb")); set_u_ub(o.v("uub")); set_g_lb(o.v("glb")); set_g_ub(o.v("gub"));
  }
  typedef std::shared_ptr<DifferentialActionDataAbstract> D;
  void calc(const D& d, const RV& x, const RV& u) override {
    d->xout = F.run('a', x, u);
    d->cost = F.run('l', x, u)[0]; d->r = F.run('r', x, u); d->g = F.run('g', x, u); d->h = F.run('h', x, u);
  }
  void calc(const D& d, const RV& x) override { d->cost = F.end('l', x)[0]; d->r = F.end('r', x); d->g = F.end('g', x); d->h = F.end('h', x); }
  void calcDiff(const D& d, const RV& x, const RV& u) override {
    const long n = state_->get_ndx();
    const M J = F.f.at("Ra").jac(cat(x, u)), T = heis ? dm::HeisState::tangent(x) : M(M::Identity(n, n));
    d->Fx = J.leftCols(n) * T;
    d->Fu = J.rightCols(nu_);
  }
  void calcDiff(const D&, const RV&) override {}
  NOCLONE(DifferentialActionModelBase)
};
struct Actv : public ActivationModelAbstract {
  Fns F;
  explicit Actv(const tr::Op& o) : ActivationModelAbstract(o.i("nx")), F(o, "v") {}
  typedef std::shared_ptr<ActivationDataAbstract> D;
  void calc(const D& d, const RV& r) override { d->a_value = F.run('v', r, V(0))[0]; }
  void calcDiff(const D&, const RV&) override {}
  NOCLONE(ActivationModelBase)
};
struct Ctl : public ControlParametrizationModelAbstract {
  Fns F;
  explicit Ctl(const tr::Op& o) : ControlParametrizationModelAbstract(o.i("nw"), o.i("nu")), F(o, "w") {}
  typedef std::shared_ptr<ControlParametrizationDataAbstract> D;
  void calc(const D& d, const double t, const RV& u) const override { d->w = F.run('w', V::Constant(1, t), u); }
  void calcDiff(const D&, const double, const RV&) const override {}
  void params(const D& d, const double t, const RV& w) const override { for (long i = 0; i < d->u.size(); ++i) d->u[i] = t + (i + 1) * w[i % w.size()]; }
  void convertBounds(const RV& a, const RV& b, Eigen::Ref<V> c, Eigen::Ref<V> d) const override {
    for (long i = 0; i < c.size(); ++i) { c[i] = 2 * a[i % a.size()]; d[i] = 3 * b[i % b.size()]; }
  }
  void multiplyByJacobian(const D&, const Eigen::Ref<const M>&, Eigen::Ref<M>, const AssignmentOp) const override {}
  void multiplyJacobianTransposeBy(const D&, const Eigen::Ref<const M>&, Eigen::Ref<M>, const AssignmentOp) const override {}
  NOCLONE(ControlParametrizationModelBase)
};
struct Coll : public DataCollectorAbstract {
  V x, u;
};
static bool g_shared = false;
template <typename D>
static V px(const D& d, const RV& x) { return g_shared ? static_cast<Coll*>(d->shared)->x : V(x); }
template <typename D>
static V pu(const D& d, const RV& u) { return g_shared ? static_cast<Coll*>(d->shared)->u : V(u); }
struct Cst : public CostModelAbstract {
  Fns F;
  Cst(std::shared_ptr<State> s, const tr::Op& o)
      : CostModelAbstract(s, std::make_shared<ActivationModelWeightedQuad>(o.v("wts")), std::size_t(o.i("nu"))), F(o, "lr") {}
  typedef std::shared_ptr<CostDataAbstract> D;
  void calc(const D& d, const RV& x, const RV& u) override {
    const V a = px(d, x), b = pu(d, u);
    d->cost = F.run('l', a, b)[0]; d->residual->r = F.run('r', a, b);
  }
  void calc(const D& d, const RV& x) override { const V a = px(d, x); d->cost = F.end('l', a)[0]; d->residual->r = F.end('r', a); }
  void calcDiff(const D&, const RV&, const RV&) override {}
  void calcDiff(const D&, const RV&) override {}
  NOCLONE(CostModelBase)
};
struct Res : public ResidualModelAbstract {
  Fns F;
  Res(std::shared_ptr<State> s, const tr::Op& o) : ResidualModelAbstract(s, o.i("nr"), std::size_t(o.i("nu"))), F(o, "r") {}
  typedef std::shared_ptr<ResidualDataAbstract> D;
  void calc(const D& d, const RV& x, const RV& u) override { d->r = F.run('r', px(d, x), pu(d, u)); }
  void calc(const D& d, const RV& x) override { d->r = F.end('r', px(d, x)); }
  NOCLONE(ResidualModelBase)
};
struct Con : public ConstraintModelAbstract {
  Fns F;
  Con(std::shared_ptr<State> s, const tr::Op& o) : ConstraintModelAbstract(s, o.i("nu"), o.i("ng"), o.i("nh"), o.b("T")), F(o, "gh") {
    if (ng_ > 0) update_bounds(o.v("glb"), o.v("gub"));
  }
  typedef std::shared_ptr<ConstraintDataAbstract> D;
  void calc(const D& d, const RV& x, const RV& u) override { const V a = px(d, x), b = pu(d, u); d->g = F.run('g', a, b); d->h = F.run('h', a, b); }
  void calc(const D& d, const RV& x) override { const V a = px(d, x); d->g = F.end('g', a); d->h = F.end('h', a); }
  void calcDiff(const D&, const RV&, const RV&) override {}
  void calcDiff(const D&, const RV&) override {}
  NOCLONE(ConstraintModelBase)
};
struct Atn : public ActuationModelAbstract {
  Fns F;
  Atn(std::shared_ptr<State> s, const tr::Op& o) : ActuationModelAbstract(s, o.i("nu")), F(o, "t") {}
  typedef std::shared_ptr<ActuationDataAbstract> D;
  void calc(const D& d, const RV& x, const RV& u) override { d->tau = F.run('t', x, u); }
  void calcDiff(const D&, const RV&, const RV&) override {}
  void commands(const D& d, const RV& x, const RV& tau) override { for (long i = 0; i < d->u.size(); ++i) d->u[i] = x[0] + (i + 1) * tau[i % tau.size()]; }
  void torqueTransform(const D& d, const RV& x, const RV& u) override {
    for (long i = 0; i < d->Mtau.rows(); ++i) for (long j = 0; j < d->Mtau.cols(); ++j) d->Mtau(i, j) = x[0] + u[0] + 3 * i + j;
  }
  NOCLONE(ActuationModelBase)
};

// Contacts: the drift is function d and the Jacobian function j; forces are passed to the body in a way of its own.
struct Ctc : public ContactModelAbstract {
  Fns F;
  Ctc(std::shared_ptr<StateMultibody> s, const tr::Op& o)
      : ContactModelAbstract(s, o.b("T") ? pinocchio::WORLD : pinocchio::LOCAL_WORLD_ALIGNED, o.i("nr"), o.i("nu")), F(o, "dj") { id_ = 1 + o.i("nu"); }
  typedef std::shared_ptr<ContactDataAbstract> D;
  void calc(const D& d, const RV& x) override {
    const V p = g_shared ? coll_of(d) : V(x);
    d->a0 = F.run('d', p, V(0));
    const V j = F.run('j', p, V(0));
    for (long r = 0; r < d->Jc.rows(); ++r) for (long c = 0; c < d->Jc.cols(); ++c) d->Jc(r, c) = j[r * d->Jc.cols() + c];
  }
  static V coll_of(const D& d) { return d->pinocchio->tau; }
  void calcDiff(const D&, const RV&) override {}
  void updateForce(const D& d, const V& f) override {
    for (int i = 0; i < 6; ++i) {
      d->f.toVector()[i] = (i + 1) * (f.size() ? f[i % f.size()] : 3.);
      d->fext.toVector()[i] = 7 - i * (f.size() ? f[0] : 2.) + d->a0.sum();
    }
    d->dtau_dq.setConstant(f.sum() - d->Jc.sum());
  }
  D createData(pinocchio::Data* const p) override {
    D d = std::make_shared<ContactDataAbstract>(this, p);
    d->frame = id_;
    d->jMf.translation() << 1., 2., double(nu_);
    d->fXj = d->jMf.inverse().toActionMatrix();
    return d;
  }
  NOCLONE(ContactModelBase)
};

// What a history works with, whatever the component.
struct Kit {
  std::function<std::shared_ptr<void>(bool)> mk;                              // data of the wrapper or of the wrapped model
  std::function<void(bool, std::shared_ptr<void>, const V&, const V&, bool)> calc;  // on the wrapper or the wrapped model
  std::function<void(std::shared_ptr<void>, const V&, const V&, bool)> diff;
  std::function<tr::Obj(std::shared_ptr<void>, bool)> value;
  std::function<tr::Obj(std::shared_ptr<void>, bool)> derivs;
  std::function<tr::Obj(bool)> report;
  std::function<void(double)> dist;
  std::function<double()> dist0;
  std::function<V(bool, std::shared_ptr<void>, const V&)> quasi;
  std::function<tr::Obj(bool, std::shared_ptr<void>, const V&, const V&, const V&)> pass;
};
static Coll coll;
static void lims(tr::Obj& o, const std::shared_ptr<State>& s) {
  o.i("nx", s->get_nx()).i("ndx", s->get_ndx()).vec("xlb", s->get_lb()).vec("xub", s->get_ub()).b("xhas", s->get_has_limits());
}
template <typename MD>
static tr::Obj mreport(const MD& m) {
  tr::Obj o;
  o.i("nu", m->get_nu()).i("nr", m->get_nr()).i("ng", m->get_ng()).i("nh", m->get_nh()).i("ngT", m->get_ng_T()).i("nhT", m->get_nh_T());
  o.vec("ulb", m->get_u_lb()).vec("uub", m->get_u_ub()).b("uhas", m->get_has_control_limits()).vec("glb", m->get_g_lb()).vec("gub", m->get_g_ub());
  lims(o, m->get_state());
  return o;
}
template <typename W, typename B, typename DD>
static void common(Kit& k, const std::shared_ptr<W>& w, const std::shared_ptr<B>& b) {
  k.calc = [=](bool wr, std::shared_ptr<void> d0, const V& x, const V& u, bool t) {
    auto d = std::static_pointer_cast<DD>(d0);
    coll.x = x;
    coll.u = u;
    if (wr) { if (t) w->calc(d, x); else w->calc(d, x, u); }
    else { if (t) b->calc(d, x); else b->calc(d, x, u); }
  };
  k.diff = [=](std::shared_ptr<void> d0, const V& x, const V& u, bool t) {
    auto d = std::static_pointer_cast<DD>(d0);
    coll.x = x;
    coll.u = u;
    if (t) w->calcDiff(d, x); else w->calcDiff(d, x, u);
  };
}
template <typename W>
static void disturbance(Kit& k, const std::shared_ptr<W>& w) {
  k.dist = [=](double v) { w->set_disturbance(v); };
  k.dist0 = [=]() { return w->get_disturbance(); };
}
template <typename MD>
static std::vector<boost::function<void(const V&, const V&)> > reevals() {
  std::vector<boost::function<void(const V&, const V&)> > r;
  r.push_back([](const V& x, const V& u) { coll.x = x; coll.u = u; });
  return r;
}
static Kit make(const tr::Op& o) {
  Kit k;
  const std::string kind = o.s("kind");
  g_shared = o.b("shared");
  std::shared_ptr<State> st;
  if (kind != "act" && kind != "ctl" && kind != "ctc") st = space(o);
  if (kind == "action") {
    auto b = std::make_shared<Act>(st, o);
    auto w = std::make_shared<ActionModelNumDiff>(b, o.b("gauss"));
    typedef ActionDataAbstract DD;
    common<ActionModelNumDiff, Act, DD>(k, w, b);
    disturbance(k, w);
    k.mk = [=](bool wr) { return std::static_pointer_cast<void>(wr ? w->createData() : b->createData()); };
    k.value = [](std::shared_ptr<void> d0, bool t) { auto d = std::static_pointer_cast<DD>(d0); tr::Obj v; if (!t) v.vec("f", d->xnext); v.vec("l", V::Constant(1, d->cost)).vec("r", d->r).vec("g", d->g).vec("h", d->h); return v; };
    k.derivs = [](std::shared_ptr<void> d0, bool t) {
      auto d = std::static_pointer_cast<DD>(d0);
      tr::Obj x, u, r;
      x.mat("l", M(d->Lx.transpose())).mat("g", d->Gx).mat("h", d->Hx);
      r.mat("xx", d->Lxx);
      if (!t) { x.mat("f", d->Fx); u.mat("f", d->Fu).mat("l", M(d->Lu.transpose())).mat("g", d->Gu).mat("h", d->Hu); r.mat("xu", d->Lxu).mat("uu", d->Luu).raw("u", u.text()); }
      r.raw("x", x.text());
      return r;
    };
    k.report = [=](bool wr) { return wr ? mreport(std::static_pointer_cast<ActionModelAbstract>(w)).b("model", w->get_model() == b) : mreport(b); };
    k.quasi = [=](bool wr, std::shared_ptr<void> d0, const V& x) { V u = V::Zero(b->get_nu()); auto d = std::static_pointer_cast<DD>(d0); if (wr) w->quasiStatic(d, u, x, 5, 1e-6); else b->quasiStatic(d, u, x, 5, 1e-6); return u; };
  } else if (kind == "da") {
    auto b = std::make_shared<Dam>(st, o);
    auto w = std::make_shared<DifferentialActionModelNumDiff>(b, o.b("gauss"));
    typedef DifferentialActionDataAbstract DD;
    common<DifferentialActionModelNumDiff, Dam, DD>(k, w, b);
    disturbance(k, w);
    k.mk = [=](bool wr) { return std::static_pointer_cast<void>(wr ? w->createData() : b->createData()); };
    k.value = [](std::shared_ptr<void> d0, bool t) { auto d = std::static_pointer_cast<DD>(d0); tr::Obj v; if (!t) v.vec("a", d->xout); v.vec("l", V::Constant(1, d->cost)).vec("r", d->r).vec("g", d->g).vec("h", d->h); return v; };
    k.derivs = [](std::shared_ptr<void> d0, bool t) {
      auto d = std::static_pointer_cast<DD>(d0);
      tr::Obj x, u, r;
      x.mat("l", M(d->Lx.transpose())).mat("g", d->Gx).mat("h", d->Hx);
      r.mat("xx", d->Lxx);
      if (!t) { x.mat("a", d->Fx); u.mat("a", d->Fu).mat("l", M(d->Lu.transpose())).mat("g", d->Gu).mat("h", d->Hu); r.mat("xu", d->Lxu).mat("uu", d->Luu).raw("u", u.text()); }
      r.raw("x", x.text());
      return r;
    };
    k.report = [=](bool wr) { return wr ? mreport(std::static_pointer_cast<DifferentialActionModelAbstract>(w)).b("model", w->get_model() == b) : mreport(b); };
    k.quasi = [=](bool wr, std::shared_ptr<void> d0, const V& x) { V u = V::Zero(b->get_nu()); auto d = std::static_pointer_cast<DD>(d0); if (wr) w->quasiStatic(d, u, x, 5, 1e-6); else b->quasiStatic(d, u, x, 5, 1e-6); return u; };
  } else if (kind == "act") {
    auto b = std::make_shared<Actv>(o);
    auto w = std::make_shared<ActivationModelNumDiffTpl<double> >(b);
    typedef ActivationDataAbstract DD;
    disturbance(k, w);
    k.mk = [=](bool wr) { return std::static_pointer_cast<void>(wr ? w->createData() : b->createData()); };
    k.calc = [=](bool wr, std::shared_ptr<void> d0, const V& x, const V&, bool) { auto d = std::static_pointer_cast<DD>(d0); if (wr) w->calc(d, x); else b->calc(d, x); };
    k.diff = [=](std::shared_ptr<void> d0, const V& x, const V&, bool) { w->calcDiff(std::static_pointer_cast<DD>(d0), x); };
    k.value = [](std::shared_ptr<void> d0, bool) { tr::Obj v; v.vec("v", V::Constant(1, std::static_pointer_cast<DD>(d0)->a_value)); return v; };
    k.derivs = [](std::shared_ptr<void> d0, bool) { tr::Obj x, r; x.mat("v", M(std::static_pointer_cast<DD>(d0)->Ar.transpose())); r.raw("x", x.text()); return r; };
    k.report = [=](bool wr) { tr::Obj r; r.i("nx", wr ? w->get_nr() : b->get_nr()); if (wr) r.b("model", w->get_model() == b); return r; };
  } else if (kind == "ctl") {
    auto b = std::make_shared<Ctl>(o);
    auto w = std::make_shared<ControlParametrizationModelNumDiffTpl<double> >(b);
    typedef ControlParametrizationDataAbstract DD;
    disturbance(k, w);
    k.mk = [=](bool wr) { return std::static_pointer_cast<void>(wr ? w->createData() : b->createData()); };
    k.calc = [=](bool wr, std::shared_ptr<void> d0, const V& x, const V& u, bool) { auto d = std::static_pointer_cast<DD>(d0); if (wr) w->calc(d, x[0], u); else b->calc(d, x[0], u); };
    k.diff = [=](std::shared_ptr<void> d0, const V& x, const V& u, bool) { w->calcDiff(std::static_pointer_cast<DD>(d0), x[0], u); };
    k.value = [](std::shared_ptr<void> d0, bool) { tr::Obj v; v.vec("w", std::static_pointer_cast<DD>(d0)->w); return v; };
    k.derivs = [](std::shared_ptr<void> d0, bool) { tr::Obj u, r; u.mat("w", std::static_pointer_cast<DD>(d0)->dw_du); r.raw("u", u.text()); return r; };
    k.report = [=](bool wr) { tr::Obj r; r.i("nw", wr ? w->get_nw() : b->get_nw()).i("nu", wr ? w->get_nu() : b->get_nu()); if (wr) r.b("model", w->get_model() == b); return r; };
    k.pass = [=](bool wr, std::shared_ptr<void> d0, const V& x, const V& u, const V& p) {
      auto d = std::static_pointer_cast<DD>(d0);
      std::shared_ptr<ControlParametrizationModelAbstract> m = w;
      if (!wr) m = b;
      const long nw = b->get_nw(), nu = b->get_nu();
      V c(nu), e(nu);
      m->params(d, x[0], p.head(nw));
      m->convertBounds(p.head(nw), p.segment(3, nw), c, e);
      tr::Obj r;
      r.vec("p", d->u).vec("lb", c).vec("ub", e);
      // products with the derivative computed last
      if (wr) {
        w->calc(d, x[0], u);
        w->calcDiff(d, x[0], u);
        const M A = M::Constant(2, nw, p[0]) + M::Identity(2, nw), B = M::Constant(nw, 2, p[1]) + M::Identity(nw, 2), O = M::Constant(2, nu, p[2]), P = M::Constant(nu, 2, p[3]), J = d->dw_du;
        auto err = [](const M& a, const M& b) { return a.size() ? (a - b).cwiseAbs().maxCoeff() : 0.; };
        double e2 = 0;
        M o = O, q = P;
        w->multiplyByJacobian(d, A, o, setto); e2 = std::max(e2, err(o, A * J));
        w->multiplyJacobianTransposeBy(d, B, q, setto); e2 = std::max(e2, err(q, J.transpose() * B));
        o = O; q = P;
        w->multiplyByJacobian(d, A, o, addto); e2 = std::max(e2, err(o, O + A * J));
        w->multiplyJacobianTransposeBy(d, B, q, addto); e2 = std::max(e2, err(q, P + J.transpose() * B));
        o = O; q = P;
        w->multiplyByJacobian(d, A, o, rmfrom); e2 = std::max(e2, err(o, O - A * J));
        w->multiplyJacobianTransposeBy(d, B, q, rmfrom); e2 = std::max(e2, err(q, P - J.transpose() * B));
        r.d("prod", e2);
      } else r.d("prod", 0.);
      return r;
    };
  } else if (kind == "cost") {
    auto b = std::make_shared<Cst>(st, o);
    auto w = std::make_shared<CostModelNumDiffTpl<double> >(b);
    if (g_shared) w->set_reevals(reevals<Cst>());
    typedef CostDataAbstract DD;
    common<CostModelNumDiffTpl<double>, Cst, DD>(k, w, b);
    disturbance(k, w);
    k.mk = [=](bool wr) { return std::static_pointer_cast<void>(wr ? w->createData(&coll) : b->createData(&coll)); };
    k.value = [](std::shared_ptr<void> d0, bool) { auto d = std::static_pointer_cast<DD>(d0); tr::Obj v; v.vec("l", V::Constant(1, d->cost)).vec("r", d->residual->r); return v; };
    k.derivs = [](std::shared_ptr<void> d0, bool t) {
      auto d = std::static_pointer_cast<DD>(d0);
      tr::Obj x, u, r;
      x.mat("l", M(d->Lx.transpose()));
      r.mat("xx", d->Lxx);
      if (!t) { u.mat("l", M(d->Lu.transpose())); r.mat("xu", d->Lxu).mat("uu", d->Luu).raw("u", u.text()); }
      r.raw("x", x.text());
      return r;
    };
    k.report = [=](bool wr) { tr::Obj r; lims(r, wr ? w->get_state() : b->get_state()); r.i("nu", wr ? w->get_nu() : b->get_nu()).i("nr", wr ? w->get_activation()->get_nr() : b->get_activation()->get_nr()); if (wr) r.b("model", w->get_model() == b); return r; };
  } else if (kind == "res") {
    auto b = std::make_shared<Res>(st, o);
    auto w = std::make_shared<ResidualModelNumDiffTpl<double> >(b);
    if (g_shared) w->set_reevals(reevals<Res>());
    typedef ResidualDataAbstract DD;
    common<ResidualModelNumDiffTpl<double>, Res, DD>(k, w, b);
    disturbance(k, w);
    k.mk = [=](bool wr) { return std::static_pointer_cast<void>(wr ? w->createData(&coll) : b->createData(&coll)); };
    k.value = [](std::shared_ptr<void> d0, bool) { tr::Obj v; v.vec("r", std::static_pointer_cast<DD>(d0)->r); return v; };
    k.derivs = [](std::shared_ptr<void> d0, bool t) { auto d = std::static_pointer_cast<DD>(d0); tr::Obj x, u, r; x.mat("r", d->Rx); if (!t) { u.mat("r", d->Ru); r.raw("u", u.text()); } r.raw("x", x.text()); return r; };
    k.report = [=](bool wr) { tr::Obj r; lims(r, wr ? w->get_state() : b->get_state()); r.i("nu", wr ? w->get_nu() : b->get_nu()).i("nr", wr ? w->get_nr() : b->get_nr()); if (wr) r.b("model", w->get_model() == b); return r; };
  } else if (kind == "con") {
    auto b = std::make_shared<Con>(st, o);
    auto w = std::make_shared<ConstraintModelNumDiffTpl<double> >(b);
    if (g_shared) w->set_reevals(reevals<Con>());
    typedef ConstraintDataAbstract DD;
    common<ConstraintModelNumDiffTpl<double>, Con, DD>(k, w, b);
    disturbance(k, w);
    k.mk = [=](bool wr) { return std::static_pointer_cast<void>(wr ? w->createData(&coll) : b->createData(&coll)); };
    k.value = [](std::shared_ptr<void> d0, bool) { auto d = std::static_pointer_cast<DD>(d0); tr::Obj v; v.vec("g", d->g).vec("h", d->h); return v; };
    k.derivs = [](std::shared_ptr<void> d0, bool t) {
      auto d = std::static_pointer_cast<DD>(d0);
      tr::Obj x, u, r;
      x.mat("g", d->Gx).mat("h", d->Hx);
      if (!t) { u.mat("g", d->Gu).mat("h", d->Hu); r.raw("u", u.text()); }
      r.raw("x", x.text());
      return r;
    };
    k.report = [=](bool wr) {
      std::shared_ptr<ConstraintModelAbstract> m = w;
      if (!wr) m = b;
      tr::Obj r;
      lims(r, m->get_state());
      r.i("nu", m->get_nu()).i("ng", m->get_ng()).i("nh", m->get_nh()).vec("glb", m->get_lb()).vec("gub", m->get_ub()).b("T", m->get_T_constraint());
      if (wr) r.b("model", w->get_model() == b);
      return r;
    };
  } else if (kind == "atn") {
    auto b = std::make_shared<Atn>(st, o);
    auto w = std::make_shared<ActuationModelNumDiffTpl<double> >(b);
    typedef ActuationDataAbstract DD;
    common<ActuationModelNumDiffTpl<double>, ActuationModelAbstract, DD>(k, w, b);
    disturbance(k, w);
    k.mk = [=](bool wr) { return std::static_pointer_cast<void>(wr ? w->createData() : b->createData()); };
    k.value = [](std::shared_ptr<void> d0, bool) { tr::Obj v; v.vec("t", std::static_pointer_cast<DD>(d0)->tau); return v; };
    k.derivs = [](std::shared_ptr<void> d0, bool t) { auto d = std::static_pointer_cast<DD>(d0); tr::Obj x, u, r; x.mat("t", d->dtau_dx); if (!t) { u.mat("t", d->dtau_du); r.raw("u", u.text()); } r.raw("x", x.text()); return r; };
    k.report = [=](bool wr) { tr::Obj r; lims(r, wr ? w->get_state() : b->get_state()); r.i("nu", wr ? w->get_nu() : b->get_nu()); if (wr) r.b("model", w->get_model() == b); return r; };
    k.pass = [=](bool wr, std::shared_ptr<void> d0, const V& x, const V& u, const V& p) {
      auto d = std::static_pointer_cast<DD>(d0);
      std::shared_ptr<ActuationModelAbstract> m = w;
      if (!wr) m = b;
      m->commands(d, x, p.head(b->get_state()->get_nv()));
      m->torqueTransform(d, x, u);
      tr::Obj r;
      r.vec("p", d->u).mat("lb", d->Mtau);
      return r;
    };
  }
  else if (kind == "ctc") {
    auto rb = std::make_shared<pinocchio::Model>();
    for (long i = 0; i < o.i("nx") / 2; ++i) rb->addJoint(i, pinocchio::PRISMATIC, Eigen::Vector3d::UnitX(), pinocchio::SE3::Identity(), "j" + std::to_string(i), pinocchio::InertiaTpl<double>(), -1, 1, 1, 1);
    auto ms = std::make_shared<StateMultibody>(rb);
    ms->set_lb(o.v("xlb"));
    ms->set_ub(o.v("xub"));
    auto b = std::make_shared<Ctc>(ms, o);
    auto w = std::make_shared<ContactModelNumDiff>(b);
    auto pd = std::make_shared<pinocchio::Data>(*rb);
    if (g_shared) w->set_reevals({[=](const V& x, const V& u) { pd->tau = u.size() == b->get_nu() ? x : V(2 * x); }});
    typedef ContactDataAbstract DD;
    disturbance(k, w);
    k.mk = [=](bool wr) { return std::static_pointer_cast<void>(wr ? w->createData(pd.get()) : b->createData(pd.get())); };
    k.calc = [=](bool wr, std::shared_ptr<void> d0, const V& x, const V&, bool) { auto d = std::static_pointer_cast<DD>(d0); pd->tau = x; if (wr) w->calc(d, x); else b->calc(d, x); };
    k.diff = [=](std::shared_ptr<void> d0, const V& x, const V&, bool) { pd->tau = x; w->calcDiff(std::static_pointer_cast<DD>(d0), x); };
    k.value = [](std::shared_ptr<void> d0, bool) {
      auto d = std::static_pointer_cast<DD>(d0);
      V j(d->Jc.size());
      for (long r = 0; r < d->Jc.rows(); ++r) for (long c = 0; c < d->Jc.cols(); ++c) j[r * d->Jc.cols() + c] = d->Jc(r, c);
      tr::Obj v;
      v.vec("d", d->a0).vec("j", j);
      return v;
    };
    k.derivs = [](std::shared_ptr<void> d0, bool) { tr::Obj x, r; x.mat("d", std::static_pointer_cast<DD>(d0)->da0_dx); r.raw("x", x.text()); return r; };
    k.report = [=](bool wr) {
      std::shared_ptr<ContactModelAbstract> m = w;
      if (!wr) m = b;
      tr::Obj r;
      lims(r, m->get_state());
      r.i("nu", m->get_nu()).i("nr", m->get_nc()).i("id", m->get_id()).b("T", m->get_type() == pinocchio::WORLD);
      if (wr) r.b("model", w->get_model() == b);
      return r;
    };
    k.pass = [=](bool wr, std::shared_ptr<void> d0, const V& x, const V& u, const V& p) {
      auto d = std::static_pointer_cast<DD>(d0);
      std::shared_ptr<ContactModelAbstract> m = w;
      if (!wr) m = b;
      pd->tau = x;
      m->calc(d, x);
      const V f = p.head(b->get_nc());
      m->updateForce(d, f);
      tr::Obj r;
      V g(8);
      g << double(d->frame), double(d->type == pinocchio::WORLD), d->jMf.translation(), d->fXj(0, 5), d->fXj(1, 3), d->fXj(2, 4);
      r.vec("p", d->f.toVector()).vec("lb", d->fext.toVector()).mat("dt", d->dtau_dq).vec("ub", g);
      bool rej = false;
      try { m->updateForce(d, V::Zero(b->get_nc() + 1)); } catch (const std::exception&) { rej = true; }
      if (wr) r.b("rej", rej);
      return r;
    };
  }
  return k;
}

int main(int, char** argv) {
  std::cerr.setstate(std::ios::failbit);
  tr::Out out(argv[2]);
  Kit k;
  bool some = false;
  std::shared_ptr<State> sb;
  std::shared_ptr<StateNumDiffTpl<double> > sw;
  std::map<long, std::shared_ptr<void> > ds;
  std::shared_ptr<void> base;
  for (const tr::Op& op : tr::readops(argv[1])) {
    tr::Obj o;
    o.str("op", op.name).raw("in", op.s("json"));
    bool thrown = false;
    if (op.name == "new") {
      const bool shared = g_shared;
      try {
        if (op.s("kind") == "state") {
          sb = space(op);
          sw = std::make_shared<StateNumDiffTpl<double> >(sb);
          k = Kit();
          disturbance(k, sw);
          std::shared_ptr<State> a = sb, b = sw;
          k.report = [=](bool wr) { tr::Obj r; lims(r, wr ? b : a); r.i("nq", wr ? b->get_nq() : a->get_nq()).i("nv", wr ? b->get_nv() : a->get_nv()); if (wr) r.b("model", true); return r; };
          base.reset();
        } else {
          k = make(op);
          base = k.mk(false);
        }
        ds.clear();
        some = true;
      } catch (const std::exception&) { thrown = true; g_shared = shared; }
    } else if (op.name == "dist") {
      try { k.dist(op.d("v")); } catch (const std::exception&) { thrown = true; }
    } else if (op.name == "data") {
      ds[op.i("d")] = k.mk(true);
    } else if (op.name == "eval") {
      const V x = op.v("x"), u = op.v("u"), x2 = op.v("x2"), u2 = op.v("u2");
      const bool t = op.b("t"), df = op.b("diff");
      std::shared_ptr<void> d = ds.at(op.i("d")), n = k.mk(true), decoy = k.mk(true);
      k.calc(true, d, x, u, t);
      k.calc(true, decoy, x2, u2, t);
      o.raw("v0", k.value(d, t).text());
      if (df) {
        k.diff(d, x, u, t);
        k.diff(decoy, x2, u2, t);
      }
      k.calc(true, n, x, u, t);
      if (df) k.diff(n, x, u, t);
      if (df) o.raw("o", k.derivs(d, t).text()).raw("n", k.derivs(n, t).text());
      o.raw("v", k.value(d, t).text()).raw("nv", k.value(n, t).text());
      k.calc(false, base, x, u, t);
      o.raw("w", k.value(base, t).text());
    } else if (op.name == "quasi") {
      try { o.vec("o", k.quasi(true, ds.at(op.i("d")), op.v("x"))); } catch (const std::exception&) { thrown = true; o.vec("o", V(0)); }
      try { o.vec("w", k.quasi(false, k.mk(false), op.v("x"))); o.b("wt", false); } catch (const std::exception&) { o.b("wt", true).vec("w", V(0)); }
    } else if (op.name == "pass") {
      o.raw("o", k.pass(true, ds.at(op.i("d")), op.v("x"), op.v("u"), op.v("p")).text());
      o.raw("w", k.pass(false, k.mk(false), op.v("x"), op.v("u"), op.v("p")).text());
    } else if (op.name == "seval") {
      const V x = op.v("x"), y = op.v("y"), dx = op.v("dx");
      const std::size_t n = x.size();
      V d(n), z(n);
      M A = op.m("A"), B = op.m("B"), C = op.m("C");
      const std::string c = op.s("comp"), m = op.s("mode");
      const Jcomponent jc = c == "first" ? first : c == "second" ? second : both;
      sw->diff(x, y, d);
      sw->integrate(x, dx, z);
      o.vec("diff", d).vec("move", z).vec("zero", sw->zero());
      M J1 = A, J2 = B;
      sw->Jdiff(x, y, J1, J2, jc);
      o.mat("d1", J1).mat("d2", J2);
      J1 = A;
      J2 = B;
      sw->Jintegrate(x, dx, J1, J2, jc, m == "set" ? setto : m == "add" ? addto : rmfrom);
      o.mat("m1", J1).mat("m2", J2);
      try { sw->JintegrateTransport(x, dx, C, op.s("which") == "first" ? first : second); } catch (const std::exception&) { thrown = true; }
      o.mat("tr", C);
    }
    o.b("thrown", thrown).b("some", some);
    if (some) o.raw("m", k.report(true).text()).raw("b", k.report(false).text()).d("e", k.dist0());
    out.line(o);
  }
}
