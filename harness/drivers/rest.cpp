// LINK: action-base diff-action-base integ-action-base integrator/euler integrator/rk actions/.* numdiff/action numdiff/diff-action residual-base data-collector-base state-base states/euclidean control-base controls/.* utils/.*
// Controls that hold a state, for models of the user and of the library, alone or inside integrators and numerical differentiation.
#include <map>
#include "crocoddyl/core/actions/diff-lqr.hpp"
#include "crocoddyl/core/actions/lqr.hpp"
#include "crocoddyl/core/actions/unicycle.hpp"
#include "crocoddyl/core/controls/poly-one.hpp"
#include "crocoddyl/core/controls/poly-two-rk.hpp"
#include "crocoddyl/core/controls/poly-zero.hpp"
#include "crocoddyl/core/integrator/euler.hpp"
#include "crocoddyl/core/integrator/rk.hpp"
#include "crocoddyl/core/numdiff/action.hpp"
#include "crocoddyl/core/numdiff/diff-action.hpp"
#include "crocoddyl/core/residual-base.hpp"
#include "dmodel.hpp"
using namespace crocoddyl;
using dm::M;
using dm::V;
typedef std::shared_ptr<ActionModelAbstract> Act;
typedef std::shared_ptr<DifferentialActionModelAbstract> Dif;

static V join(const V& x, const V& u) {
  V z(x.size() + u.size());
  z << x, u;
  return z;
}
struct PolyAct : public ActionModelAbstract {
  dm::Poly a;
  PolyAct(std::shared_ptr<dm::State> st, const tr::Op& o) : ActionModelAbstract(st, o.i("nw"), 0), a(o, "a", st->get_nx() + o.i("nw")) {}
  typedef std::shared_ptr<ActionDataAbstract> D;
  typedef Eigen::Ref<const V> X;
  void calc(const D& d, const X& x, const X& u) override { state_->integrate(x, a.value(join(x, u), state_->get_ndx()), d->xnext); d->cost = 0.; }
  using ActionModelAbstract::calc;  // without control: as the library does it for models that do not say
  using ActionModelAbstract::calcDiff;
  void calcDiff(const D& d, const X& x, const X& u) override {
    const M J = a.jac(join(x, u), state_->get_ndx());
    d->Fx = J.leftCols(state_->get_ndx());
    d->Fu = J.rightCols(nu_);
  }
  std::shared_ptr<ActionModelBase> cloneAsDouble() const override { return nullptr; }
  std::shared_ptr<ActionModelBase> cloneAsFloat() const override { return nullptr; }
};
struct PolyDif : public DifferentialActionModelAbstract {
  dm::Poly a;
  PolyDif(std::shared_ptr<dm::State> st, const tr::Op& o) : DifferentialActionModelAbstract(st, o.i("nw"), 0), a(o, "a", st->get_nx() + o.i("nw")) {}
  typedef std::shared_ptr<DifferentialActionDataAbstract> D;
  typedef Eigen::Ref<const V> X;
  void calc(const D& d, const X& x, const X& u) override { d->xout = a.value(join(x, u), state_->get_nv()); d->cost = 0.; }
  using DifferentialActionModelAbstract::calc;
  using DifferentialActionModelAbstract::calcDiff;
  void calcDiff(const D& d, const X& x, const X& u) override {
    const M J = a.jac(join(x, u), state_->get_nv());
    d->Fx = J.leftCols(state_->get_ndx());
    d->Fu = J.rightCols(nu_);
  }
  std::shared_ptr<DifferentialActionModelBase> cloneAsDouble() const override { return nullptr; }
  std::shared_ptr<DifferentialActionModelBase> cloneAsFloat() const override { return nullptr; }
};
struct PolyRes : public ResidualModelAbstract {
  dm::Poly a;
  PolyRes(std::shared_ptr<dm::State> st, const tr::Op& o) : ResidualModelAbstract(st, o.v("ac").size(), o.i("nw"), true, true, true), a(o, "a", st->get_nx() + o.i("nw")) {}
  typedef std::shared_ptr<ResidualDataAbstract> D;
  typedef Eigen::Ref<const V> X;
  using ResidualModelAbstract::calc;
  using ResidualModelAbstract::calcDiff;
  void calc(const D& d, const X& x, const X& u) override { d->r = a.value(join(x, u), nr_); }
  void calcDiff(const D& d, const X& x, const X& u) override {
    const M J = a.jac(join(x, u), nr_);
    d->Rx = J.leftCols(state_->get_ndx());
    d->Ru = J.rightCols(nu_);
  }
  std::shared_ptr<ResidualModelBase> cloneAsDouble() const override { return nullptr; }
  std::shared_ptr<ResidualModelBase> cloneAsFloat() const override { return nullptr; }
};

int main(int, char** argv) {
  std::cerr.setstate(std::ios::failbit);
  tr::Out out(argv[2]);
  Act a;
  Dif f;
  std::shared_ptr<PolyRes> res;
  std::map<long, std::shared_ptr<ActionDataAbstract> > as;
  std::map<long, std::shared_ptr<DifferentialActionDataAbstract> > fs;
  for (const tr::Op& op : tr::readops(argv[1])) {
    tr::Obj o;
    o.str("op", op.name).raw("in", op.s("json"));
    bool thrown = false;
    if (op.name == "new") {
      a = nullptr;
      f = nullptr;
      res = nullptr;
      as.clear();
      fs.clear();
      const std::string k = op.s("k"), w = op.s("w"), c = op.s("ctrl");
      const std::size_t nw = op.i("nw"), nx = op.i("nx");
      std::shared_ptr<dm::State> st;
      if (op.s("st") == "heis") st = std::make_shared<dm::HeisState>();
      else st = std::make_shared<StateVector>(nx);
      if (k == "pa") a = std::make_shared<PolyAct>(st, op);
      if (k == "pd") f = std::make_shared<PolyDif>(st, op);
      if (k == "pa" || k == "pd") res = std::make_shared<PolyRes>(st, op);
      if (k == "uni") { auto u = std::make_shared<ActionModelUnicycle>(); u->set_dt(op.d("dt")); a = u; }
      if (k == "lqr" || k == "dlqr") {
        const M L = op.m("aL");
        const V b = op.v("ac");
        const M Q = M::Identity(nx, nx), Rr = M::Identity(nw, nw), N = M::Zero(nx, nw);
        if (k == "lqr") a = std::make_shared<ActionModelLQR>(M(L.leftCols(nx)), M(L.rightCols(nw)), Q, Rr, N, b, V(V::Zero(nx)), V(V::Zero(nw)));
        else f = std::make_shared<DifferentialActionModelLQR>(M(L.leftCols(nx / 2)), M(L.middleCols(nx / 2, nx / 2)), M(L.rightCols(nw)), Q, Rr, N, b, V(V::Zero(nx)), V(V::Zero(nw)));
      }
      if (w == "nd") {
        if (a) a = std::make_shared<ActionModelNumDiff>(a, false);
        else f = std::make_shared<DifferentialActionModelNumDiff>(f, false);
      } else if (w != "none") {
        std::shared_ptr<ControlParametrizationModelAbstract> p;
        if (c == "zero") p = std::make_shared<ControlParametrizationModelPolyZero>(nw);
        if (c == "one") p = std::make_shared<ControlParametrizationModelPolyOne>(nw);
        if (c == "two3") p = std::make_shared<ControlParametrizationModelPolyTwoRK>(nw, three);
        if (c == "two4") p = std::make_shared<ControlParametrizationModelPolyTwoRK>(nw, four);
        const RKType t = w == "rk2" ? two : w == "rk3" ? three : four;
        const double dt = op.d("dt");
        if (w == "euler") a = p ? std::make_shared<IntegratedActionModelEuler>(f, p, dt) : std::make_shared<IntegratedActionModelEuler>(f, dt);
        else a = p ? std::make_shared<IntegratedActionModelRK>(f, p, t, dt) : std::make_shared<IntegratedActionModelRK>(f, t, dt);
        f = nullptr;
      }
      o.i("nu", a ? a->get_nu() : f->get_nu());
    } else if (op.name == "data") {
      if (a) as[op.i("d")] = a->createData();
      else fs[op.i("d")] = f->createData();
    } else if (op.name == "use") {  // leaves values of another evaluation behind
      const V x = op.v("x"), u = op.v("u");
      if (a) { a->calc(as.at(op.i("d")), x, u); if (op.b("diff")) a->calcDiff(as.at(op.i("d")), x, u); }
      else { f->calc(fs.at(op.i("d")), x, u); if (op.b("diff")) f->calcDiff(fs.at(op.i("d")), x, u); }
    } else if (op.name == "still") {
      const V x = op.v("x");
      if (a) {
        auto& d = as.at(op.i("d"));
        a->calc(d, x);
        a->calcDiff(d, x);
        V y(x.size());
        a->get_state()->diff(x, d->xnext, y);
        o.vec("f", y).mat("fu", d->Fu);
      } else {
        auto& d = fs.at(op.i("d"));
        f->calc(d, x);
        f->calcDiff(d, x);
        o.vec("f", d->xout).mat("fu", d->Fu);
      }
      DataCollectorAbstract c;
      auto r = res->createData(&c);
      res->calc(r, x);
      res->calcDiff(r, x);
      o.vec("r", r->r).mat("ru", r->Ru);
    } else if (op.name == "hold") {
      const V x = op.v("x");
      V u = op.v("u");
      const std::size_t n = op.i("n");
      const double tol = op.d("tol");
      const bool dflt = op.b("dflt"), ret = op.b("ret");
      try {
        if (a) {
          auto& d = as.at(op.i("d"));
          if (ret) u = dflt ? a->quasiStatic_x(d, x) : a->quasiStatic_x(d, x, n, tol);
          else if (dflt) a->quasiStatic(d, u, x);
          else a->quasiStatic(d, u, x, n, tol);
        } else {
          auto& d = fs.at(op.i("d"));
          if (ret) u = dflt ? f->quasiStatic_x(d, x) : f->quasiStatic_x(d, x, n, tol);
          else if (dflt) f->quasiStatic(d, u, x);
          else f->quasiStatic(d, u, x, n, tol);
        }
      } catch (const std::exception&) { thrown = true; }
      o.vec("u", u);
    }
    o.b("thrown", thrown);
    out.line(o);
  }
  return 0;
}
