// LINK: action-base diff-action-base integ-action-base integrator/euler integrator/rk actions/lqr state-base states/euclidean control-base controls/.* utils/.*
// Integrated action models over a user differential model, control parametrizations and two kinds of state.
#include <map>
#include "crocoddyl/core/actions/lqr.hpp"
#include "crocoddyl/core/controls/poly-one.hpp"
#include "crocoddyl/core/controls/poly-two-rk.hpp"
#include "crocoddyl/core/controls/poly-zero.hpp"
#include "crocoddyl/core/integrator/euler.hpp"
#include "crocoddyl/core/integrator/rk.hpp"
#include "dmodel.hpp"
using namespace crocoddyl;
using dm::M;
using dm::V;
typedef std::shared_ptr<IntegratedActionModelAbstract> Model;
typedef std::shared_ptr<ActionDataAbstract> Data;

static std::shared_ptr<dm::PolyDAM> dam(const tr::Op& op) {
  const bool heis = op.s("st") == "heis";
  std::shared_ptr<dm::State> st;
  if (heis) st = std::make_shared<dm::HeisState>();
  else st = std::make_shared<StateVector>(2 * op.i("nv"));
  return std::make_shared<dm::PolyDAM>(st, heis, op);
}
static Model integ(const tr::Op& op, const std::shared_ptr<dm::PolyDAM>& d, const std::string& scheme) {
  const std::string k = op.s("ctrl");
  const std::size_t nw = op.i("cnw");
  const double dt = op.d("dt");
  const bool res = op.b("resid");
  std::shared_ptr<ControlParametrizationModelAbstract> c;
  if (k == "zero") c = std::make_shared<ControlParametrizationModelPolyZero>(nw);
  if (k == "one") c = std::make_shared<ControlParametrizationModelPolyOne>(nw);
  if (k == "two3") c = std::make_shared<ControlParametrizationModelPolyTwoRK>(nw, three);
  if (k == "two4") c = std::make_shared<ControlParametrizationModelPolyTwoRK>(nw, four);
  const RKType t = scheme == "rk2" ? two : scheme == "rk3" ? three : four;
  if (k == "none") {
    if (scheme == "euler") return std::make_shared<IntegratedActionModelEuler>(d, dt, res);
    return std::make_shared<IntegratedActionModelRK>(d, t, dt, res);
  }
  if (scheme == "euler") return std::make_shared<IntegratedActionModelEuler>(d, c, dt, res);
  return std::make_shared<IntegratedActionModelRK>(d, c, t, dt, res);
}
static tr::Obj result(const Data& d, bool term, bool diff) {
  tr::Obj o;
  o.vec("f", d->xnext).d("l", d->cost).vec("r", d->r).vec("g", d->g).vec("h", d->h);
  if (diff) {
    o.vec("lx", d->Lx).mat("lxx", d->Lxx).mat("gx", d->Gx).mat("hx", d->Hx);
    if (!term) o.mat("fx", d->Fx).mat("fu", d->Fu).vec("lu", d->Lu).mat("lxu", d->Lxu).mat("luu", d->Luu).mat("gu", d->Gu).mat("hu", d->Hu);
  }
  return o;
}

int main(int, char** argv) {
  std::cerr.setstate(std::ios::failbit);
  tr::Out out(argv[2]);
  Model m;
  std::shared_ptr<dm::PolyDAM> cur;
  std::map<long, Data> ds;
  std::string scheme;
  for (const tr::Op& op : tr::readops(argv[1])) {
    tr::Obj o;
    o.str("op", op.name).raw("in", op.s("json"));
    bool thrown = false;
    if (op.name == "new") {
      auto d = dam(op);
      try {
        Model n = integ(op, d, op.s("scheme"));
        m = n;
        cur = d;
        scheme = op.s("scheme");
        ds.clear();
      } catch (const std::exception&) { thrown = true; }
    } else if (op.name == "setdt") {
      try { m->set_dt(op.d("dt")); } catch (const std::exception&) { thrown = true; }
    } else if (op.name == "setdiff") {
      auto d = dam(op);
      try { m->set_differential(d); cur = d; ds.clear(); } catch (const std::exception&) { thrown = true; }
    } else if (op.name == "data") {
      ds[op.i("d")] = m->createData();
    } else if (op.name == "check") {
      const std::string w = op.s("w");
      Data d;
      if (w == "own") d = m->createData();
      if (w == "foreign") d = std::make_shared<ActionModelLQR>(2, 1)->createData();
      if (w == "other") {
        tr::Op q = op;
        d = integ(op, cur, scheme == "euler" ? "rk4" : "euler")->createData();
      }
      if (w == "model") d = integ(op, dam(op), scheme)->createData();
      o.b("ok", m->checkData(d));
    } else if (op.name == "eval") {
      const V x = op.v("x"), u = op.v("u");
      const bool term = op.b("t"), diff = op.b("diff");
      std::vector<Data> two_{ds.at(op.i("d")), m->createData()};
      std::vector<bool> th(2, false);
      for (int k = 0; k < 2; ++k) {
        try {
          if (term) { m->calc(two_[k], x); if (diff) m->calcDiff(two_[k], x); }
          else { m->calc(two_[k], x, u); if (diff) m->calcDiff(two_[k], x, u); }
        } catch (const std::exception&) { th[k] = true; }
      }
      // the derivatives check the sizes of their arguments as well
      bool dth = false;
      if (th[1]) { try { if (term) m->calcDiff(two_[1], x); else m->calcDiff(two_[1], x, u); } catch (const std::exception&) { dth = true; } }
      thrown = th[0] && th[1] && dth;
      o.b("any", th[0] || th[1] || dth);
      if (!(th[0] || th[1])) o.raw("o", result(two_[0], term, diff).text()).raw("n", result(two_[1], term, diff).text());
    } else if (op.name == "quasi") {
      V u = V::Zero(m->get_nu());
      const V x = op.v("x");
      Data d = ds.at(op.i("d"));
      try { m->quasiStatic(d, u, x); } catch (const std::exception&) { thrown = true; }
      o.vec("u", u).vec("ux", m->quasiStatic_x(d, x));
    }
    o.b("thrown", thrown);
    if (m) {
      tr::Obj p;
      p.d("dt", m->get_dt()).i("nu", m->get_nu()).i("nr", m->get_nr()).i("ng", m->get_ng()).i("nh", m->get_nh()).i("ngT", m->get_ng_T()).i("nhT", m->get_nh_T());
      p.vec("glb", m->get_g_lb()).vec("gub", m->get_g_ub()).vec("lb", m->get_u_lb()).vec("ub", m->get_u_ub()).b("has", m->get_has_control_limits());
      p.i("nx", m->get_state()->get_nx()).b("dam", m->get_differential() == cur);
      o.raw("m", p.text());
    }
    o.b("some", m != nullptr);
    out.line(o);
  }
  return 0;
}
