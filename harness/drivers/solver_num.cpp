// LINK: utils/.* state-base states/euclidean action-base optctrl/shooting solver-base solvers/(ddp|fddp|kkt|box-ddp|box-fddp|box-qp|intro)
// Runs the real solvers on small problems; every search direction, trial and iteration is recorded together with
// what the node models give, evaluated afresh, at the trajectories concerned.
#include "crocoddyl/core/solvers/box-ddp.hpp"
#include "crocoddyl/core/solvers/box-fddp.hpp"
#include "crocoddyl/core/solvers/ddp.hpp"
#include "crocoddyl/core/solvers/fddp.hpp"
#include "crocoddyl/core/solvers/intro.hpp"
#include "crocoddyl/core/solvers/kkt.hpp"
#include "pmodel.hpp"
using namespace pm;

static tr::Out* out;
static std::string kind;
static long calls;
static V probes;
struct Overrun {};

typedef std::shared_ptr<crocoddyl::ShootingProblem> Prob;

static tr::Obj node(const std::shared_ptr<Action>& m, const V& x, const V& u, bool term, bool derivs) {
  auto d = m->createData();
  if (!term && m->get_nu()) m->calc(d, x, u); else m->calc(d, x);
  tr::Obj o;
  o.i("nu", m->get_nu()).vec("xn", d->xnext).d("l", d->cost).vec("g", d->g).vec("h", d->h);
  if (!derivs) return o;
  if (!term && m->get_nu()) m->calcDiff(d, x, u); else m->calcDiff(d, x);
  o.mat("Fx", d->Fx).mat("Fu", d->Fu).vec("Lx", d->Lx).vec("Lu", d->Lu).mat("Lxx", d->Lxx).mat("Lxu", d->Lxu).mat("Luu", d->Luu);
  o.mat("Hx", d->Hx).mat("Hu", d->Hu);
  o.b("lim", m->get_u_lb().array().isFinite().any() || m->get_u_ub().array().isFinite().any()).vec("lb", m->get_u_lb()).vec("ub", m->get_u_ub()).vec("glb", m->get_g_lb()).vec("gub", m->get_g_ub());
  return o;
}
static void nodes(tr::Obj& o, const Prob& p, const std::vector<V>& xs, const std::vector<V>& us, bool derivs) {
  std::vector<tr::Obj> ns;
  for (std::size_t t = 0; t < us.size(); ++t) ns.push_back(node(p->get_runningModels()[t], xs[t], us[t], false, derivs));
  ns.push_back(node(p->get_terminalModel(), xs.back(), V(0), true, derivs));
  o.objs("n", ns);
}
static void traj(tr::Obj& o, const crocoddyl::SolverAbstract& s) {
  o.vecl("xs", s.get_xs()).vecl("us", s.get_us()).b("feas", s.get_is_feasible()).i("iter", s.get_iter()).d("cost", s.get_cost());
  o.d("preg", s.get_preg()).d("dreg", s.get_dreg());
}
static void feasibility(tr::Obj& o, const crocoddyl::SolverAbstract& s) {
  o.d("ff", s.get_ffeas()).d("gf", s.get_gfeas()).d("hf", s.get_hfeas()).vecl("fs", s.get_fs());
}
static void policy(tr::Obj& o, const crocoddyl::SolverDDP& s) {
  o.matl("Vxx", s.get_Vxx()).vecl("Vx", s.get_Vx()).matl("Qxx", s.get_Qxx()).matl("Qxu", s.get_Qxu()).matl("Quu", s.get_Quu());
  o.vecl("Qx", s.get_Qx()).vecl("Qu", s.get_Qu()).matl("K", s.get_K()).vecl("k", s.get_k());
  feasibility(o, s);
}
static void policy(tr::Obj& o, const crocoddyl::SolverKKT& s) { o.vecl("dx", s.get_dxs()).vecl("du", s.get_dus()).vecl("lam", s.get_lambdas()); }
static double hft(const crocoddyl::SolverAbstract&) { return 0; }

template <class Base>
struct Wrap : public Base {
  explicit Wrap(Prob p) : Base(p) {}
  void computeDirection(const bool recalc) override {
    if (++calls > 4000) throw Overrun();
    tr::Obj o;
    o.str("op", "dir").b("recalc", recalc);
    bool ok = true;
    try {
      Base::computeDirection(recalc);
    } catch (const std::exception&) { ok = false; }
    traj(o, *this);
    o.b("ok", ok);
    nodes(o, this->problem_, this->xs_, this->us_, true);
    policy(o, *this);
    out->line(o);
    if (!ok) throw std::runtime_error("direction");
    for (int i = 0; i < probes.size(); ++i) {  // trials of this direction besides those of the search
      try {
        attempt(probes[i]);
      } catch (const std::runtime_error&) { }
    }
  }
  double tryStep(const double a) override {
    if (++calls > 4000) throw Overrun();
    return attempt(a);
  }
  double attempt(const double a) {
    tr::Obj o;
    o.str("op", "try").d("a", a);
    bool ok = true;
    double dv = 0;
    try {
      dv = Base::tryStep(a);
    } catch (const std::exception&) { ok = false; }
    o.b("ok", ok).d("dV", dv).vecl("xt", this->xs_try_).vecl("ut", this->us_try_).d("ct", this->cost_try_).d("ht", this->hfeas_try_);
    traj(o, *this);
    nodes(o, this->problem_, this->xs_try_, this->us_try_, a == 1);
    out->line(o);
    if (!ok) throw std::runtime_error("trial");
    return dv;
  }
  const Eigen::Vector2d& expectedImprovement() override {
    const Eigen::Vector2d& d = Base::expectedImprovement();
    tr::Obj o;
    o.str("op", "exp").d("d0", d[0]).d("d1", d[1]);
    out->line(o);
    return d;
  }
};

struct Cb : public crocoddyl::CallbackAbstract {
  void operator()(crocoddyl::SolverAbstract& s) override {
    tr::Obj o;
    o.str("op", "it");
    traj(o, s);
    o.d("hf", s.get_hfeas()).d("merit", s.get_merit()).d("dPhi", s.get_dPhi()).d("dPhiexp", s.get_dPhiexp()).d("dVexp", s.get_dVexp()).d("dV", s.get_dV()).d("d0", s.get_d()[0]);
    auto* i = dynamic_cast<crocoddyl::SolverIntro*>(&s);
    o.d("ups", i ? i->get_upsilon() : 0.);
    nodes(o, s.get_problem(), s.get_xs(), s.get_us(), false);
    out->line(o);
  }
};

int main(int, char** argv) {
  std::cout.setstate(std::ios::failbit);
  std::cerr.setstate(std::ios::failbit);
  std::vector<tr::Op> ops = tr::readops(argv[1]);
  tr::Out tout(argv[2]);
  out = &tout;
  std::shared_ptr<PState> st;
  std::vector<std::shared_ptr<Action> > ms;
  std::shared_ptr<crocoddyl::SolverAbstract> solver;
  Prob prob;
  V x0;
  for (const tr::Op& op : ops) {
    if (op.name == "prob") {
      st = std::make_shared<PState>(op.i("n"), op.i("pad"));
      x0 = op.v("x0");
      ms.clear();
    } else if (op.name == "node") {
      auto m = std::make_shared<PModel>(st, op);
      if (!op.b("term")) {
        ms.push_back(m);
        continue;
      }
      prob = std::make_shared<crocoddyl::ShootingProblem>(x0, ms, m);
    } else if (op.name == "solver") {
      kind = op.s("kind");
      if (kind == "ddp") solver = std::make_shared<Wrap<crocoddyl::SolverDDP> >(prob);
      else if (kind == "fddp") solver = std::make_shared<Wrap<crocoddyl::SolverFDDP> >(prob);
      else if (kind == "boxddp") solver = std::make_shared<Wrap<crocoddyl::SolverBoxDDP> >(prob);
      else if (kind == "boxfddp") solver = std::make_shared<Wrap<crocoddyl::SolverBoxFDDP> >(prob);
      else if (kind == "intro") solver = std::make_shared<Wrap<crocoddyl::SolverIntro> >(prob);
      else solver = std::make_shared<Wrap<crocoddyl::SolverKKT> >(prob);
      if (auto d = std::dynamic_pointer_cast<crocoddyl::SolverDDP>(solver)) {
        d->set_reg_min(op.d("rmin"));
        d->set_reg_max(op.d("rmax"));
        const V al = op.v("al");
        d->set_th_stepinc(0.0625);
        d->set_alphas(std::vector<double>(al.data(), al.data() + al.size()));
        d->set_th_stepinc(al[al.size() - 1]);
      }
      solver->set_th_acceptstep(op.d("thA"));
      if (auto d = std::dynamic_pointer_cast<crocoddyl::SolverIntro>(solver)) {
        d->set_equality_solver(op.s("eq") == "lu" ? crocoddyl::LuNull : op.s("eq") == "qr" ? crocoddyl::QrNull : crocoddyl::Schur);
        d->set_zero_upsilon(op.b("zu"));
      }
      solver->set_feasnorm(op.s("norm") == "inf" ? crocoddyl::LInf : crocoddyl::L1);
      solver->setCallbacks({std::make_shared<Cb>()});
      tr::Obj o;
      o.str("op", "solver").str("kind", kind).vec("x0", x0).i("ndx", st->get_ndx()).str("norm", op.s("norm")).b("lq", op.b("lq")).str("eq", op.s("eq")).d("thA", op.d("thA"));
      out->line(o);
    } else if (op.name == "solve") {
      calls = 0;
      probes = op.v("probes");
      std::vector<V> xs = op.vs("xs"), us = op.vs("us");
      if (op.b("roll")) {  // a guess that follows the dynamics
        xs[0] = x0;
        for (std::size_t t = 0; t < ms.size(); ++t) {
          auto d = ms[t]->createData();
          if (ms[t]->get_nu()) ms[t]->calc(d, xs[t], us[t]); else ms[t]->calc(d, xs[t]);
          xs[t + 1] = d->xnext;
        }
      }
      tr::Obj o;
      o.str("op", "solve").i("max", op.i("max")).b("feas", op.b("feas")).vecl("xs", xs).vecl("us", us);
      out->line(o);
      std::string how = "ret";
      bool ret = false;
      try {
        ret = solver->solve(xs, us, op.i("max"), op.b("feas"), op.d("reg"));
      } catch (const Overrun&) { how = "overrun"; } catch (const std::exception&) { how = "thrown"; }
      tr::Obj r;
      r.str("op", how).b("ret", ret);
      traj(r, *solver);
      nodes(r, prob, solver->get_xs(), solver->get_us(), false);
      out->line(r);
    }
  }
  return 0;
}
