// LINK: utils/.* state-base states/euclidean action-base optctrl/shooting solver-base solvers/(ddp|fddp|kkt|box-ddp|box-fddp|box-qp|intro)
// One solver used again and again on an edited problem; after each solve a new solver on a new problem made of the same models.
#include <map>

#include "crocoddyl/core/solvers/box-ddp.hpp"
#include "crocoddyl/core/solvers/box-fddp.hpp"
#include "crocoddyl/core/solvers/ddp.hpp"
#include "crocoddyl/core/solvers/fddp.hpp"
#include "crocoddyl/core/solvers/intro.hpp"
#include "crocoddyl/core/solvers/kkt.hpp"
#include "pmodel.hpp"
using namespace pm;
typedef std::shared_ptr<crocoddyl::ShootingProblem> Prob;
typedef std::shared_ptr<crocoddyl::SolverAbstract> Solver;
typedef std::map<std::string, double> Settings;

struct Stop {};
struct Cb : public crocoddyl::CallbackAbstract {
  std::size_t at;
  explicit Cb(std::size_t k) : at(k) {}
  void operator()(crocoddyl::SolverAbstract& s) override { if (s.get_iter() + 1 == at) throw Stop(); }
};

static Solver make(const std::string& kind, const tr::Op& op, const Prob& p) {
  Solver s;
  if (kind == "ddp") s = std::make_shared<crocoddyl::SolverDDP>(p);
  else if (kind == "fddp") s = std::make_shared<crocoddyl::SolverFDDP>(p);
  else if (kind == "boxddp") s = std::make_shared<crocoddyl::SolverBoxDDP>(p);
  else if (kind == "boxfddp") s = std::make_shared<crocoddyl::SolverBoxFDDP>(p);
  else if (kind == "intro") s = std::make_shared<crocoddyl::SolverIntro>(p);
  else s = std::make_shared<crocoddyl::SolverKKT>(p);
  if (auto i = std::dynamic_pointer_cast<crocoddyl::SolverIntro>(s)) {
    i->set_zero_upsilon(true);
    i->set_equality_solver(op.s("eq") == "lu" ? crocoddyl::LuNull : op.s("eq") == "qr" ? crocoddyl::QrNull : crocoddyl::Schur);
  }
  s->set_feasnorm(op.s("norm") == "inf" ? crocoddyl::LInf : crocoddyl::L1);
  return s;
}
static void set(const Solver& s, const std::string& k, double v) {
  auto d = std::dynamic_pointer_cast<crocoddyl::SolverDDP>(s);
  auto f = std::dynamic_pointer_cast<crocoddyl::SolverFDDP>(s);
  auto i = std::dynamic_pointer_cast<crocoddyl::SolverIntro>(s);
  if (k == "th_acceptstep") s->set_th_acceptstep(v);
  else if (k == "th_stop") s->set_th_stop(v);
  else if (k == "reg_min" && d) d->set_reg_min(v);
  else if (k == "reg_max" && d) d->set_reg_max(v);
  else if (k == "reg_inc" && d) d->set_reg_incfactor(v);
  else if (k == "reg_dec" && d) d->set_reg_decfactor(v);
  else if (k == "alphas" && d) { std::vector<double> a; for (double x = 1; a.size() < v; x /= 2) a.push_back(x); d->set_alphas(a); }
  else if (k == "th_stepinc" && d) d->set_th_stepinc(v);
  else if (k == "th_grad" && d) d->set_th_grad(v);
  else if (k == "th_neg" && f) f->set_th_acceptnegstep(v);
  else if (k == "rho" && i) i->set_rho(v);
}
static tr::Obj run(const Solver& s, const std::vector<V>& xs, const std::vector<V>& us, const tr::Op& op) {
  tr::Obj r;
  std::string how = "ret";
  bool ret = false;
  try {
    ret = s->solve(xs, us, op.i("max"), op.b("feas"), op.d("reg"));
  } catch (const Stop&) { how = "aborted"; } catch (const std::exception&) { how = "thrown"; }
  r.str("how", how);
  if (how != "ret") return r;
  r.b("ret", ret).vecl("xs", s->get_xs()).vecl("us", s->get_us()).d("cost", s->get_cost()).b("feas", s->get_is_feasible());
  r.i("iter", s->get_iter()).d("stop", s->get_stop()).d("preg", s->get_preg()).d("dreg", s->get_dreg());
  return r;
}

int main(int, char** argv) {
  std::cout.setstate(std::ios::failbit);
  std::cerr.setstate(std::ios::failbit);
  std::vector<tr::Op> ops = tr::readops(argv[1]);
  tr::Out out(argv[2]);
  std::shared_ptr<PState> st;
  std::vector<std::shared_ptr<Action> > ms;
  Solver solver;
  Prob prob;
  V x0;
  std::string kind, edit;
  std::size_t at = 0;
  std::shared_ptr<tr::Op> sop;
  Settings settings;
  for (const tr::Op& op : ops) {
    if (op.name == "prob") {
      st = std::make_shared<PState>(op.i("n"), op.i("pad"));
      x0 = op.v("x0");
      ms.clear();
      prob.reset();
    } else if (op.name == "node" && !prob) {
      auto m = std::make_shared<PModel>(st, op);
      if (op.b("term")) prob = std::make_shared<crocoddyl::ShootingProblem>(x0, ms, m);
      else ms.push_back(m);
    } else if (op.name == "node") {  // replaces a node (edit, at)
      auto m = std::make_shared<PModel>(st, op);
      if (edit == "model") prob->updateModel(at, m);
      else if (edit == "node") prob->updateNode(at, m, m->createData());
      else if (edit == "append") prob->circularAppend(m);
      else prob->circularAppend(m, m->createData());
      tr::Obj o;
      o.str("op", "edit").str("kind", edit).i("at", at).i("nu", m->get_nu());
      out.line(o);
    } else if (op.name == "edit") {
      edit = op.s("kind");
      at = op.i("at");
    } else if (op.name == "x0") {
      prob->set_x0(op.v("x0"));
      tr::Obj o;
      o.str("op", "x0");
      out.line(o);
    } else if (op.name == "solver") {
      kind = op.s("kind");
      sop = std::make_shared<tr::Op>(op);
      settings.clear();
      solver = make(kind, op, prob);
      std::vector<long> nus;
      bool lim = false;
      for (const auto& m : prob->get_runningModels()) { nus.push_back(m->get_nu()); lim = lim || m->get_has_control_limits(); }
      tr::Obj o;
      o.str("op", "solver").str("kind", kind).i("nx", st->get_nx()).ints("nus", nus).b("lq", op.s("fl") == "lq");
      out.line(o);
    } else if (op.name == "set") {
      settings[op.s("what")] = op.d("val");
      try { set(solver, op.s("what"), op.d("val")); } catch (const std::exception&) { settings.erase(op.s("what")); }
    } else if (op.name == "solve") {
      std::vector<V> xs = op.vs("xs"), us = op.vs("us"), fx = xs, fu = us;
      if (op.b("roll")) {
        xs[0] = prob->get_x0();
        for (std::size_t t = 0; t < us.size(); ++t) {
          const auto& m = prob->get_runningModels()[t];
          auto d = m->createData();
          if (m->get_nu()) m->calc(d, xs[t], us[t]); else m->calc(d, xs[t]);
          xs[t + 1] = d->xnext;
        }
        fx = xs;
      }
      const auto& rm = prob->get_runningModels();
      if (xs.empty()) fx.assign(rm.size() + 1, V::Zero(st->get_nx()));
      if (us.empty()) for (const auto& m : rm) fu.push_back(V::Zero(m->get_nu()));
      solver->setCallbacks(op.i("abort") ? std::vector<std::shared_ptr<crocoddyl::CallbackAbstract> >{std::make_shared<Cb>(op.i("abort"))} : std::vector<std::shared_ptr<crocoddyl::CallbackAbstract> >());
      bool lim = false;
      for (const auto& m : rm) lim = lim || m->get_has_control_limits();
      tr::Obj o;
      o.str("op", "solve").vecl("xs", xs).vecl("us", us).b("box", lim && (kind == "boxddp" || kind == "boxfddp"));
      o.raw("used", "{" + run(solver, xs, us, op).text().substr(1));
      Prob p2 = std::make_shared<crocoddyl::ShootingProblem>(prob->get_x0(), rm, prob->get_terminalModel());
      Solver s2 = make(kind, *sop, p2);
      for (const auto& kv : settings) set(s2, kv.first, kv.second);
      o.raw("fresh", "{" + run(s2, fx, fu, op).text().substr(1));
      out.line(o);
    }
  }
  return 0;
}
