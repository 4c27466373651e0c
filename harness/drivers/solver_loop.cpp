// LINK: utils/.* state-base states/euclidean action-base optctrl/shooting solver-base solvers/(ddp|fddp|kkt|box-ddp|box-fddp|box-qp|intro)
// Runs the real solver loops with scripted numerical routines: what the directions and trials give is
// read from a history, every call the loop makes is recorded with the solver's observable state.
#include <deque>

#include "crocoddyl/core/utils/callbacks.hpp"
#include "crocoddyl/core/solvers/box-ddp.hpp"
#include "crocoddyl/core/solvers/box-fddp.hpp"
#include "crocoddyl/core/solvers/ddp.hpp"
#include "crocoddyl/core/solvers/fddp.hpp"
#include "crocoddyl/core/solvers/intro.hpp"
#include "crocoddyl/core/solvers/kkt.hpp"
#include "tmodel.hpp"
using namespace tmod;

struct Overrun {};
struct Script {
  std::deque<tr::Op> dirs, tries;
  tr::Out* out = nullptr;
  long next = 1, calls = 0;
  double e0 = 0, e1 = 0, sv = 0;
  tr::Op dir() {
    if (dirs.empty()) return tr::Op("dir ok=1 e0=0 e1=0 sv=0 c0=100 h0=0");
    tr::Op o = dirs.front(); dirs.pop_front(); return o;
  }
  tr::Op trial() {
    if (tries.empty()) return tr::Op("try ok=1 dv=0 e0=0 e1=0 h=0");
    tr::Op o = tries.front(); tries.pop_front(); return o;
  }
};
static Script S;

static std::string tag(const std::vector<V>& xs) {
  if (xs.empty() || xs[0].size() == 0) return "none";
  const double t = xs[0][0];
  for (const V& x : xs) for (long i = 0; i < x.size(); ++i) if (x[i] != t) return "mixed";
  return tr::num(t);
}
static tr::Obj& common(tr::Obj& o, const crocoddyl::SolverAbstract& s) {
  o.i("iter", s.get_iter()).d("preg", s.get_preg()).d("dreg", s.get_dreg()).b("feas", s.get_is_feasible());
  o.d("cost", s.get_cost()).d("hfeas", s.get_hfeas()).str("cur", tag(s.get_xs())).str("curu", tag(s.get_us()));
  return o;
}
static tr::Obj& full(tr::Obj& o, const crocoddyl::SolverAbstract& s) {
  common(o, s);
  o.d("alpha", s.get_steplength()).d("dV", s.get_dV()).d("dVexp", s.get_dVexp()).d("dPhi", s.get_dPhi()).d("dPhiexp", s.get_dPhiexp());
  o.d("dfeas", s.get_dfeas()).d("stop", s.get_stop()).d("merit", s.get_merit()).d("d0", s.get_d()[0]).d("d1", s.get_d()[1]);
  return o;
}

template <class Base>
struct Scripted : public Base {
  explicit Scripted(std::shared_ptr<crocoddyl::ShootingProblem> p) : Base(p) {}
  void guard() { if (++S.calls > 20000) throw Overrun(); }
  void computeDirection(const bool recalc) override {
    guard();
    tr::Op q = S.dir();
    tr::Obj o;
    o.str("op", "dir").b("recalc", recalc).b("ok", q.b("ok"));
    common(o, *this);
    if (!q.b("ok")) {
      S.out->line(o);
      throw std::runtime_error("direction");
    }
    S.e0 = q.d("e0"); S.e1 = q.d("e1"); S.sv = q.d("sv");
    o.d("e0", S.e0).d("e1", S.e1).d("sv", S.sv).d("c0", q.d("c0")).d("h0", q.d("h0"));
    S.out->line(o);
    if (this->iter_ == 0) { this->cost_ = q.d("c0"); this->hfeas_ = q.d("h0"); }
  }
  double tryStep(const double a) override {
    guard();
    tr::Op q = S.trial();
    tr::Obj o;
    o.str("op", "try").d("a", a).b("ok", q.b("ok"));
    common(o, *this);
    const long id = S.next++;
    for (auto& x : this->xs_try_) x = V::Constant(this->problem_->get_nx(), id);
    for (std::size_t t = 0; t < this->us_try_.size(); ++t) this->us_try_[t] = V::Constant(this->problem_->get_runningModels()[t]->get_nu(), id);
    if (!q.b("ok")) {
      S.out->line(o);
      this->cost_try_ = -777;
      throw std::runtime_error("trial");
    }
    const double dv = q.d("dv");
    S.e0 = q.d("e0"); S.e1 = q.d("e1");
    o.d("dv", dv).d("e0", S.e0).d("e1", S.e1).d("h", q.d("h"));
    S.out->line(o);
    this->cost_try_ = this->cost_ - dv;
    this->hfeas_try_ = q.d("h");
    return dv;
  }
  const Eigen::Vector2d& expectedImprovement() override { this->d_ << S.e0, S.e1; return this->d_; }
  double stoppingCriteria() override { return this->stop_ = S.sv; }
};

struct Cb : public crocoddyl::CallbackAbstract {
  explicit Cb(long i) : id(i) {}
  long id;
  void operator()(crocoddyl::SolverAbstract& s) override {
    tr::Obj o;
    o.str("op", "cb").i("i", id);
    full(o, s);
    extra(o, s);
    S.out->line(o);
  }
  static void extra(tr::Obj& o, crocoddyl::SolverAbstract& s) {
    auto* i = dynamic_cast<crocoddyl::SolverIntro*>(&s);
    o.d("ups", i ? i->get_upsilon() : 0.);
  }
};

static std::vector<double> doubles(const std::string& t) {
  std::vector<double> r;
  for (const auto& p : tr::Op::parts(t, ',')) r.push_back(tr::Op::number(p));
  return r;
}

int main(int, char** argv) {
  std::cout.setstate(std::ios::failbit);
  std::cerr.setstate(std::ios::failbit);
  std::vector<tr::Op> ops = tr::readops(argv[1]);
  tr::Out out(argv[2]);
  S.out = &out;
  auto st = std::make_shared<TState>(2, 2);
  std::vector<std::shared_ptr<Action> > ms;
  for (long i = 0; i < 3; ++i) ms.push_back(std::make_shared<TModel>(st, 1 + i % 2, i + 1, 1));
  std::shared_ptr<crocoddyl::SolverAbstract> solver;
  std::shared_ptr<crocoddyl::ShootingProblem> prob;
  std::string kind;
  for (std::size_t k = 0; k < ops.size(); ++k) {
    const tr::Op& op = ops[k];
    if (op.name == "new") {
      prob = std::make_shared<crocoddyl::ShootingProblem>(V::Zero(2), ms, std::make_shared<TModel>(st, 1, 9, 1));
      kind = op.s("kind");
      if (kind == "ddp") solver = std::make_shared<Scripted<crocoddyl::SolverDDP> >(prob);
      else if (kind == "fddp") solver = std::make_shared<Scripted<crocoddyl::SolverFDDP> >(prob);
      else if (kind == "boxddp") solver = std::make_shared<Scripted<crocoddyl::SolverBoxDDP> >(prob);
      else if (kind == "boxfddp") solver = std::make_shared<Scripted<crocoddyl::SolverBoxFDDP> >(prob);
      else if (kind == "intro") solver = std::make_shared<Scripted<crocoddyl::SolverIntro> >(prob);
      else solver = std::make_shared<Scripted<crocoddyl::SolverKKT> >(prob);
      solver->set_th_acceptstep(op.d("thA"));
      solver->set_th_stop(op.d("thStop"));
      if (auto d = std::dynamic_pointer_cast<crocoddyl::SolverDDP>(solver)) {
        d->set_alphas(doubles(op.s("alphas")));
        d->set_th_grad(op.d("thGrad"));
        d->set_th_stepdec(op.d("sdec"));
        d->set_th_stepinc(op.d("sinc"));
        d->set_reg_incfactor(op.d("inc"));
        d->set_reg_decfactor(op.d("dec"));
        d->set_reg_min(op.d("rmin"));
        d->set_reg_max(op.d("rmax"));
      }
      if (auto d = std::dynamic_pointer_cast<crocoddyl::SolverFDDP>(solver)) d->set_th_acceptnegstep(op.d("thNeg"));
      if (auto d = std::dynamic_pointer_cast<crocoddyl::SolverIntro>(solver)) {
        d->set_rho(op.d("rho"));
        d->set_th_feas(op.d("thFeas"));
        d->set_zero_upsilon(op.b("zu"));
      }
      std::vector<std::shared_ptr<crocoddyl::CallbackAbstract> > cbs;
      // another kind of callback among the recording ones
      if (op.i("ncb") >= 2) cbs.push_back(std::make_shared<crocoddyl::CallbackVerbose>());
      for (long i = 0; i < op.i("ncb"); ++i) cbs.push_back(std::make_shared<Cb>(i + 1));
      solver->setCallbacks(cbs);
      S.next = 1;
      tr::Obj o;
      o.str("op", "new").raw("k", "{" + [&] {
        tr::Obj q;
        q.str("kind", kind);
        for (const char* f : {"thA", "thNeg", "thGrad", "sdec", "sinc", "inc", "dec", "rmin", "rmax", "thStop", "rho", "thFeas"}) q.d(f, op.d(f));
        q.b("zu", op.b("zu")).i("ncb", op.i("ncb")).vec("alphas", doubles(op.s("alphas")));
        const std::string t = q.text();
        return t.substr(1, t.size() - 2);
      }() + "}");
      out.line(o);
    } else if (op.name == "solve") {
      S.dirs.clear(); S.tries.clear(); S.calls = 0;
      S.e0 = S.e1 = S.sv = 0;
      for (std::size_t j = k + 1; j < ops.size() && ops[j].name != "solve" && ops[j].name != "new"; ++j) {
        if (ops[j].name == "dir") S.dirs.push_back(ops[j]);
        if (ops[j].name == "try") S.tries.push_back(ops[j]);
      }
      const long id = S.next++;
      std::vector<V> xs(4, V::Constant(2, id)), us;
      for (auto& m : prob->get_runningModels()) us.push_back(V::Constant(m->get_nu(), id));
      tr::Obj o;
      o.str("op", "solve").i("max", op.i("max")).b("feas", op.b("feas")).str("reg", op.s("reg") == "nan" ? "nan" : tr::num(op.d("reg")));
      out.line(o);
      std::string how = "ret";
      bool ret = false;
      try {
        ret = solver->solve(xs, us, op.i("max"), op.b("feas"), op.s("reg") == "nan" ? NAN : op.d("reg"));
      } catch (const Overrun&) { how = "overrun"; } catch (const std::exception&) { how = "thrown"; }
      tr::Obj r;
      r.str("op", how).b("ret", ret);
      full(r, *solver);
      Cb::extra(r, *solver);
      out.line(r);
    }
  }
  return 0;
}
