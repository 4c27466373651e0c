// LINK: utils/.* state-base states/euclidean action-base optctrl/shooting solver-base solvers/.*
// The verbose callback: configurations, calls with given values, calls during solves.
#include <map>
#include <sstream>

#include "crocoddyl/core/solvers/box-fddp.hpp"
#include "crocoddyl/core/solvers/ddp.hpp"
#include "crocoddyl/core/solvers/fddp.hpp"
#include "crocoddyl/core/solvers/intro.hpp"
#include "crocoddyl/core/states/euclidean.hpp"
#include "crocoddyl/core/utils/callbacks.hpp"
#include "trace.hpp"
using namespace crocoddyl;
typedef Eigen::VectorXd V;

// x' = x + u + c x0^2 with a quadratic cost, one inequality and one equality.
struct Node : public ActionModelAbstract {
  double c;
  Node(std::shared_ptr<StateAbstract> s, double cc) : ActionModelAbstract(s, 2, 0, 1, 1, 1, 1), c(cc) { V l(1); l[0] = -0.5; set_g_lb(l); l[0] = 0.5; set_g_ub(l); }
  void calc(const std::shared_ptr<ActionDataAbstract>& d, const Eigen::Ref<const V>& x, const Eigen::Ref<const V>& u) override {
    d->xnext = x + u; d->xnext[1] += c * x[0] * x[0];
    d->cost = 0.5 * (x - V::Ones(2)).squaredNorm() + 0.05 * u.squaredNorm();
    d->g = x.head(1); d->h = u.tail(1);
  }
  void calcDiff(const std::shared_ptr<ActionDataAbstract>& d, const Eigen::Ref<const V>& x, const Eigen::Ref<const V>& u) override {
    d->Fx.setIdentity(); d->Fx(1, 0) = 2 * c * x[0]; d->Fu.setIdentity();
    d->Lx = x - V::Ones(2); d->Lu = 0.1 * u; d->Lxx.setIdentity(); d->Luu.setIdentity(); d->Luu *= 0.1; d->Lxu.setZero();
    d->Gx.setZero(); d->Gx(0, 0) = 1; d->Gu.setZero(); d->Hx.setZero(); d->Hu.setZero(); d->Hu(0, 1) = 1;
  }
  std::shared_ptr<ActionModelBase> cloneAsDouble() const override { return nullptr; }
  std::shared_ptr<ActionModelBase> cloneAsFloat() const override { return nullptr; }
};
static std::shared_ptr<ShootingProblem> problem(double c) {
  auto m = std::make_shared<Node>(std::make_shared<StateVector>(2), c);
  return std::make_shared<ShootingProblem>(V::Constant(2, 3.), std::vector<std::shared_ptr<ActionModelAbstract> >(4, m), m);
}
// A solver that holds the values it is given.
struct Held : public SolverAbstract {
  using SolverAbstract::SolverAbstract;
  bool solve(const std::vector<V>&, const std::vector<V>&, const std::size_t, const bool, const double) override { return false; }
  void computeDirection(const bool) override {}
  double tryStep(const double) override { return 0; }
  double stoppingCriteria() override { return 0; }
  const Eigen::Vector2d& expectedImprovement() override { return d_; }
  void hold(long i, const V& v) {
    iter_ = i; cost_ = v[0]; merit_ = v[1]; stop_ = v[2]; d_ << v[3], v[4]; preg_ = v[5]; dreg_ = v[6]; steplength_ = v[7]; ffeas_ = v[8]; gfeas_ = v[9]; hfeas_ = v[10];
    dVexp_ = v[11]; dV_ = v[12]; dPhiexp_ = v[13]; dPhi_ = v[14];
  }
};
static tr::Obj values(const SolverAbstract& s) {
  tr::Obj o;
  o.d("cost", s.get_cost()).d("merit", s.get_merit()).d("stop", s.get_stop()).d("d0", s.get_d()[0]).d("d1", s.get_d()[1]).d("preg", s.get_preg()).d("dreg", s.get_dreg()).d("step", s.get_steplength());
  o.d("||ffeas||", s.get_ffeas()).d("||gfeas||", s.get_gfeas()).d("||hfeas||", s.get_hfeas()).d("dV-exp", s.get_dVexp()).d("dV", s.get_dV()).d("dPhi-exp", s.get_dPhiexp()).d("dPhi", s.get_dPhi());
  return o;
}
static tr::Obj whole(const SolverAbstract& s) {
  tr::Obj o;
  o.raw("v", values(s).text()).i("iter", s.get_iter()).vecl("xs", s.get_xs()).vecl("us", s.get_us()).b("feas", s.get_is_feasible()).d("th_stop", s.get_th_stop()).d("th_acc", s.get_th_acceptstep()).i("norm", s.get_feasnorm());
  return o;
}
struct Caught {  // what is printed while it lives
  std::ostringstream t;
  std::streambuf* old;
  Caught() : old(std::cout.rdbuf(t.rdbuf())) {}
  ~Caught() { std::cout.rdbuf(old); }
  std::string lines() const {
    std::istringstream is(t.str());
    std::string l, r = "[";
    bool first = true;
    while (std::getline(is, l)) {
      r += first ? "[" : ",[";
      first = false;
      bool f = true;
      for (std::string w : tr::split(l)) { if (w == "-nan") w = "nan"; r += (f ? "" : ",") + tr::Obj::quote(w); f = false; }
      r += "]";
    }
    return r + "]";
  }
};
// During a solve: what the callback prints, and the solver before and after it.
struct Spy : public CallbackAbstract {
  CallbackVerbose& v;
  std::vector<tr::Obj> calls;
  explicit Spy(CallbackVerbose& vv) : v(vv) {}
  void operator()(SolverAbstract& s) override {
    tr::Obj o;
    o.raw("before", whole(s).text());
    Caught c;
    v(s);
    o.raw("lines", c.lines()).raw("after", whole(s).text());
    calls.push_back(o);
  }
};
static std::shared_ptr<SolverAbstract> make(const std::string& k, double c) {
  auto p = problem(c);
  if (k == "ddp") return std::make_shared<SolverDDP>(p);
  if (k == "fddp") return std::make_shared<SolverFDDP>(p);
  if (k == "boxfddp") return std::make_shared<SolverBoxFDDP>(p);
  return std::make_shared<SolverIntro>(p);
}

int main(int, char** argv) {
  std::cerr.setstate(std::ios::failbit);
  tr::Out out(argv[2]);
  std::map<std::string, std::shared_ptr<CallbackVerbose> > cs;
  auto held = std::make_shared<Held>(problem(0.));
  for (const tr::Op& op : tr::readops(argv[1])) {
    tr::Obj o;
    o.str("op", op.name).raw("in", op.s("json"));
    bool thrown = false;
    Caught c;
    try {
      if (op.name == "reset") cs.clear();
      else if (op.name == "new") cs[op.s("s")] = std::make_shared<CallbackVerbose>(VerboseLevel(op.i("level")), op.i("p"));
      else if (op.name == "default") cs[op.s("s")] = op.i("p") == 3 ? std::make_shared<CallbackVerbose>() : std::make_shared<CallbackVerbose>(VerboseLevel(2));
      else if (op.name == "level") cs[op.s("s")]->set_level(VerboseLevel(op.i("level")));
      else if (op.name == "precision") cs[op.s("s")]->set_precision(op.i("p"));
      else if (op.name == "call") {
        held->hold(op.i("iter"), op.v("v"));
        o.raw("before", whole(*held).text());
        (*cs[op.s("s")])(*held);
        o.raw("after", whole(*held).text());
      } else if (op.name == "solve") {
        auto a = make(op.s("k"), op.d("c")), b = make(op.s("k"), op.d("c"));
        auto spy = std::make_shared<Spy>(*cs[op.s("s")]);
        a->setCallbacks({spy});
        const bool ra = a->solve(DEFAULT_VECTOR, DEFAULT_VECTOR, op.i("n")), rb = b->solve(DEFAULT_VECTOR, DEFAULT_VECTOR, op.i("n"));
        o.objs("calls", spy->calls).b("ra", ra).b("rb", rb).raw("a", whole(*a).text()).raw("b", whole(*b).text());
      }
    } catch (const std::exception&) { thrown = true; }
    o.raw("lines", c.lines()).b("thrown", thrown);
    std::vector<tr::Obj> l;
    for (const auto& p : cs) { tr::Obj r; r.str("s", p.first).i("level", p.second->get_level()).i("precision", p.second->get_precision()); l.push_back(r); }
    o.objs("os", l);
    out.line(o);
  }
  return 0;
}
