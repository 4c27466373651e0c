// LINK: utils/.* state-base states/euclidean residual-base constraint-base action-base diff-action-base optctrl/shooting solver-base solvers/.*
// Settings of solvers, box QPs, constraints and action models: accepted and refused changes, solves, copies.
#include <map>

#include "crocoddyl/core/constraint-base.hpp"
#include "crocoddyl/core/diff-action-base.hpp"
#include "crocoddyl/core/solvers/box-ddp.hpp"
#include "crocoddyl/core/solvers/box-fddp.hpp"
#include "crocoddyl/core/solvers/ddp.hpp"
#include "crocoddyl/core/solvers/fddp.hpp"
#include "crocoddyl/core/solvers/intro.hpp"
#include "crocoddyl/core/solvers/ipopt.hpp"
#include "crocoddyl/core/solvers/kkt.hpp"
#include "crocoddyl/core/states/euclidean.hpp"
#include "trace.hpp"
using namespace crocoddyl;
typedef Eigen::VectorXd V;
typedef Eigen::MatrixXd M;

// x' = x + B u with a quadratic cost; the terminal calls are those of the base class.
struct Node : public ActionModelAbstract {
  Node(std::shared_ptr<StateAbstract> s, std::size_t nu) : ActionModelAbstract(s, nu, 0, 0, 0, 0, 0) {
    u_lb_.setConstant(-10); u_ub_.setConstant(10); update_has_control_limits();
  }
  void calc(const std::shared_ptr<ActionDataAbstract>& d, const Eigen::Ref<const V>& x, const Eigen::Ref<const V>& u) override {
    d->xnext = x; d->xnext[0] += u.sum();
    d->cost = 0.5 * (x - V::Ones(2)).squaredNorm() + 0.5 * u.squaredNorm();
  }
  void calcDiff(const std::shared_ptr<ActionDataAbstract>& d, const Eigen::Ref<const V>& x, const Eigen::Ref<const V>& u) override {
    d->Fx.setIdentity(); d->Fu.setZero(); d->Fu.row(0).setOnes();
    d->Lx = x - V::Ones(2); d->Lu = u; d->Lxx.setIdentity(); d->Luu.setIdentity(); d->Lxu.setZero();
  }
  std::shared_ptr<ActionModelBase> cloneAsDouble() const override { return nullptr; }
  std::shared_ptr<ActionModelBase> cloneAsFloat() const override { return nullptr; }
};
// A model that insists on the size of its control; its terminal evaluation is the one of the base class.
struct Plain : public ActionModelAbstract {
  Plain(std::shared_ptr<StateAbstract> s, std::size_t nu, std::size_t ng, std::size_t ngT) : ActionModelAbstract(s, nu, 0, ng, 0, ngT, 0) {}
  void calc(const std::shared_ptr<ActionDataAbstract>& d, const Eigen::Ref<const V>& x, const Eigen::Ref<const V>& u) override {
    if (u.size() != long(nu_)) throw std::runtime_error("size");
    d->cost = x.sum() + u.sum();
  }
  void calcDiff(const std::shared_ptr<ActionDataAbstract>& d, const Eigen::Ref<const V>&, const Eigen::Ref<const V>& u) override {
    if (u.size() != long(nu_)) throw std::runtime_error("size");
    d->Lx.setOnes(); d->Lu.setOnes();
  }
  std::shared_ptr<ActionModelBase> cloneAsDouble() const override { return nullptr; }
  std::shared_ptr<ActionModelBase> cloneAsFloat() const override { return nullptr; }
};
struct DPlain : public DifferentialActionModelAbstract {
  DPlain(std::shared_ptr<StateAbstract> s, std::size_t nu, std::size_t ng, std::size_t ngT) : DifferentialActionModelAbstract(s, nu, 0, ng, 0, ngT, 0) {}
  void calc(const std::shared_ptr<DifferentialActionDataAbstract>& d, const Eigen::Ref<const V>& x, const Eigen::Ref<const V>& u) override {
    if (u.size() != long(nu_)) throw std::runtime_error("size");
    d->cost = x.sum() + u.sum();
  }
  void calcDiff(const std::shared_ptr<DifferentialActionDataAbstract>& d, const Eigen::Ref<const V>&, const Eigen::Ref<const V>& u) override {
    if (u.size() != long(nu_)) throw std::runtime_error("size");
    d->Lx.setOnes(); d->Lu.setOnes();
  }
  std::shared_ptr<DifferentialActionModelBase> cloneAsDouble() const override { return nullptr; }
  std::shared_ptr<DifferentialActionModelBase> cloneAsFloat() const override { return nullptr; }
};
struct Con : public ConstraintModelAbstract {
  using ConstraintModelAbstract::ConstraintModelAbstract;
  void calc(const std::shared_ptr<ConstraintDataAbstract>&, const Eigen::Ref<const V>&, const Eigen::Ref<const V>&) override {}
  void calcDiff(const std::shared_ptr<ConstraintDataAbstract>&, const Eigen::Ref<const V>&, const Eigen::Ref<const V>&) override {}
  std::shared_ptr<ConstraintModelBase> cloneAsDouble() const override { return nullptr; }
  std::shared_ptr<ConstraintModelBase> cloneAsFloat() const override { return nullptr; }
};
struct Res : public ResidualModelAbstract {
  using ResidualModelAbstract::ResidualModelAbstract;
  std::shared_ptr<ResidualModelBase> cloneAsDouble() const override { return nullptr; }
  std::shared_ptr<ResidualModelBase> cloneAsFloat() const override { return nullptr; }
};
struct Ob {
  std::string k;
  std::shared_ptr<SolverAbstract> s;
  std::shared_ptr<BoxQP> q;
  std::shared_ptr<Con> c;
  std::shared_ptr<Plain> a;
  std::shared_ptr<DPlain> da;
};
static std::vector<double> list(const V& v) { return std::vector<double>(v.data(), v.data() + v.size()); }
static V vec(const std::vector<double>& v) { V r(v.size()); for (std::size_t i = 0; i < v.size(); ++i) r[i] = v[i]; return r; }

static tr::Obj report(const Ob& o) {
  tr::Obj r, v;
  if (o.q) v.d("nx", o.q->get_nx()).d("maxiter", o.q->get_maxiter()).d("th_acceptstep", o.q->get_th_acceptstep()).d("th_grad", o.q->get_th_grad()).d("reg", o.q->get_reg()).vec("alphas", vec(o.q->get_alphas()));
  if (o.c) v.i("ng", o.c->get_ng()).i("nh", o.c->get_nh()).vec("lb", o.c->get_lb()).vec("ub", o.c->get_ub()).str("type", o.c->get_type() == Inequality ? "ineq" : o.c->get_type() == Equality ? "eq" : "both");
  const auto lims = [&](const auto& a) { v.vec("ulb", a->get_u_lb()).vec("uub", a->get_u_ub()).vec("glb", a->get_g_lb()).vec("gub", a->get_g_ub()).b("has", a->get_has_control_limits()); };
  if (o.a) lims(o.a);
  if (o.da) lims(o.da);
  if (o.s) {
    v.d("preg", o.s->get_preg()).d("dreg", o.s->get_dreg()).d("xreg", o.s->get_xreg()).d("ureg", o.s->get_ureg());
    v.d("th_acceptstep", o.s->get_th_acceptstep()).d("th_stop", o.s->get_th_stop()).d("th_gaptol", o.s->get_th_gaptol()).d("feasnorm", o.s->get_feasnorm());
    v.vecl("xs", o.s->get_xs()).vecl("us", o.s->get_us());
  }
  if (auto d = std::dynamic_pointer_cast<SolverDDP>(o.s)) {
    v.d("reg_inc", d->get_reg_incfactor()).d("reg_dec", d->get_reg_decfactor()).d("regfactor", d->get_regfactor()).d("reg_min", d->get_reg_min()).d("regmin", d->get_regmin()).d("reg_max", d->get_reg_max()).d("regmax", d->get_regmax());
    v.vec("alphas", vec(d->get_alphas())).d("th_stepdec", d->get_th_stepdec()).d("th_stepinc", d->get_th_stepinc()).d("th_grad", d->get_th_grad());
  }
  if (auto f = std::dynamic_pointer_cast<SolverFDDP>(o.s)) v.d("th_acceptnegstep", f->get_th_acceptnegstep());
  if (auto i = std::dynamic_pointer_cast<SolverIntro>(o.s)) v.d("eq", i->get_equality_solver()).d("th_feas", i->get_th_feas()).d("rho", i->get_rho()).d("zero_upsilon", i->get_zero_upsilon());
  return r.str("k", o.k).raw("v", v.text());
}
static void set(Ob& o, const std::string& n, const tr::Op& op) {
  if (o.q) {
    if (n == "alphas") o.q->set_alphas(list(op.v("v")));
    else if (n == "nx") o.q->set_nx(op.i("v"));
    else if (n == "maxiter") o.q->set_maxiter(op.i("v"));
    else if (n == "th_acceptstep") o.q->set_th_acceptstep(op.d("v"));
    else if (n == "th_grad") o.q->set_th_grad(op.d("v"));
    else if (n == "reg") o.q->set_reg(op.d("v"));
    else std::exit(4);
    return;
  }
  auto d = std::dynamic_pointer_cast<SolverDDP>(o.s);
  auto f = std::dynamic_pointer_cast<SolverFDDP>(o.s);
  auto i = std::dynamic_pointer_cast<SolverIntro>(o.s);
  if (n == "xs") o.s->set_xs(op.vs("v"));
  else if (n == "us") o.s->set_us(op.vs("v"));
  else if (n == "preg") o.s->set_preg(op.d("v"));
  else if (n == "dreg") o.s->set_dreg(op.d("v"));
  else if (n == "xreg") o.s->set_xreg(op.d("v"));
  else if (n == "ureg") o.s->set_ureg(op.d("v"));
  else if (n == "th_acceptstep") o.s->set_th_acceptstep(op.d("v"));
  else if (n == "th_stop") { if (o.k == "ipopt") std::dynamic_pointer_cast<SolverIpopt>(o.s)->set_th_stop(op.d("v")); else o.s->set_th_stop(op.d("v")); }
  else if (n == "th_gaptol") o.s->set_th_gaptol(op.d("v"));
  else if (n == "feasnorm") o.s->set_feasnorm(op.i("v") ? L1 : LInf);
  else if (n == "alphas") d->set_alphas(list(op.v("v")));
  else if (n == "reg_inc") d->set_reg_incfactor(op.d("v"));
  else if (n == "reg_dec") d->set_reg_decfactor(op.d("v"));
  else if (n == "regfactor") d->set_regfactor(op.d("v"));
  else if (n == "reg_min") d->set_reg_min(op.d("v"));
  else if (n == "regmin") d->set_regmin(op.d("v"));
  else if (n == "reg_max") d->set_reg_max(op.d("v"));
  else if (n == "regmax") d->set_regmax(op.d("v"));
  else if (n == "th_stepdec") d->set_th_stepdec(op.d("v"));
  else if (n == "th_stepinc") d->set_th_stepinc(op.d("v"));
  else if (n == "th_grad") d->set_th_grad(op.d("v"));
  else if (n == "th_acceptnegstep") f->set_th_acceptnegstep(op.d("v"));
  else if (n == "eq") i->set_equality_solver(op.i("v") == 0 ? LuNull : op.i("v") == 1 ? QrNull : Schur);
  else if (n == "th_feas") i->set_th_feas(op.d("v"));
  else if (n == "rho") i->set_rho(op.d("v"));
  else if (n == "zero_upsilon") i->set_zero_upsilon(op.i("v"));
  else std::exit(4);
}

int main(int, char** argv) {
  std::cerr.setstate(std::ios::failbit);
  std::cout.setstate(std::ios::failbit);
  tr::Out out(argv[2]);
  std::map<long, Ob> os;
  const std::shared_ptr<StateAbstract> st = std::make_shared<StateVector>(2);
  for (const tr::Op& op : tr::readops(argv[1])) {
    tr::Obj o;
    o.str("op", op.name).raw("in", op.s("json"));
    bool thrown = false;
    try {
      if (op.name == "reset") os.clear();
      else if (op.name == "new") {
        Ob b;
        b.k = op.s("k");
        if (b.k == "qp") b.q = std::make_shared<BoxQP>(2);
        else {
          std::vector<std::shared_ptr<ActionModelAbstract> > ms;
          for (long nu : op.is("dims")) ms.push_back(std::make_shared<Node>(st, nu));
          auto p = std::make_shared<ShootingProblem>(V::Zero(2), ms, std::make_shared<Node>(st, 0));
          if (b.k == "ddp") b.s = std::make_shared<SolverDDP>(p);
          else if (b.k == "fddp") b.s = std::make_shared<SolverFDDP>(p);
          else if (b.k == "boxddp") b.s = std::make_shared<SolverBoxDDP>(p);
          else if (b.k == "boxfddp") b.s = std::make_shared<SolverBoxFDDP>(p);
          else if (b.k == "intro") b.s = std::make_shared<SolverIntro>(p);
          else if (b.k == "kkt") b.s = std::make_shared<SolverKKT>(p);
          else b.s = std::make_shared<SolverIpopt>(p);
        }
        os[op.i("i")] = b;
      } else if (op.name == "set") set(os.at(op.i("i")), op.s("n"), op);
      else if (op.name == "run") {
        Ob& b = os.at(op.i("i"));
        if (b.q) { const long n = b.q->get_nx(); b.q->solve(M::Identity(n, n), V::Ones(n), V::Constant(n, -0.5), V::Constant(n, 2.), V::Zero(n)); }
        else if (b.k != "ipopt") b.s->solve(DEFAULT_VECTOR, DEFAULT_VECTOR, op.i("n"), false, 1e-9);
      } else if (op.name == "con") {
        Ob b;
        b.k = "con";
        const std::string via = op.s("via");
        if (via == "res") b.c = std::make_shared<Con>(st, std::make_shared<Res>(st, std::size_t(op.i("ng") + op.i("nh")), std::size_t(1)), op.i("ng"), op.i("nh"));
        else if (via == "nu") b.c = std::make_shared<Con>(st, std::size_t(1), std::size_t(op.i("ng")), std::size_t(op.i("nh")), true);
        else b.c = std::make_shared<Con>(st, std::size_t(op.i("ng")), std::size_t(op.i("nh")), true);
        os[op.i("i")] = b;
      } else if (op.name == "bounds") os.at(op.i("i")).c->update_bounds(op.v("lo"), op.v("up"));
      else if (op.name == "free") os.at(op.i("i")).c->remove_bounds();
      else if (op.name == "act") {
        Ob b;
        b.k = "act";
        if (op.b("dif")) b.da = std::make_shared<DPlain>(st, op.i("nu"), op.i("ng"), op.i("ngT"));
        else b.a = std::make_shared<Plain>(st, op.i("nu"), op.i("ng"), op.i("ngT"));
        os[op.i("i")] = b;
      } else if (op.name == "limit") {
        const auto set = [&](auto& m) {
          const std::string w = op.s("w");
          if (w == "ulb") m.set_u_lb(op.v("v"));
          if (w == "uub") m.set_u_ub(op.v("v"));
          if (w == "glb") m.set_g_lb(op.v("v"));
          if (w == "gub") m.set_g_ub(op.v("v"));
        };
        const Ob& b = os.at(op.i("i"));
        if (b.a) set(*b.a); else set(*b.da);
      } else if (op.name == "copy") {
        const Ob a = os.at(op.i("i"));
        Ob b;
        b.k = "act";
        if (a.a) b.a = std::make_shared<Plain>(*a.a); else b.da = std::make_shared<DPlain>(*a.da);
        os[op.i("j")] = b;
      } else if (op.name == "end") {
        const auto end = [&](auto& m, auto d) {
          d->Lx.setZero();
          typedef typename std::conditional<std::is_same<std::decay_t<decltype(m)>, Plain>::value, ActionModelAbstract, DifferentialActionModelAbstract>::type B;
          m.B::calc(d, op.v("x"));
          m.B::calcDiff(d, op.v("x"));
          o.d("cost", d->cost).vec("lx", d->Lx);
        };
        const Ob& b = os.at(op.i("i"));
        if (b.a) end(*b.a, b.a->createData()); else end(*b.da, b.da->createData());
      }
    } catch (const std::exception&) { thrown = true; }
    o.b("thrown", thrown);
    std::vector<tr::Obj> l;
    for (const auto& p : os) { tr::Obj r = report(p.second); r.i("i", p.first); l.push_back(r); }
    o.objs("os", l);
    out.line(o);
  }
  return 0;
}
