// LINK: utils/.* state-base states/euclidean residual-base constraint-base action-base optctrl/shooting solver-base solvers/ipopt.*
// The nonlinear program handed to the interior-point library: its callbacks called in any order, and real solves.
#include <map>
#include <cstdio>

#include "crocoddyl/core/optctrl/shooting.hpp"
#include "crocoddyl/core/solvers/ipopt.hpp"
#include "crocoddyl/core/states/euclidean.hpp"
#include "dmodel.hpp"
#include "fmodel.hpp"
using namespace crocoddyl;
using dm::M;
using dm::State;
using dm::V;
using fm::Fn;
typedef Eigen::Ref<const V> RV;

// derivatives are taken at the point of the last calc with the same data
struct NodeData : public ActionDataAbstract {
  V x, u;
  template <class Mo>
  explicit NodeData(Mo* m) : ActionDataAbstract(m), x(m->get_state()->zero()), u(V::Zero(m->get_nu())) {}
};
struct Node : public ActionModelAbstract {
  Fn f, l;
  bool heis;
  Node(std::shared_ptr<State> s, std::size_t nu, const tr::Op& o, const std::string& p, bool h)
      : ActionModelAbstract(s, nu, 0), l(o, p + "l"), heis(h) {
    if (o.has(p + "fn")) f = Fn(o, p + "f");
    if (o.has(p + "lb")) { set_u_lb(o.v(p + "lb")); set_u_ub(o.v(p + "ub")); }
  }
  typedef std::shared_ptr<ActionDataAbstract> D;
  D createData() override { return std::make_shared<NodeData>(this); }
  void calc(const D& d0, const RV& x, const RV& u) override {
    auto* d = static_cast<NodeData*>(d0.get());
    d->x = x;
    d->u = u;
    const V z = fm::cat(d->x, d->u);
    state_->integrate(d->x, f.val(z), d->xnext);
    d->cost = l.val(z)[0];
  }
  void calc(const D& d0, const RV& x) override {
    auto* d = static_cast<NodeData*>(d0.get());
    d->x = x;
    d->u = V(0);
    d->xnext = x;
    d->cost = l.val(x)[0];
  }
  void cost(NodeData* d, const V& x, const V& z) {
    const long n = state_->get_ndx(), m = z.size() - x.size();
    const M T = heis ? dm::HeisState::tangent(x) : M(M::Identity(n, n)), H = l.hess(z), g = l.jac(z);
    d->Lx = T.transpose() * g.row(0).head(n).transpose();
    d->Lxx = T.transpose() * H.topLeftCorner(n, n) * T;
    if (heis) { d->Lxx(0, 1) += 0.5 * g(0, 2); d->Lxx(1, 0) += 0.5 * g(0, 2); }
    if (m) {
      d->Lu = g.row(0).tail(m).transpose();
      d->Lxu = T.transpose() * H.topRightCorner(n, m);
      d->Luu = H.bottomRightCorner(m, m);
    }
  }
  void calcDiff(const D& d0, const RV&, const RV&) override {
    auto* d = static_cast<NodeData*>(d0.get());
    const long n = state_->get_ndx();
    const V z = fm::cat(d->x, d->u), v = f.val(z);
    const M J = f.jac(z), T = heis ? dm::HeisState::tangent(d->x) : M(M::Identity(n, n));
    const M a = heis ? dm::HeisState::jac(1., v) : M(M::Identity(n, n)), b = heis ? dm::HeisState::jac(.5, v) : M(M::Identity(n, n));
    d->Fx = a + b * J.leftCols(n) * T;
    if (nu_) d->Fu = b * J.rightCols(nu_);
    cost(d, d->x, z);
  }
  void calcDiff(const D& d0, const RV&) override {
    auto* d = static_cast<NodeData*>(d0.get());
    cost(d, d->x, d->x);
  }
  std::shared_ptr<ActionModelBase> cloneAsDouble() const override { return nullptr; }
  std::shared_ptr<ActionModelBase> cloneAsFloat() const override { return nullptr; }
};

static const double kGuard = -7.25;
struct Arr {  // an array with guards behind its end
  std::vector<double> v;
  std::size_t n;
  Arr(std::size_t k, double fill) : v(k + 8, fill), n(k) { for (std::size_t i = k; i < k + 8; ++i) v[i] = kGuard; }
  bool ok() const { for (std::size_t i = n; i < v.size(); ++i) if (v[i] != kGuard) return false; return true; }
  V vec() const { return Eigen::Map<const V>(v.data(), n); }
};
struct Ints {
  std::vector<Ipopt::Index> v;
  std::size_t n;
  explicit Ints(std::size_t k) : v(k + 8, -9), n(k) {}
  bool ok() const { for (std::size_t i = n; i < v.size(); ++i) if (v[i] != -9) return false; return true; }
};

int main(int argc, char** argv) {
  std::vector<tr::Op> ops = tr::readops(argv[1]);
  tr::Out out(argv[2]);
  if (!std::freopen("/dev/null", "w", stdout)) return 3;
  std::shared_ptr<State> st;
  std::shared_ptr<ShootingProblem> P;
  Ipopt::SmartPtr<IpoptInterface> I;
  std::shared_ptr<SolverIpopt> S;
  bool heis = false;
  for (const tr::Op& op : ops) {
    tr::Obj o;
    o.str("op", op.name).raw("in", op.s("json"));
    auto base = [&]() { o.vecl("xs", I->get_xs()).vecl("us", I->get_us()); };
    if (op.name == "new") {
      heis = op.s("st") == "heis";
      if (heis) st = std::make_shared<dm::HeisState>();
      else st = std::make_shared<StateVector>(op.i("nx"));
      std::vector<std::shared_ptr<ActionModelAbstract> > ms;
      for (long t = 1; t <= op.i("T"); ++t) {
        const std::string p = std::to_string(t);
        ms.push_back(std::make_shared<Node>(st, op.i(p + "nu"), op, p, heis));
      }
      P = std::make_shared<ShootingProblem>(op.v("x0"), ms, std::make_shared<Node>(st, op.i("Enu"), op, "E", heis));
      I = new IpoptInterface(P);
      S = std::make_shared<SolverIpopt>(P);
      base();
    } else if (op.name == "set") {
      I->set_xs(op.vs("xs"));
      I->set_us(op.vs("us"));
      base();
    } else if (op.name == "x0") {
      P->set_x0(op.v("x0"));
      base();
    } else if (op.name == "swap") {
      auto m = std::make_shared<Node>(st, op.i("Nnu"), op, "N", heis);
      P->updateModel(op.i("t") - 1, m);
      I->resizeData();
      S->resizeData();
      I->set_xs(op.vs("xs"));
      I->set_us(op.vs("us"));
      base();
    } else if (op.name == "eval") {
      Ipopt::Index n = -1, m = -1, nj = -1, nh = -1;
      Ipopt::TNLP::IndexStyleEnum style = Ipopt::TNLP::FORTRAN_STYLE;
      bool ok = I->get_nlp_info(n, m, nj, nh, style) && style == Ipopt::TNLP::C_STYLE;
      const V z = op.v("z");
      o.i("n", n).i("m", m).i("nvar", I->get_nvar()).i("ncon", I->get_nconst());
      ok = ok && n == z.size() && m >= 0 && nj >= 0 && nh >= 0 && m < 1000 && nj < 100000 && nh < 100000;
      std::string w = op.s("what");
      while (!w.empty() && w.back() >= '0' && w.back() <= '9') w.pop_back();
      const double nan = std::nan("");
      if (!ok) {
        o.b("ok", false);
      } else if (w == "bounds") {
        Arr xl(n, nan), xu(n, nan), gl(m, nan), gu(m, nan);
        ok = I->get_bounds_info(n, xl.v.data(), xu.v.data(), m, gl.v.data(), gu.v.data());
        o.b("ok", ok && xl.ok() && xu.ok() && gl.ok() && gu.ok());
        o.vec("xl", xl.vec()).vec("xu", xu.vec()).vec("gl", gl.vec()).vec("gu", gu.vec());
      } else if (w == "start") {
        Arr x(n, nan);
        ok = I->get_starting_point(n, true, x.v.data(), false, nullptr, nullptr, m, false, nullptr);
        o.b("ok", ok && x.ok()).vec("v", x.vec());
      } else if (w == "obj") {
        double f = op.d("junk");
        ok = I->eval_f(n, z.data(), true, f);
        o.b("ok", ok).d("v", f);
      } else if (w == "grad") {
        Arr g(n, nan);
        ok = I->eval_grad_f(n, z.data(), true, g.v.data());
        o.b("ok", ok && g.ok()).vec("v", g.vec());
      } else if (w == "con") {
        Arr g(m, nan);
        ok = I->eval_g(n, z.data(), true, m, g.v.data());
        o.b("ok", ok && g.ok()).vec("v", g.vec());
      } else {
        const bool jac = w == "jac";
        const long cnt = jac ? nj : nh, rows = jac ? m : n;
        Ints r(cnt), c(cnt);
        Arr v(cnt, nan);
        if (jac) {
          ok = I->eval_jac_g(n, nullptr, true, m, nj, r.v.data(), c.v.data(), nullptr) && I->eval_jac_g(n, z.data(), true, m, nj, nullptr, nullptr, v.v.data());
        } else {
          const V lam = V::Constant(m, 1.5);
          ok = I->eval_h(n, nullptr, true, 1., m, nullptr, true, nh, r.v.data(), c.v.data(), nullptr) &&
               I->eval_h(n, z.data(), true, op.d("s"), m, lam.data(), true, nh, nullptr, nullptr, v.v.data());
        }
        ok = ok && r.ok() && c.ok() && v.ok();
        M A = M::Zero(rows, n);
        for (long i = 0; i < cnt; ++i) {
          const long a = r.v[i], b = c.v[i];
          if (a < 0 || a >= rows || b < 0 || b >= n || (!jac && b > a)) { ok = false; continue; }
          A(a, b) += v.v[i];
          if (!jac && a != b) A(b, a) += v.v[i];
        }
        o.b("ok", ok).mat("v", A);
      }
      base();
    } else if (op.name == "final") {
      const V z = op.v("z");
      I->finalize_solution(Ipopt::SUCCESS, z.size(), z.data(), nullptr, nullptr, 0, nullptr, nullptr, op.d("cost"), nullptr, nullptr);
      o.d("cost", I->get_cost());
      base();
    } else if (op.name == "solve") {
      const bool ret = S->solve(op.vs("xs"), op.vs("us"), op.i("maxiter"), false);
      o.b("ret", ret).vecl("sxs", S->get_xs()).vecl("sus", S->get_us()).d("cost", S->get_cost()).i("iter", S->get_iter());
      base();
    }
    out.line(o);
  }
  return 0;
}
