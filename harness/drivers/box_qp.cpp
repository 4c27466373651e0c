// LINK: utils/exception solvers/box-qp
// Runs the real box QP solver on sequences of problems.
#include "crocoddyl/core/solvers/box-qp.hpp"
#include "trace.hpp"
typedef Eigen::VectorXd V;
typedef Eigen::MatrixXd M;

static void sol(tr::Obj& o, const crocoddyl::BoxQPSolution& s) {
  o.vec("sx", s.x).mat("inv", s.Hff_inv);
  o.ints("free", std::vector<long>(s.free_idx.begin(), s.free_idx.end())).ints("clamped", std::vector<long>(s.clamped_idx.begin(), s.clamped_idx.end()));
}

int main(int, char** argv) {
  std::cerr.setstate(std::ios::failbit);
  tr::Out out(argv[2]);
  std::shared_ptr<crocoddyl::BoxQP> qp;
  double reg = 0, th = 0, tha = 0;
  for (const tr::Op& op : tr::readops(argv[1])) {
    tr::Obj o;
    o.str("op", op.name);
    if (op.name == "new") {
      reg = op.d("reg"); th = op.d("th"); tha = op.d("thA");
      qp = std::make_shared<crocoddyl::BoxQP>(op.i("n"), op.i("maxiter"), tha, th, reg);
      o.i("n", op.i("n")).i("nx", qp->get_nx()).d("reg", qp->get_reg()).d("th", qp->get_th_grad());
    } else if (op.name == "resize") {
      qp->set_nx(op.i("n"));
      o.i("n", op.i("n")).i("nx", qp->get_nx());
    } else if (op.name == "reg") {
      reg = op.d("reg");
      qp->set_reg(reg);
      o.d("reg", qp->get_reg());
    } else {
      M H = op.m("H");
      V q = op.v("q"), lo = op.v("lo"), hi = op.v("hi"), x = op.v("x");
      const std::string bad = op.s("bad");
      o.mat("H", H).vec("q", q).vec("lo", lo).vec("hi", hi).vec("x", x).str("bad", bad);
      crocoddyl::BoxQP f(x.size(), qp->get_maxiter(), tha, th, reg);
      o.vec("fresh", f.solve(H, q, lo, hi, x).x);
      const long n = x.size();
      if (bad == "H") H = M::Identity(n, n + 1);
      if (bad == "q") q = V::Zero(n + 1);
      if (bad == "lo") lo = V::Zero(n - 1);
      if (bad == "hi") hi = V::Zero(n + 1);
      if (bad == "x") x = V::Zero(n - 1);
      bool thrown = false;
      try {
        qp->solve(H, q, lo, hi, x);
      } catch (const std::exception&) { thrown = true; }
      o.b("thrown", thrown);
      sol(o, qp->get_solution());
    }
    out.line(o);
  }
  return 0;
}
