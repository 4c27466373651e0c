// LINK: state-base states/euclidean utils/.*
// The Euclidean state: differences, motions, their Jacobians, limits.
#include "crocoddyl/core/states/euclidean.hpp"
#include "trace.hpp"
using namespace crocoddyl;
typedef Eigen::VectorXd V;
typedef Eigen::MatrixXd M;

int main(int, char** argv) {
  std::cerr.setstate(std::ios::failbit);
  tr::Out out(argv[2]);
  std::shared_ptr<StateVector> st;
  for (const tr::Op& op : tr::readops(argv[1])) {
    tr::Obj o;
    o.str("op", op.name).raw("in", op.s("json"));
    bool thrown = false;
    const std::string w = op.has("w") ? op.s("w") : "both";
    const Jcomponent jc = w == "both" ? both : w == "first" ? first : second;
    if (op.name == "new") {
      st = std::make_shared<StateVector>(op.i("n"));
      o.i("nx", st->get_nx()).i("ndx", st->get_ndx()).vec("zero", st->zero()).vec("rand", st->rand());
    } else if (op.name == "diff") {
      V r = V::Constant(op.i("no"), 77.), back = V::Constant(st->get_nx(), 55.), ret;
      const V a = op.v("x0"), b = op.v("x1");
      try { st->diff(a, b, r); st->integrate(a, r, back); ret = st->diff_dx(a, b); } catch (const std::exception&) { thrown = true; }
      o.vec("out", r).vec("back", back).vec("ret", ret);
    } else if (op.name == "move") {
      V r = V::Constant(op.i("no"), 77.), back = V::Constant(st->get_nx(), 55.), ret;
      const V a = op.v("x"), b = op.v("dx");
      try { st->integrate(a, b, r); st->diff(a, r, back); ret = st->integrate_x(a, b); } catch (const std::exception&) { thrown = true; }
      o.vec("out", r).vec("back", back).vec("ret", ret);
    } else if (op.name == "jdiff" || op.name == "jmove") {
      M a = op.m("a"), b = op.m("b");
      try {
        if (op.name == "jdiff") st->Jdiff(op.v("x0"), op.v("x1"), a, b, jc);
        else st->Jintegrate(op.v("x"), op.v("dx"), a, b, jc, op.s("mode") == "set" ? setto : op.s("mode") == "add" ? addto : rmfrom);
      } catch (const std::exception&) { thrown = true; }
      o.mat("a", a).mat("b", b);
    } else if (op.name == "trans") {
      M a = op.m("a");
      try { st->JintegrateTransport(op.v("x"), op.v("dx"), a, jc); } catch (const std::exception&) { thrown = true; }
      o.mat("a", a);
    } else if (op.name == "js") {
      o.matl("jd", st->Jdiff_Js(op.v("x"), op.v("dx"), jc)).matl("jm", st->Jintegrate_Js(op.v("x"), op.v("dx"), jc));
    } else if (op.name == "limit") {
      try { if (op.b("up")) st->set_ub(op.v("v")); else st->set_lb(op.v("v")); } catch (const std::exception&) { thrown = true; }
      o.vec("lb", st->get_lb()).vec("ub", st->get_ub()).b("has", st->get_has_limits());
    }
    o.b("thrown", thrown);
    out.line(o);
  }
  return 0;
}
