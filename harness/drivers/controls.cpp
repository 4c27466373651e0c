// LINK: control-base controls/poly-zero controls/poly-one controls/poly-two-rk utils/.*
// Control parametrizations: values, derivatives, products, fitted parameters, bounds.
#include <map>
#include "crocoddyl/core/controls/poly-one.hpp"
#include "crocoddyl/core/controls/poly-two-rk.hpp"
#include "crocoddyl/core/controls/poly-zero.hpp"
#include "trace.hpp"
using namespace crocoddyl;
typedef Eigen::VectorXd V;
typedef Eigen::MatrixXd M;

int main(int, char** argv) {
  std::cerr.setstate(std::ios::failbit);
  tr::Out out(argv[2]);
  std::shared_ptr<ControlParametrizationModelAbstract> c;
  std::map<long, std::shared_ptr<ControlParametrizationDataAbstract> > ds;
  for (const tr::Op& op : tr::readops(argv[1])) {
    tr::Obj o;
    o.str("op", op.name).raw("in", op.s("json"));
    bool thrown = false;
    if (op.name == "new") {
      const std::string k = op.s("k");
      const std::size_t nw = op.i("nw");
      if (k == "zero") c = std::make_shared<ControlParametrizationModelPolyZero>(nw);
      if (k == "one") c = std::make_shared<ControlParametrizationModelPolyOne>(nw);
      if (k == "two3") c = std::make_shared<ControlParametrizationModelPolyTwoRK>(nw, three);
      if (k == "two4") c = std::make_shared<ControlParametrizationModelPolyTwoRK>(nw, four);
      ds.clear();
      o.i("nw", c->get_nw()).i("nu", c->get_nu());
    } else if (op.name == "data") {
      ds[op.i("d")] = c->createData();
    } else if (op.name == "calc") {
      auto& d = ds.at(op.i("d"));
      const V u = op.v("u");
      try {
        c->calc(d, op.d("t"), u);
        if (op.b("diff")) c->calcDiff(d, op.d("t"), u);
      } catch (const std::exception&) { thrown = true; }
      o.vec("w", d->w).mat("dw", d->dw_du).b("thrown", thrown);
    } else if (op.name == "params") {
      auto& d = ds.at(op.i("d"));
      try { c->params(d, op.d("t"), op.v("w")); } catch (const std::exception&) { thrown = true; }
      const V u = d->u;
      auto e = c->createData();
      if (!thrown) c->calc(e, op.d("t"), u);
      o.vec("u", u).vec("back", e->w).b("thrown", thrown);
    } else if (op.name == "bounds") {
      V l = V::Constant(op.i("nl"), 77.), h = V::Constant(op.i("nh"), 77.);
      try { c->convertBounds(op.v("lb"), op.v("ub"), l, h); } catch (const std::exception&) { thrown = true; }
      o.vec("ulb", l).vec("uub", h).b("thrown", thrown);
    } else {
      auto& d = ds.at(op.i("d"));
      M A = op.m("A"), O = op.m("out");
      const bool t = op.name == "mulT";
      if (!t && A.rows() == 0) { A.resize(0, c->get_nw()); O.resize(0, c->get_nu()); }
      const std::string s = op.s("mode");
      const AssignmentOp mode = s == "set" ? setto : s == "add" ? addto : rmfrom;
      M ret;
      try {
        if (t) { c->multiplyJacobianTransposeBy(d, A, O, mode); ret = c->multiplyJacobianTransposeBy_J(d, A, mode); }
        else { c->multiplyByJacobian(d, A, O, mode); ret = c->multiplyByJacobian_J(d, A, mode); }
      } catch (const std::exception&) { thrown = true; }
      o.mat("out", O).mat("ret", ret).b("thrown", thrown);
    }
    out.line(o);
  }
  return 0;
}
