// LINK: mb/states/.* mb/actuations/.* state-base actuation-base utils/.*
// OPTS: minipin
// SCALARS: double float
// The states and actuations of robots.
#include <map>

#include "mb.hpp"
#include "crocoddyl/multibody/states/multibody.hpp"
#include "crocoddyl/multibody/actuations/floating-base-thrusters.hpp"
#include "crocoddyl/multibody/actuations/floating-base.hpp"
#include "crocoddyl/multibody/actuations/full.hpp"
using namespace crocoddyl;
using mb::M;
using mb::V;
typedef std::vector<ThrusterTpl<double> > Ths;

static Ths thrusters(const tr::Op& o) {
  Ths r;
  const std::vector<V> R = o.vs("tR"), t = o.vs("tt");
  const V c = o.v("tc");
  const std::vector<long> w = o.is("tw");
  for (std::size_t i = 0; i < R.size(); ++i) r.push_back(ThrusterTpl<double>(mb::pose(R[i], t[i]), c[i], w[i] ? CW : CCW, 0.5, 10. + i));
  return r;
}
template <typename S>
static void limits(tr::Obj& o, const StateMultibodyTpl<S>& s) {
  o.i("nq", s.get_nq()).i("nv", s.get_nv()).i("nx", s.get_nx()).i("ndx", s.get_ndx()).vec("lb", s.get_lb()).vec("ub", s.get_ub()).b("has", s.get_has_limits()).vec("zero", s.zero());
}

int main(int, char** argv) {
  std::cerr.setstate(std::ios::failbit);
  tr::Out out(argv[2]);
  std::shared_ptr<StateMultibody> st;
  std::shared_ptr<ActuationModelAbstract> act;
  std::map<long, std::shared_ptr<ActuationDataAbstract> > ds;
  for (const tr::Op& op : tr::readops(argv[1])) {
    tr::Obj o;
    o.str("op", op.name).raw("in", op.s("json"));
    bool thrown = false;
    const std::string w = op.has("w") ? op.s("w") : "both";
    const Jcomponent jc = w == "both" ? both : w == "first" ? first : second;
    const double h = 1e-3;
    if (op.name == "new") {
      st = std::make_shared<StateMultibody>(mb::robot(op));
      act.reset();
      ds.clear();
      limits(o, *st);
      o.vec("rand", st->rand());
    } else if (op.name == "diff") {
      V r = V::Constant(op.i("no"), 77.), ret;
      try { st->diff(op.v("x0"), op.v("x1"), r); ret = st->diff_dx(op.v("x0"), op.v("x1")); } catch (const std::exception&) { thrown = true; }
      o.vec("out", r).vec("ret", ret);
    } else if (op.name == "move") {
      V r = V::Constant(op.i("no"), 77.), ret;
      try { st->integrate(op.v("x"), op.v("dx"), r); ret = st->integrate_x(op.v("x"), op.v("dx")); } catch (const std::exception&) { thrown = true; }
      o.vec("out", r).vec("ret", ret);
    } else if (op.name == "jdiff" || op.name == "jmove" || op.name == "trans" || op.name == "js") {
      const bool jd = op.name == "jdiff";
      const V x = op.v("x"), y = op.v("y"), e = op.v("e");  // jdiff: y the second point, otherwise the displacement
      M a = op.m("a"), b = op.m("b");
      const std::string md = op.s("mode");
      try {
        if (jd) st->Jdiff(x, y, a, b, jc);
        else if (op.name == "trans") st->JintegrateTransport(x, y, a, jc);
        else if (op.name == "jmove") st->Jintegrate(x, y, a, b, jc, md == "set" ? setto : md == "add" ? addto : rmfrom);
      } catch (const std::exception&) { thrown = true; }
      o.mat("a", a).mat("b", b);
      if (op.name == "js") o.matl("jm", st->Jintegrate_Js(x, y, jc));
      if (op.name == "js") { const V z = st->integrate_x(x, y); o.vec("z", z).matl("jd", st->Jdiff_Js(x, z, jc)); }
      // the Jacobians themselves, and what they should be: differences along e
      const std::size_t n = st->get_ndx();
      M f = M::Zero(n, n), s = M::Zero(n, n);
      if (jd) st->Jdiff(x, y, f, s, both); else st->Jintegrate(x, y, f, s, both, setto);
      o.mat("first", f).mat("second", s);
      std::vector<V> vf, vs;
      const double st_[4] = {-2 * h, -h, h, 2 * h};
      for (int k = 0; k < 4; ++k) {
        const V d = st_[k] * e;
        if (jd) {
          vf.push_back(st->diff_dx(st->integrate_x(x, d), y));
          vs.push_back(st->diff_dx(x, st->integrate_x(y, d)));
        } else {
          vf.push_back(st->diff_dx(st->integrate_x(x, y), st->integrate_x(st->integrate_x(x, d), y)));
          vs.push_back(st->diff_dx(st->integrate_x(x, y), st->integrate_x(x, y + d)));
        }
      }
      o.vecl("vf", vf).vecl("vs", vs);
    } else if (op.name == "limit") {
      try { if (op.b("up")) st->set_ub(op.v("v")); else st->set_lb(op.v("v")); } catch (const std::exception&) { thrown = true; }
      limits(o, *st);
    } else if (op.name == "cast") {
      const StateMultibodyTpl<float> f = st->cast<float>();
      limits(o, f);
      V r(st->get_nx());
      Eigen::VectorXf rf(f.get_nx());
      st->integrate(op.v("x"), op.v("dx"), r);
      f.integrate(op.v("x").cast<float>(), op.v("dx").cast<float>(), rf);
      o.vec("moved", r).vec("fmoved", rf);
    } else if (op.name == "act") {
      try {
        const std::string k = op.s("k");
        std::shared_ptr<ActuationModelAbstract> m;
        if (k == "float") m = std::make_shared<ActuationModelFloatingBase>(st);
        else if (k == "full") m = std::make_shared<ActuationModelFull>(st);
        else m = std::make_shared<ActuationModelFloatingBaseThrusters>(st, thrusters(op));
        act = m;
        ds.clear();
      } catch (const std::exception&) { thrown = true; }
    } else if (op.name == "thr") {
      auto t = std::dynamic_pointer_cast<ActuationModelFloatingBaseThrusters>(act);
      try { t->set_thrusters(thrusters(op)); } catch (const std::exception&) { thrown = true; }
    } else if (op.name == "data") {
      ds[op.i("d")] = act->createData();
    } else if (op.name == "aeval") {
      std::vector<std::shared_ptr<ActuationDataAbstract> > w2{ds.at(op.i("d")), act->createData()};
      std::vector<tr::Obj> rs(2);
      int th = 0;
      for (int k = 0; k < 2; ++k) {
        auto& d = *w2[k];
        const std::string ord = op.s("ord");
        try {
          for (char c : ord) {
            if (c == 'c') act->calc(w2[k], op.v("x"), op.v("u"));
            if (c == 'd') act->calcDiff(w2[k], op.v("x"), op.v("u"));
            if (c == 't') act->torqueTransform(w2[k], op.v("x"), op.v("tau"));
            if (c == 'm') act->commands(w2[k], op.v("x"), op.v("tau"));
          }
        } catch (const std::exception&) { ++th; }
        std::vector<long> ts;
        for (bool q : d.tau_set) ts.push_back(q);
        rs[k].vec("tau", d.tau).vec("u", d.u).mat("dx", d.dtau_dx).mat("du", d.dtau_du).mat("mt", d.Mtau).ints("set", ts);
      }
      thrown = th > 0;
      o.i("th", th).raw("o", rs[0].text()).raw("n", rs[1].text());
      if (op.b("cast") && th == 0) {  // the same in single precision
        auto c = std::static_pointer_cast<ActuationModelAbstractTpl<float> >(act->cloneAsFloat());
        auto d = c->createData();
        c->calc(d, op.v("x").cast<float>(), op.v("u").cast<float>());
        c->calcDiff(d, op.v("x").cast<float>(), op.v("u").cast<float>());
        tr::Obj p;
        p.vec("tau", d->tau).mat("du", d->dtau_du);
        o.raw("c", p.text());
      }
    }
    if (act) {
      tr::Obj p;
      p.i("nu", act->get_nu());
      if (auto t = std::dynamic_pointer_cast<ActuationModelFloatingBaseThrusters>(act)) {
        p.i("nt", t->get_nthrusters()).mat("W", t->get_Wthrust()).mat("S", t->get_S());
        std::vector<tr::Obj> l;
        for (const auto& q : t->get_thrusters()) { tr::Obj e; e.vec("p", q.pose.translation()).d("c", q.ctorque).i("w", q.type == CW); l.push_back(e); }
        p.objs("list", l);
      }
      o.raw("m", p.text());
    }
    o.b("some", act != nullptr).b("thrown", thrown);
    out.line(o);
  }
  return 0;
}
