// LINK: actuation-base actuation/.* state-base states/euclidean utils/.*
// The smooth saturation and the squashed actuation.
#include <map>

#include "crocoddyl/core/actuation/actuation-squashing.hpp"
#include "crocoddyl/core/actuation/squashing/smooth-sat.hpp"
#include "dmodel.hpp"
using namespace crocoddyl;
using dm::M;
using dm::V;
typedef Eigen::Ref<const V> RV;

struct Inner : public ActuationModelAbstract {
  dm::Poly p;
  std::vector<bool> set;
  Inner(std::shared_ptr<StateAbstract> st, std::size_t nu, const tr::Op& o) : ActuationModelAbstract(st, nu), p(o, "t", st->get_nx() + nu) {
    const V s = o.v("set");
    for (long k = 0; k < s.size(); ++k) set.push_back(s[k] != 0);
  }
  V z(const V& x, const V& u) const {
    V r(x.size() + u.size());
    r << x, u;
    return r;
  }
  void calc(const std::shared_ptr<ActuationDataAbstract>& d, const RV& x, const RV& u) override {
    d->tau = p.value(z(x, u), state_->get_nv());
    d->tau_set = set;
  }
  void calcDiff(const std::shared_ptr<ActuationDataAbstract>& d, const RV& x, const RV& u) override {
    const M J = p.jac(z(x, u), state_->get_nv());
    d->dtau_dx = J.leftCols(x.size());
    d->dtau_du = J.rightCols(nu_);
  }
  void commands(const std::shared_ptr<ActuationDataAbstract>&, const RV&, const RV&) override {}
  std::shared_ptr<ActuationModelBase> cloneAsDouble() const override { return nullptr; }
  std::shared_ptr<ActuationModelBase> cloneAsFloat() const override { return nullptr; }
};

static tr::Obj snap(ActuationDataAbstract& d, SquashingDataAbstract& q) {
  tr::Obj o;
  std::vector<long> s;
  for (bool b : d.tau_set) s.push_back(b);
  o.vec("tau", d.tau).mat("dx", d.dtau_dx).mat("du", d.dtau_du).mat("mt", d.Mtau).vec("u", d.u).ints("set", s).vec("qu", q.u).mat("qd", q.du_ds);
  return o;
}

int main(int, char** argv) {
  std::cerr.setstate(std::ios::failbit);
  tr::Out out(argv[2]);
  std::shared_ptr<SquashingModelSmoothSat> sq;
  std::shared_ptr<ActuationSquashingModel> act;
  struct Slot {
    std::shared_ptr<ActuationDataAbstract> a;
    std::shared_ptr<SquashingDataAbstract> s;
  };
  std::map<long, Slot> ds;
  auto make = [&]() {
    Slot s;
    s.a = act->createData();
    s.s = sq->createData();
    return s;
  };
  for (const tr::Op& op : tr::readops(argv[1])) {
    tr::Obj o;
    o.str("op", op.name).raw("in", op.s("json"));
    bool thrown = false;
    if (op.name == "new") {
      auto st = std::make_shared<StateVector>(2 * op.i("nv"));
      sq = std::make_shared<SquashingModelSmoothSat>(op.v("lb"), op.v("ub"), op.i("nu"));
      act = std::make_shared<ActuationSquashingModel>(std::make_shared<Inner>(st, op.i("nu"), op), sq, op.i("nu"));
      ds.clear();
    } else if (op.name == "smooth") {
      try { sq->set_smooth(op.d("v")); } catch (const std::exception&) { thrown = true; }
    } else if (op.name == "slim") {
      sq->set_s_lb(op.v("lb"));
      sq->set_s_ub(op.v("ub"));
    } else if (op.name == "data") {
      ds[op.i("d")] = make();
    } else if (op.name == "end") {
      Slot& s = ds.at(op.i("d"));
      ActuationModelAbstract& base = *act;
      o.raw("before", snap(*s.a, *s.s).text());
      base.calc(s.a, op.v("x"));
      base.calcDiff(s.a, op.v("x"));
      o.raw("o", snap(*s.a, *s.s).text());
    } else {
      std::vector<Slot> w{ds.at(op.i("d")), make()};
      int th = 0;
      std::vector<tr::Obj> rs(2);
      for (int k = 0; k < 2; ++k) {
        try {
          Slot& e = w[k];
          if (op.name == "sq") {
            sq->calc(e.s, op.v("s"));
            sq->calcDiff(e.s, op.v("s"));
            rs[k].vec("u", e.s->u).mat("du", e.s->du_ds);
          }
          if (op.name == "act") {
            act->calc(e.a, op.v("x"), op.v("s"));
            std::vector<long> st;
            for (bool b : e.a->tau_set) st.push_back(b);
            if (op.b("diff")) act->calcDiff(e.a, op.v("x"), op.v("s"));
            rs[k].vec("tau", e.a->tau).ints("set", st);
            if (op.b("diff")) rs[k].mat("dx", e.a->dtau_dx).mat("du", e.a->dtau_du);
          }
          if (op.name == "tt") {
            std::static_pointer_cast<ActuationModelAbstract>(act)->torqueTransform(e.a, op.v("x"), op.v("s"));
            rs[k].mat("mt", e.a->Mtau);
          }
          if (op.name == "cmd") {
            act->commands(e.a, op.v("x"), op.v("s"));
            rs[k].mat("mt", e.a->Mtau).vec("u", e.a->u);
          }
        } catch (const std::exception&) { ++th; }
      }
      thrown = th > 0;
      o.raw("o", rs[0].text()).raw("n", rs[1].text());
    }
    o.b("thrown", thrown).b("some", act != nullptr);
    if (act) {
      tr::Obj m;
      m.i("ns", sq->get_ns()).i("nu", act->get_nu()).d("smooth", sq->get_smooth()).vec("d", sq->get_d()).vec("slb", sq->get_s_lb()).vec("sub", sq->get_s_ub());
      o.raw("m", m.text());
    }
    out.line(o);
  }
  return 0;
}
