// LINK: activation-base activations/.* residual-base residuals/.* cost-base costs/residual constraint-base constraints/residual actuation-base data-collector-base data/.* state-base states/euclidean utils/.*
// Activations, residuals and the costs made of them.
#include <map>
#include <cstdlib>
#include <cstring>

#include <pinocchio/utils/static-if.hpp>
#include "crocoddyl/core/activations/2norm-barrier.hpp"
#include "crocoddyl/core/activations/quadratic-barrier.hpp"
#include "crocoddyl/core/activations/quadratic-flat-exp.hpp"
#include "crocoddyl/core/activations/quadratic-flat-log.hpp"
#include "crocoddyl/core/activations/quadratic.hpp"
#include "crocoddyl/core/activations/smooth-1norm.hpp"
#include "crocoddyl/core/activations/smooth-2norm.hpp"
#include "crocoddyl/core/activations/weighted-quadratic-barrier.hpp"
#include "crocoddyl/core/activations/weighted-quadratic.hpp"
#include "crocoddyl/core/actuation-base.hpp"
#include "crocoddyl/core/constraints/residual.hpp"
#include "crocoddyl/core/costs/residual.hpp"
#include "crocoddyl/core/residuals/control.hpp"
#include "crocoddyl/core/residuals/joint-acceleration.hpp"
#include "crocoddyl/core/residuals/joint-effort.hpp"
#include "dmodel.hpp"
using namespace crocoddyl;
using dm::M;
using dm::V;
typedef std::shared_ptr<ActivationModelAbstract> Act;
typedef std::shared_ptr<ResidualModelAbstract> Res;
typedef Eigen::Ref<const V> RV;

// A residual that depends on the chosen parts of configuration, velocity and control.
struct PolyRes : public ResidualModelAbstract {
  dm::Poly p;
  V mask;
  PolyRes(std::shared_ptr<StateAbstract> st, std::size_t nr, std::size_t nu, const tr::Op& o)
      : ResidualModelAbstract(st, nr, nu, o.b("dq"), o.b("dv"), o.b("du")), p(o, "r", st->get_nx() + nu), mask(V::Zero(st->get_nx() + nu)) {
    const std::size_t nv = st->get_nv();
    if (o.b("dq")) mask.head(nv).setOnes();
    if (o.b("dv")) mask.segment(nv, nv).setOnes();
    if (o.b("du")) mask.tail(nu).setOnes();
  }
  V z(const V& x, const V& u) const {
    V r(mask.size());
    r << x, u;
    return r.cwiseProduct(mask);
  }
  void calc(const std::shared_ptr<ResidualDataAbstract>& d, const RV& x, const RV& u) override { d->r = p.value(z(x, u), nr_); }
  void calcDiff(const std::shared_ptr<ResidualDataAbstract>& d, const RV& x, const RV& u) override {
    const M J = p.jac(z(x, u), nr_) * mask.asDiagonal();
    d->Rx = J.leftCols(x.size());
    d->Ru = J.rightCols(nu_);
  }
  void calc(const std::shared_ptr<ResidualDataAbstract>& d, const RV& x) override { calc(d, x, V::Zero(nu_)); }
  void calcDiff(const std::shared_ptr<ResidualDataAbstract>& d, const RV& x) override { d->Rx = (p.jac(z(x, V::Zero(nu_)), nr_) * mask.asDiagonal()).leftCols(x.size()); }
  std::shared_ptr<ResidualModelBase> cloneAsDouble() const override { return nullptr; }
  std::shared_ptr<ResidualModelBase> cloneAsFloat() const override { return nullptr; }
};
struct Actuation : public ActuationModelAbstract {
  Actuation(std::shared_ptr<StateAbstract> st, std::size_t nu) : ActuationModelAbstract(st, nu) {}
  void calc(const std::shared_ptr<ActuationDataAbstract>&, const RV&, const RV&) override {}
  void calcDiff(const std::shared_ptr<ActuationDataAbstract>&, const RV&, const RV&) override {}
  void commands(const std::shared_ptr<ActuationDataAbstract>&, const RV&, const RV&) override {}
  std::shared_ptr<ActuationModelBase> cloneAsDouble() const override { return nullptr; }
  std::shared_ptr<ActuationModelBase> cloneAsFloat() const override { return nullptr; }
};

static Act activation(const tr::Op& o) {
  const std::string k = o.s("ak_");
  const std::size_t nr = o.i("nr");
  if (k == "quad") return std::make_shared<ActivationModelQuad>(nr);
  if (k == "wquad") return std::make_shared<ActivationModelWeightedQuad>(o.v("w"));
  if (k == "norm") return std::make_shared<ActivationModel2NormBarrier>(nr, o.d("alpha"), o.b("exact"));
  if (k == "s1") return std::make_shared<ActivationModelSmooth1Norm>(nr, o.d("alpha"));
  if (k == "s2") return std::make_shared<ActivationModelSmooth2Norm>(nr, o.d("alpha"));
  if (k == "exp") return std::make_shared<ActivationModelQuadFlatExp>(nr, o.d("alpha"));
  if (k == "log") return std::make_shared<ActivationModelQuadFlatLog>(nr, o.d("alpha"));
  const ActivationBounds b(o.v("lb"), o.v("ub"), o.d("beta"));
  if (k == "bar") return std::make_shared<ActivationModelQuadraticBarrier>(b);
  return std::make_shared<ActivationModelWeightedQuadraticBarrier>(b, o.v("w"));
}

int main(int, char** argv) {
  std::cerr.setstate(std::ios::failbit);
  tr::Out out(argv[2]);
  std::shared_ptr<StateAbstract> st;
  std::shared_ptr<ActuationModelAbstract> actu;
  Act act;
  Res res;
  std::shared_ptr<CostModelResidual> cost;
  std::shared_ptr<ConstraintModelResidual> ineq, eq;
  std::string ak, rk;
  struct Slot {
    std::shared_ptr<DataCollectorJoint> col;
    std::shared_ptr<CostDataAbstract> c;
    std::shared_ptr<ActivationDataAbstract> a;
    std::shared_ptr<ConstraintDataAbstract> g, h;
  };
  std::map<long, Slot> ds;
  auto make = [&]() {
    Slot s;
    s.col = std::make_shared<DataCollectorJoint>(std::make_shared<JointDataAbstract>(st, actu, res->get_nu()));
    s.c = cost->createData(s.col.get());
    s.a = act->createData();
    s.g = ineq->createData(s.col.get());
    s.h = eq->createData(s.col.get());
    return s;
  };
  for (const tr::Op& op : tr::readops(argv[1])) {
    tr::Obj o;
    o.str("op", op.name).raw("in", op.s("json"));
    bool thrown = false;
    if (op.name == "new") {
      auto s = std::make_shared<StateVector>(2 * op.i("nv"));
      auto ac = std::make_shared<Actuation>(s, op.i("na"));
      try {
        Act a = activation(op);
        Res r;
        const std::string k = op.s("rk_"), via = op.s("via");
        const V ref = op.v("ref");
        const std::size_t nu = op.i("nu");
        if (k == "poly") r = std::make_shared<PolyRes>(s, op.v("rc").size(), nu, op);
        if (k == "ctrl") {
          if (via == "ref" || via == "full") r = std::make_shared<ResidualModelControl>(s, ref);
          if (via == "nu") r = std::make_shared<ResidualModelControl>(s, nu);
          if (via == "state") r = std::make_shared<ResidualModelControl>(s);
        }
        if (k == "effort") {
          // the memory a model is built in holds whatever was there before
          static unsigned char dirt = 0x5a;
          void* mem = std::malloc(4096);
          std::memset(mem, ++dirt, 4096);
          std::free(mem);
          if (via == "full") r = std::make_shared<ResidualModelJointEffort>(s, ac, ref, nu, op.b("fwd"));
          if (via == "ref") r = std::make_shared<ResidualModelJointEffort>(s, ac, ref);
          if (via == "nu") r = std::make_shared<ResidualModelJointEffort>(s, ac, nu);
          if (via == "state") {
            static char buf[64][sizeof(ResidualModelJointEffort) + 64];
            static int n = 0;
            char* at = buf[n++ % 64];
            at += (32 - reinterpret_cast<std::size_t>(at) % 32) % 32;
            std::memset(at, 1, sizeof(ResidualModelJointEffort));
            ResidualModelJointEffort* e = ::new (static_cast<void*>(at)) ResidualModelJointEffort(s, ac);
            r = std::shared_ptr<ResidualModelAbstract>(e, [](ResidualModelAbstract*) {});
          }
        }
        if (k == "acc") {
          if (via == "full") r = std::make_shared<ResidualModelJointAcceleration>(s, ref, nu);
          if (via == "ref") r = std::make_shared<ResidualModelJointAcceleration>(s, ref);
          if (via == "nu") r = std::make_shared<ResidualModelJointAcceleration>(s, nu);
          if (via == "state") r = std::make_shared<ResidualModelJointAcceleration>(s);
        }
        std::shared_ptr<CostModelResidual> c = op.b("plain") ? std::make_shared<CostModelResidual>(s, r) : std::make_shared<CostModelResidual>(s, a, r);
        st = s;
        actu = ac;
        act = op.b("plain") ? c->get_activation() : a;
        ak = op.b("plain") ? "quad" : op.s("ak_");
        rk = k;
        res = r;
        cost = c;
        ineq = std::make_shared<ConstraintModelResidual>(s, r, V::Constant(r->get_nr(), -1.), V::Constant(r->get_nr(), 2.));
        eq = std::make_shared<ConstraintModelResidual>(s, r);
        ds.clear();
      } catch (const std::exception&) { thrown = true; }
    } else if (op.name == "alpha") {
      if (ak == "norm") std::static_pointer_cast<ActivationModel2NormBarrier>(act)->set_alpha(op.d("alpha"));
      if (ak == "exp") std::static_pointer_cast<ActivationModelQuadFlatExp>(act)->set_alpha(op.d("alpha"));
      if (ak == "log") std::static_pointer_cast<ActivationModelQuadFlatLog>(act)->set_alpha(op.d("alpha"));
    } else if (op.name == "weights") {
      try {
        if (ak == "wquad") std::static_pointer_cast<ActivationModelWeightedQuad>(act)->set_weights(op.v("w"));
        if (ak == "wbar") std::static_pointer_cast<ActivationModelWeightedQuadraticBarrier>(act)->set_weights(op.v("w"));
      } catch (const std::exception&) { thrown = true; }
    } else if (op.name == "bounds") {
      try {
        const ActivationBounds b(op.v("lb"), op.v("ub"), op.d("beta"));
        if (ak == "bar") std::static_pointer_cast<ActivationModelQuadraticBarrier>(act)->set_bounds(b);
        if (ak == "wbar") std::static_pointer_cast<ActivationModelWeightedQuadraticBarrier>(act)->set_bounds(b);
      } catch (const std::exception&) { thrown = true; }
    } else if (op.name == "ref") {
      try {
        if (rk == "ctrl") std::static_pointer_cast<ResidualModelControl>(res)->set_reference(op.v("ref"));
        if (rk == "effort") std::static_pointer_cast<ResidualModelJointEffort>(res)->set_reference(op.v("ref"));
        if (rk == "acc") std::static_pointer_cast<ResidualModelJointAcceleration>(res)->set_reference(op.v("ref"));
      } catch (const std::exception&) { thrown = true; }
    } else if (op.name == "data") {
      ds[op.i("d")] = make();
    } else if (op.name == "aeval") {
      std::vector<std::shared_ptr<ActivationDataAbstract> > w{ds.at(op.i("d")).a, act->createData()};
      const V r = op.v("r");
      int th = 0;
      std::vector<tr::Obj> rs(2);
      for (int k = 0; k < 2; ++k) {
        try { act->calc(w[k], r); } catch (const std::exception&) { ++th; }
        try { act->calcDiff(w[k], r); } catch (const std::exception&) { ++th; }
        rs[k].d("l", w[k]->a_value).vec("gr", w[k]->Ar).vec("he", V(w[k]->Arr.diagonal()));
      }
      thrown = th == 4;
      o.b("any", th > 0).raw("o", rs[0].text()).raw("n", rs[1].text());
    } else if (op.name == "ceval") {
      std::vector<Slot> w{ds.at(op.i("d")), make()};
      const V x = op.v("x"), u = op.v("u");
      const bool t = op.b("t"), df = op.b("diff");
      std::vector<tr::Obj> rs(2);
      int th = 0;
      for (int k = 0; k < 2; ++k) {
        Slot& s = w[k];
        if (rk == "effort") {
          s.col->joint->tau = op.v("jv");
          s.col->joint->dtau_dx = op.m("jx");
          s.col->joint->dtau_du = op.m("ju");
        }
        if (rk == "acc") {
          s.col->joint->a = op.v("jv");
          s.col->joint->da_dx = op.m("jx");
          s.col->joint->da_du = op.m("ju");
        }
        try {
          if (t) { cost->calc(s.c, x); if (df) cost->calcDiff(s.c, x); }
          else { cost->calc(s.c, x, u); if (df) cost->calcDiff(s.c, x, u); }
          if (t) { ineq->calc(s.g, x); eq->calc(s.h, x); }
          else { ineq->calc(s.g, x, u); eq->calc(s.h, x, u); }
          if (df && t) { ineq->calcDiff(s.g, x); eq->calcDiff(s.h, x); }
          if (df && !t) { ineq->calcDiff(s.g, x, u); eq->calcDiff(s.h, x, u); }
        } catch (const std::exception&) { ++th; }
        rs[k].d("l", s.c->cost).vec("cg", s.g->g).vec("ch", s.h->h);
        if (df) rs[k].mat("cgx", s.g->Gx).mat("chx", s.h->Hx);
        if (df && !t) rs[k].mat("cgu", s.g->Gu).mat("chu", s.h->Hu);
        if (df) rs[k].vec("lx", s.c->Lx).mat("lxx", s.c->Lxx);
        if (df && !t) rs[k].vec("lu", s.c->Lu).mat("luu", s.c->Luu).mat("lxu", s.c->Lxu);
      }
      thrown = th == 2;
      o.b("any", th > 0).raw("o", rs[0].text()).raw("n", rs[1].text());
    }
    o.b("thrown", thrown).b("some", cost != nullptr);
    if (cost) {
      tr::Obj p;
      p.str("ak", ak).str("rk", rk).i("nr", act->get_nr()).i("rnr", res->get_nr()).i("nu", cost->get_nu()).b("dq", res->get_q_dependent()).b("dv", res->get_v_dependent()).b("du", res->get_u_dependent());
      if (ak == "norm") p.d("alpha", std::static_pointer_cast<ActivationModel2NormBarrier>(act)->get_alpha());
      if (ak == "exp") p.d("alpha", std::static_pointer_cast<ActivationModelQuadFlatExp>(act)->get_alpha());
      if (ak == "log") p.d("alpha", std::static_pointer_cast<ActivationModelQuadFlatLog>(act)->get_alpha());
      if (ak == "wquad") p.vec("w", std::static_pointer_cast<ActivationModelWeightedQuad>(act)->get_weights());
      if (ak == "wbar") p.vec("w", std::static_pointer_cast<ActivationModelWeightedQuadraticBarrier>(act)->get_weights());
      if (ak == "bar" || ak == "wbar") {
        const ActivationBounds& b = ak == "bar" ? std::static_pointer_cast<ActivationModelQuadraticBarrier>(act)->get_bounds() : std::static_pointer_cast<ActivationModelWeightedQuadraticBarrier>(act)->get_bounds();
        p.vec("lb", b.lb).vec("ub", b.ub).d("beta", b.beta);
      }
      if (rk == "ctrl") p.vec("ref", std::static_pointer_cast<ResidualModelControl>(res)->get_reference());
      if (rk == "effort") p.vec("ref", std::static_pointer_cast<ResidualModelJointEffort>(res)->get_reference());
      if (rk == "acc") p.vec("ref", std::static_pointer_cast<ResidualModelJointAcceleration>(res)->get_reference());
      p.b("hasc", true).i("gng", ineq->get_ng()).i("gnh", ineq->get_nh()).i("hng", eq->get_ng()).i("hnh", eq->get_nh()).vec("glb", ineq->get_lb()).vec("gub", ineq->get_ub());
      o.raw("m", p.text());
    }
    out.line(o);
  }
  return 0;
}
