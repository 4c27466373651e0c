// LINK: mb/states/.* mb/contacts/.* mb/impulses/.* mb/contact-base mb/impulse-base mb/force-base mb/actuations/.* mb/actions/.* mb/residuals/.* mb/data/.* mb/.*cone mb/cop-support residuals/.* data/.* activations/.* activation-base costs/.* cost-base constraints/.* constraint-base residual-base data-collector-base diff-action-base action-base state-base actuation-base utils/.*
// OPTS: minipin
// SCALARS: double float
// The actions of robots.
#include <map>

#include "mbr.hpp"
#include "crocoddyl/core/constraints/constraint-manager.hpp"
#include "crocoddyl/core/constraints/residual.hpp"
#include "crocoddyl/core/costs/cost-sum.hpp"
#include "crocoddyl/core/costs/residual.hpp"
#include "crocoddyl/multibody/actions/contact-fwddyn.hpp"
#include "crocoddyl/multibody/actions/contact-invdyn.hpp"
#include "crocoddyl/multibody/actions/free-fwddyn.hpp"
#include "crocoddyl/multibody/actions/free-invdyn.hpp"
#include "crocoddyl/multibody/actions/impulse-fwddyn.hpp"
#include "crocoddyl/multibody/actuations/floating-base.hpp"
#include "crocoddyl/multibody/actuations/full.hpp"
using namespace crocoddyl;
using mb::M;
using mb::V;
typedef DifferentialActionDataFreeFwdDynamics FF;
typedef DifferentialActionDataContactFwdDynamics CF;
typedef DifferentialActionDataFreeInvDynamics FI;
typedef DifferentialActionDataContactInvDynamics CI;
typedef ActionDataImpulseFwdDynamics IM;

struct Slot {
  std::shared_ptr<DifferentialActionDataAbstract> d;
  std::shared_ptr<ActionDataAbstract> a;
};
struct Val {
  V y, h, g;
  double cost;
  std::vector<V> f, r;
};
static std::string kind;
static mb::State st;
static std::shared_ptr<DifferentialActionModelAbstract> D;
static std::shared_ptr<ActionModelAbstract> A;
static std::shared_ptr<ActuationModelAbstract> act;
static std::shared_ptr<ContactModelMultiple> C;
static std::shared_ptr<ImpulseModelMultiple> I;

static Slot mk() {
  Slot s;
  if (D) s.d = D->createData(); else s.a = A->createData();
  return s;
}
template <typename F>
static void onJoint(const Slot& s, F f) {
  if (kind == "ff") f(*std::static_pointer_cast<FF>(s.d)->multibody.joint);
  if (kind == "cf") f(*std::static_pointer_cast<CF>(s.d)->multibody.joint);
  if (kind == "fi") f(*std::static_pointer_cast<FI>(s.d)->multibody.joint);
  if (kind == "ci") f(*std::static_pointer_cast<CI>(s.d)->multibody.joint);
}
static std::vector<std::shared_ptr<ForceDataAbstract> > forces(const Slot& s) {
  std::vector<std::shared_ptr<ForceDataAbstract> > l;
  if (kind == "cf") for (const auto& c : std::static_pointer_cast<CF>(s.d)->multibody.contacts->contacts) l.push_back(c.second);
  if (kind == "ci") for (const auto& c : std::static_pointer_cast<CI>(s.d)->multibody.contacts->contacts) l.push_back(c.second);
  if (kind == "im") for (const auto& c : std::static_pointer_cast<IM>(s.a)->multibody.impulses->impulses) l.push_back(c.second);
  return l;
}
// the residuals of the costs, in the order of their names
template <typename T>
static void residuals(const T& d, std::vector<V>& l) {
  for (const auto& c : d->costs->costs) l.push_back(c.second->residual->r);
}
static void calc(Slot& s, const V& x, const V& u) { D ? D->calc(s.d, x, u) : A->calc(s.a, x, u); }
static void calcT(Slot& s, const V& x) { D ? D->calc(s.d, x) : A->calc(s.a, x); }
static void diff(Slot& s, const V& x, const V& u) { D ? D->calcDiff(s.d, x, u) : A->calcDiff(s.a, x, u); }
static void diffT(Slot& s, const V& x) { D ? D->calcDiff(s.d, x) : A->calcDiff(s.a, x); }
static Val val(const Slot& s) {
  Val v;
  if (D) {
    v.y = s.d->xout;
    v.h = s.d->h;
    v.g = s.d->g;
    v.cost = s.d->cost;
  } else {
    v.y = s.a->xnext;
    v.h = s.a->h;
    v.g = s.a->g;
    v.cost = s.a->cost;
  }
  for (const auto& f : forces(s)) v.f.push_back(f->f.toVector());
  if (kind == "ff") residuals(std::static_pointer_cast<FF>(s.d), v.r);
  if (kind == "cf") residuals(std::static_pointer_cast<CF>(s.d), v.r);
  if (kind == "fi") residuals(std::static_pointer_cast<FI>(s.d), v.r);
  if (kind == "ci") residuals(std::static_pointer_cast<CI>(s.d), v.r);
  if (kind == "im") residuals(std::static_pointer_cast<IM>(s.a), v.r);
  return v;
}
template <typename T>
static std::shared_ptr<T> dup(const std::shared_ptr<T>& m) {
  auto r = std::make_shared<T>(m->template cast<float>().template cast<double>());
  st = std::static_pointer_cast<StateMultibody>(r->get_state());
  return r;
}

int main(int, char** argv) {
  std::cerr.setstate(std::ios::failbit);
  tr::Out out(argv[2]);
  std::vector<tr::Op> cons, costs, user;
  std::shared_ptr<DifferentialActionModelFreeFwdDynamics> ff;
  std::shared_ptr<DifferentialActionModelContactFwdDynamics> cf;
  std::shared_ptr<DifferentialActionModelFreeInvDynamics> fi;
  std::shared_ptr<DifferentialActionModelContactInvDynamics> ci;
  std::shared_ptr<ActionModelImpulseFwdDynamics> im;
  std::map<long, Slot> ds;
  const std::vector<tr::Op> all = tr::readops(argv[1]);
  const tr::Op* rp = nullptr;
  const double h = 1e-3, hs[4] = {-2 * h, -h, h, 2 * h};
  const auto model = [&]() -> const mb::Model& { return *st->get_pinocchio(); };
  for (const tr::Op& op : all) {
    tr::Obj o;
    o.str("op", op.name).raw("in", op.s("json"));
    bool thrown = false;
    try {
      if (op.name == "new") {
        rp = &op;
        cons.clear();
        costs.clear();
        user.clear();
        ds.clear();
        D.reset();
        A.reset();
        ff.reset();
        cf.reset();
        fi.reset();
        ci.reset();
        im.reset();
        kind = op.s("k");
        st = std::make_shared<StateMultibody>(mb::robot(op));
      } else if (op.name == "con") {
        cons.push_back(op);
      } else if (op.name == "cost") {
        costs.push_back(op);
      } else if (op.name == "user") {
        user.push_back(op);
      } else if (op.name == "make") {
        const std::string at = rp->s("act"), bad = op.s("bad");
        if (at == "full") act = std::make_shared<ActuationModelFull>(st);
        else if (at == "base") act = std::make_shared<ActuationModelFloatingBase>(st);
        else act = std::make_shared<mb::PartTpl<double> >(st, rp->is("on"), rp->d("ac"), rp->d("as"), rp->d("ak"));
        std::size_t nc = 0;
        for (const auto& c : cons) nc += c.s("k") == "1d" ? 1 : c.s("k") == "2d" ? 2 : c.s("k") == "3d" ? 3 : 6;
        const bool fwd = kind == "ff" || kind == "cf";
        const std::size_t nu = kind == "im" ? 0 : fwd ? act->get_nu() : st->get_nv() + (kind == "ci" ? nc : 0);
        C.reset();
        I.reset();
        if (kind == "im") I = std::make_shared<ImpulseModelMultiple>(st);
        else C = std::make_shared<ContactModelMultiple>(st, bad == "con" ? nu + 1 : nu);
        for (const auto& c : cons) {
          if (I) I->addImpulse(c.s("n"), mb::impulse(st, c), c.b("on"));
          else {
            tr::Op e = c;
            e.kv.emplace_back("nu", std::to_string(bad == "con" ? nu + 1 : nu));
            C->addContact(c.s("n"), mb::contact(st, e), c.b("on"));
          }
        }
        const std::size_t nuc = bad == "cost" ? nu + 1 : nu;
        auto sum = std::make_shared<CostModelSum>(st, nuc);
        if (bad != "cost")
          for (const auto& c : costs) {
            std::size_t k = 0;
            for (const auto& e : cons) if (e.i("fr") == c.i("fr")) k = e.s("k") == "1d" ? 1 : e.s("k") == "3d" ? 3 : 6;
            sum->addCost(c.s("n"), std::make_shared<CostModelResidual>(st, mb::residual(st, act, c, nu, fwd || kind == "im", k)), c.d("w"));
          }
        std::shared_ptr<ConstraintModelManager> man;
        if (!user.empty()) {
          man = std::make_shared<ConstraintModelManager>(st, nu);
          for (const auto& c : user) {
            auto r = mb::residual(st, act, c, nu, fwd, 0);
            if (c.b("eq")) man->addConstraint(c.s("n"), std::make_shared<ConstraintModelResidual>(st, r));
            else man->addConstraint(c.s("n"), std::make_shared<ConstraintModelResidual>(st, r, c.v("lo"), c.v("hi")));
          }
        }
        const double mu = rp->d("mu"), rc = rp->d("rc");
        const bool fo = rp->b("force");
        if (kind == "ff") D = ff = std::make_shared<DifferentialActionModelFreeFwdDynamics>(st, act, sum, man);
        if (kind == "cf") D = cf = man ? std::make_shared<DifferentialActionModelContactFwdDynamics>(st, act, C, sum, man, mu, fo) : std::make_shared<DifferentialActionModelContactFwdDynamics>(st, act, C, sum, mu, fo);
        if (kind == "fi") D = fi = man ? std::make_shared<DifferentialActionModelFreeInvDynamics>(st, act, sum, man) : std::make_shared<DifferentialActionModelFreeInvDynamics>(st, act, sum);
        if (kind == "ci") D = ci = man ? std::make_shared<DifferentialActionModelContactInvDynamics>(st, act, C, sum, man) : std::make_shared<DifferentialActionModelContactInvDynamics>(st, act, C, sum);
        if (kind == "im") A = im = man ? std::make_shared<ActionModelImpulseFwdDynamics>(st, I, sum, man, rc, mu, fo) : std::make_shared<ActionModelImpulseFwdDynamics>(st, I, sum, rc, mu, fo);
        const auto rep = [&](auto& m) { o.i("nu", m->get_nu()).i("nr", m->get_nr()).i("ng", m->get_ng()).i("nh", m->get_nh()).i("ngT", m->get_ng_T()).i("nhT", m->get_nh_T()).vec("ul", m->get_u_lb()).vec("uu", m->get_u_ub()).vec("gl", m->get_g_lb()).vec("gu", m->get_g_ub()); };
        if (D) rep(D); else rep(A);
      } else if (op.name == "data") {
        ds[op.i("d")] = mk();
      } else if (op.name == "status") {
        if (C) C->changeContactStatus(op.s("n"), op.b("on")); else I->changeImpulseStatus(op.s("n"), op.b("on"));
      } else if (op.name == "arm") {
        if (ff) ff->set_armature(op.v("v")); else if (cf) cf->set_armature(op.v("v")); else im->set_armature(op.v("v"));
      } else if (op.name == "mu") {
        if (cf) cf->set_damping_factor(op.d("v")); else im->set_damping_factor(op.d("v"));
      } else if (op.name == "rc") {
        im->set_restitution_coefficient(op.d("v"));
      } else if (op.name == "cast") {
        if (ff) D = ff = dup(ff);
        if (cf) { D = cf = dup(cf); C = cf->get_contacts(); }
        if (fi) D = fi = dup(fi);
        if (ci) { D = ci = dup(ci); C = ci->get_contacts(); }
        if (im) { A = im = dup(im); I = im->get_impulses(); }
        if (ff) act = ff->get_actuation(); else if (cf) act = cf->get_actuation(); else if (fi) act = fi->get_actuation(); else if (ci) act = ci->get_actuation();
        ds.clear();
      } else if (op.name == "eval") {
        Slot& s = ds.at(op.i("d"));
        const V x = op.v("x"), u = op.v("u"), ex = op.v("e"), eu = op.v("eu");
        calc(s, x, u);
        const Val v0 = val(s);
        diff(s, x, u);
        const std::size_t nq = st->get_nq(), nv = st->get_nv();
        const V q = x.head(nq), v = x.tail(nv), z = V::Zero(nv);
        pinocchio::Data p(model());
        o.vec("y", v0.y).d("cost", v0.cost).vec("h", v0.h).vec("g", v0.g).vecl("f", v0.f).vecl("rs", v0.r);
        onJoint(s, [&](const auto& j) { o.vec("ja", j.a).vec("jt", j.tau); });
        // what the library says at this point
        o.mat("M", M(pinocchio::mini::mass(model(), q))).vec("nle", pinocchio::mini::rnea(model(), q, v, z, pinocchio::mini::none())).vec("gr", pinocchio::mini::rnea(model(), q, z, z, pinocchio::mini::none()));
        mb::prepare(model(), p, q, v, kind == "ci" ? V(u.head(nv)) : z);
        M J(0, nv);
        V a0;
        if (C && (cf || ci)) {
          auto cd = C->createData(&p);
          C->calc(cd, x);
          J = cd->Jc;
          a0 = cd->a0;
        } else if (I) {
          auto cd = I->createData(&p);
          I->calc(cd, x);
          J = cd->Jc;
        }
        o.mat("J", J).vec("a0", a0);
        // derivatives along the direction, and values along it
        std::vector<V> ys, hh, gg, cc;
        std::vector<std::vector<V> > fs;
        for (double t : hs) {
          Slot w = mk();
          calc(w, st->integrate_x(x, t * ex), u + t * eu);
          const Val a = val(w);
          ys.push_back(D ? a.y : V(st->diff_dx(v0.y, a.y)));
          hh.push_back(a.h);
          gg.push_back(a.g);
          cc.push_back(V::Constant(1, a.cost));
          fs.push_back(a.f);
        }
        o.vecl("ys", ys).vecl("hs", hh).vecl("gs", gg).vecl("cs", cc);
        std::vector<tr::Obj> fl;
        const auto fd = forces(s);
        for (std::size_t i = 0; i < fd.size(); ++i) {
          tr::Obj e;
          std::vector<V> l;
          for (int k = 0; k < 4; ++k) l.push_back(fs[k][i]);
          V g = fd[i]->df_dx * ex;
          if (D && fd[i]->df_du.cols() == eu.size()) g += fd[i]->df_du * eu;
          e.vecl("s", l).vec("d", g);
          fl.push_back(e);
        }
        o.objs("fs", fl);
        const auto& dd = s.d;
        const auto& aa = s.a;
        if (D) o.vec("dy", V(dd->Fx * ex + dd->Fu * eu)).d("dc", dd->Lx.dot(ex) + dd->Lu.dot(eu)).vec("dh", V(dd->Hx * ex + dd->Hu * eu)).vec("dg", V(dd->Gx * ex + dd->Gu * eu));
        else o.vec("dy", V(aa->Fx * ex)).d("dc", aa->Lx.dot(ex)).vec("dh", V(aa->Hx * ex)).vec("dg", V(aa->Gx * ex));
        o.i("nh", D ? D->get_nh() : A->get_nh()).i("ng", D ? D->get_ng() : A->get_ng());
        const auto fr = mb::frames(model(), p, rp->is("fj").size());
        pinocchio::computeCentroidalMomentum(model(), p);
        o.objs("fr", fr).vec("hg", p.hg.toVector()).vec("com", p.com[0]);
      } else if (op.name == "term") {
        Slot& s = ds.at(op.i("d"));
        const V x = op.v("x"), ex = op.v("e");
        calcT(s, x);
        const Val v0 = val(s);
        diffT(s, x);
        std::vector<V> cc, hh, gg, ys;
        for (double t : hs) {
          Slot w = mk();
          calcT(w, st->integrate_x(x, t * ex));
          const Val a = val(w);
          cc.push_back(V::Constant(1, a.cost));
          hh.push_back(a.h);
          gg.push_back(a.g);
          if (A) ys.push_back(st->diff_dx(v0.y, a.y));
        }
        pinocchio::Data p(model());
        mb::prepare(model(), p, x.head(st->get_nq()), x.tail(st->get_nv()), V::Zero(st->get_nv()));
        o.d("cost", v0.cost).vec("h", v0.h).vec("g", v0.g).vecl("rs", v0.r).vecl("cs", cc).vecl("hs", hh).vecl("gs", gg).vecl("ys", ys);
        if (D) o.d("dc", s.d->Lx.dot(ex)).vec("dh", V(s.d->Hx * ex)).vec("dg", V(s.d->Gx * ex)).vec("dy", V());
        else o.d("dc", s.a->Lx.dot(ex)).vec("dh", V(s.a->Hx * ex)).vec("dg", V(s.a->Gx * ex)).vec("dy", V(s.a->Fx * ex));
        const auto fr = mb::frames(model(), p, rp->is("fj").size());
        pinocchio::computeCentroidalMomentum(model(), p);
        o.objs("fr", fr).vec("hg", p.hg.toVector()).vec("com", p.com[0]);
      } else if (op.name == "quasi") {
        Slot& s = ds.at(op.i("d"));
        const V x = op.v("x");
        V u = V::Constant(op.i("nu"), 7.);
        if (D) D->quasiStatic(s.d, u, x); else A->quasiStatic(s.a, u, x);
        o.vec("u", u);
        const V q = x.head(st->get_nq()), z = V::Zero(st->get_nv());
        pinocchio::Data p(model());
        mb::prepare(model(), p, q, z, z);
        M J(0, st->get_nv());
        if (cf || ci) {
          auto cd = C->createData(&p);
          C->setComputeAllContacts(false);
          C->calc(cd, x);
          C->setComputeAllContacts(bool(ci));
          J = cd->Jc;
        }
        // a vector w for which the least solution z of B u + J' f = g is [B J']' w (the specification checks that it is)
        const V g = pinocchio::mini::rnea(model(), q, z, z, pinocchio::mini::none());
        if (act) {
          V x0(x.size());
          x0 << q, z;
          auto ad = act->createData();
          const V u0 = V::Zero(act->get_nu());
          act->calc(ad, x0, u0);
          act->calcDiff(ad, x0, u0);
          const long nc = C ? C->get_nc() : 0;
          M B(st->get_nv(), act->get_nu() + nc);
          B.leftCols(act->get_nu()) = ad->dtau_du;
          if (nc) B.rightCols(nc) = J.topRows(nc).transpose();
          Eigen::JacobiSVD<M> svd(B, Eigen::ComputeThinU | Eigen::ComputeThinV);
          svd.setThreshold(1e-9);
          V w = svd.matrixU().transpose() * g;
          for (int i = 0; i < w.size(); ++i) w[i] = i < svd.rank() ? w[i] / (svd.singularValues()[i] * svd.singularValues()[i]) : 0;
          o.vec("w", V(svd.matrixU() * w));
        } else o.vec("w", V());
        o.mat("J", J).vec("gr", g);
      } else if (op.name == "bad") {
        Slot& s = ds.at(op.i("d"));
        const std::string w = op.s("w");
        const V x = op.v("x"), u = op.v("u");
        V v;
        if (w == "calc") calc(s, x, u);
        if (w == "diff") diff(s, x, u);
        if (w == "term") calcT(s, x);
        if (w == "termd") diffT(s, x);
        if (w == "quasi") { V r = u; if (D) D->quasiStatic(s.d, r, x); }
      }
    } catch (const std::exception&) { thrown = true; }
    o.b("thrown", thrown);
    out.line(o);
  }
  return 0;
}
