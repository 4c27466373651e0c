// LINK: mb/states/.* mb/contacts/.* mb/impulses/.* mb/contact-base mb/impulse-base mb/force-base mb/actuations/.* mb/residuals/.* mb/data/.* multibody/.* residuals/.* data/.* activations/.* activation-base costs/.* cost-base residual-base data-collector-base state-base actuation-base utils/.*
// OPTS: minipin
// SCALARS: double float
// Residuals of robots, alone with the data they read, and the costs made of them.
#include <map>

#include "mbr.hpp"
#include "crocoddyl/core/activations/weighted-quadratic.hpp"
#include "crocoddyl/core/costs/residual.hpp"
#include "crocoddyl/multibody/actuations/floating-base.hpp"
#include "crocoddyl/multibody/actuations/full.hpp"
#include "crocoddyl/multibody/data/contacts.hpp"
#include "crocoddyl/multibody/data/impulses.hpp"
#include "crocoddyl/multibody/data/multibody.hpp"
using namespace crocoddyl;
using mb::M;
using mb::V;
typedef std::shared_ptr<ResidualModelAbstract> Res;

struct Slot {
  std::shared_ptr<pinocchio::Data> p;
  std::shared_ptr<ActuationDataAbstract> a;
  std::shared_ptr<ContactDataMultiple> c;
  std::shared_ptr<ImpulseDataMultiple> i;
  std::shared_ptr<DataCollectorAbstract> col;
  std::shared_ptr<ActivationModelWeightedQuad> w;
  std::shared_ptr<CostModelResidual> cost;
  std::shared_ptr<CostDataAbstract> d;
};
static mb::State st;
static std::shared_ptr<ActuationModelAbstract> act;
static std::shared_ptr<ContactModelMultiple> C;
static std::shared_ptr<ImpulseModelMultiple> I;
static Res res;
static std::string kind;
static std::vector<tr::Op> cons;
static const mb::Model& model() { return *st->get_pinocchio(); }
static long ncOf(const tr::Op& c) { return c.s("k") == "1d" ? 1 : c.s("k") == "2d" ? 2 : c.s("k") == "3d" ? 3 : 6; }

static FrictionCone fcone(const tr::Op& o) { return FrictionCone(mb::rot(o.v("cR")), o.d("cmu"), o.i("nf"), o.b("inner")); }
static WrenchCone wcone(const tr::Op& o) { return WrenchCone(mb::rot(o.v("cR")), o.d("cmu"), Eigen::Vector2d(o.v("box")), o.i("nf"), o.b("inner")); }
static CoPSupport copsup(const tr::Op& o) { return CoPSupport(mb::rot(o.v("cR")), Eigen::Vector2d(o.v("box"))); }
static Res make(const tr::Op& o) {
  const V ref = o.v("ref");
  const std::size_t nu = o.i("nu");
  const bool fwd = o.b("fwd"), s = o.b("short");
  const auto id = o.i("fr") > 3 ? (pinocchio::FrameIndex)model().nframes : mb::fid(model(), o.i("fr"));
  if (kind == "x") return s ? std::make_shared<ResidualModelState>(st, ref) : std::make_shared<ResidualModelState>(st, ref, nu);
  if (kind == "mom") return s ? std::make_shared<ResidualModelCentroidalMomentum>(st, ref) : std::make_shared<ResidualModelCentroidalMomentum>(st, ref, nu);
  if (kind == "com") return s ? std::make_shared<ResidualModelCoMPosition>(st, ref) : std::make_shared<ResidualModelCoMPosition>(st, ref, nu);
  if (kind == "pos") return s ? std::make_shared<ResidualModelFrameTranslation>(st, id, ref) : std::make_shared<ResidualModelFrameTranslation>(st, id, ref, nu);
  if (kind == "rot") return s ? std::make_shared<ResidualModelFrameRotation>(st, id, mb::rot(ref)) : std::make_shared<ResidualModelFrameRotation>(st, id, mb::rot(ref), nu);
  if (kind == "pla") {
    const auto P = mb::pose(ref.head(9), ref.tail(3));
    return s ? std::make_shared<ResidualModelFramePlacement>(st, id, P) : std::make_shared<ResidualModelFramePlacement>(st, id, P, nu);
  }
  if (kind == "vel") {
    const pinocchio::Motion m(ref);
    const auto t = mb::frame(o.s("ty"));
    return s ? std::make_shared<ResidualModelFrameVelocity>(st, id, m, t) : std::make_shared<ResidualModelFrameVelocity>(st, id, m, t, nu);
  }
  if (kind == "fc") {
    const pinocchio::Force f(ref);
    return s ? std::make_shared<ResidualModelContactForce>(st, id, f, o.i("nc")) : std::make_shared<ResidualModelContactForce>(st, id, f, o.i("nc"), nu, fwd);
  }
  if (kind == "fcone") return s ? std::make_shared<ResidualModelContactFrictionCone>(st, id, fcone(o)) : std::make_shared<ResidualModelContactFrictionCone>(st, id, fcone(o), nu, fwd);
  if (kind == "wcone") return s ? std::make_shared<ResidualModelContactWrenchCone>(st, id, wcone(o)) : std::make_shared<ResidualModelContactWrenchCone>(st, id, wcone(o), nu, fwd);
  if (kind == "cop") return s ? std::make_shared<ResidualModelContactCoPPosition>(st, id, copsup(o)) : std::make_shared<ResidualModelContactCoPPosition>(st, id, copsup(o), nu, fwd);
  if (kind == "grav") return s ? std::make_shared<ResidualModelControlGrav>(st) : std::make_shared<ResidualModelControlGrav>(st, nu);
  if (kind == "cgrav") return s ? std::make_shared<ResidualModelContactControlGrav>(st) : std::make_shared<ResidualModelContactControlGrav>(st, nu);
  if (kind == "dvc") return std::make_shared<ResidualModelImpulseCoM>(st);
  throw std::runtime_error("kind");
}
template <typename T>
static T* as() { return static_cast<T*>(res.get()); }
static void setref(const tr::Op& o) {
  const V ref = o.v("ref");
  if (kind == "x") as<ResidualModelState>()->set_reference(ref);
  if (kind == "mom") as<ResidualModelCentroidalMomentum>()->set_reference(ref);
  if (kind == "com") as<ResidualModelCoMPosition>()->set_reference(ref);
  if (kind == "pos") as<ResidualModelFrameTranslation>()->set_reference(ref);
  if (kind == "rot") as<ResidualModelFrameRotation>()->set_reference(mb::rot(ref));
  if (kind == "pla") as<ResidualModelFramePlacement>()->set_reference(mb::pose(ref.head(9), ref.tail(3)));
  if (kind == "vel") as<ResidualModelFrameVelocity>()->set_reference(pinocchio::Motion(ref));
  if (kind == "fc") as<ResidualModelContactForce>()->set_reference(pinocchio::Force(ref));
  if (kind == "fcone") as<ResidualModelContactFrictionCone>()->set_reference(fcone(o));
  if (kind == "wcone") as<ResidualModelContactWrenchCone>()->set_reference(wcone(o));
  if (kind == "cop") as<ResidualModelContactCoPPosition>()->set_reference(copsup(o));
}
static void setid(long fr) {
  const auto id = mb::fid(model(), fr);
  if (kind == "pos") as<ResidualModelFrameTranslation>()->set_id(id);
  if (kind == "rot") as<ResidualModelFrameRotation>()->set_id(id);
  if (kind == "pla") as<ResidualModelFramePlacement>()->set_id(id);
  if (kind == "vel") as<ResidualModelFrameVelocity>()->set_id(id);
  if (kind == "fc") as<ResidualModelContactForce>()->set_id(id);
  if (kind == "fcone") as<ResidualModelContactFrictionCone>()->set_id(id);
  if (kind == "wcone") as<ResidualModelContactWrenchCone>()->set_id(id);
  if (kind == "cop") as<ResidualModelContactCoPPosition>()->set_id(id);
}
template <typename T>
static void castTo() {
  res = std::make_shared<T>(as<T>()->template cast<float>().template cast<double>());
}
static void cast() {
  if (kind == "x") castTo<ResidualModelState>();
  if (kind == "mom") castTo<ResidualModelCentroidalMomentum>();
  if (kind == "com") castTo<ResidualModelCoMPosition>();
  if (kind == "pos") castTo<ResidualModelFrameTranslation>();
  if (kind == "rot") castTo<ResidualModelFrameRotation>();
  if (kind == "pla") castTo<ResidualModelFramePlacement>();
  if (kind == "vel") castTo<ResidualModelFrameVelocity>();
  if (kind == "fc") castTo<ResidualModelContactForce>();
  if (kind == "fcone") castTo<ResidualModelContactFrictionCone>();
  if (kind == "wcone") castTo<ResidualModelContactWrenchCone>();
  if (kind == "cop") castTo<ResidualModelContactCoPPosition>();
  if (kind == "grav") castTo<ResidualModelControlGrav>();
  if (kind == "cgrav") castTo<ResidualModelContactControlGrav>();
  if (kind == "dvc") castTo<ResidualModelImpulseCoM>();
}
static bool forward() {
  if (kind == "fc") return as<ResidualModelContactForce>()->is_fwddyn();
  if (kind == "fcone") return as<ResidualModelContactFrictionCone>()->is_fwddyn();
  if (kind == "wcone") return as<ResidualModelContactWrenchCone>()->is_fwddyn();
  if (kind == "cop") return as<ResidualModelContactCoPPosition>()->is_fwddyn();
  return true;
}
static V ref() {
  const auto se3 = [](const pinocchio::SE3& P) {
    V r(12);
    r << mb::flat(P.rotation()), P.translation();
    return r;
  };
  if (kind == "x") return as<ResidualModelState>()->get_reference();
  if (kind == "mom") return as<ResidualModelCentroidalMomentum>()->get_reference();
  if (kind == "com") return as<ResidualModelCoMPosition>()->get_reference();
  if (kind == "pos") return as<ResidualModelFrameTranslation>()->get_reference();
  if (kind == "rot") return mb::flat(as<ResidualModelFrameRotation>()->get_reference());
  if (kind == "pla") return se3(as<ResidualModelFramePlacement>()->get_reference());
  if (kind == "vel") return as<ResidualModelFrameVelocity>()->get_reference().toVector();
  if (kind == "fc") return as<ResidualModelContactForce>()->get_reference().toVector();
  return V();
}
// the matrix of the cone as a fresh cone has it
static M coneA(const tr::Op& o) {
  if (kind == "fcone") return fcone(o).get_A();
  if (kind == "wcone") return wcone(o).get_A();
  if (kind == "cop") return copsup(o).get_A();
  return M(0, 0);
}
static Slot mk(bool plain) {
  Slot s;
  s.p = std::make_shared<pinocchio::Data>(model());
  s.a = act->createData();
  if (C) {
    s.c = C->createData(s.p.get());
    if (cons.empty()) s.col = std::make_shared<DataCollectorActMultibody>(s.p.get(), s.a);
    else s.col = std::make_shared<DataCollectorActMultibodyInContact>(s.p.get(), s.a, s.c);
  } else {
    s.i = I->createData(s.p.get());
    s.col = std::make_shared<DataCollectorMultibodyInImpulse>(s.p.get(), s.i);
  }
  if (plain) s.col = std::make_shared<DataCollectorAbstract>();
  return s;
}
static void finish(Slot& s) {
  s.w = std::make_shared<ActivationModelWeightedQuad>(V::Ones(res->get_nr()));
  s.cost = std::make_shared<CostModelResidual>(st, s.w, res);
  s.d = s.cost->createData(s.col.get());
}
template <typename T>
static void spread(T& items, const M& dx, const M& du, bool setdx) {
  long k = 0;
  for (auto& c : items) {
    const long n = c.second->df_dx.rows();
    if (setdx) c.second->df_dx = dx.middleRows(k, n);
    if (c.second->df_du.cols()) c.second->df_du = du.middleRows(k, n);
    k += n;
  }
}
// what the residual reads, at a point
static void put(Slot& s, const V& x, const V& u, const V& a, const V& vn, const M& dvn, bool diff) {
  const auto& m = model();
  const V q = x.head(m.nq), v = x.tail(m.nv);
  mb::prepare(m, *s.p, q, v, a);
  pinocchio::computeCentroidalMomentum(m, *s.p);
  pinocchio::centerOfMass(m, *s.p, q, v, a);
  act->calc(s.a, x, u);
  if (s.i) s.i->vnext = vn;
  if (!diff) return;
  mb::prepareDiff(m, *s.p, q, v, a);
  pinocchio::computeRNEADerivatives(m, *s.p, q, v, a);
  pinocchio::jacobianCenterOfMass(m, *s.p, false);
  act->calcDiff(s.a, x, u);
  if (s.i) s.i->dvnext_dx = dvn;
}

int main(int, char** argv) {
  std::cerr.setstate(std::ios::failbit);
  tr::Out out(argv[2]);
  std::map<long, Slot> ds;
  const tr::Op *rp = nullptr, *cone = nullptr;
  const std::vector<tr::Op> all = tr::readops(argv[1]);
  const double h = 1e-3, hs[4] = {-2 * h, -h, h, 2 * h};
  for (const tr::Op& op : all) {
    tr::Obj o;
    o.str("op", op.name).raw("in", op.s("json"));
    bool thrown = false;
    try {
      if (op.name == "new") {
        rp = &op;
        cons.clear();
        ds.clear();
        res.reset();
        kind = op.s("k");
        st = std::make_shared<StateMultibody>(mb::robot(op));
        const std::string at = op.s("act");
        if (at == "full") act = std::make_shared<ActuationModelFull>(st);
        else if (at == "base") act = std::make_shared<ActuationModelFloatingBase>(st);
        else act = std::make_shared<mb::PartTpl<double> >(st, op.is("on"), 0., 0., 0.);
      } else if (op.name == "con") {
        cons.push_back(op);
      } else if (op.name == "make") {
        C.reset();
        I.reset();
        const std::size_t nu = op.i("nu");
        if (rp->b("imp")) I = std::make_shared<ImpulseModelMultiple>(st);
        else C = std::make_shared<ContactModelMultiple>(st, nu);
        for (const auto& c : cons) {
          if (I) I->addImpulse(c.s("n"), mb::impulse(st, c));
          else {
            tr::Op e = c;
            e.kv.emplace_back("nu", std::to_string(nu));
            C->addContact(c.s("n"), mb::contact(st, e));
          }
        }
        res = make(op);
        cone = &op;
      } else if (op.name == "data") {
        Slot s = mk(op.b("plain"));
        const M du = op.m("du"), dx = M::Zero(du.rows(), 2 * model().nv);
        if (s.c) spread(s.c->contacts, dx, du, true); else spread(s.i->impulses, dx, du, true);
        finish(s);
        ds[op.i("d")] = s;
      } else if (op.name == "cast") {
        cast();
        ds.clear();
      } else if (op.name == "ref") {
        setref(op);
        if (kind == "fcone" || kind == "wcone" || kind == "cop") cone = &op;
      } else if (op.name == "id") {
        setid(op.i("fr"));
      } else if (op.name == "type") {
        as<ResidualModelFrameVelocity>()->set_type(mb::frame(op.s("ty")));
      } else if (op.name == "eval" || op.name == "term") {
        const bool run = op.name == "eval", fwd = op.b("fwd");
        Slot& s = ds.at(op.i("d"));
        const auto& m = model();
        const V x = op.v("x"), u = op.v("u"), a = op.v("a"), vn = op.v("vn"), e = op.v("e"), eu = op.v("eu"), f = op.v("f");
        const M dvn = op.m("dvn");
        const V un = V::Zero(res->get_nu());
        s.w->set_weights(op.v("w"));
        put(s, x, u, a, vn, dvn, true);
        long k = 0;
        const auto forces = [&](auto& items) {
          for (auto& c : items) c.second->f = pinocchio::Force(V(f.segment(6 * k++, 6)));
        };
        if (s.c) forces(s.c->contacts); else forces(s.i->impulses);
        if (fwd) {
          if (s.c) spread(s.c->contacts, op.m("dx"), op.m("du"), true); else spread(s.i->impulses, op.m("dx"), op.m("du"), true);
        }
        if (op.b("ext") && s.c) {  // (known finding) forces on the bodies
          for (auto& y : s.c->fext) y = pinocchio::Force(V(f.head(6)));
        }
        if (run) {
          s.cost->calc(s.d, x, un);
          s.cost->calcDiff(s.d, x, un);
        } else {
          s.cost->calc(s.d, x);
          s.cost->calcDiff(s.d, x);
        }
        const auto& r = *s.d->residual;
        o.vec("r", r.r).mat("Rx", r.Rx).mat("Ru", r.Ru).d("cost", s.d->cost).vec("Lx", s.d->Lx).vec("Lu", s.d->Lu).mat("Lxx", s.d->Lxx).mat("Lxu", s.d->Lxu).mat("Luu", s.d->Luu);
        o.b("qd", res->get_q_dependent()).b("vd", res->get_v_dependent()).b("ud", res->get_u_dependent());
        // along the direction
        std::vector<V> rs;
        for (double t : hs) {
          Slot y = mk(op.b("plain"));
          const M du = op.m("du"), dx = M::Zero(du.rows(), 2 * model().nv);
          if (y.c) spread(y.c->contacts, dx, du, true); else spread(y.i->impulses, dx, du, true);
          finish(y);
          put(y, st->integrate_x(x, t * e), u.size() == eu.size() ? V(u + t * eu) : u, a, vn + t * (dvn * e), dvn, false);
          if (run) y.cost->calc(y.d, st->integrate_x(x, t * e), un); else y.cost->calc(y.d, st->integrate_x(x, t * e));
          rs.push_back(y.d->residual->r);
        }
        o.vecl("rs", rs);
        // what the library says
        pinocchio::Data p(m);
        const V q = x.head(m.nq), v = x.tail(m.nv), z = V::Zero(m.nv);
        mb::prepare(m, p, q, v, a);
        const auto fr = mb::frames(m, p, rp->is("fj").size());
        pinocchio::computeCentroidalMomentum(m, p);
        pinocchio::jacobianCenterOfMass(m, p, false);
        o.objs("fr", fr).vec("hg", p.hg.toVector()).vec("com", p.com[0]).mat("Jcom", M(p.Jcom)).vec("tau", s.a->tau);
        o.vec("g", pinocchio::mini::rnea(m, q, z, z, op.b("ext") ? pinocchio::mini::forces(s.c->fext) : pinocchio::mini::none()));
      }
      if (res) {
        o.mat("A", cone ? coneA(*cone) : M(0, 0)).vec("ref", ref()).i("nr", res->get_nr()).i("nu", res->get_nu()).b("forward", forward());
      }
    } catch (const std::exception&) { thrown = true; }
    o.b("thrown", thrown);
    out.line(o);
  }
  return 0;
}
