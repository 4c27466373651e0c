// LINK: mb/states/.* mb/contacts/.* mb/impulses/.* mb/contact-base mb/impulse-base mb/force-base state-base actuation-base utils/.*
// OPTS: minipin
// SCALARS: double float
// The stacks of contacts and impulses.
#include <map>

#include "mbc.hpp"
using namespace crocoddyl;
using mb::M;
using mb::V;

static std::vector<std::string> names(const std::set<std::string>& s) { return std::vector<std::string>(s.begin(), s.end()); }
struct Slot {
  std::shared_ptr<pinocchio::Data> p;
  std::shared_ptr<ContactDataMultiple> c;
  std::shared_ptr<ImpulseDataMultiple> i;
};

int main(int, char** argv) {
  std::cerr.setstate(std::ios::failbit);
  tr::Out out(argv[2]);
  mb::State st;
  std::shared_ptr<ContactModelMultiple> C;
  std::shared_ptr<ImpulseModelMultiple> I;
  std::map<long, Slot> ds;
  std::size_t nf = 0;
  V x0, a0;
  const auto mk = [&]() {
    Slot s;
    s.p = std::make_shared<pinocchio::Data>(*st->get_pinocchio());
    if (C) s.c = C->createData(s.p.get()); else s.i = I->createData(s.p.get());
    return s;
  };
  const auto ev = [&](Slot& s, const V& x, const V& a, bool diff) {
    const auto& m = *st->get_pinocchio();
    mb::prepare(m, *s.p, x.head(m.nq), x.tail(m.nv), a);
    if (C) C->calc(s.c, x); else I->calc(s.i, x);
    if (!diff) return;
    mb::prepareDiff(m, *s.p, x.head(m.nq), x.tail(m.nv), a);
    if (C) C->calcDiff(s.c, x); else I->calcDiff(s.i, x);
  };
  // the impulses' velocity is that of their rows: J v
  const auto val = [&](const V& x, const V& a) -> V {
    Slot s = mk();
    ev(s, x, a, false);
    if (C) return s.c->a0;
    return s.i->Jc * x.tail(st->get_nv());
  };
  const double h = 1e-3, hs[4] = {-2 * h, -h, h, 2 * h};
  for (const tr::Op& op : tr::readops(argv[1])) {
    tr::Obj o;
    o.str("op", op.name).raw("in", op.s("json"));
    bool thrown = false;
    try {
      if (op.name == "new") {
        st = std::make_shared<StateMultibody>(mb::robot(op));
        nf = op.is("fj").size();
        C.reset();
        I.reset();
        ds.clear();
        if (op.s("what") == "con") C = std::make_shared<ContactModelMultiple>(st, op.i("nu")); else I = std::make_shared<ImpulseModelMultiple>(st);
      } else if (op.name == "add") {
        if (C) C->addContact(op.s("n"), mb::contact(st, op), op.b("on")); else I->addImpulse(op.s("n"), mb::impulse(st, op), op.b("on"));
      } else if (op.name == "remove") {
        if (C) C->removeContact(op.s("n")); else I->removeImpulse(op.s("n"));
      } else if (op.name == "status") {
        if (C) C->changeContactStatus(op.s("n"), op.b("on")); else I->changeImpulseStatus(op.s("n"), op.b("on"));
      } else if (op.name == "all") {
        C->setComputeAllContacts(op.b("on"));
      } else if (op.name == "data") {
        ds[op.i("d")] = mk();
      } else if (op.name == "cast") {
        if (C) {
          C = std::make_shared<ContactModelMultiple>(C->cast<float>().cast<double>());
          st = C->get_state();
        } else {
          I = std::make_shared<ImpulseModelMultiple>(I->cast<float>().cast<double>());
          st = I->get_state();
        }
        ds.clear();
      } else if (op.name == "eval") {
        Slot& s = ds.at(op.i("d"));
        const V x = op.v("x"), a = op.v("a"), e = op.v("e");
        x0 = x;
        a0 = a;
        ev(s, x, a, true);
        if (C) o.mat("Jc", s.c->Jc).vec("a0", s.c->a0).mat("dx", s.c->da0_dx);
        else o.mat("Jc", s.i->Jc).mat("dx", s.i->dv0_dq);
        pinocchio::Data p(*st->get_pinocchio());
        mb::prepare(*st->get_pinocchio(), p, x.head(st->get_nq()), x.tail(st->get_nv()), a);
        std::vector<tr::Obj> fs = mb::frames(*st->get_pinocchio(), p, nf);
        o.objs("fr", fs);
        // log of the placement from the reference of each item that has one
        std::vector<V> lg;
        if (C)
          for (const auto& c : C->get_contacts()) {
            auto m6 = std::dynamic_pointer_cast<ContactModel6D>(c.second->contact);
            lg.push_back(m6 ? V(pinocchio::log6(m6->get_reference().actInv(p.oMf[m6->get_id()])).toVector()) : V());
          }
        o.vecl("lg", lg);
        std::vector<V> f;
        for (double t : hs) f.push_back(val(st->integrate_x(x, t * e), a));
        o.vecl("f", f);
      } else if (op.name == "force") {
        Slot& s = ds.at(op.i("d"));
        const V f = op.v("f");
        const auto& m = *st->get_pinocchio();
        if (C) C->updateForce(s.c, f); else I->updateForce(s.i, f);
        const auto& fe = C ? s.c->fext : s.i->fext;
        std::vector<V> l;
        for (const auto& y : fe) l.push_back(y.toVector());
        o.vecl("fext", l);
        std::vector<V> fi;
        if (C) for (const auto& c : s.c->contacts) fi.push_back(c.second->f.toVector());
        else for (const auto& c : s.i->impulses) fi.push_back(c.second->f.toVector());
        o.vecl("fi", fi);
        // joint torques of these forces, at other points but through the Jacobians of this one
        pinocchio::Data p(m);
        mb::prepare(m, p, x0.head(m.nq), x0.tail(m.nv), a0);
        std::vector<V> tc;
        for (double t : hs) {
          Slot w = mk();
          V e2 = t * op.v("e");
          e2.tail(m.nv).setZero();
          ev(w, st->integrate_x(x0, e2), a0, false);
          if (C) C->updateForce(w.c, f); else I->updateForce(w.i, f);
          const auto& fw = C ? w.c->fext : w.i->fext;
          V tau = V::Zero(m.nv);
          for (std::size_t j = 1; j < fw.size(); ++j) {
            M J = M::Zero(6, m.nv);
            pinocchio::getJointJacobian(m, p, j, pinocchio::LOCAL, J);
            tau += J.transpose() * fw[j].toVector();
          }
          tc.push_back(tau);
        }
        o.vecl("tc", tc);
        s.p->dtau_dq.setConstant(5.);
        if (C) C->updateRneaDiff(s.c, *s.p); else I->updateRneaDiff(s.i, *s.p);
        o.mat("dt", s.p->dtau_dq);
      } else if (op.name == "fdiff") {
        Slot& s = ds.at(op.i("d"));
        if (C) C->updateForceDiff(s.c, op.m("dx"), op.m("du")); else I->updateForceDiff(s.i, op.m("dx"));
        std::vector<M> a, b;
        if (C) for (const auto& c : s.c->contacts) { a.push_back(c.second->df_dx); b.push_back(c.second->df_du); }
        else for (const auto& c : s.i->impulses) a.push_back(c.second->df_dx);
        o.matl("dx", a).matl("du", b);
      } else if (op.name == "acc") {
        Slot& s = ds.at(op.i("d"));
        if (C) C->updateAcceleration(s.c, op.v("v")); else I->updateVelocity(s.i, op.v("v"));
        o.vec("v", C ? s.c->dv : s.i->vnext);
      } else if (op.name == "accd") {
        Slot& s = ds.at(op.i("d"));
        if (C) C->updateAccelerationDiff(s.c, op.m("m")); else I->updateVelocityDiff(s.i, op.m("m"));
        o.mat("m2", C ? s.c->ddv_dx : s.i->dvnext_dx);
      }
    } catch (const std::exception&) { thrown = true; }
    tr::Obj p;
    if (C) {
      p.i("nc", C->get_nc()).i("total", C->get_nc_total()).i("nu", C->get_nu()).b("all", C->getComputeAllContacts()).strs("on", names(C->get_active_set())).strs("off", names(C->get_inactive_set()));
      std::vector<tr::Obj> l;
      for (const auto& c : C->get_contacts()) { tr::Obj e; e.str("n", c.first).b("on", c.second->active).b("st", C->getContactStatus(c.first)).i("nc", c.second->contact->get_nc()); l.push_back(e); }
      p.objs("items", l).b("nobody", C->getContactStatus("nobody"));
    } else {
      p.i("nc", I->get_nc()).i("total", I->get_nc_total()).i("nu", 0).b("all", false).strs("on", names(I->get_active_set())).strs("off", names(I->get_inactive_set()));
      std::vector<tr::Obj> l;
      for (const auto& c : I->get_impulses()) { tr::Obj e; e.str("n", c.first).b("on", c.second->active).b("st", I->getImpulseStatus(c.first)).i("nc", c.second->impulse->get_nc()); l.push_back(e); }
      p.objs("items", l).b("nobody", I->getImpulseStatus("nobody"));
    }
    o.raw("m", p.text()).b("thrown", thrown);
    out.line(o);
  }
  return 0;
}
