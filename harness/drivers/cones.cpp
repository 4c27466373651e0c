// LINK: multibody/.*
// SCALARS: double float
// FLAGS: -Wno-deprecated-declarations
// Friction cones, wrench cones and support regions in four slots.
#include "crocoddyl/multibody/cop-support.hpp"
#include "crocoddyl/multibody/friction-cone.hpp"
#include "crocoddyl/multibody/wrench-cone.hpp"
#include "trace.hpp"
using namespace crocoddyl;
typedef Eigen::Vector3d V3;

template <typename C>
static void common(tr::Obj& o, const C& c) { o.mat("A", c.get_A()).vec("lb", c.get_lb()).vec("ub", c.get_ub()).mat("R", c.get_R()); }
template <typename C>
static void limits(tr::Obj& o, const C& c) {
  o.d("mu", c.get_mu()).i("nf", c.get_nf()).b("inner", c.get_inner_appr()).d("min", c.get_min_nforce()).d("max", c.get_max_nforce());
}
template <typename S>
static tr::Obj show(FrictionConeTpl<S>& c) {
  tr::Obj o;
  o.str("kind", "friction").vec("nsurf", c.get_nsurf());
  common(o, c);
  limits(o, c);
  return o;
}
template <typename S>
static tr::Obj show(WrenchConeTpl<S>& c) {
  tr::Obj o;
  o.str("kind", "wrench").vec("box", c.get_box());
  common(o, c);
  limits(o, c);
  return o;
}
template <typename S>
static tr::Obj show(CoPSupportTpl<S>& c) {
  tr::Obj o;
  o.str("kind", "cop").vec("box", c.get_box());
  common(o, c);
  return o;
}

struct Slot {
  std::shared_ptr<FrictionConeTpl<double>> f;
  std::shared_ptr<WrenchConeTpl<double>> w;
  std::shared_ptr<CoPSupportTpl<double>> c;
};
template <typename C>
static std::shared_ptr<C> fresh(const C& c) { return std::allocate_shared<C>(Eigen::aligned_allocator<C>(), c); }

int main(int, char** argv) {
  std::cerr.setstate(std::ios::failbit);
  tr::Out out(argv[2]);
  Slot S[5];
  for (const tr::Op& op : tr::readops(argv[1])) {
    tr::Obj o;
    o.str("op", op.name).raw("in", op.s("json"));
    auto d3 = [&](const char* k) { return Eigen::Matrix3d(op.m(k)); };
    auto d2 = [&](const char* k) { return Eigen::Vector2d(op.v(k)); };
    if (op.name == "reset") {
      for (Slot& s : S) s = Slot();
      continue;
    }
    Slot& s = S[op.i("d")];
    if (op.name == "new") {
      const std::string k = op.s("kind");
      s = Slot();
      if (k == "friction") s.f = fresh(FrictionConeTpl<double>(d3("R"), op.d("mu"), op.i("nf"), op.b("inner"), op.d("min"), op.d("max")));
      if (k == "wrench" && op.b("old")) s.w = fresh(WrenchConeTpl<double>(d3("R"), op.d("mu"), d2("box"), op.i("nf"), op.d("min"), op.d("max")));
      if (k == "wrench" && !op.b("old")) s.w = fresh(WrenchConeTpl<double>(d3("R"), op.d("mu"), d2("box"), op.i("nf"), op.b("inner"), op.d("min"), op.d("max")));
      if (k == "cop") s.c = fresh(CoPSupportTpl<double>(d3("R"), d2("box")));
    } else if (op.name == "newd") {
      const std::string k = op.s("kind");
      s = Slot();
      if (k == "friction") s.f = fresh(FrictionConeTpl<double>());
      if (k == "wrench") s.w = fresh(WrenchConeTpl<double>());
      if (k == "cop") s.c = fresh(CoPSupportTpl<double>());
    } else if (op.name == "set") {
      const std::string f = op.s("f");
      auto set = [&](auto& c) {
        if (f == "mu") c.set_mu(op.d("v"));
        if (f == "min") c.set_min_nforce(op.d("v"));
        if (f == "max") c.set_max_nforce(op.d("v"));
        if (f == "inner") c.set_inner_appr(op.b("v"));
        if (f == "R") c.set_R(d3("v"));
      };
      if (s.f) set(*s.f);
      if (s.w) set(*s.w);
      if (s.w && f == "box") s.w->set_box(d2("v"));
      if (s.c && f == "box") s.c->set_box(d2("v"));
      if (s.c && f == "R") s.c->set_R(d3("v"));
    } else if (op.name == "update") {
      if (s.f) s.f->update();
      if (s.w) s.w->update();
      if (s.c) s.c->update();
    } else if (op.name == "copy") {
      const Slot a = S[op.i("s")];
      s = Slot();
      if (a.f) s.f = fresh(*a.f);
      if (a.w) s.w = fresh(*a.w);
      if (a.c) s.c = fresh(*a.c);
    } else if (op.name == "assign") {
      Slot& a = S[op.i("s")];
      if (a.f) *s.f = *a.f;
      if (a.w) *s.w = *a.w;
      if (a.c) *s.c = *a.c;
    } else if (op.name == "cop") {
      const Slot a = S[op.i("s")];
      s = Slot();
      s.c = fresh(CoPSupportTpl<double>(*a.w));
    } else if (op.name == "wupd") {
      s.w->update(d3("R"), op.d("mu"), d2("box"), op.d("min"), op.d("max"));
    } else if (op.name == "fupd") {
      s.f->update(V3(op.v("n")), op.d("mu"), op.b("inner"), op.d("min"), op.d("max"));
    } else if (op.name == "nsurf") {
      s.f->set_nsurf(V3(op.v("n")));
    } else if (op.name == "cast") {
      auto conv = [&](auto& c) {
        auto f = c.template cast<float>();
        auto b = f.template cast<double>();
        o.raw("f", show(f).text()).raw("b", show(b).text());
      };
      if (s.f) conv(*s.f);
      if (s.w) conv(*s.w);
      if (s.c) conv(*s.c);
    }
    std::vector<tr::Obj> all;
    for (int k = 1; k < 5; ++k) {
      if (S[k].f) all.push_back(show(*S[k].f));
      else if (S[k].w) all.push_back(show(*S[k].w));
      else if (S[k].c) all.push_back(show(*S[k].c));
      else all.push_back(tr::Obj().str("kind", "none"));
    }
    o.objs("s", all);
    out.line(o);
  }
}
