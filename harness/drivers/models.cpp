// LINK: action-base diff-action-base actions/lqr actions/diff-lqr actions/unicycle state-base states/euclidean utils/.*
// SCALARS: double float
// Histories of the built-in linear-quadratic models and the unicycle: construction, copies, parameter changes, casts, evaluations.
#include "crocoddyl/core/actions/diff-lqr.hpp"
#include "crocoddyl/core/actions/lqr.hpp"
#include "crocoddyl/core/actions/unicycle.hpp"
#include "trace.hpp"
#include <map>
using namespace crocoddyl;
typedef Eigen::VectorXd V;
typedef Eigen::MatrixXd M;

template <typename S>
struct Mod {
  std::shared_ptr<ActionModelLQRTpl<S> > a;
  std::shared_ptr<DifferentialActionModelLQRTpl<S> > d;
  std::shared_ptr<ActionModelUnicycleTpl<S> > u;
};
struct Dat {
  long m = 0;
  std::shared_ptr<ActionDataAbstract> a;
  std::shared_ptr<DifferentialActionDataAbstract> d;
};

template <typename S, typename T>
static void limits(tr::Obj& o, T& m) {
  tr::Obj s, l;
  s.i("nx", m.get_state()->get_nx()).i("nu", m.get_nu()).i("ng", m.get_ng()).i("nh", m.get_nh());
  l.vec("ulb", m.get_u_lb()).vec("uub", m.get_u_ub()).vec("glb", m.get_g_lb()).vec("gub", m.get_g_ub());
  l.vec("xlb", m.get_state()->get_lb()).vec("xub", m.get_state()->get_ub());
  o.raw("S", s.text()).raw("L", l.text()).b("has", m.get_has_control_limits()).b("xhas", m.get_state()->get_has_limits());
}
template <typename T>
static void params(tr::Obj& p, T& m) {
  p.mat("B", m.get_B()).mat("Q", m.get_Q()).mat("R", m.get_R()).mat("N", m.get_N()).mat("G", m.get_G()).mat("H", m.get_H());
  p.vec("f", m.get_f()).vec("q", m.get_q()).vec("r", m.get_r()).vec("g", m.get_g()).vec("h", m.get_h());
}
template <typename S>
static tr::Obj report(const Mod<S>& m) {
  tr::Obj o, p;
  if (m.a) {
    o.str("k", "lqr"); p.mat("A", m.a->get_A()); params(p, *m.a); limits<S>(o, *m.a);
  } else if (m.d) {
    o.str("k", "dlqr"); p.mat("Aq", m.d->get_Aq()).mat("Av", m.d->get_Av()); params(p, *m.d); limits<S>(o, *m.d);
  } else {
    o.str("k", "uni"); p.d("dt", m.u->get_dt()).vec("w", m.u->get_cost_weights()); limits<S>(o, *m.u);
  }
  return o.raw("P", p.text());
}
template <typename D, typename F>
static void results(tr::Obj& o, const D& d, const F& f) {
  o.vec("f", f).d("l", d.cost).vec("r", d.r).vec("g", d.g).vec("h", d.h);
  o.mat("fx", d.Fx).mat("fu", d.Fu).vec("lx", d.Lx).vec("lu", d.Lu).mat("lxx", d.Lxx).mat("luu", d.Luu).mat("lxu", d.Lxu);
  o.mat("gx", d.Gx).mat("gu", d.Gu).mat("hx", d.Hx).mat("hu", d.Hu);
}
template <typename MT, typename DT, typename X>
static std::vector<long> eval(MT& m, const DT& d, const X& x, const X& u, bool t, bool diff, bool both) {
  std::vector<long> thrown(2, 0);
  try { if (t) m.calc(d, x); else m.calc(d, x, u); } catch (const std::exception&) { thrown[0] = 1; }
  if (diff || both) try { if (t) m.calcDiff(d, x); else m.calcDiff(d, x, u); } catch (const std::exception&) { thrown[1] = 1; }
  return thrown;
}
static M zrow(const M& m, long cols) { return m.rows() == 0 ? M(0, cols) : m; }

template <typename T>
static void limit(T& m, const std::string& w, const V& v) {
  if (w == "ulb") m.set_u_lb(v);
  if (w == "uub") m.set_u_ub(v);
  if (w == "glb") m.set_g_lb(v);
  if (w == "gub") m.set_g_ub(v);
  if (w == "xlb") m.get_state()->set_lb(v);
  if (w == "xub") m.get_state()->set_ub(v);
}
typedef Eigen::Matrix<float, Eigen::Dynamic, 1> VF;

int main(int, char** argv) {
  std::cerr.setstate(std::ios::failbit);
  std::cout.setstate(std::ios::failbit);
  tr::Out out(argv[2]);
  std::map<long, Mod<double> > ms;
  std::map<long, Dat> ds;
  for (const tr::Op& op : tr::readops(argv[1])) {
    tr::Obj o;
    o.str("op", op.name).raw("in", op.s("json"));
    bool thrown = false, plain = true;
    try {
      if (op.name == "reset") {
        ms.clear(); ds.clear();
      } else if (op.name == "new") {
        Mod<double> m;
        const std::string via = op.s("via");
        const bool L = op.s("k") == "lqr";
        if (via == "uni") m.u = std::make_shared<ActionModelUnicycle>();
        else if (via == "dims") {
          if (L) m.a = std::make_shared<ActionModelLQR>(op.i("n"), op.i("nu"), op.b("free"));
          else m.d = std::make_shared<DifferentialActionModelLQR>(op.i("n"), op.i("nu"), op.b("free"));
        } else if (via == "rand") {
          if (L) m.a = std::make_shared<ActionModelLQR>(ActionModelLQR::Random(op.i("n"), op.i("nu"), op.i("ng"), op.i("nh")));
          else m.d = std::make_shared<DifferentialActionModelLQR>(DifferentialActionModelLQR::Random(op.i("n"), op.i("nu"), op.i("ng"), op.i("nh")));
        } else {
          const M A = op.m(L ? "A" : "Aq"), Av = L ? M() : op.m("Av"), B = op.m("B"), Q = op.m("Q"), N = op.m("N");
          const M R = op.m("R");
          const long c = (L ? A.cols() : 2 * A.cols()) + B.cols();
          if (via == "short") {
            if (L) m.a = std::make_shared<ActionModelLQR>(A, B, Q, R, N); else m.d = std::make_shared<DifferentialActionModelLQR>(A, Av, B, Q, R, N);
          } else if (via == "mid") {
            if (L) m.a = std::make_shared<ActionModelLQR>(A, B, Q, R, N, op.v("f"), op.v("q"), op.v("r"));
            else m.d = std::make_shared<DifferentialActionModelLQR>(A, Av, B, Q, R, N, op.v("f"), op.v("q"), op.v("r"));
          } else {
            const M G = zrow(op.m("G"), c), H = zrow(op.m("H"), c);
            if (L) m.a = std::make_shared<ActionModelLQR>(A, B, Q, R, N, G, H, op.v("f"), op.v("q"), op.v("r"), op.v("g"), op.v("h"));
            else m.d = std::make_shared<DifferentialActionModelLQR>(A, Av, B, Q, R, N, G, H, op.v("f"), op.v("q"), op.v("r"), op.v("g"), op.v("h"));
          }
        }
        for (auto it = ds.begin(); it != ds.end();) { if (it->second.m == op.i("m")) it = ds.erase(it); else ++it; }
        ms[op.i("m")] = m;
      } else if (op.name == "copy") {
        const Mod<double> s = ms.at(op.i("m"));
        Mod<double> m;
        if (s.a) m.a = std::make_shared<ActionModelLQR>(*s.a);
        if (s.d) m.d = std::make_shared<DifferentialActionModelLQR>(*s.d);
        if (s.u) m.u = std::make_shared<ActionModelUnicycle>(*s.u);
        for (auto it = ds.begin(); it != ds.end();) { if (it->second.m == op.i("n")) it = ds.erase(it); else ++it; }
        ms[op.i("n")] = m;
      } else if (op.name == "set") {
        Mod<double>& m = ms.at(op.i("m"));
        const long c = m.a ? m.a->get_state()->get_nx() + m.a->get_nu() : m.d->get_state()->get_nx() + m.d->get_nu();
        const M G = zrow(op.m("G"), c), H = zrow(op.m("H"), c);
        if (m.a) m.a->set_LQR(op.m("A"), op.m("B"), op.m("Q"), op.m("R"), op.m("N"), G, H, op.v("f"), op.v("q"), op.v("r"), op.v("g"), op.v("h"));
        else m.d->set_LQR(op.m("Aq"), op.m("Av"), op.m("B"), op.m("Q"), op.m("R"), op.m("N"), G, H, op.v("f"), op.v("q"), op.v("r"), op.v("g"), op.v("h"));
      } else if (op.name == "dt") {
        ms.at(op.i("m")).u->set_dt(op.d("dt"));
      } else if (op.name == "weights") {
        ms.at(op.i("m")).u->set_cost_weights(Eigen::Vector2d(op.v("w")));
      } else if (op.name == "limit") {
        Mod<double>& m = ms.at(op.i("m"));
        if (m.a) limit(*m.a, op.s("w"), op.v("v"));
        if (m.d) limit(*m.d, op.s("w"), op.v("v"));
        if (m.u) limit(*m.u, op.s("w"), op.v("v"));
      } else if (op.name == "cast") {
        const Mod<double>& m = ms.at(op.i("m"));
        const VF x = op.v("x").cast<float>(), u = op.v("u").cast<float>();
        Mod<float> f;
        Mod<double> b;
        tr::Obj r;
        if (m.a) {
          f.a = std::make_shared<ActionModelLQRTpl<float> >(m.a->cast<float>());
          b.a = std::make_shared<ActionModelLQR>(f.a->cast<double>());
          auto d = f.a->createData();
          eval(*f.a, d, x, u, false, true, false);
          results(r, *d, d->xnext);
        } else if (m.d) {
          f.d = std::make_shared<DifferentialActionModelLQRTpl<float> >(m.d->cast<float>());
          b.d = std::make_shared<DifferentialActionModelLQR>(f.d->cast<double>());
          auto d = f.d->createData();
          eval(*f.d, d, x, u, false, true, false);
          results(r, *d, d->xout);
        } else {
          f.u = std::make_shared<ActionModelUnicycleTpl<float> >(m.u->cast<float>());
          b.u = std::make_shared<ActionModelUnicycle>(f.u->cast<double>());
          auto d = f.u->createData();
          eval(*f.u, d, x, u, false, true, false);
          results(r, *d, d->xnext);
        }
        o.raw("f", report(f).text()).raw("b", report(b).text()).raw("o", r.text());
      } else if (op.name == "data") {
        const Mod<double>& m = ms.at(op.i("m"));
        Dat d;
        d.m = op.i("m");
        bool ok;
        if (m.d) { d.d = m.d->createData(); ok = m.d->checkData(d.d); }
        else { d.a = m.a ? m.a->createData() : m.u->createData(); ok = m.a ? m.a->checkData(d.a) : m.u->checkData(d.a); }
        ds[op.i("d")] = d;
        o.b("ok", ok);
      } else if (op.name == "eval") {
        plain = false;
        Dat& d = ds.at(op.i("d"));
        const Mod<double>& m = ms.at(d.m);
        const V x = op.v("x"), u = op.v("u");
        const bool t = op.b("t"), diff = op.b("diff");
        tr::Obj r, n;
        std::vector<long> th;
        if (m.d) {
          const bool ok = x.size() == long(m.d->get_state()->get_nx()) && (t || u.size() == long(m.d->get_nu()));
          th = eval(*m.d, d.d, x, u, t, diff, !ok);
          results(r, *d.d, d.d->xout);
          auto e = m.d->createData();
          if (ok) eval(*m.d, e, x, u, t, diff, false);
          results(n, *e, e->xout);
        } else {
          ActionModelAbstract& a = m.a ? static_cast<ActionModelAbstract&>(*m.a) : static_cast<ActionModelAbstract&>(*m.u);
          const bool ok = x.size() == long(a.get_state()->get_nx()) && (t || u.size() == long(a.get_nu()));
          th = eval(a, d.a, x, u, t, diff, !ok);
          results(r, *d.a, d.a->xnext);
          auto e = a.createData();
          if (ok) eval(a, e, x, u, t, diff, false);
          results(n, *e, e->xnext);
        }
        o.raw("thrown", std::string("[") + (th[0] ? "true" : "false") + "," + (th[1] ? "true" : "false") + "]");
        o.raw("o", r.text()).raw("n", n.text());
      }
    } catch (const std::exception&) { thrown = true; }
    if (plain) o.b("thrown", thrown);
    std::vector<tr::Obj> l;
    for (const auto& p : ms) { tr::Obj r = report(p.second); r.i("m", p.first); l.push_back(r); }
    o.objs("ms", l);
    out.line(o);
  }
  return 0;
}
