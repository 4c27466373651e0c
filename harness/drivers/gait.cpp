// LINK: mb/utils/quadruped-gaits mb/states/.* mb/contacts/.* mb/impulses/.* mb/contact-base mb/impulse-base mb/force-base mb/actuations/.* mb/actions/.* mb/residuals/.* mb/data/.* mb/.*cone mb/cop-support residuals/.* data/.* activations/.* activation-base costs/.* cost-base constraints/.* constraint-base residual-base data-collector-base diff-action-base action-base integ-action-base integrator/euler control-base controls/.* state-base actuation-base optctrl/shooting utils/.*
// OPTS: minipin
// The problems of a quadruped's gaits: what every node asks of the robot.
#include "mbr.hpp"
#include "crocoddyl/core/activations/weighted-quadratic.hpp"
#include "crocoddyl/core/costs/residual.hpp"
#include "crocoddyl/multibody/utils/quadruped-gaits.hpp"
using namespace crocoddyl;
using mb::M;
using mb::V;
typedef std::shared_ptr<ActionModelAbstract> Node;
typedef DifferentialActionModelContactFwdDynamics Dyn;
typedef ActionModelImpulseFwdDynamics Imp;

static std::shared_ptr<mb::Model> robot;
static std::vector<std::size_t> feet;  // frames of the feet
static long foot(std::size_t id) {
  for (std::size_t i = 0; i < feet.size(); ++i)
    if (feet[i] == id) return (long)i + 1;
  return -1;
}
static const char* frame(pinocchio::ReferenceFrame t) { return t == pinocchio::LOCAL ? "L" : t == pinocchio::WORLD ? "W" : "A"; }
template <class T>
static std::shared_ptr<T> is(const Node& n) { return std::dynamic_pointer_cast<T>(n); }

static std::vector<tr::Obj> costs(const CostModelSum& s) {
  std::vector<tr::Obj> l;
  for (const auto& c : s.get_costs()) {
    tr::Obj o;
    const auto r = c.second->cost->get_residual();
    V ref(0), wt(0);
    std::string k = "?";
    long f = 0;
    bool type = true;
    if (auto p = std::dynamic_pointer_cast<ResidualModelCoMPosition>(r)) k = "com", ref = p->get_reference();
    if (auto p = std::dynamic_pointer_cast<ResidualModelFrameTranslation>(r)) k = "pos", ref = p->get_reference(), f = foot(p->get_id());
    if (auto p = std::dynamic_pointer_cast<ResidualModelFrameVelocity>(r)) k = "vel", ref = p->get_reference().toVector(), f = foot(p->get_id()), type = p->get_type() == pinocchio::LOCAL;
    if (auto p = std::dynamic_pointer_cast<ResidualModelState>(r)) k = "x", ref = p->get_reference();
    if (auto p = std::dynamic_pointer_cast<ResidualModelControl>(r)) k = "u", ref = p->get_reference();
    if (auto p = std::dynamic_pointer_cast<ActivationModelWeightedQuad>(c.second->cost->get_activation())) wt = p->get_weights();
    l.push_back(o.str("n", c.first).d("w", c.second->weight).str("k", k).i("f", f).vec("ref", ref).vec("wt", wt).b("on", c.second->active).b("type", type));
  }
  return l;
}
static tr::Obj describe(const Node& n) {
  tr::Obj o;
  std::vector<tr::Obj> con;
  if (auto e = is<IntegratedActionModelEuler>(n)) {
    auto d = std::dynamic_pointer_cast<Dyn>(e->get_differential());
    for (const auto& c : d->get_contacts()->get_contacts()) {
      tr::Obj q;
      auto m = std::dynamic_pointer_cast<ContactModel3D>(c.second->contact);
      con.push_back(q.str("n", c.first).i("f", m ? foot(m->get_id()) : -1).str("ty", m ? frame(m->get_type()) : "").vec("ref", m ? V(m->get_reference()) : V(0)).vec("g", m ? V(m->get_gains()) : V(0)).b("on", c.second->active));
    }
    o.str("t", "swing").d("dt", e->get_dt()).objs("costs", costs(*d->get_costs()));
  } else {
    auto i = is<Imp>(n);
    for (const auto& c : i->get_impulses()->get_impulses()) {
      tr::Obj q;
      auto m = std::dynamic_pointer_cast<ImpulseModel3D>(c.second->impulse);
      con.push_back(q.str("n", c.first).i("f", m ? foot(m->get_id()) : -1).str("ty", m ? frame(m->get_type()) : "").vec("ref", V(0)).vec("g", V(0)).b("on", c.second->active));
    }
    o.str("t", "touch").d("dt", i->get_restitution_coefficient()).objs("costs", costs(*i->get_costs()));
  }
  return o.objs("con", con).i("nu", n->get_nu());
}

int main(int, char** argv) {
  std::cerr.setstate(std::ios::failbit);
  tr::Out out(argv[2]);
  std::unique_ptr<SimpleQuadrupedGaitProblem> g;
  std::vector<Node> nodes;
  for (const tr::Op& op : tr::readops(argv[1])) {
    tr::Obj o;
    o.str("op", op.name).raw("in", op.s("json"));
    bool thrown = false;
    auto ids = [&](const char* k) {
      std::vector<pinocchio::FrameIndex> r;
      for (long i : op.is(k)) r.push_back(feet[i - 1]);
      return r;
    };
    auto refs = [&](const char* k) {
      std::vector<pinocchio::SE3> r;
      for (const V& p : op.vs(k)) r.push_back(pinocchio::SE3(Eigen::Matrix3d::Identity(), Eigen::Vector3d(p)));
      return r;
    };
    try {
      if (op.name == "new") {
        robot = mb::robot(op);
        robot->referenceConfigurations["standing"] = op.v("stand");
        feet.clear();
        std::vector<std::string> n;
        for (long i : op.is("feet")) feet.push_back(mb::fid(*robot, i)), n.push_back("f" + std::to_string(i));
        g.reset(new SimpleQuadrupedGaitProblem(*robot, n[0], n[1], n[2], n[3]));
        nodes.clear();
        o.i("nv", robot->nv).strs("names", n);
      } else if (op.name == "walk") {
        const V x0 = op.v("x0");
        auto p = g->createWalkingProblem(x0, op.d("len"), op.d("h"), op.d("dt"), op.i("n"), op.i("ns"));
        nodes = p->get_runningModels();
        nodes.push_back(p->get_terminalModel());
        o.vec("x0", p->get_x0()).i("T", p->get_T());
        pinocchio::Data d(*robot);
        pinocchio::forwardKinematics(*robot, d, V(x0.head(robot->nq)));
        pinocchio::updateFramePlacements(*robot, d);
        std::vector<tr::Obj> l;
        std::vector<V> fp;
        for (std::size_t f : feet) fp.push_back(d.oMf[f].translation());
        o.vecl("feet", fp).d("cz", pinocchio::centerOfMass(*robot, d, V(x0.head(robot->nq)))[2]);
      } else if (op.name == "step") {
        Eigen::Vector3d com = op.v("com");
        std::vector<Eigen::Vector3d> pos;
        for (const V& p : op.vs("pos")) pos.push_back(p);
        nodes = g->createFootStepModels(op.d("dt"), com, pos, op.d("len"), op.d("h"), op.i("n"), ids("on"), ids("sw"));
        std::vector<V> fp(pos.begin(), pos.end());
        o.vec("com", com).vecl("pos", fp);
      } else if (op.name == "swing") {
        nodes = {op.b("short") ? g->createSwingFootModel(op.d("dt"), ids("on")) : g->createSwingFootModel(op.d("dt"), ids("on"), op.v("com"), ids("sw"), refs("ref"))};
      } else if (op.name == "switch") {
        nodes = {op.b("short") ? g->createFootSwitchModel(ids("on"), ids("sw"), refs("ref")) : g->createFootSwitchModel(ids("on"), ids("sw"), refs("ref"), op.b("pseudo"))};
      } else if (op.name == "look") {
        const V x = op.v("x"), u = op.v("u");
        const Node n = nodes[op.i("k") % nodes.size()];
        o.i("k", op.i("k") % nodes.size() + 1);
        auto d = n->createData();
        n->calc(d, x, u.head(n->get_nu()));
        std::shared_ptr<CostDataSum> s;
        if (is<IntegratedActionModelEuler>(n)) {
          auto dd = std::static_pointer_cast<DifferentialActionDataContactFwdDynamics>(std::static_pointer_cast<IntegratedActionDataEuler>(d)->differential);
          s = dd->costs;
          o.d("cost", dd->cost);
        } else {
          s = std::static_pointer_cast<ActionDataImpulseFwdDynamics>(d)->costs;
          o.d("cost", d->cost);
        }
        std::vector<tr::Obj> l;
        for (const auto& c : s->costs) {
          tr::Obj q;
          l.push_back(q.str("n", c.first).d("c", c.second->cost));
        }
        pinocchio::Data e(*robot);
        const V q = x.head(robot->nq), v = x.tail(robot->nv);
        pinocchio::forwardKinematics(*robot, e, q, v);
        pinocchio::updateFramePlacements(*robot, e);
        std::vector<V> fp, fv;
        for (std::size_t f : feet) fp.push_back(e.oMf[f].translation()), fv.push_back(pinocchio::getFrameVelocity(*robot, e, f).toVector());
        o.objs("cs", l).vecl("feet", fp).vecl("fv", fv).vec("com", V(pinocchio::centerOfMass(*robot, e, q))).vec("dx", n->get_state()->diff_dx(g->get_defaultState(), x));
      }
      if (op.name != "look" && op.name != "new") {
        std::vector<tr::Obj> l;
        for (const Node& n : nodes) l.push_back(describe(n));
        o.objs("nodes", l);
      }
    } catch (const std::exception& e) { thrown = true; o.str("what", e.what()); }
    o.b("thrown", thrown).vec("def", g->get_defaultState());
    out.line(o);
  }
}
