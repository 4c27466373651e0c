// LINK: utils/.* state-base states/euclidean action-base activation-base residual-base cost-base costs/cost-sum activations/quadratic constraint-base constraints/constraint-manager data-collector-base
// Interprets histories of operations on cost stacks and constraint stacks.
#include "crocoddyl/core/constraints/constraint-manager.hpp"
#include "crocoddyl/core/costs/cost-sum.hpp"
#include "titems.hpp"
using namespace titems;
typedef crocoddyl::StateVectorTpl<double> StateV;
typedef crocoddyl::CostModelSumTpl<double> CostSum;
typedef crocoddyl::CostDataSumTpl<double> CostSumData;
typedef crocoddyl::ConstraintModelManagerTpl<double> Manager;
typedef crocoddyl::ConstraintDataManagerTpl<double> ManagerData;

struct ActionLike {  // the buffers of an action that embeds the stack
  V Lx, Lu, g, h;
  M Lxx, Lxu, Luu, Gx, Gu, Hx, Hu;
};
static std::vector<std::string> tov(const std::set<std::string>& s) { return std::vector<std::string>(s.begin(), s.end()); }

static const long NX = 2, NU = 2;
static void costs(const std::vector<tr::Op>& ops, tr::Out& out) {
  static const long NR[] = {1, 3, 2, 2}, IU[] = {2, 2, 2, 1};
  auto st = std::make_shared<StateV>(NX);
  std::shared_ptr<CostSum> sum = std::make_shared<CostSum>(st, NU);
  std::map<long, std::shared_ptr<CostSumData> > datas;
  std::map<long, std::shared_ptr<ActionLike> > bufs;
  crocoddyl::DataCollectorAbstractTpl<double> coll;
  for (const tr::Op& op : ops) {
    tr::Obj o;
    o.str("op", op.name);
    const std::string& n = op.name;
    if (n == "reset") {
      datas.clear();
      sum = std::make_shared<CostSum>(st, NU);
      out.line(o);
      continue;
    }
    std::string res = "ok";
    try {
      if (n == "add" || n == "addItem") {
        const long i = op.i("i");
        o.str("n", op.s("n")).i("i", i).i("w", op.i("w")).b("a", op.b("a"));
        auto c = std::make_shared<TCost>(st, NR[i - 1], IU[i - 1], i);
        if (n == "add") sum->addCost(op.s("n"), c, static_cast<double>(op.i("w")), op.b("a"));
        else sum->addCost(std::make_shared<crocoddyl::CostItemTpl<double> >(op.s("n"), c, static_cast<double>(op.i("w")), op.b("a")));
      } else if (n == "remove") { o.str("n", op.s("n")); sum->removeCost(op.s("n")); }
      else if (n == "toggle") { o.str("n", op.s("n")).b("a", op.b("a")); sum->changeCostStatus(op.s("n"), op.b("a")); }
      else if (n == "weight") { o.str("n", op.s("n")).i("w", op.i("w")); sum->get_costs().find(op.s("n"))->second->weight = static_cast<double>(op.i("w")); }
      else if (n == "data") {
        const long d = op.i("d");
        o.i("d", d);
        datas[d] = sum->createData(&coll);
        if (op.b("share")) {
          auto b = std::make_shared<ActionLike>();
          b->Lx = V::Constant(NX, 9); b->Lu = V::Constant(NU, 9); b->Lxx = M::Constant(NX, NX, 9); b->Lxu = M::Constant(NX, NU, 9); b->Luu = M::Constant(NU, NU, 9);
          bufs[d] = b;
          datas[d]->shareMemory(b.get());
        } else bufs.erase(d);
      } else if (n == "eval" || n == "evalT") {
        const long d = op.i("d");
        const V x = op.v("x"), u = op.v("u");
        o.i("d", d).raw("x", ivec(x)).raw("u", ivec(u));
        CostSumData& D = *datas.at(d);
        if (n == "eval") { sum->calc(datas.at(d), x, u); sum->calcDiff(datas.at(d), x, u); }
        else { sum->calc(datas.at(d), x); sum->calcDiff(datas.at(d), x); }
        o.i("cost", std::llround(D.cost));
        if (bufs.count(d)) {
          ActionLike& b = *bufs[d];
          o.raw("Lx", ivec(b.Lx)).raw("Lu", ivec(b.Lu)).raw("Lxx", imat(b.Lxx)).raw("Lxu", imat(b.Lxu)).raw("Luu", imat(b.Luu));
        } else o.raw("Lx", ivec(D.Lx)).raw("Lu", ivec(D.Lu)).raw("Lxx", imat(D.Lxx)).raw("Lxu", imat(D.Lxu)).raw("Luu", imat(D.Luu));
      }
    } catch (const std::exception& e) { res = "err"; }
    o.str("res", res).i("nr", static_cast<long>(sum->get_nr())).i("nrt", static_cast<long>(sum->get_nr_total()));
    o.strs("act", tov(sum->get_active_set())).strs("inact", tov(sum->get_inactive_set()));
    o.strs("acts", sum->get_active()).strs("inacts", sum->get_inactive());
    std::vector<tr::Obj> is;
    for (const auto& kv : sum->get_costs()) {
      tr::Obj q;
      auto c = std::dynamic_pointer_cast<TCost>(kv.second->cost);
      q.str("n", kv.first).i("id", c ? c->id : -1).i("w", std::llround(kv.second->weight)).b("a", kv.second->active).b("st", sum->getCostStatus(kv.first));
      is.push_back(q);
    }
    o.objs("items", is);
    out.line(o);
  }
}

static void constraints(const std::vector<tr::Op>& ops, tr::Out& out) {
  static const long NG[] = {1, 0, 2, 2, 0, 1}, NH[] = {0, 1, 1, 0, 2, 0}, IU[] = {2, 2, 2, 2, 2, 1};
  static const bool TC[] = {true, true, true, false, false, true};
  auto st = std::make_shared<StateV>(NX);
  std::shared_ptr<Manager> man = std::make_shared<Manager>(st, NU);
  std::map<long, std::shared_ptr<ManagerData> > datas;
  std::map<long, std::shared_ptr<ActionLike> > bufs;
  crocoddyl::DataCollectorAbstractTpl<double> coll;
  for (const tr::Op& op : ops) {
    tr::Obj o;
    o.str("op", op.name);
    const std::string& n = op.name;
    if (n == "reset") {
      datas.clear(); bufs.clear();
      man = std::make_shared<Manager>(st, NU);
      out.line(o);
      continue;
    }
    std::string res = "ok";
    try {
      if (n == "add") {
        const long i = op.i("i");
        o.str("n", op.s("n")).i("i", i).b("a", op.b("a"));
        man->addConstraint(op.s("n"), std::make_shared<TConstraint>(st, IU[i - 1], NG[i - 1], NH[i - 1], TC[i - 1], i), op.b("a"));
      } else if (n == "remove") { o.str("n", op.s("n")); man->removeConstraint(op.s("n")); }
      else if (n == "toggle") { o.str("n", op.s("n")).b("a", op.b("a")); man->changeConstraintStatus(op.s("n"), op.b("a")); }
      else if (n == "bounds") { o.str("n", op.s("n")).i("s", op.i("s")); std::dynamic_pointer_cast<TConstraint>(man->get_constraints().find(op.s("n"))->second->constraint)->bounds(op.i("s")); }
      else if (n == "data") {
        const long d = op.i("d");
        o.i("d", d);
        datas[d] = man->createData(&coll);
        if (op.b("share")) {
          auto b = std::make_shared<ActionLike>();
          const long ng = std::max(man->get_ng(), man->get_ng_T()), nh = std::max(man->get_nh(), man->get_nh_T());
          b->g = V::Constant(ng, 9); b->Gx = M::Constant(ng, NX, 9); b->Gu = M::Constant(ng, NU, 9);
          b->h = V::Constant(nh, 9); b->Hx = M::Constant(nh, NX, 9); b->Hu = M::Constant(nh, NU, 9);
          bufs[d] = b;
          datas[d]->shareMemory(b.get());
        } else bufs.erase(d);
      } else if (n == "eval" || n == "evalT") {
        const long d = op.i("d");
        const V x = op.v("x"), u = op.v("u");
        const bool run = n == "eval";
        o.i("d", d).raw("x", ivec(x)).raw("u", ivec(u));
        ManagerData& D = *datas.at(d);
        if (bufs.count(d)) D.resize(man.get(), bufs[d].get(), run); else D.resize(man.get(), run);
        if (run) { man->calc(datas.at(d), x, u); man->calcDiff(datas.at(d), x, u); }
        else { man->calc(datas.at(d), x); man->calcDiff(datas.at(d), x); }
        if (bufs.count(d)) {
          ActionLike& b = *bufs[d];
          o.raw("g", ivec(b.g)).raw("h", ivec(b.h)).raw("Gx", imat(b.Gx)).raw("Gu", imat(b.Gu)).raw("Hx", imat(b.Hx)).raw("Hu", imat(b.Hu));
        } else o.raw("g", ivec(D.g)).raw("h", ivec(D.h)).raw("Gx", imat(D.Gx)).raw("Gu", imat(D.Gu)).raw("Hx", imat(D.Hx)).raw("Hu", imat(D.Hu));
        const long nb = run ? man->get_ng() : std::min<long>(man->get_ng_T(), man->get_lb().size());
        o.raw("lb", ivec(man->get_lb().head(run ? man->get_lb().size() : nb))).raw("ub", ivec(man->get_ub().head(run ? man->get_ub().size() : nb)));
      }
    } catch (const std::exception& e) { res = "err"; }
    o.str("res", res).i("ng", man->get_ng()).i("nh", man->get_nh()).i("ngT", man->get_ng_T()).i("nhT", man->get_nh_T());
    o.i("nlb", man->get_lb().size()).i("nub", man->get_ub().size());
    o.strs("act", tov(man->get_active_set())).strs("inact", tov(man->get_inactive_set()));
    std::vector<tr::Obj> is;
    for (const auto& kv : man->get_constraints()) {
      tr::Obj q;
      auto c = std::dynamic_pointer_cast<TConstraint>(kv.second->constraint);
      q.str("n", kv.first).i("id", c ? c->id : -1).b("a", kv.second->active).b("st", man->getConstraintStatus(kv.first));
      is.push_back(q);
    }
    o.objs("items", is);
    out.line(o);
  }
}

int main(int, char** argv) {
  std::cout.setstate(std::ios::failbit);
  std::vector<tr::Op> ops = tr::readops(argv[2]);
  tr::Out out(argv[3]);
  if (argv[1][0] == 'c') costs(ops, out); else constraints(ops, out);
  return 0;
}
