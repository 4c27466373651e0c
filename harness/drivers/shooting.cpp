// LINK: utils/.* state-base states/euclidean action-base optctrl/shooting
// Interprets a history of operations on shooting problems built of recorded user models.
#include "crocoddyl/core/optctrl/shooting.hpp"
#include "tmodel.hpp"
using namespace tmod;
typedef crocoddyl::ShootingProblemTpl<double> Problem;

struct Registry {
  std::map<const void*, long> id;
  std::vector<std::shared_ptr<Data> > keep;
  long next = 1001;
  long of(const std::shared_ptr<Data>& d) {
    auto it = id.find(d.get());
    if (it != id.end()) return it->second;
    keep.push_back(d);
    return id[d.get()] = next++;
  }
  long of(const void* d) {
    auto it = id.find(d);
    return it == id.end() ? -1 : it->second;
  }
};

static std::string ivec(const V& v) {
  std::string r = "[";
  for (long i = 0; i < v.size(); ++i) r += (i ? "," : "") + std::to_string(static_cast<long>(std::llround(v[i])));
  return r + "]";
}
template <typename C>
static std::string ivecs(const C& c) {
  std::string r = "[";
  bool f = true;
  for (const auto& v : c) { r += (f ? "" : ",") + ivec(v); f = false; }
  return r + "]";
}

int main(int, char** argv) {
  crocoddyl::enableMultithreading() = true;
  std::vector<tr::Op> ops = tr::readops(argv[1]);
  tr::Out out(argv[2]);
  std::map<long, std::shared_ptr<TModel> > models;
  std::map<long, std::shared_ptr<Data> > loose;
  std::map<long, std::shared_ptr<Problem> > probs;
  std::map<std::pair<long, long>, std::shared_ptr<TState> > states;
  Registry reg;
  auto list = [&](const std::vector<long>& v) {
    std::vector<std::shared_ptr<Action> > r;
    for (long m : v) r.push_back(models.at(m));
    return r;
  };
  for (const tr::Op& op : ops) {
    if (op.name == "model") {
      auto key = std::make_pair(op.i("nx"), op.i("ndx"));
      if (!states[key]) states[key] = std::make_shared<TState>(key.first, key.second);
      models[op.i("id")] = std::make_shared<TModel>(states[key], op.i("nu"), op.i("id"), op.i("kind"));
      continue;
    }
    if (op.name == "spin") { log().spin = op.i("n"); continue; }
    if (op.name == "reset") {
      probs.clear(); loose.clear(); 
      tr::Obj o; o.str("op", "reset"); out.line(o);
      continue;
    }
    tr::Obj o;
    o.str("op", op.name);
    log().calls.clear();
    log().overlap = false;
    std::string res = "ok";
    try {
      const std::string& n = op.name;
      if (n == "data") {
        const long d = op.i("d");
        loose[d] = models.at(op.i("m"))->createData();
        reg.keep.push_back(loose[d]);
        reg.id[loose[d].get()] = d;
        o.i("d", d).i("m", op.i("m"));
      } else if (n == "create") {
        o.i("p", op.i("p")).ints("ms", op.is("ms")).i("tm", op.i("tm")).ints("x0", op.is("x0"));
        auto p = std::make_shared<Problem>(op.v("x0"), list(op.is("ms")), models.at(op.i("tm")));
        probs[op.i("p")] = p;
      } else if (n == "createWith") {
        o.i("p", op.i("p")).ints("ms", op.is("ms")).i("tm", op.i("tm")).ints("x0", op.is("x0")).ints("ds", op.is("ds")).i("td", op.i("td"));
        std::vector<std::shared_ptr<Data> > ds;
        for (long d : op.is("ds")) ds.push_back(loose.at(d));
        auto p = std::make_shared<Problem>(op.v("x0"), list(op.is("ms")), models.at(op.i("tm")), ds, loose.at(op.i("td")));
        probs[op.i("p")] = p;
      } else if (n == "copy") {
        o.i("p", op.i("p")).i("q", op.i("q"));
        probs[op.i("q")] = std::make_shared<Problem>(*probs.at(op.i("p")));
      } else {
        o.i("p", op.i("p"));
        Problem& p = *probs.at(op.i("p"));
        if (n == "append") { o.i("m", op.i("m")); p.circularAppend(models.at(op.i("m"))); }
        else if (n == "appendData") { o.i("m", op.i("m")).i("d", op.i("d")); p.circularAppend(models.at(op.i("m")), loose.at(op.i("d"))); }
        else if (n == "updateNode") { o.i("i", op.i("i")).i("m", op.i("m")).i("d", op.i("d")); p.updateNode(op.i("i"), models.at(op.i("m")), loose.at(op.i("d"))); }
        else if (n == "updateModel") { o.i("i", op.i("i")).i("m", op.i("m")); p.updateModel(op.i("i"), models.at(op.i("m"))); }
        else if (n == "setRunning") { o.ints("ms", op.is("ms")); p.set_runningModels(list(op.is("ms"))); }
        else if (n == "setTerminal") { o.i("m", op.i("m")); p.set_terminalModel(models.at(op.i("m"))); }
        else if (n == "setX0") { o.ints("x0", op.is("x0")); p.set_x0(op.v("x0")); }
        else if (n == "isUpdated") { o.b("ret", p.is_updated()); }
        else if (n == "threads") { o.i("n", op.i("n")); p.set_nthreads(static_cast<int>(op.i("n"))); }
        else if (n == "calc" || n == "diff") {
          std::vector<V> xs = op.vs("xs"), us = op.vs("us");
          o.raw("xs", ivecs(xs)).raw("us", ivecs(us));
          const double c = n == "calc" ? p.calc(xs, us) : p.calcDiff(xs, us);
          o.i("ret", std::llround(c));
        } else if (n == "rollout" || n == "rolloutUs") {
          std::vector<V> us = op.vs("us"), xs;
          o.raw("us", ivecs(us)).i("n", op.i("n"));
          if (n == "rollout") {
            xs.assign(op.i("n"), V::Constant(p.get_nx(), 77));
            p.rollout(us, xs);
          } else xs = p.rollout_us(us);
          o.raw("ret", ivecs(xs));
        } else if (n == "quasi" || n == "quasiXs") {
          std::vector<V> xs = op.vs("xs"), us;
          o.raw("xs", ivecs(xs)).i("n", op.i("n"));
          if (n == "quasi") {
            for (long i = 0; i < op.i("n"); ++i) us.push_back(V::Zero(i < static_cast<long>(p.get_T()) ? p.get_runningModels()[i]->get_nu() : 1));
            p.quasiStatic(us, xs);
          } else us = p.quasiStatic_xs(xs);
          o.raw("ret", ivecs(us));
        } else { std::cerr << "unknown operation " << n << std::endl; return 4; }
      }
    } catch (const std::exception& e) {
      res = "err";
    }
    o.str("res", res);
    std::vector<tr::Obj> ps;
    for (auto& kv : probs) {
      Problem& p = *kv.second;
      std::vector<long> rm, rd, ro;
      for (auto& m : p.get_runningModels()) { auto t = std::dynamic_pointer_cast<TModel>(m); rm.push_back(t ? t->id : -1); }
      for (auto& d : p.get_runningDatas()) { auto t = std::dynamic_pointer_cast<TData>(d); rd.push_back(t ? reg.of(d) : -1); ro.push_back(t ? t->owner : -1); }
      auto tmm = std::dynamic_pointer_cast<TModel>(p.get_terminalModel());
      auto tdd = std::dynamic_pointer_cast<TData>(p.get_terminalData());
      tr::Obj q;
      q.i("p", kv.first).i("T", p.get_T()).raw("x0", ivec(p.get_x0())).ints("rm", rm).ints("rd", rd).ints("ro", ro);
      q.i("tm", tmm ? tmm->id : -1).i("td", tdd ? reg.of(p.get_terminalData()) : -1).i("to", tdd ? tdd->owner : -1);
      q.i("nx", p.get_nx()).i("ndx", p.get_ndx());
      ps.push_back(q);
    }
    o.objs("probs", ps);
    std::vector<tr::Obj> cs;
    for (const Call& c : log().calls) {
      tr::Obj q;
      q.str("k", c.k).i("m", c.m).i("d", reg.of(c.d)).raw("x", ivec(c.x)).raw("u", ivec(c.u));
      cs.push_back(q);
    }
    o.objs("calls", cs).b("overlap", log().overlap);
    out.line(o);
  }
  return 0;
}
