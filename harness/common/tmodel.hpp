// A shooting-node model written by "the user": its evaluations are recorded, its values are small integers
// the specification computes too.
#pragma once
#include <atomic>
#include <map>
#include <memory>
#include <mutex>
#include <thread>

#include "crocoddyl/core/action-base.hpp"
#include "trace.hpp"

namespace tmod {
using crocoddyl::ActionDataAbstractTpl;
using crocoddyl::ActionModelAbstractTpl;
typedef crocoddyl::StateAbstractTpl<double> State;
typedef ActionModelAbstractTpl<double> Action;
typedef ActionDataAbstractTpl<double> Data;
typedef Eigen::VectorXd V;
typedef Eigen::MatrixXd M;

struct TState : public State {
  TState(std::size_t nx, std::size_t ndx) : State(nx, ndx) {}
  V zero() const override { return V::Zero(nx_); }
  V rand() const override { return V::Zero(nx_); }
  void diff(const Eigen::Ref<const V>& a, const Eigen::Ref<const V>& b, Eigen::Ref<V> d) const override { d = (b - a).head(ndx_); }
  void integrate(const Eigen::Ref<const V>& x, const Eigen::Ref<const V>& d, Eigen::Ref<V> o) const override { o = x; o.head(ndx_) += d; }
  void Jdiff(const Eigen::Ref<const V>&, const Eigen::Ref<const V>&, Eigen::Ref<M> a, Eigen::Ref<M> b, const crocoddyl::Jcomponent) const override { a.setIdentity(); a *= -1; b.setIdentity(); }
  void Jintegrate(const Eigen::Ref<const V>&, const Eigen::Ref<const V>&, Eigen::Ref<M> a, Eigen::Ref<M> b, const crocoddyl::Jcomponent, const crocoddyl::AssignmentOp) const override { a.setIdentity(); b.setIdentity(); }
  void JintegrateTransport(const Eigen::Ref<const V>&, const Eigen::Ref<const V>&, Eigen::Ref<M>, const crocoddyl::Jcomponent) const override {}
  std::shared_ptr<crocoddyl::StateBase> cloneAsDouble() const override { return nullptr; }
  std::shared_ptr<crocoddyl::StateBase> cloneAsFloat() const override { return nullptr; }
};

struct Call {
  std::string k;
  long m;
  const void* d;
  V x, u;
};

struct Log {
  std::mutex mu;
  std::vector<Call> calls;
  std::map<const void*, int> busy;
  bool overlap = false;
  long spin = 0;
  std::size_t enter(const std::string& k, long m, const void* d, const V& x, const V& u) {
    std::size_t n;
    {
      std::lock_guard<std::mutex> l(mu);
      calls.push_back(Call{k, m, d, x, u});
      if (busy[d]++) overlap = true;
      n = calls.size();
    }
    if (spin) {
      volatile long s = 0;
      for (long i = 0; i < spin * static_cast<long>((m * 7 + n * 13) % 11); ++i) s += i;
      if ((m + n) % 3 == 0) std::this_thread::yield();
    }
    return n;
  }
  void leave(const void* d) {
    std::lock_guard<std::mutex> l(mu);
    busy[d]--;
  }
};
inline Log& log() { static Log l; return l; }

struct TData : public Data {
  template <template <typename S> class Model>
  explicit TData(Model<double>* const m, long o, long k) : Data(m), owner(o), kind(k) {}
  long owner, kind;
};

struct TModel : public Action {
  long id, kind;
  TModel(std::shared_ptr<State> st, std::size_t nu, long id_, long kind_) : Action(st, nu, 0, 0, 0), id(id_), kind(kind_) {}
  std::shared_ptr<Data> createData() override { return std::make_shared<TData>(static_cast<Action*>(this), id, kind); }
  bool checkData(const std::shared_ptr<Data>& d) override {
    auto t = std::dynamic_pointer_cast<TData>(d);
    return t && t->kind == kind;
  }
  void value(Data& d, const V& x, const V& u) {
    const double su = u.sum();
    d.xnext = x;
    for (long j = 0; j < d.xnext.size(); ++j) d.xnext[j] += id + (j + 1) * su;
    double c = id + 2 * su;
    for (long j = 0; j < x.size(); ++j) c += (j + 1) * x[j];
    d.cost = c;
  }
  void run(const char* k, const std::shared_ptr<Data>& d, const V& x, const V& u) {
    log().enter(k, id, d.get(), x, u);
    value(*d, x, u);
    log().leave(d.get());
  }
  void runT(const char* k, const std::shared_ptr<Data>& d, const V& x) {
    log().enter(k, id, d.get(), x, V(0));
    d->xnext = x;
    d->cost = 100 * id + x.sum();
    log().leave(d.get());
  }
  void calc(const std::shared_ptr<Data>& d, const Eigen::Ref<const V>& x, const Eigen::Ref<const V>& u) override { run("calc", d, x, u); }
  void calcDiff(const std::shared_ptr<Data>& d, const Eigen::Ref<const V>& x, const Eigen::Ref<const V>& u) override { run("diff", d, x, u); }
  void calc(const std::shared_ptr<Data>& d, const Eigen::Ref<const V>& x) override { runT("calcT", d, x); }
  void calcDiff(const std::shared_ptr<Data>& d, const Eigen::Ref<const V>& x) override { runT("diffT", d, x); }
  void quasiStatic(const std::shared_ptr<Data>& d, Eigen::Ref<V> u, const Eigen::Ref<const V>& x, const std::size_t, const double) override {
    log().enter("quasi", id, d.get(), x, V(0));
    for (long j = 0; j < u.size(); ++j) u[j] = id + j + 1 + x.sum();
    log().leave(d.get());
  }
  std::shared_ptr<crocoddyl::ActionModelBase> cloneAsDouble() const override { return nullptr; }
  std::shared_ptr<crocoddyl::ActionModelBase> cloneAsFloat() const override { return nullptr; }
};
}  // namespace tmod
