// LINK: utils/stop-watch
// The stopwatch and the profiler under clocks this program controls.
#include <sys/time.h>
#include <time.h>

#include <map>
#include <memory>

#include "crocoddyl/core/utils/stop-watch.hpp"
#include "trace.hpp"

static long long real_us = 0, cpu_us = 1000;
static bool scripted = false;
extern "C" {
int gettimeofday(struct timeval* tv, void*) noexcept {
  const long long t = 1700000000LL * 1000000 + real_us;
  tv->tv_sec = t / 1000000;
  tv->tv_usec = t % 1000000;
  return 0;
}
clock_t clock(void) noexcept { return static_cast<clock_t>(cpu_us); }
time_t time(time_t* p) noexcept {
  const time_t t = 1700000000LL + real_us / 1000000;
  if (p) *p = t;
  return t;
}
int clock_gettime(clockid_t id, struct timespec* ts) noexcept {
  const bool cpu = id == CLOCK_PROCESS_CPUTIME_ID || id == CLOCK_THREAD_CPUTIME_ID;
  const long long t = cpu ? cpu_us : 1700000000LL * 1000000 + real_us;
  ts->tv_sec = t / 1000000;
  ts->tv_nsec = (t % 1000000) * 1000;
  return 0;
}
}
using namespace crocoddyl;
static StopwatchMode modeof(const std::string& m) { return m == "cpu" ? CPU_TIME : m == "real" ? REAL_TIME : NONE; }
static const char* NAMES[3] = {"a", "b", "c"};
static std::map<std::string, std::string> full;
static const std::map<std::string, std::string> stems{{"a", "a"}, {"b", "SolverX::the second of the timers, whose name is long: more than the width of its column"}, {"c", "Timer::c"}};
static std::string shortname(const std::string& f) {
  for (const auto& p : full)
    if (p.second == f) return p.first;
  return "?" + f;
}
static std::vector<tr::Obj> rows(const std::string& text) {
  std::vector<tr::Obj> r;
  std::istringstream is(text);
  std::string line;
  while (std::getline(is, line)) {
    if (line.empty() || line.compare(0, 3, "***") == 0) continue;
    // the name, then six numbers
    std::vector<std::string> w = tr::split(line);
    tr::Obj o;
    if (w.size() < 7) {
      o.str("name", "?" + line);
    } else {
      std::string six;
      std::size_t at = line.size();
      for (int k = 0; k < 6; ++k) {
        at = line.find_last_not_of(' ', at - 1);
        at = line.find_last_of(' ', at);
        if (at == std::string::npos) { at = 0; break; }
        at = at + 1;
        if (k < 5) at = at;
      }
      std::string name;
      for (const auto& p : full)
        if (line.compare(0, p.second.size(), p.second) == 0 && p.second.size() > name.size()) name = p.second;
      std::vector<std::string> n = tr::split(line.substr(name.size()));
      if (n.size() != 6) {
        o.str("name", "?" + line);
      } else {
        const bool count = n[4].find_first_not_of("0123456789-") == std::string::npos;
        o.str("name", shortname(name)).str("min", n[0]).str("avg", n[1]).str("max", n[2]).str("last", n[3]).i("n", count ? std::atol(n[4].c_str()) : -999).str("total", n[5]);
      }
    }
    r.push_back(o);
  }
  return r;
}

int main(int, char** argv) {
  std::cout.setstate(std::ios::failbit);
  tr::Out out(argv[2]);
  std::unique_ptr<Stopwatch> own(new Stopwatch(REAL_TIME));
  std::map<std::pair<long, long>, Stopwatch::Watcher> ws;
  for (const tr::Op& op : tr::readops(argv[1])) {
    tr::Obj o;
    o.str("op", op.name).raw("in", op.s("json"));
    if (op.name == "tick") {
      real_us += op.i("d");
      cpu_us += op.i("c");
      out.line(o);
      continue;
    }
    if (op.name == "begin") {
      // a new history: everything as at first, under timer names not used before
      static int n = 0;
      for (const auto& p : stems) full[p.first] = std::to_string(++n) + p.second;
      real_us = 0;
      cpu_us = 1000;
      ws.clear();
      own.reset(new Stopwatch(REAL_TIME));
      getProfiler().turn_on();
      getProfiler().reset_all();
      getProfiler().disable_profiler();
      getProfiler().set_mode(REAL_TIME);
      out.line(o);
      continue;
    }
    bool thrown = false;
    std::ostringstream text;
    std::string sofar = "0";
    const long i = op.i("i");
    if (op.name == "new") {
      for (auto it = ws.begin(); it != ws.end();) it = it->first.first == 0 ? ws.erase(it) : std::next(it);
      own.reset(new Stopwatch(modeof(op.s("m"))));
    }
    Stopwatch& s = i == 0 ? *own : getProfiler();
    const std::string name = full.at(op.s("name"));
    const std::pair<long, long> id(i, op.i("id"));
    try {
      if (op.name == "start") s.start(name);
      if (op.name == "stop") s.stop(name);
      if (op.name == "pause") s.pause(name);
      if (op.name == "mstart") START_PROFILER(name);
      if (op.name == "mstop") STOP_PROFILER(name);
      if (op.name == "watch") { ws.erase(id); ws.emplace(id, s.watcher(name)); }
      if (op.name == "wstart") ws.at(id).start();
      if (op.name == "wstop") ws.at(id).stop();
      if (op.name == "reset") s.reset(name);
      if (op.name == "resetall") s.reset_all();
      if (op.name == "on") s.turn_on();
      if (op.name == "off") s.turn_off();
      if (op.name == "prof") { if (op.b("v")) s.enable_profiler(); else s.disable_profiler(); }
      if (op.name == "mode") s.set_mode(modeof(op.s("m")));
      if (op.name == "report") s.report(name, static_cast<int>(op.i("p")), text);
      if (op.name == "reportall") s.report_all(static_cast<int>(op.i("p")), text);
      if (op.name == "sofar") sofar = tr::num(static_cast<double>(s.get_time_so_far(name)));
    } catch (const StopwatchException&) { thrown = true; }
    std::vector<tr::Obj> m;
    for (const char* n : NAMES) {
      const std::string f = full.at(n);
      double v[5] = {0, 0, 0, 0, 0};
      int errs = 0;
      long double (Stopwatch::*get[5])(const std::string&) = {&Stopwatch::get_total_time, &Stopwatch::get_average_time, &Stopwatch::get_min_time, &Stopwatch::get_max_time, &Stopwatch::get_last_time};
      for (int k = 0; k < 5; ++k) {
        try { v[k] = static_cast<double>((s.*get[k])(f)); } catch (const StopwatchException&) { ++errs; }
      }
      tr::Obj q;
      q.str("name", n).b("ex", s.performance_exists(f)).b("err", errs == 5).d("total", v[0]).d("avg", v[1]).d("min", v[2]).d("max", v[3]).d("last", v[4]).b("some", errs > 0 && errs < 5);
      m.push_back(q);
    }
    o.b("thrown", thrown).str("sofar", sofar).objs("rows", rows(text.str())).objs("m", m);
    out.line(o);
  }
  return 0;
}
