// LINK: utils/exception
// Numerical and reporting helpers, under versions and clocks this program controls.
#include <time.h>

#include <fstream>
#include <iterator>
#include <memory>

static int g_major = 0, g_minor = 0, g_patch = 0;
static long long g_ns = 0;
static int fake_clock(int id, struct timespec* t) {
  if (id != CLOCK_MONOTONIC) return clock_gettime(id, t);
  t->tv_sec = 5000 + g_ns / 1000000000LL;
  t->tv_nsec = g_ns % 1000000000LL;
  return 0;
}
#define clock_gettime(a, b) fake_clock(a, b)
#include "crocoddyl/core/utils/timer.hpp"
#undef clock_gettime
#define CROCODDYL_MAJOR_VERSION g_major
#define CROCODDYL_MINOR_VERSION g_minor
#define CROCODDYL_PATCH_VERSION g_patch
#include "crocoddyl/core/mathbase.hpp"
#include "crocoddyl/core/utils/exception.hpp"
#include "crocoddyl/core/utils/file-io.hpp"
#include "crocoddyl/core/utils/version.hpp"
#include "trace.hpp"
typedef Eigen::MatrixXd M;
typedef Eigen::VectorXd V;

static std::string str(const std::vector<long>& c) {
  std::string s;
  for (long x : c) s += static_cast<char>(x);
  return s;
}
static std::vector<long> codes(const std::string& s) {
  std::vector<long> r;
  for (char c : s) r.push_back(static_cast<unsigned char>(c));
  return r;
}
static void raise_here(const std::string& m) { throw_pretty(m); }
struct Inner {
  static void other(const std::string& m, int k) { throw_pretty(m << " " << k); }
};
template <typename S>
static M pinv(const M& A, bool dflt, double eps) {
  typedef Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic> MS;
  const MS a = A.cast<S>();
  return (dflt ? crocoddyl::pseudoInverse(a) : crocoddyl::pseudoInverse(a, S(eps))).template cast<double>();
}

int main(int, char** argv) {
  std::cerr.setstate(std::ios::failbit);
  tr::Out out(argv[2]);
  const std::string file = std::string(argv[2]) + ".csv";
  std::unique_ptr<CsvStream> csv;
  crocoddyl::Timer timer;
  for (const tr::Op& op : tr::readops(argv[1])) {
    tr::Obj o;
    o.str("op", op.name).raw("in", op.s("json"));
    if (op.name == "pinv") {
      M A = M::Zero(op.i("r"), op.i("c"));
      if (A.size()) A = op.m("A");
      const M P = op.b("f32") ? pinv<float>(A, op.b("dflt"), op.d("eps")) : pinv<double>(A, op.b("dflt"), op.d("eps"));
      o.mat("A", A).mat("P", P).i("pr", P.rows()).i("pc", P.cols());
    } else if (op.name == "psd") {
      const M A = op.m("A");
      o.mat("A", A);
      o.b("psd", op.b("f32") ? crocoddyl::checkPSD<float>(A.cast<float>()) : crocoddyl::checkPSD<double>(A));
    } else if (op.name == "version") {
      const std::vector<long> h = op.is("have"), n = op.is("need");
      g_major = h[0];
      g_minor = h[1];
      g_patch = h[2];
      o.b("at", crocoddyl::checkVersionAtLeast(n[0], n[1], n[2])).ints("text", codes(op.b("dflt") ? crocoddyl::printVersion() : crocoddyl::printVersion(str(op.is("sep")))));
    } else if (op.name == "raise") {
      const std::string m = str(op.is("m"));
      try {
        if (op.b("far")) Inner::other(m, op.i("k")); else raise_here(m);
      } catch (const std::exception& b) {
        const crocoddyl::Exception* e = dynamic_cast<const crocoddyl::Exception*>(&b);
        const crocoddyl::Exception c(*e);
        o.ints("msg", codes(c.getMessage())).b("file", c.getExtraData() == __FILE__);
        const std::string w = b.what(), head = std::string("In ") + __FILE__ + "\n";
        const std::size_t a = w.find('\n', head.size());
        o.b("head", w.compare(0, head.size(), head) == 0).ints("tail", codes(a == std::string::npos ? "?" : w.substr(a + 1)));
        const std::string fl = w.substr(head.size(), a - head.size());
        o.b("names", fl.find(op.b("far") ? "other" : "raise_here") != std::string::npos && fl.find_first_of("0123456789", fl.rfind(' ')) == fl.rfind(' ') + 1);
      }
    } else if (op.name == "tick") {
      g_ns += op.i("ns");
    } else if (op.name == "treset") {
      timer.reset();
    } else if (op.name == "tnew") {
      timer = crocoddyl::Timer();
    } else if (op.name == "time") {
      const double a = timer.get_duration(), b = timer.get_us_duration();
      o.d("ms", a).d("us", b).d("ms2", timer.get_duration());
    } else if (op.name == "open") {
      csv.reset();
      if (op.b("dflt")) csv.reset(new CsvStream(file)); else csv.reset(new CsvStream(file, str(op.is("sep"))));
    } else if (op.name == "put") {
      const std::string k = op.s("k");
      if (k == "str") *csv << str(op.is("t"));
      else if (k == "cstr") *csv << str(op.is("t")).c_str();
      else *csv << static_cast<int>(op.i("n"));
    } else if (op.name == "row") {
      if (op.b("manip")) *csv << CsvStream::endl; else csv->endrow();
    } else if (op.name == "close" || op.name == "flush") {
      if (op.name == "close") csv.reset(); else csv->flush();
      std::ifstream f(file, std::ios::binary);
      o.ints("bytes", codes(std::string(std::istreambuf_iterator<char>(f), std::istreambuf_iterator<char>())));
    }
    out.line(o);
  }
  csv.reset();
  std::remove(file.c_str());
}
