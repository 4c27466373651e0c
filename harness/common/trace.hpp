// Minimal JSON-lines trace writer and op-file reader shared by the drivers.
#pragma once
#include <Eigen/Dense>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>

namespace tr {

// A double as text that denotes exactly that double.
inline std::string num(double v) {
  if (std::isnan(v)) return "nan";
  if (std::isinf(v)) return v > 0 ? "inf" : "-inf";
  if (v == 0) return "0";
  char b[64];
  if (v == std::floor(v) && std::fabs(v) < 1e15) {
    std::snprintf(b, sizeof b, "%.0f", v);
  } else {
    std::snprintf(b, sizeof b, "%.17g", v);
  }
  return b;
}

class Obj {
 public:
  Obj& raw(const std::string& k, const std::string& v) {
    if (!s_.empty()) s_ += ",";
    s_ += "\"" + k + "\":" + v;
    return *this;
  }
  Obj& str(const std::string& k, const std::string& v) { return raw(k, quote(v)); }
  Obj& i(const std::string& k, long v) { return raw(k, std::to_string(v)); }
  Obj& b(const std::string& k, bool v) { return raw(k, v ? "true" : "false"); }
  Obj& d(const std::string& k, double v) { return raw(k, quote(num(v))); }
  template <typename V>
  Obj& vec(const std::string& k, const V& v) { return raw(k, vecs(v)); }
  template <typename M>
  Obj& mat(const std::string& k, const M& m) { return raw(k, mats(m)); }
  Obj& ints(const std::string& k, const std::vector<long>& v) {
    std::string r = "[";
    for (std::size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + std::to_string(v[i]);
    return raw(k, r + "]");
  }
  Obj& strs(const std::string& k, const std::vector<std::string>& v) {
    std::string r = "[";
    for (std::size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + quote(v[i]);
    return raw(k, r + "]");
  }
  Obj& objs(const std::string& k, const std::vector<Obj>& v) {
    std::string r = "[";
    for (std::size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + v[i].text();
    return raw(k, r + "]");
  }
  template <typename C>
  Obj& vecl(const std::string& k, const C& c) {  // list of vectors
    std::string r = "[";
    bool f = true;
    for (const auto& v : c) { r += (f ? "" : ",") + vecs(v); f = false; }
    return raw(k, r + "]");
  }
  template <typename C>
  Obj& matl(const std::string& k, const C& c) {  // list of matrices
    std::string r = "[";
    bool f = true;
    for (const auto& v : c) { r += (f ? "" : ",") + mats(v); f = false; }
    return raw(k, r + "]");
  }
  std::string text() const { return "{" + s_ + "}"; }
  static std::string quote(const std::string& v) {
    std::string r = "\"";
    for (char c : v) {
      if (c == '"' || c == '\\') { r += '\\'; r += c; }
      else if (c == '\n') r += "\\n";
      else if (c == '\t') r += "\\t";
      else if (static_cast<unsigned char>(c) < 32) r += ' ';
      else r += c;
    }
    return r + "\"";
  }
  template <typename V>
  static std::string vecs(const V& v) {
    std::string r = "[";
    for (long i = 0; i < static_cast<long>(v.size()); ++i) r += (i ? "," : "") + quote(num(static_cast<double>(v[i])));
    return r + "]";
  }
  template <typename M>
  static std::string mats(const M& m) {
    std::string r = "[";
    for (long i = 0; i < m.rows(); ++i) {
      r += (i ? ",[" : "[");
      for (long j = 0; j < m.cols(); ++j) r += (j ? "," : "") + quote(num(static_cast<double>(m(i, j))));
      r += "]";
    }
    return r + "]";
  }

 private:
  std::string s_;
};

class Out {
 public:
  explicit Out(const char* path) : f_(std::fopen(path, "w")) {
    if (!f_) { std::perror(path); std::exit(3); }
  }
  ~Out() { if (f_) std::fclose(f_); }
  void line(const Obj& o) {
    std::string t = o.text();
    std::fputs(t.c_str(), f_);
    std::fputc('\n', f_);
    std::fflush(f_);
  }

 private:
  FILE* f_;
};

// Deterministic generator, independent of the standard library's distributions.
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 6364136223846793005ull + 1442695040888963407ull) { next(); next(); }
  uint64_t next() {
    s ^= s << 13; s ^= s >> 7; s ^= s << 17;
    return s * 2685821657736338717ull;
  }
  int below(int n) { return static_cast<int>((next() >> 33) % static_cast<uint64_t>(n)); }
  int range(int a, int b) { return a + below(b - a + 1); }           // inclusive
  bool chance(int num, int den) { return below(den) < num; }
  double dyadic(int mag, int bits) { return static_cast<double>(range(-mag * (1 << bits), mag * (1 << bits))) / (1 << bits); }
};

inline std::vector<std::string> split(const std::string& l) {
  std::vector<std::string> r;
  std::istringstream is(l);
  std::string t;
  while (is >> t) r.push_back(t);
  return r;
}

// One operation of a history: "name key=value ..."; lists are separated by commas, lists of lists by semicolons.
struct Op {
  std::string name;
  std::vector<std::pair<std::string, std::string> > kv;
  explicit Op(const std::string& line) {
    std::vector<std::string> w = split(line);
    if (w.empty()) return;
    name = w[0];
    for (std::size_t i = 1; i < w.size(); ++i) {
      const std::size_t e = w[i].find('=');
      kv.push_back(std::make_pair(w[i].substr(0, e), e == std::string::npos ? std::string() : w[i].substr(e + 1)));
    }
  }
  bool has(const std::string& k) const {
    for (const auto& p : kv) if (p.first == k) return true;
    return false;
  }
  std::string s(const std::string& k) const {
    for (const auto& p : kv) if (p.first == k) return p.second;
    std::cerr << "operation " << name << " lacks " << k << std::endl;
    std::exit(4);
  }
  long i(const std::string& k) const { return std::atol(s(k).c_str()); }
  static double number(const std::string& t) {
    const std::size_t q = t.find('/');
    if (q == std::string::npos) return std::strtod(t.c_str(), nullptr);
    return std::strtod(t.substr(0, q).c_str(), nullptr) / std::strtod(t.substr(q + 1).c_str(), nullptr);
  }
  double d(const std::string& k) const { return number(s(k)); }
  bool b(const std::string& k) const { const std::string v = s(k); return v == "1" || v == "true" || v == "TRUE"; }
  static std::vector<std::string> parts(const std::string& v, char c) {
    std::vector<std::string> r;
    if (v.empty() || v == "-") return r;
    std::string cur;
    for (char x : v) {
      if (x == c) { r.push_back(cur); cur.clear(); } else cur += x;
    }
    r.push_back(cur);
    return r;
  }
  static Eigen::VectorXd tovec(const std::string& v) {
    std::vector<std::string> p = parts(v, ',');
    Eigen::VectorXd r(p.size());
    for (std::size_t i = 0; i < p.size(); ++i) r[i] = number(p[i]);
    return r;
  }
  Eigen::VectorXd v(const std::string& k) const { return tovec(s(k)); }
  std::vector<long> is(const std::string& k) const {
    std::vector<long> r;
    for (const auto& p : parts(s(k), ',')) r.push_back(std::atol(p.c_str()));
    return r;
  }
  std::vector<Eigen::VectorXd> vs(const std::string& k) const {  // ";"-separated vectors, "-" an empty list, "0:" empty vector
    std::vector<Eigen::VectorXd> r;
    for (const auto& p : parts(s(k), ';')) r.push_back(p == "e" ? Eigen::VectorXd(0) : tovec(p));
    return r;
  }
  Eigen::MatrixXd m(const std::string& k) const {
    std::vector<Eigen::VectorXd> r = vs(k);
    Eigen::MatrixXd a(r.size(), r.empty() ? 0 : r[0].size());
    for (std::size_t i = 0; i < r.size(); ++i) a.row(i) = r[i].transpose();
    return a;
  }
};

inline std::vector<Op> readops(const char* path) {
  std::ifstream f(path);
  if (!f) { std::perror(path); std::exit(3); }
  std::vector<Op> r;
  std::string l;
  while (std::getline(f, l)) if (!l.empty() && l[0] != '#') r.push_back(Op(l));
  return r;
}

}  // namespace tr
