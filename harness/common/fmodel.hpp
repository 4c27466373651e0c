// Functions whose rows are sums of products of at most three entries of a point (one past its end stands for 1).
#pragma once
#include "trace.hpp"
namespace fm {
typedef Eigen::VectorXd V;
typedef Eigen::MatrixXd M;
struct Fn {
  long n = 0;
  M idx;
  V k;
  Fn() {}
  Fn(const tr::Op& o, const std::string& p) : n(o.i(p + "n")), k(o.v(p + "k")) { idx = k.size() ? o.m(p + "i") : M::Zero(0, 4); }
  static V ext(const V& z) { V y(z.size() + 1); y << z, 1.; return y; }
  V val(const V& z) const {
    const V y = ext(z);
    V r = V::Zero(n);
    for (long j = 0; j < k.size(); ++j) r[long(idx(j, 0)) - 1] += k[j] * y[long(idx(j, 1)) - 1] * y[long(idx(j, 2)) - 1] * y[long(idx(j, 3)) - 1];
    return r;
  }
  // second derivative of the first row
  M hess(const V& z) const {
    const V y = ext(z);
    M H = M::Zero(y.size(), y.size());
    for (long j = 0; j < k.size(); ++j) {
      if (long(idx(j, 0)) != 1) continue;
      const long p[3] = {long(idx(j, 1)) - 1, long(idx(j, 2)) - 1, long(idx(j, 3)) - 1};
      for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) if (a != b) H(p[a], p[b]) += k[j] * y[p[3 - a - b]];
    }
    return H.topLeftCorner(z.size(), z.size());
  }
  M jac(const V& z) const {
    const V y = ext(z);
    M J = M::Zero(n, z.size() + 1);
    for (long j = 0; j < k.size(); ++j) {
      const long i = long(idx(j, 0)) - 1, p = long(idx(j, 1)) - 1, q = long(idx(j, 2)) - 1, s = long(idx(j, 3)) - 1;
      J(i, p) += k[j] * y[q] * y[s];
      J(i, q) += k[j] * y[p] * y[s];
      J(i, s) += k[j] * y[p] * y[q];
    }
    return J.leftCols(z.size());
  }
};
inline V cat(const V& a, const V& b) { V z(a.size() + b.size()); z << a, b; return z; }
}  // namespace fm
