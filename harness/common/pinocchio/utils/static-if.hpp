// The one name two core activations take from the (absent) multibody library: a conditional expression.
#pragma once
namespace pinocchio {
namespace internal {
enum ComparisonOperators { LT, LE, EQ, GE, GT };
template <typename S>
S if_then_else(const ComparisonOperators op, const S& l, const S& r, const S& t, const S& e) {
  switch (op) {
    case LT: return l < r ? t : e;
    case LE: return l <= r ? t : e;
    case EQ: return l == r ? t : e;
    case GE: return l >= r ? t : e;
    default: return l > r ? t : e;
  }
}
}  // namespace internal
}  // namespace pinocchio
