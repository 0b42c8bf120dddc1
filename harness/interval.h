// Interval reference arithmetic. An operation is exact (zero width) when its
// operands are exact and the result is representable as a float; otherwise it
// is widened to cover any reasonable single-precision evaluation order.
#ifndef VERIF_HARNESS_INTERVAL_H
#define VERIF_HARNESS_INTERVAL_H
#include "common.h"

namespace vf {
struct I {
  double lo = 0, hi = 0;
  bool Exact() const { return lo == hi; }
};
constexpr double kEps = 6e-7;  // ~ 5 float ulps
inline I Pt(double x) { return {x, x}; }
inline I Widen(I a) {
  if (a.Exact() && static_cast<double>(static_cast<float>(a.lo)) == a.lo) return a;
  return {a.lo - std::fabs(a.lo) * kEps - 1e-40, a.hi + std::fabs(a.hi) * kEps + 1e-40};
}
inline I Add(I a, I b) {
  I r{a.lo + b.lo, a.hi + b.hi};
  if (r.Exact() && static_cast<double>(static_cast<float>(r.lo)) == r.lo) return r;
  const double w = std::max(std::max(std::fabs(a.lo), std::fabs(a.hi)), std::max(std::fabs(b.lo), std::fabs(b.hi))) * kEps;
  return {r.lo - w, r.hi + w};
}
inline I Neg(I a) { return {-a.hi, -a.lo}; }
inline I Sub(I a, I b) { return Add(a, Neg(b)); }
inline I Mul(I a, I b) {
  const double p[4] = {a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi};
  return Widen({*std::min_element(p, p + 4), *std::max_element(p, p + 4)});
}
inline I Div(I a, I b) {  // b > 0
  const double p[4] = {a.lo / b.lo, a.lo / b.hi, a.hi / b.lo, a.hi / b.hi};
  I r{*std::min_element(p, p + 4), *std::max_element(p, p + 4)};
  if (r.Exact() && r.lo * b.lo == a.lo && static_cast<double>(static_cast<float>(r.lo)) == r.lo) return r;
  return {r.lo - std::fabs(r.lo) * kEps, r.hi + std::fabs(r.hi) * kEps};
}
inline I Max(I a, I b) { return {std::max(a.lo, b.lo), std::max(a.hi, b.hi)}; }
inline I Min(I a, I b) { return {std::min(a.lo, b.lo), std::min(a.hi, b.hi)}; }
inline bool PowerOfTwo(double u) { int e; return u > 0 && std::frexp(u, &e) == 0.5; }
enum RoundKind { kFloor, kCeil, kRound };
inline I Quant(RoundKind k, I a, double u) {
  if (!(u > 0)) return a;
  I t{a.lo / u, a.hi / u};
  // Division by a power of two is exact; otherwise the quotient is blurred.
  if (!PowerOfTwo(u) || !a.Exact() || std::fabs(t.lo) > 8e6) {
    if (!(a.Exact() && a.lo == 0)) {
      t.lo -= std::fabs(t.lo) * kEps;
      t.hi += std::fabs(t.hi) * kEps;
    }
  }
  auto q = [k](double x) { return k == kFloor ? std::floor(x) : k == kCeil ? std::ceil(x) : std::round(x); };
  return Widen({u * q(t.lo), u * q(t.hi)});
}
inline bool In(double x, I a) { return x >= a.lo && x <= a.hi; }
inline std::string Str(I a) { return a.Exact() ? Fmt("%.9g", a.lo) : Fmt("[%.9g, %.9g]", a.lo, a.hi); }
}  // namespace vf
#endif
