#include "history.hpp"
namespace bwslv {
#define ALL(a) r.push_back((double)(a).Count()); r.push_back((double)(a).Sum()); r.push_back((a).Mean()); r.push_back((a).ScaledVariance()); r.push_back((a).Variance(true)); r.push_back((a).Variance(false)); r.push_back((a).StandardDeviation(true)); r.push_back((a).StandardDeviation(false));
inline vd moments(std::size_t n, double s, double q)
{
  double d = (double)n;
  double nan = std::nan("");
  if (n < 2) return vd{ d, s, s / d, nan, nan, nan, nan, nan };
  return vd{ d, s, s / d, q, q / (d - 1), q / d, std::sqrt(q / (d - 1)), std::sqrt(q / d) };
}
// the sums of a thousand such values stay in the range of long
inline bool small(long x) { return x > -(1L << 26) && x < (1L << 26); }
// so do those of a few of these
inline bool mid(long x) { return x >= -(1L << 30) && x <= (1L << 30); }
template<std::size_t N> struct C16_after {
  enum { wrap = 1 };
  static bool pre(std::array<long, N> x) { bool r = true; for (auto v : x) r = r && mid(v); return r; }
  static vd impl(std::array<long, N> x) { NAIVE a; for (auto v : x) a.Add(v); vd r; ALL(a) return r; }
  static vd spec(std::array<long, N> x) { double s = 0; for (auto v : x) s += (double)v; double m = s / (double)N, q = 0; for (auto v : x) q += ((double)v - m) * ((double)v - m); return moments(N, s, q); } };
template struct C16_after<1>; template struct C16_after<2>; template struct C16_after<3>; template struct C16_after<4>; template struct C16_after<5>;
// any number of values (no overflow): sum of squared deviations as sum of squares minus squared sum over n
struct C16_any {
  static bool pre(vl x) { return x.size() < (1UL << 10); }
  static vd impl(vl x) { NAIVE a; for (std::size_t i = 0; i < x.size(); i++) a.Add(x[i]); vd r; ALL(a) return r; }
  static vd spec(vl x) { double s = 0, t = 0; for (std::size_t i = 0; i < x.size(); i++) { s += (double)x[i]; t += (double)x[i] * (double)x[i]; } return moments(x.size(), s, t - s * s / (double)x.size()); } };
struct C16_step {
  static bool pre(NAIVE a, long x) { return a.Count() >= 2 && a.Count() < (1UL << 20) && small(x); }
  static vd impl(NAIVE a, long x) { a.Add(x); vd r; ALL(a) return r; }
  static vd spec(NAIVE a, long x) { double n = (double)a.Count(), m = a.Mean(), y = (double)x; return moments(a.Count() + 1, (double)a.Sum() + y, a.ScaledVariance() + (y - m) * (y - m) * n / (n + 1)); } };
struct C16_queries { enum { wrap = 1 };
  static bool pre(NAIVE a) { return a.Count() >= 2; }
  static vd impl(NAIVE a) { vd r; ALL(a) return r; }
  static vd spec(NAIVE a) { return moments(a.Count(), (double)a.Sum(), a.ScaledVariance()); } };
struct C16_few { enum { wrap = 1 };
  static bool pre(NAIVE a) { return a.Count() < 2; }
  static vd impl(NAIVE a) { return vd{ a.ScaledVariance(), a.Variance(true), a.Variance(false), a.StandardDeviation(true), a.StandardDeviation(false) }; }
  static vd spec(NAIVE a) { double n = std::nan(""); return vd{ n, n, n, n, n }; } };
struct C16_sum { enum { wrap = 1 };
  static bool pre(NAIVE a, long x) { return small(x) && a.Sum() > -(1L << 60) && a.Sum() < (1L << 60); }
  static std::pair<long, std::size_t> impl(NAIVE a, long x) { a.Add(x); return std::make_pair(a.Sum(), (std::size_t)a.Count()); }
  static std::pair<long, std::size_t> spec(NAIVE a, long x) { return std::make_pair(a.Sum() + x, (std::size_t)(a.Count() + 1)); } };
// histories (history.hpp)
HOBS(C16, history, HNaive, 0)
HADDS(C16_history) HRESETS(C16_history) HCOPIES(C16_history)
}
