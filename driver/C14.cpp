#include "history.hpp"
namespace bwslv {
// count, mean, sum, squared deviations, both variances, both standard deviations, both errors
#define ALL(a) r.push_back((double)(a).Count()); r.push_back((a).Mean()); r.push_back((a).Sum()); r.push_back((a).ScaledVariance()); r.push_back((a).Variance(true)); r.push_back((a).Variance(false)); r.push_back((a).StandardDeviation(true)); r.push_back((a).StandardDeviation(false)); r.push_back((a).Error(true)); r.push_back((a).Error(false));
inline vd moments(std::size_t n, double mean, double q)
{
  double d = (double)n;
  double nan = std::nan("");
  if (n < 2) return vd{ d, mean, mean * d, nan, nan, nan, nan, nan, nan, nan };
  return vd{ d, mean, mean * d, q, q / (d - 1), q / d, std::sqrt(q / (d - 1)), std::sqrt(q / d), std::sqrt(q / (d - 1)) / std::sqrt(d), std::sqrt(q / d) / std::sqrt(d) };
}
template<std::size_t N> struct C14_after {
  static vd impl(std::array<double, N> x) { KNUTH a; for (auto v : x) a.Add(v); vd r; ALL(a) return r; }
  static vd spec(std::array<double, N> x) { double m = 0; for (auto v : x) m += v; m = N ? m / (double)N : 0; double q = 0; for (auto v : x) q += (v - m) * (v - m); return moments(N, m, q); } };
template struct C14_after<0>; template struct C14_after<1>; template struct C14_after<2>; template struct C14_after<3>; template struct C14_after<4>; template struct C14_after<5>;
// induction step from any state with at least two values
struct C14_step {
  static bool pre(KNUTH a, double x) { return a.Count() >= 2 && a.Count() < (1UL << 62); }
  static vd impl(KNUTH a, double x) { a.Add(x); vd r; ALL(a) return r; }
  static vd spec(KNUTH a, double x) { double n = (double)a.Count(), m = a.Mean(), q = a.ScaledVariance(); return moments(a.Count() + 1, (n * m + x) / (n + 1), q + (x - m) * (x - m) * n / (n + 1)); } };
// the reported quantities are functions of count, mean and squared deviations
struct C14_queries {
  static bool pre(KNUTH a) { return a.Count() >= 2; }
  static vd impl(KNUTH a) { vd r; ALL(a) return r; }
  static vd spec(KNUTH a) { return moments(a.Count(), a.Mean(), a.ScaledVariance()); } };
struct C14_few {
  static bool pre(KNUTH a) { return a.Count() < 2; }
  static vd impl(KNUTH a) { vd r; ALL(a) return r; }
  static vd spec(KNUTH a) { return moments(a.Count(), a.Mean(), 0); } };
struct C14_reset {
  static vd impl(double u, double v, double x, double y) { KNUTH a; a.Add(u); a.Add(v); a.Reset(); a.Add(x); a.Add(y); vd r; ALL(a) return r; }
  static vd spec(double u, double v, double x, double y) { double m = (x + y) / 2; return moments(2, m, (x - m) * (x - m) + (y - m) * (y - m)); } };
// histories (history.hpp)
HOBS(C14, history, HKnuth, 0)
HADDS(C14_history) HRESETS(C14_history) HCOPIES(C14_history)
}
