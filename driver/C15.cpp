#include "history.hpp"
namespace bwslv {
#define ALL(a) r.push_back((double)(a).Count()); r.push_back((a).Mean()); r.push_back((a).Sum()); r.push_back((a).PopulationVariance()); r.push_back((a).SampleFrequencyVariance()); r.push_back((a).SampleReliabilityVariance());
inline vd moments(std::size_t n, double W, double W2, double mean, double q)
{
  double nan = std::nan("");
  if (n < 2) return vd{ (double)n, mean, mean * W, nan, nan, nan };
  return vd{ (double)n, mean, mean * W, q / W, q / (W - 1), q / (W - W2 / W) };
}
template<std::size_t N> struct C15_after {
  static bool pre(std::array<double, N> m, std::array<double, N> w) { bool r = true; for (auto x : w) r = r && x > 0; return r; }
  static vd impl(std::array<double, N> m, std::array<double, N> w) { WEST a; for (std::size_t i = 0; i < N; i++) a.Add(m[i], w[i]); vd r; ALL(a) return r; }
  static vd spec(std::array<double, N> m, std::array<double, N> w) { double W = 0, W2 = 0, s = 0, q = 0; for (std::size_t i = 0; i < N; i++) { W += w[i]; W2 += w[i] * w[i]; s += w[i] * m[i]; } double mean = N ? s / W : 0; for (std::size_t i = 0; i < N; i++) q += w[i] * (m[i] - mean) * (m[i] - mean); return moments(N, W, W2, mean, q); } };
template struct C15_after<0>; template struct C15_after<1>; template struct C15_after<2>; template struct C15_after<3>; template struct C15_after<4>;
// any signs of the weights
template<std::size_t N> struct C15_signs {
  static vd impl(std::array<double, N> m, std::array<double, N> w) { WEST a; for (std::size_t i = 0; i < N; i++) a.Add(m[i], w[i]); vd r; ALL(a) return r; }
  static vd spec(std::array<double, N> m, std::array<double, N> w) { WEST a; for (std::size_t i = 0; i < N; i++) if (w[i] > 0) a.Add(m[i], w[i]); vd r; ALL(a) return r; } };
template struct C15_signs<1>; template struct C15_signs<2>;
struct C15_ignored {
  static bool pre(WEST a, double m, double w) { return w <= 0; }
  static vd impl(WEST a, double m, double w) { a.Add(m, w); vd r; ALL(a) return r; }
  static vd spec(WEST a, double m, double w) { vd r; ALL(a) return r; } };
struct C15_ignoredlater {
  static bool pre(WEST a, double m, double w, double x, double v) { return w <= 0 && v > 0; }
  static vd impl(WEST a, double m, double w, double x, double v) { a.Add(m, w); a.Add(x, v); vd r; ALL(a) return r; }
  static vd spec(WEST a, double m, double w, double x, double v) { a.Add(x, v); vd r; ALL(a) return r; } };
// induction step, the total weights recovered from the reported quantities
struct C15_step {
  static bool pre(WEST a, double x, double w) { return w > 0 && a.Count() >= 2 && a.Count() < (1UL << 62) && a.Mean() != 0 && a.Sum() != 0 && a.PopulationVariance() != 0 && a.SampleReliabilityVariance() != 0; }
  static vd impl(WEST a, double x, double w) { a.Add(x, w); vd r; ALL(a) return r; }
  static vd spec(WEST a, double x, double w) {
    double m = a.Mean(), W = a.Sum() / m, q = a.PopulationVariance() * W;
    double W2 = (W - q / a.SampleReliabilityVariance()) * W;
    return moments(a.Count() + 1, W + w, W2 + w * w, (W * m + w * x) / (W + w), q + (x - m) * (x - m) * W * w / (W + w)); } };
struct C15_few {
  static bool pre(WEST a) { return a.Count() < 2; }
  static vd impl(WEST a) { return vd{ a.PopulationVariance(), a.SampleFrequencyVariance(), a.SampleReliabilityVariance() }; }
  static vd spec(WEST a) { double n = std::nan(""); return vd{ n, n, n }; } };
// the estimators agree on the squared deviations
struct C15_queries {
  static bool pre(WEST a) { return a.Count() >= 2; }
  static double impl(WEST a) { return a.SampleFrequencyVariance() * (a.Sum() - a.Mean()); }
  static double spec(WEST a) { return a.PopulationVariance() * a.Sum(); } };
struct C15_reset {
  static bool pre(double u, double v, double x, double w, double y, double z) { return w > 0 && z > 0; }
  static vd impl(double u, double v, double x, double w, double y, double z) { WEST a; a.Add(u, v); a.Add(v, u); a.Reset(); a.Add(x, w); a.Add(y, z); vd r; ALL(a) return r; }
  static vd spec(double u, double v, double x, double w, double y, double z) { WEST a; a.Add(x, w); a.Add(y, z); vd r; ALL(a) return r; } };
// histories (history.hpp)
HOBS(C15, history, HWest, 0)
HADDS(C15_history) HRESETS(C15_history) HCOPIES(C15_history)
}
