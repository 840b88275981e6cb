#include <vector>
#include "history.hpp"
namespace bwslv {
#define Q1(a) r.push_back((double)(a).Count()); r.push_back((a).Sum());
#define Q2(a) Q1(a) if ((a).Count() > 0) r.push_back((a).Mean());
#define Q3(a) Q2(a) r.push_back((a).ScaledVariance()); r.push_back((a).Variance(true)); r.push_back((a).Variance(false)); r.push_back((a).StandardDeviation(true)); r.push_back((a).StandardDeviation(false));
#define Q4(a) Q2(a) r.push_back((a).PopulationVariance()); r.push_back((a).SampleFrequencyVariance()); r.push_back((a).SampleReliabilityVariance());
// the four that take one number
#define ONE(NAME, CLS, T, Q, FP) \
struct C17_##NAME##count { \
  static std::size_t impl(std::vector<T> x) { CLS a; for (std::size_t i = 0; i < x.size(); i++) a.Add(x[i]); return a.Count(); } \
  static std::size_t spec(std::vector<T> x) { return x.size(); } }; \
struct C17_##NAME##more { \
  static bool pre(CLS a, T x, T y) { return a.Count() < (1UL << 62); } \
  static std::pair<std::size_t, std::size_t> impl(CLS a, T x, T y) { std::size_t n = a.Count(); a.Add(x); std::size_t m = a.Count() - n; a.Add(y); return std::make_pair(m, (std::size_t)a.Count() - n); } \
  static std::pair<std::size_t, std::size_t> spec(CLS a, T x, T y) { return std::make_pair((std::size_t)1, (std::size_t)2); } }; \
template<std::size_t N> struct C17_##NAME##mean { \
  static double impl(std::array<T, N> x) { CLS a; for (auto v : x) a.Add(v); return a.Mean() * (double)a.Count(); } \
  static double spec(std::array<T, N> x) { CLS a; for (auto v : x) a.Add(v); return (double)a.Sum(); } }; \
template struct C17_##NAME##mean<1>; template struct C17_##NAME##mean<2>; template struct C17_##NAME##mean<3>; template struct C17_##NAME##mean<4>; \
struct C17_##NAME##ratio { \
  static bool pre(CLS a) { return a.Count() > 0; } \
  static double impl(CLS a) { return a.Mean(); } \
  static double spec(CLS a) { return (double)a.Sum() / (double)a.Count(); } }; \
struct C17_##NAME##fresh { \
  static std::pair<std::size_t, double> impl() { CLS a; return std::make_pair((std::size_t)a.Count(), (double)a.Sum()); } \
  static std::pair<std::size_t, double> spec() { return std::make_pair((std::size_t)0, 0.0); } }; \
/* whatever came before the reset leaves no trace */ \
struct C17_##NAME##reset { \
  enum { fp = FP }; \
  static vd impl(CLS a, T x, T y, T z) { a.Reset(); vd r; Q1(a) a.Add(x); Q(a) a.Add(y); Q(a) a.Add(z); Q(a) return r; } \
  static vd spec(CLS b, T x, T y, T z) { CLS a; vd r; Q1(a) a.Add(x); Q(a) a.Add(y); Q(a) a.Add(z); Q(a) return r; } }; \
/* the same without assuming anything about the representation */ \
struct C17_##NAME##again { \
  enum { fp = FP }; \
  static vd impl(T u, T v, T w, T x, T y) { CLS a; a.Add(u); a.Add(v); a.Add(w); a.Reset(); vd r; Q1(a) a.Add(x); Q(a) a.Add(y); Q(a) return r; } \
  static vd spec(T u, T v, T w, T x, T y) { CLS a; vd r; Q1(a) a.Add(x); Q(a) a.Add(y); Q(a) return r; } }; \
struct C17_##NAME##twice { \
  enum { fp = FP }; \
  static vd impl(T u, T x) { CLS a; a.Add(u); a.Reset(); a.Reset(); a.Add(x); a.Reset(); a.Add(u); vd r; Q(a) return r; } \
  static vd spec(T u, T x) { CLS a; a.Add(u); vd r; Q(a) return r; } }; \
struct C17_##NAME##resetany { \
  enum { fp = FP }; \
  static vd impl(CLS a, std::vector<T> x) { a.Reset(); for (std::size_t i = 0; i < x.size(); i++) a.Add(x[i]); vd r; Q1(a) return r; } \
  static vd spec(CLS b, std::vector<T> x) { CLS a; for (std::size_t i = 0; i < x.size(); i++) a.Add(x[i]); vd r; Q1(a) return r; } }; \
template<std::size_t N> struct C17_##NAME##apply { \
  enum { fp = FP }; \
  static vd impl(std::array<T, N> x, T y) { CLS a; a.Add(y); auto& b = bwsl::apply_accumulator(x.begin(), x.end(), a); b.Add(y); vd r; Q(a) return r; } \
  static vd spec(std::array<T, N> x, T y) { CLS a; a.Add(y); for (std::size_t i = 0; i < N; i++) a.Add(x[i]); a.Add(y); vd r; Q(a) return r; } }; \
template struct C17_##NAME##apply<0>; template struct C17_##NAME##apply<1>; template struct C17_##NAME##apply<2>; template struct C17_##NAME##apply<3>; \
struct C17_##NAME##applyany { \
  enum { fp = FP }; \
  static vd impl(std::vector<T> x) { CLS a; bwsl::apply_accumulator(x.begin(), x.end(), a); vd r; Q1(a) return r; } \
  static vd spec(std::vector<T> x) { CLS a; for (std::size_t i = 0; i < x.size(); i++) a.Add(x[i]); vd r; Q1(a) return r; } };
ONE(kahan, KAHAN, double, Q2, 1)
ONE(neumaier, NEUM, double, Q2, 1)
ONE(knuth, KNUTH, double, Q3, 0)
ONE(naive, NAIVE, long, Q3, 0)
struct C17_westmore {
  static bool pre(WEST a, double x, double w) { return a.Count() < (1UL << 62); }
  static std::size_t impl(WEST a, double x, double w) { std::size_t n = a.Count(); a.Add(x, w); return a.Count() - n; }
  static std::size_t spec(WEST a, double x, double w) { return w > 0 ? 1 : 0; } };
struct C17_westcount {
  static std::size_t impl(vd x, vd w) { WEST a; for (std::size_t i = 0; i < x.size(); i++) a.Add(x[i], 1.0); return a.Count(); }
  static std::size_t spec(vd x, vd w) { return x.size(); } };
// for weighted entries the sum is mean times total weight
struct C17_westmean {
  static bool pre(double x, double v, double y, double w) { return v > 0 && w > 0; }
  static double impl(double x, double v, double y, double w) { WEST a; a.Add(x, v); a.Add(y, w); return a.Mean() * (v + w); }
  static double spec(double x, double v, double y, double w) { WEST a; a.Add(x, v); a.Add(y, w); return a.Sum(); } };
struct C17_westreset {
  static bool pre(WEST b, double x, double v, double y, double w) { return v > 0 && w > 0; }
  static vd impl(WEST a, double x, double v, double y, double w) { a.Reset(); vd r; Q1(a) a.Add(x, v); Q4(a) a.Add(y, w); Q4(a) a.Add(x, w); Q4(a) return r; }
  static vd spec(WEST b, double x, double v, double y, double w) { WEST a; vd r; Q1(a) a.Add(x, v); Q4(a) a.Add(y, w); Q4(a) a.Add(x, w); Q4(a) return r; } };
struct C17_westagain {
  static bool pre(double u, double t, double x, double v, double y, double w) { return v > 0 && w > 0 && t > 0; }
  static vd impl(double u, double t, double x, double v, double y, double w) { WEST a; a.Add(u, t); a.Add(x, t); a.Reset(); vd r; Q1(a) a.Add(x, v); Q4(a) a.Add(y, w); Q4(a) return r; }
  static vd spec(double u, double t, double x, double v, double y, double w) { WEST a; vd r; Q1(a) a.Add(x, v); Q4(a) a.Add(y, w); Q4(a) return r; } };
// histories (history.hpp)
HOBS(C17, kahanhistory, HKahan, 1)
HADDS(C17_kahanhistory) HRESETS(C17_kahanhistory)
HOBS(C17, neumaierhistory, HNeum, 1)
HADDS(C17_neumaierhistory) HRESETS(C17_neumaierhistory)
HOBS(C17, knuthhistory, HKnuth, 0)
HADDS(C17_knuthhistory) HRESETS(C17_knuthhistory)
HOBS(C17, naivehistory, HNaive, 0)
HADDS(C17_naivehistory) HRESETS(C17_naivehistory)
HOBS(C17, westhistory, HWest, 0)
HADDS(C17_westhistory) HRESETS(C17_westhistory)
// an emptied accumulator reports exactly what a new one reports, the mean of nothing included
template<class F> struct C17_emptied {
  static vd impl(double x0, double x1) { typename F::type a; vd r, log; F::add(a, x0); F::add(a, x1); F::ask(a, log); log.push_back(a.Mean()); a.Reset(); r.push_back((double)a.Count()); r.push_back((double)a.Sum()); r.push_back(a.Mean()); return r; }
  static vd spec(double x0, double x1) { typename F::type a; vd r; r.push_back((double)a.Count()); r.push_back((double)a.Sum()); r.push_back(a.Mean()); return r; }
};
template struct C17_emptied<HKahan>; template struct C17_emptied<HNeum>; template struct C17_emptied<HKnuth>; template struct C17_emptied<HNaive>; template struct C17_emptied<HWest>;

}
