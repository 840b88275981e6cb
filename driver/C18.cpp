#define BWSL_ACCUMULATORS_CHECKS
#include "acc.hpp"
namespace bwslv {
#define OF bwsl::exception::AccumulatorOverflow
#define MAXC std::numeric_limits<unsigned long>::max()
#define Q2(a) r.push_back((double)(a).Count()); r.push_back((double)(a).Sum()); r.push_back((a).Mean());
#define Q3(a) Q2(a) r.push_back((a).ScaledVariance()); r.push_back((a).Variance(true)); r.push_back((a).Variance(false));
#define Q4(a) Q2(a) r.push_back((a).PopulationVariance()); r.push_back((a).SampleFrequencyVariance()); r.push_back((a).SampleReliabilityVariance());
#define FULL(NAME, CLS, Q) \
struct C18_##NAME##throws { \
  static bool pre(CLS a, double x) { return a.Count() == MAXC; } \
  static void impl(CLS a, double x) { a.Add(x); } \
  static void spec(CLS a, double x) { throw OF(); } }; \
struct C18_##NAME##kept { \
  enum { fp = 1 }; \
  static bool pre(CLS a, double x) { return a.Count() == MAXC; } \
  static vd impl(CLS a, double x) { bool c = false; try { a.Add(x); } catch (OF const&) { c = true; } vd r; r.push_back(c ? 1 : 0); Q(a) return r; } \
  static vd spec(CLS a, double x) { vd r; r.push_back(1); Q(a) return r; } }; \
struct C18_##NAME##only { \
  static bool pre(CLS a, double x) { return a.Count() != MAXC; } \
  static unsigned long impl(CLS a, double x) { a.Add(x); return a.Count(); } \
  static unsigned long spec(CLS a, double x) { return a.Count() + 1; } };
FULL(kahan, KAHAN, Q2)
FULL(neumaier, NEUM, Q2)
FULL(knuth, KNUTH, Q3)
// an addition that fits has the same effect as without checks
struct kahan { double s = 0, c = 0; void add(double x) { double y = x - c; double t = s + y; c = (t - s) - y; s = t; } double sum() const { return s; } };
struct neumaier { double s = 0, c = 0; void add(double x) { double t = s + x; if (std::abs(s) >= std::abs(x)) c += (s - t) + x; else c += (x - t) + s; s = t; } double sum() const { return s + c; } };
struct C18_kahanadd {
  enum { fp = 1 };
  static vd impl(double x, double y, double z) { KAHAN a; a.Add(x); a.Add(y); a.Add(z); return vd{ a.Sum(), (double)a.Count() }; }
  static vd spec(double x, double y, double z) { kahan a; a.add(x); a.add(y); a.add(z); return vd{ a.sum(), 3 }; } };
struct C18_neumaieradd {
  enum { fp = 1 };
  static vd impl(double x, double y, double z) { NEUM a; a.Add(x); a.Add(y); a.Add(z); return vd{ a.Sum(), (double)a.Count() }; }
  static vd spec(double x, double y, double z) { neumaier a; a.add(x); a.add(y); a.add(z); return vd{ a.sum(), 3 }; } };
struct C18_knuthadd {
  static bool pre(KNUTH a, double x) { return a.Count() >= 2 && a.Count() < MAXC; }
  static vd impl(KNUTH a, double x) { a.Add(x); return vd{ (double)a.Count(), a.Mean(), a.ScaledVariance() }; }
  static vd spec(KNUTH a, double x) { double n = (double)a.Count(), m = a.Mean(); return vd{ n + 1, (n * m + x) / (n + 1), a.ScaledVariance() + (x - m) * (x - m) * n / (n + 1) }; } };
// weighted: only entries that would be counted can overflow
struct C18_westthrows {
  static bool pre(WEST a, double m, double w) { return a.Count() == MAXC && w > 0; }
  static void impl(WEST a, double m, double w) { a.Add(m, w); }
  static void spec(WEST a, double m, double w) { throw OF(); } };
struct C18_westkept {
  static bool pre(WEST a, double m, double w) { return a.Count() == MAXC; }
  static vd impl(WEST a, double m, double w) { bool c = false; try { a.Add(m, w); } catch (OF const&) { c = true; } vd r; r.push_back(c ? 1 : 0); Q4(a) return r; }
  static vd spec(WEST a, double m, double w) { vd r; r.push_back(w > 0 ? 1 : 0); Q4(a) return r; } };
struct C18_westonly {
  static bool pre(WEST a, double m, double w) { return a.Count() != MAXC || w <= 0; }
  static unsigned long impl(WEST a, double m, double w) { a.Add(m, w); return a.Count(); }
  static unsigned long spec(WEST a, double m, double w) { return w > 0 ? a.Count() + 1 : a.Count(); } };
// integers
struct C18_naivethrows { enum { wrap = 1 };
  static bool pre(NAIVE a, long x) { return a.Count() == MAXC; }
  static void impl(NAIVE a, long x) { a.Add(x); }
  static void spec(NAIVE a, long x) { throw OF(); } };
struct C18_naivekept { enum { wrap = 1 };
  static vd impl(NAIVE a, long x) { vd r; Q3(a) bool c = false; try { a.Add(x); } catch (OF const&) { c = true; } if (c) { Q3(a) } return r; }
  static vd spec(NAIVE a, long x) { vd r; Q3(a) bool c = false; { NAIVE b(a); try { b.Add(x); } catch (OF const&) { c = true; } } if (c) { Q3(a) } return r; } };
// the first value is refused iff its square does not fit
struct C18_naivefirst { enum { wrap = 1 };
  static void impl(long x) { NAIVE a; a.Add(x); }
  static void spec(long x) { if (x > 3037000499L || x < -3037000499L) throw OF(); } };
// second value: sum or sum of squares out of range
struct C18_naivesecond { enum { wrap = 1 };
  static bool pre(long x, long y) { return x >= -3037000499L && x <= 3037000499L && y >= -3037000499L && y <= 3037000499L; }
  static void impl(long x, long y) { NAIVE a; a.Add(x); a.Add(y); }
  static void spec(long x, long y) { if (x * x > std::numeric_limits<long>::max() - y * y) throw OF(); } };
struct C18_naivefits { enum { wrap = 1 };
  static bool pre(long x, long y, long z) { return x > -1000000000L && x < 1000000000L && y > -1000000000L && y < 1000000000L && z > -1000000000L && z < 1000000000L; }
  static vd impl(long x, long y, long z) { NAIVE a; a.Add(x); a.Add(y); a.Add(z); return vd{ (double)a.Sum(), (double)a.Count(), a.ScaledVariance() }; }
  static vd spec(long x, long y, long z) { double s = (double)x + (double)y + (double)z; return vd{ s, 3, (double)x * (double)x + (double)y * (double)y + (double)z * (double)z - s * s / 3 }; } };
struct C18_naivesum { enum { wrap = 1 };
  static bool pre(NAIVE a, long x) { return a.Count() < MAXC && x > -1000000000L && x < 1000000000L && ((x > 0 && a.Sum() > std::numeric_limits<long>::max() - x) || (x < 0 && a.Sum() < std::numeric_limits<long>::min() - x)); }
  static void impl(NAIVE a, long x) { a.Add(x); }
  static void spec(NAIVE a, long x) { throw OF(); } };
}
