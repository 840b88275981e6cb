#include "history.hpp"
#include "moves.hpp"
namespace bwslv {
#define Q1(a) r.push_back((double)(a).Count()); r.push_back((double)(a).Sum());
#define Q2(a) Q1(a) r.push_back((a).Mean());
#define Q3(a) Q2(a) r.push_back((a).ScaledVariance()); r.push_back((a).Variance(true)); r.push_back((a).Variance(false)); r.push_back((a).StandardDeviation(true));
#define Q4(a) Q2(a) r.push_back((a).PopulationVariance()); r.push_back((a).SampleFrequencyVariance()); r.push_back((a).SampleReliabilityVariance());
#define ACC(NAME, CLS, T, Q, FP, ADD, VAL) \
/* any saved object, any target object */ \
struct C19_##NAME { \
  enum { fp = FP }; \
  static vd impl(CLS a, CLS b, T x) { Tape t = store(a); restore(t, b); vd r; Q(b) ADD(b, x); Q(b) ADD(b, x); Q(b) return r; } \
  static vd spec(CLS a, CLS b, T x) { vd r; Q(a) ADD(a, x); Q(a) ADD(a, x); Q(a) return r; } }; \
/* saving leaves the object alone */ \
struct C19_##NAME##saved { \
  enum { fp = FP }; \
  static vd impl(CLS a, T x) { Tape t = store(a); vd r; Q(a) ADD(a, x); Q(a) return r; } \
  static vd spec(CLS a, T x) { vd r; Q(a) ADD(a, x); Q(a) return r; } }; \
/* without assuming the representation: three values before, two after */ \
struct C19_##NAME##api { \
  enum { fp = FP }; \
  static vd impl(T u, T v, T w, T x, T y) { CLS a, b; ADD(a, u); ADD(a, v); ADD(a, w); ADD(b, x); Tape t = store(a); restore(t, b); vd r; Q(b) ADD(b, x); Q(b) ADD(b, y); Q(b) return r; } \
  static vd spec(T u, T v, T w, T x, T y) { CLS a; ADD(a, u); ADD(a, v); ADD(a, w); vd r; Q(a) ADD(a, x); Q(a) ADD(a, y); Q(a) return r; } }; \
struct C19_##NAME##empty { \
  enum { fp = FP }; \
  static vd impl(T u, T x) { CLS a, b; ADD(b, u); Tape t = store(a); restore(t, b); vd r; ADD(b, x); Q(b) return r; } \
  static vd spec(T u, T x) { CLS a; vd r; ADD(a, x); Q(a) return r; } };
#define ADD1(a, x) a.Add(x)
#define ADDW(a, x) a.Add(x, 2.0)
#define ADDV(a, x) a.Add(1.0, x)
ACC(kahan, KAHAN, double, Q2, 1, ADD1, )
ACC(neumaier, NEUM, double, Q2, 1, ADD1, )
ACC(knuth, KNUTH, double, Q3, 0, ADD1, )
ACC(naive, NAIVE, long, Q3, 0, ADD1, )
ACC(west, WEST, double, Q4, 0, ADDW, )
// histogram
#define HIST bwsl::HistAccumulator
#define HQ(h) r.push_back((double)(h).GetNbins()); r.push_back((double)(h).GetCount()); for (std::size_t q = 0; q < (h).GetNbins(); q++) { r.push_back((double)(h).GetCount(q)); r.push_back((h).GetResult(q)); }
// an unused histogram replaces a used one
struct C19_histunused {
  static bool pre(std::size_t n, std::size_t m, std::size_t i, double u, std::size_t k, double x) { return i < m && k < n && n < (1UL << 40) && m < (1UL << 40); }
  static vd impl(std::size_t n, std::size_t m, std::size_t i, double u, std::size_t k, double x) { HIST a(n), b(m); b.Add(i, u); Tape t = store(a); restore(t, b); vd r{ (double)b.GetNbins(), (double)b.GetCount(), (double)b.GetCount(k), b.GetResult(k) }; b.Add(k, x); r.push_back((double)b.GetCount()); r.push_back(b.GetResult(k)); return r; }
  static vd spec(std::size_t n, std::size_t m, std::size_t i, double u, std::size_t k, double x) { return vd{ (double)n, 0, 0, 0, 1, x }; } };
struct C19_histapi {
  static bool pre(std::size_t i, std::size_t j, double u, double v, std::size_t k, double x) { return i < 3 && j < 3 && k < 3; }
  static vd impl(std::size_t i, std::size_t j, double u, double v, std::size_t k, double x) { HIST a(3), b(2); b.Add(1, u); a.Add(i, u); a.Add(j, v); Tape t = store(a); restore(t, b); vd r; HQ(b) b.Add(k, x); HQ(b) return r; }
  static vd spec(std::size_t i, std::size_t j, double u, double v, std::size_t k, double x) { HIST a(3); a.Add(i, u); a.Add(j, v); vd r; HQ(a) a.Add(k, x); HQ(a) return r; } };
struct C19_hist {
  static bool pre(std::size_t n, std::size_t m, std::size_t i, double u, std::size_t k) { return i < n && k < n && n < (1UL << 40) && m < (1UL << 40); }
  static vd impl(std::size_t n, std::size_t m, std::size_t i, double u, std::size_t k) { HIST a(n), b(m); a.Add(i, u); Tape t = store(a); restore(t, b); return vd{ (double)b.GetNbins(), (double)b.GetCount(), (double)b.GetCount(k), b.GetResult(k) }; }
  static vd spec(std::size_t n, std::size_t m, std::size_t i, double u, std::size_t k) { HIST a(n); a.Add(i, u); return vd{ (double)a.GetNbins(), (double)a.GetCount(), (double)a.GetCount(k), a.GetResult(k) }; } };
struct C19_histgrow {
  static vd impl(double u, double x) { HIST a(1), b(4); a.Add(0, u); b.Add(3, x); Tape t = store(a); restore(t, b); vd r; b.ForceAdd(2, x); HQ(b) return r; }
  static vd spec(double u, double x) { HIST a(1); a.Add(0, u); vd r; a.ForceAdd(2, x); HQ(a) return r; } };
struct C19_histsaved {
  static vd impl(double u, double x) { HIST a(2); a.Add(1, u); Tape t = store(a); vd r; HQ(a) a.Add(0, x); HQ(a) return r; }
  static vd spec(double u, double x) { HIST a(2); a.Add(1, u); vd r; HQ(a) a.Add(0, x); HQ(a) return r; } };
// observable group: visible through what it prints
#define GRP bwsl::ObservableGroup<std::string>
struct C19_group {
  static void impl(std::string f, std::string g, double u, double v, double x) { GRP a(f, std::vector<std::string>{ "E", "M" }), b(g, std::vector<std::string>{ "Q" }); a.Measure("E", u); a.Measure("M", v); b.Measure("Q", x); Tape t = store(a); restore(t, b); b.PrintHeaders(); b.Measure("M", x); b.PrintAndReset(6); b.Measure("E", x); b.PrintAndReset(6); }
  static void spec(std::string f, std::string g, double u, double v, double x) { GRP a(f, std::vector<std::string>{ "E", "M" }); a.Measure("E", u); a.Measure("M", v); a.PrintHeaders(); a.Measure("M", x); a.PrintAndReset(6); a.Measure("E", x); a.PrintAndReset(6); } };
struct C19_groupsaved {
  static void impl(std::string f, double u) { GRP a(f, std::vector<std::string>{ "E", "M" }); a.Measure("E", u); Tape t = store(a); a.PrintHeaders(); a.PrintAndReset(6); }
  static void spec(std::string f, double u) { GRP a(f, std::vector<std::string>{ "E", "M" }); a.Measure("E", u); a.PrintHeaders(); a.PrintAndReset(6); } };
// move statistics
#define MS bwsl::montecarlo::MoveStats
#define MQ(m) { r.push_back((m).GetAcceptedRatio()); r.push_back((m).GetRejectedRatio()); r.push_back((m).GetImpossibleRatio()); r.push_back((m).GetAverageProbability()); }
#define STEP(m) { int c = 0; try { m.Propose(); } catch (bwsl::montecarlo::exception::MoveInvalidSequence const&) { c = 1; } r.push_back(c); MQ(m) c = 0; try { m.Accept(x); } catch (bwsl::montecarlo::exception::MoveInvalidSequence const&) { c = 1; } r.push_back(c); MQ(m) }
struct C19_moves {
  static vd impl(MS a, MS b, double x) { Tape t = store(a); restore(t, b); vd r; MQ(b) STEP(b) STEP(b) return r; }
  static vd spec(MS a, MS b, double x) { vd r; MQ(a) STEP(a) STEP(a) return r; } };
struct C19_movesname {
  static std::string impl(MS a, MS b) { Tape t = store(a); restore(t, b); return b.GetName(); }
  static std::string spec(MS a, MS b) { return a.GetName(); } };
struct C19_movesapi {
  static vd impl(std::string n, double u, double v, double x) { MS a(n), b; a.Propose(); a.Accept(u); a.Propose(); a.Reject(v); a.Propose(); a.Impossible(); a.Propose(); b.Propose(); b.Reject(x); Tape t = store(a); restore(t, b); vd r; MQ(b) b.Accept(x); MQ(b) b.Propose(); b.Impossible(); MQ(b) return r; }
  static vd spec(std::string n, double u, double v, double x) { MS a(n); a.Propose(); a.Accept(u); a.Propose(); a.Reject(v); a.Propose(); a.Impossible(); a.Propose(); vd r; MQ(a) a.Accept(x); MQ(a) a.Propose(); a.Impossible(); MQ(a) return r; } };
struct C19_movesnameapi {
  static std::string impl(std::string n) { MS a(n), b; b.Propose(); Tape t = store(a); restore(t, b); b.Propose(); return b.GetName(); }
  static std::string spec(std::string n) { return n; } };
struct C19_movessaved {
  static vd impl(MS a, double x) { Tape t = store(a); vd r; MQ(a) STEP(a) return r; }
  static vd spec(MS a, double x) { vd r; MQ(a) STEP(a) return r; } };
// histories (history.hpp)
HOBS(C19, kahanhistory, HKahan, 1)
HARCHIVES(C19_kahanhistory)
HOBS(C19, neumaierhistory, HNeum, 1)
HARCHIVES(C19_neumaierhistory)
HOBS(C19, knuthhistory, HKnuth, 0)
HARCHIVES(C19_knuthhistory)
HOBS(C19, naivehistory, HNaive, 0)
HARCHIVES(C19_naivehistory)
HOBS(C19, westhistory, HWest, 0)
HARCHIVES(C19_westhistory)
// histories of move statistics (moves.hpp)
MHOBS(C19_moveshistory)
MARCHIVE(C19_moveshistory)
}
