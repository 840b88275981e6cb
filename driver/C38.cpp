#include <sstream>
#include <random>
#include <fstream>
#include <stdexcept>
#include "bravais.hpp"
#include "history.hpp"
#include "moves.hpp"
#include <bwsl/Approx.hpp>
#include <bwsl/EnumString.hpp>
#include <bwsl/FileUtils.hpp>
#include <bwsl/HistAccumulator.hpp>
#include <bwsl/LinSpace.hpp>
#include <bwsl/LogSpace.hpp>
#include <bwsl/MathUtils.hpp>
#include <bwsl/MonteCarloUtils.hpp>
#include <bwsl/ObservableGroup.hpp>
#include <bwsl/Pairs.hpp>
#include <bwsl/RNGUtils.hpp>
#include "rational.hpp"
namespace bwslv {
BWSL_DEFINE_ENUM_WITH_STRING_CONVERSIONS(Os, (Linux)(Apple)(Windows))
#define Q1(a) r.push_back((double)(a).Count()); r.push_back((double)(a).Sum());
#define Q2(a) Q1(a) if ((a).Count() > 0) r.push_back((a).Mean());
#define Q3(a) Q2(a) r.push_back((a).ScaledVariance()); r.push_back((a).Variance(true)); r.push_back((a).Variance(false)); r.push_back((a).StandardDeviation(true)); r.push_back((a).StandardDeviation(false));
#define Q5(a) Q3(a) r.push_back((a).Error(true)); r.push_back((a).Error(false));
#define Q4(a) Q2(a) r.push_back((a).PopulationVariance()); r.push_back((a).SampleFrequencyVariance()); r.push_back((a).SampleReliabilityVariance());
// queries leave the object alone, and give the same answer again
#define CLASS(NAME, CLS, ARGS, DECL, Q, ADD, PRE) \
struct C38_##NAME##query { \
  static bool pre(CLS& a) { return PRE; } \
  static vd impl(CLS& a) { vd r; Q(a) Q(a) return r; } \
  static vd spec(CLS& a) { vd r; { CLS c(a); Q(c) } { CLS c(a); Q(c) } return r; } }; \
struct C38_##NAME##untouched { \
  static bool pre(CLS& a) { return PRE; } \
  static void impl(CLS& a) { vd r; Q(a) } \
  static void spec(CLS& a) { } }; \
/* copies go their own way */ \
struct C38_##NAME##copy { \
  static bool pre(CLS a, CLS z, DECL) { return PRE; } \
  static vd impl(CLS a, CLS z, DECL) { CLS b(a); CLS c(z); c = a; ADD(b) ADD(c) ADD(c) vd r; Q(a) return r; } \
  static vd spec(CLS a, CLS z, DECL) { vd r; Q(a) return r; } }; \
struct C38_##NAME##original { \
  static bool pre(CLS a, CLS z, DECL) { return PRE; } \
  static vd impl(CLS a, CLS z, DECL) { CLS b(a); z = a; ADD(a) a.Reset(); ADD(a) vd r; Q(b) Q(z) return r; } \
  static vd spec(CLS a, CLS z, DECL) { vd r; Q(a) Q(a) return r; } }; \
struct C38_##NAME##pair { \
  static bool pre(CLS a, CLS z, DECL) { return PRE; } \
  static vd impl(CLS a, CLS z, DECL) { CLS b(a); ADD(a) ADD(b) vd r; Q(b) Q(a) return r; } \
  static vd spec(CLS a, CLS z, DECL) { ADD(a) vd r; Q(a) Q(a) return r; } }; \
struct C38_##NAME##two { \
  static vd impl(DECL) { CLS a; CLS b; ADD(a) ADD(b) ADD(a) vd r; Q(b) return r; } \
  static vd spec(DECL) { CLS b; ADD(b) vd r; Q(b) return r; } };
#define ADDX(a) a.Add(x);
#define ADDXW(a) a.Add(x, w);
#define NOPRE true
CLASS(kahan, KAHAN, 1, double x, Q2, ADDX, NOPRE)
CLASS(neum, NEUM, 1, double x, Q2, ADDX, NOPRE)
CLASS(knuth, KNUTH, 1, double x, Q5, ADDX, NOPRE)
CLASS(naive, NAIVE, 1, long x, Q3, ADDX, NOPRE)
struct C38_west_query { static vd impl(WEST& a) { vd r; Q4(a) Q4(a) return r; } static vd spec(WEST& a) { vd r; { WEST c(a); Q4(c) } { WEST c(a); Q4(c) } return r; } };
struct C38_west_untouched { static void impl(WEST& a) { vd r; Q4(a) } static void spec(WEST& a) {} };
struct C38_west_copy { static vd impl(WEST a, WEST z, double x, double w) { WEST b(a); z = a; ADDXW(b) ADDXW(z) vd r; Q4(a) return r; } static vd spec(WEST a, WEST z, double x, double w) { vd r; Q4(a) return r; } };
struct C38_west_original { static vd impl(WEST a, WEST z, double x, double w) { WEST b(a); z = a; ADDXW(a) vd r; Q4(b) Q4(z) return r; } static vd spec(WEST a, WEST z, double x, double w) { vd r; Q4(a) Q4(a) return r; } };

#define H bwsl::HistAccumulator
#define QH(h) r.push_back((double)(h).GetNbins()); r.push_back((double)(h).GetCount()); r.push_back((double)(h).GetCount(k)); r.push_back((h).GetResult(k)); { auto v = (h).GetResults(); r.push_back((double)v.size()); r.push_back(v[k]); }
struct C38_hist_query {
  static bool pre(std::size_t n, std::size_t i, double x, std::size_t k) { return i < n && k < n && n < (1UL << 40); }
  static vd impl(std::size_t n, std::size_t i, double x, std::size_t k) { H h(n); h.Add(i, x); vd r; QH(h) auto v = h.GetResults(i); QH(h) return r; }
  static vd spec(std::size_t n, std::size_t i, double x, std::size_t k) { H h(n); h.Add(i, x); vd r; QH(h) H g(n); g.Add(i, x); QH(g) return r; } };
struct C38_hist_copy {
  static bool pre(std::size_t n, std::size_t i, double x, double y, std::size_t k) { return i < n && k < n && n < (1UL << 40); }
  static vd impl(std::size_t n, std::size_t i, double x, double y, std::size_t k) { H h(n); h.Add(i, x); H g(h); g.Add(i, y); H f; f = h; f.Reset(); f.ForceAdd(n, y); vd r; QH(h) return r; }
  static vd spec(std::size_t n, std::size_t i, double x, double y, std::size_t k) { H h(n); h.Add(i, x); vd r; QH(h) return r; } };
struct C38_hist_original {
  static bool pre(std::size_t n, std::size_t i, double x, double y, std::size_t k) { return i < n && k < n && n < (1UL << 40); }
  static vd impl(std::size_t n, std::size_t i, double x, double y, std::size_t k) { H h(n); h.Add(i, x); H g(h); H f; f = h; h.Add(i, y); h.Reset(); vd r; QH(g) QH(f) return r; }
  static vd spec(std::size_t n, std::size_t i, double x, double y, std::size_t k) { H h(n); h.Add(i, x); vd r; QH(h) QH(h) return r; } };

#define OG bwsl::ObservableGroup<int>
inline void line(std::ofstream& s, double x, double y, int n) { fmt::print(s, "{:.{}e},{:.{}e},{}\n", x, 10UL, y, 10UL, n); }
struct C38_group_copy {
  static bool pre(std::string f, double x, double y) { return true; }
  static void impl(std::string f, double x, double y) { OG g(f, std::vector<int>{ 1, 2 }); g.Measure(1, x); g.Measure(2, y); OG h(g); OG k; k = g; h.Measure(1, y); h.Measure(2, x); k.Measure(2, x); k.Measure(1, x); g.PrintAndReset(); h.PrintAndReset(); }
  static void spec(std::string f, double x, double y) { std::ofstream s(f, std::ios::app); line(s, x, y, 1); line(s, (x + y) / 2, (x + y) / 2, 2); } };
struct C38_group_headers {
  static void impl(std::string f, double x) { OG g(f, std::vector<int>{ 1, 2 }); g.Measure(1, x); g.Measure(2, x); g.PrintHeaders(); g.PrintAndReset(); }
  static void spec(std::string f, double x) { std::ofstream s(f, std::ios::trunc); fmt::print(s, "1,2,Count\n"); line(s, x, x, 1); } };

#define MS bwsl::montecarlo::MoveStats
#define MR bwsl::montecarlo::MoveResult
inline vd show(MS const& m) { return vd{ m.GetAcceptedRatio(), m.GetRejectedRatio(), m.GetImpossibleRatio(), m.GetAverageProbability() }; }
struct C38_moves_query {
  static void impl(MS& m) { auto a = show(m); auto b = m.GetName(); std::ostringstream s; s << m; }
  static void spec(MS& m) { } };
struct C38_moves_copy {
  static vd impl(double p, double q) { MS m("x"); m.Propose(); m.Accept(p); MS n(m); MS k("y"); k = m; n.Propose(); n.Reject(q); k.Propose(); k.Impossible(); n.Reset(); return show(m); }
  static vd spec(double p, double q) { return vd{ 1, 0, 0, p }; } };
struct C38_moves_original {
  static std::pair<vd, std::string> impl(double p, double q) { MS m("x"); m.Propose(); m.Accept(p); MS n(m); m.Propose(); m.Reject(q); return std::make_pair(show(n), n.GetName()); }
  static std::pair<vd, std::string> spec(double p, double q) { return std::make_pair(vd{ 1, 0, 0, p }, std::string("x")); } };
struct C38_moves_pending {
  static bool impl(double p) { MS m("x"); m.Propose(); MS n(m); m.Accept(p); n.Reject(p); m.Propose(); n.Propose(); return true; }
  static bool spec(double p) { return true; } };
struct C38_result_query {
  static bool pre(int s, double p) { return s >= 1 && s <= 3; }
  static vd impl(int s, double p) { MR r = s == 1 ? MR::Accept(p) : s == 2 ? MR::Reject(p) : MR::Impossible(); MR c(r); bool a = c.IsAccepted(), b = c.IsRejected(), d = c.IsImpossible(); auto t = c.GetStatus(); return vd{ r.Probability(), c.Probability(), (double)(c.GetStatus() == r.GetStatus()), (double)(c.IsAccepted() == a && c.IsRejected() == b && c.IsImpossible() == d) }; }
  static vd spec(int s, double p) { double q = s == 3 ? 0.0 : p; return vd{ q, q, 1, 1 }; } };

#define R bwsl::RationalNum<T>
template<class T> struct C38_rational {
  static bool pre(R& a, R& b, T i) { return a.GetDen() > 0 && b.GetDen() > 0 && b.GetNum() != 0 && i != 0 && a.GetDen() < 8192 && b.GetDen() < 8192 && a.GetNum() < 8192 && a.GetNum() > -8192 && b.GetNum() < 8192 && b.GetNum() > -8192 && i > -8192 && i < 8192; }
  static void impl(R& a, R& b, T i) { auto x = (double)a; auto y = (T)a; auto z = a.IsInt(); auto n = a.GetNum() + a.GetDen(); bool q = a < b || a == b || a > i || i <= b; std::ostringstream s; s << a << b; auto t = ToString(a); auto u = a + b; u = a - i; u = i * b; u = i / b; u = a / b; }
  static void spec(R& a, R& b, T i) { } };
template<class T> struct C38_rationalcopy {
  static bool pre(T n, T d, T k) { return n > -8192 && n < 8192 && d > 0 && d < 8192 && k > 0 && k < 8192; }
  static std::array<T, 2> impl(T n, T d, T k) { R a(n, d); R b(a); R c; c = a; b = b + k; c = R(k, 1); b.Simplify(); return std::array<T, 2>{ a.GetNum(), a.GetDen() }; }
  static std::array<T, 2> spec(T n, T d, T k) { R a(n, d); return std::array<T, 2>{ a.GetNum(), a.GetDen() }; } };
template struct C38_rational<long>; template struct C38_rational<int>; template struct C38_rationalcopy<long>; template struct C38_rationalcopy<int>;

#define LIN bwsl::LinSpace<double>
#define LOG bwsl::LogSpace<double>
#define SPACE(NAME, S, PRE) \
struct C38_##NAME##query { \
  static bool pre(double a, double b, std::size_t n, std::size_t k) { return PRE && a < b && n > 0 && n < (1UL << 40) && k < (1UL << 40); } \
  static double impl(double a, double b, std::size_t n, std::size_t k) { S s(a, b, n); ++s; auto x = s.begin(); auto y = s.end(); auto v = s.Collect(k); auto z = *s; bool q = x == y || s != x; ++x; ++y; return *s; } \
  static double spec(double a, double b, std::size_t n, std::size_t k) { S s(a, b, n); ++s; return *s; } }; \
struct C38_##NAME##copy { \
  static bool pre(double a, double b, std::size_t n) { return PRE && a < b && n > 0 && n < (1UL << 40); } \
  static std::array<double, 3> impl(double a, double b, std::size_t n) { S s(a, b, n); S t(s); ++s; ++s; S u = s; u(); S w(a, b, n); w = u; ++w; return std::array<double, 3>{ *t, *s, *u }; } \
  static std::array<double, 3> spec(double a, double b, std::size_t n) { S s(a, b, n); double x = *s; ++s; ++s; double y = *s; ++s; return std::array<double, 3>{ x, y, *s }; } };
SPACE(lin, LIN, true) SPACE(log, LOG, a > 0)

#define APPROX bwsl::Approx
struct C38_approx {
  static int impl(double v, double x, double e, double f) { APPROX a(v); a.SetAbs(e); APPROX b(a); b.SetRel(f); bool q = a == x || x == a || a < x || x < a || a <= x || x <= a || a > x || x > a || a >= x || x >= a || a != x || x != a; return (a == x) + 2 * (x <= a); }
  static int spec(double v, double x, double e, double f) { APPROX a(v); a.SetAbs(e); return (a == x) + 2 * (x <= a); } };

#define GRID bwsl::HyperCubicGrid
#define QG(g) { auto c = g.GetCoordinates(i); auto j = g.GetIndex(c); auto d = c; g.EnforceBoundaries(d); bool b = g.IsOnGrid(c) && g.IndexIsValid(i) && g.HasOpenBoundaries() && g.HasClosedBoundaries(); auto z = g.GetSize(); auto y = g.GetJump(i, j); auto p = g.GetPairIndex(i, j); auto q = g.GetIndividualIndices(p); auto m = g.GetMappedSite(i, j); auto u = g.GetUnMappedSite(i, j); auto w = g.GetGrid(); auto n = g.GetNumSites() + g.GetDim(); }
template<std::size_t D> struct C38_grid_query {
  static bool pre(asz<D> L, bool o, std::size_t i) { return sizes_ok(L) && i < volume(L) && volume(L) < (1UL << 40); }
  static GRID impl(asz<D> L, bool o, std::size_t i) { GRID g(to_vec(L), o ? GRID::boundaries_t::Open : GRID::boundaries_t::Closed); QG(g) return g; }
  static GRID spec(asz<D> L, bool o, std::size_t i) { GRID g(to_vec(L), o ? GRID::boundaries_t::Open : GRID::boundaries_t::Closed); return g; } };
template<std::size_t D> struct C38_grid_copy {
  static bool pre(asz<D> L, asz<D> M, bool o) { return sizes_ok(L) && sizes_ok(M); }
  static GRID impl(asz<D> L, asz<D> M, bool o) { GRID g(to_vec(L), GRID::boundaries_t::Open); GRID h(g); GRID k; k = g; h = GRID(to_vec(M), GRID::boundaries_t::Closed); g = h; return k; }
  static GRID spec(asz<D> L, asz<D> M, bool o) { GRID g(to_vec(L), GRID::boundaries_t::Open); return g; } };
template struct C38_grid_query<1>; template struct C38_grid_query<2>; template struct C38_grid_copy<1>; template struct C38_grid_copy<2>; template struct C38_grid_copy<3>;

#define BR bwsl::Bravais
template<std::size_t D> struct C38_bravais {
  static BR impl(mat P, mat Q, al<D> c, al<D> d, std::array<double, D> x) { al<D> nb = c; auto b = basis<D>(P, Q, nb); auto v = b.GetRealSpace(to_vec(c)); v[0] = 0; auto i = b.GetInverseVector(to_vec(x)); auto k = b.GetReciprocalSpace(to_vec(c)); auto w = b.GetVector(to_vec(c), to_vec(d)); auto e = b.GetDistance(to_vec(c), to_vec(d)); auto n = b.GetNeighbor(to_vec(c), 0); n[0] = 7; BR o(b); o = BR(1, 2, vd{ 1 }, vd{ 1 }, vl{ 1 }); return b; }
  static BR spec(mat P, mat Q, al<D> c, al<D> d, std::array<double, D> x) { al<D> nb = c; return basis<D>(P, Q, nb); } };
template struct C38_bravais<1>; template struct C38_bravais<2>;

#define LATT bwsl::Lattice
struct C38_lattice_query {
  enum { argmin = 1 };
  static bool pre(bool o, std::size_t i, std::size_t j, double s) { return i < 3 && j < 3; }
  static LATT impl(bool o, std::size_t i, std::size_t j, double s) { LATT l(BR(1, 2, vd{ 1 }, vd{ 1 }, vl{ 1 }), vsz{ 3 }, o ? GRID::boundaries_t::Open : GRID::boundaries_t::Closed);
    auto p = l.GetPosition(i); p[0] = s; auto v = l.GetVector(i, j); v[0] = s; auto d = l.GetDistance(i, j); auto w = l.GetWinding(vl{ 3 }); auto n = l.GetNeighbors(i); n.push_back(j); bool b = l.AreNeighbors(i, j); auto c = l.GetCoordination(i) + l.GetCoordination(); if (!o) { auto m = l.GetMomentum(i); m[0] = s; } auto k = l.ComputeSk(vd{ s, s, 1 }); vd acc(3, 0.0); l.AccumulateSk(vd{ s, 1, 1 }, acc); LATT q(l); q = LATT(); return l; }
  static LATT spec(bool o, std::size_t i, std::size_t j, double s) { return LATT(BR(1, 2, vd{ 1 }, vd{ 1 }, vl{ 1 }), vsz{ 3 }, o ? GRID::boundaries_t::Open : GRID::boundaries_t::Closed); } };
struct C38_choice {
  static std::pair<vd, double> impl(vd w, double p) { std::mt19937_64 r(1); vd x = w; if (w.size() > 0 && w.size() < 4) { bool b = bwsl::choose_with_probability(p, r); } return std::make_pair(w, x.size() > 0 ? 1.0 : 0.0); }
  static std::pair<vd, double> spec(vd w, double p) { return std::make_pair(w, w.size() > 0 ? 1.0 : 0.0); } };
// histories (history.hpp)
HOBS(C38, kahanhistory, HKahan, 1)
HADDS(C38_kahanhistory) HCOPIES(C38_kahanhistory)
HOBS(C38, neumaierhistory, HNeum, 1)
HADDS(C38_neumaierhistory) HCOPIES(C38_neumaierhistory)
HOBS(C38, knuthhistory, HKnuth, 0)
HADDS(C38_knuthhistory) HCOPIES(C38_knuthhistory)
HOBS(C38, naivehistory, HNaive, 0)
HADDS(C38_naivehistory) HCOPIES(C38_naivehistory)
HOBS(C38, westhistory, HWest, 0)
HADDS(C38_westhistory) HCOPIES(C38_westhistory)
// histories of move statistics (moves.hpp)
MHOBS(C38_moveshistory)
MCOPY(C38_moveshistory)
}
