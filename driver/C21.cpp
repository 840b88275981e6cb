#include "common.hpp"
#include "archive.hpp"
#include <bwsl/HistAccumulator.hpp>
namespace bwslv {
#define H bwsl::HistAccumulator
// a model histogram: sum and count of every bin
inline double sum2(std::size_t k, std::size_t i, double x, std::size_t j, double y, std::size_t l, double z) { return (i == k ? x : 0.0) + (j == k ? y : 0.0) + (l == k ? z : 0.0); }
inline std::size_t cnt3(std::size_t k, std::size_t i, std::size_t j, std::size_t l) { return (std::size_t)((i == k) + (j == k) + (l == k)); }
struct C21_fresh {
  static bool pre(std::size_t n, std::size_t k) { return k < n && n < (1UL << 40); }
  static vd impl(std::size_t n, std::size_t k) { H h(n); return vd{ (double)h.GetNbins(), (double)h.GetCount(), (double)h.GetCount(k), h.GetResult(k), (double)h.GetResults().size(), h.GetResults()[k] }; }
  static vd spec(std::size_t n, std::size_t k) { return vd{ (double)n, 0, 0, 0, (double)n, 0 }; } };
struct C21_default {
  static vd impl(int) { H h; return vd{ (double)h.GetNbins(), (double)h.GetCount(), (double)h.GetResults().size() }; }
  static vd spec(int) { return vd{ 0, 0, 0 }; } };
struct C21_add {
  static bool pre(std::size_t n, std::size_t i, double x, std::size_t k) { return i < n && k < n && n < (1UL << 40); }
  static vd impl(std::size_t n, std::size_t i, double x, std::size_t k) { H h(n); h.Add(i, x); return vd{ (double)h.GetNbins(), (double)h.GetCount(), (double)h.GetCount(k), h.GetResult(k), (double)h.GetResults().size(), h.GetResults()[k] }; }
  static vd spec(std::size_t n, std::size_t i, double x, std::size_t k) { return vd{ (double)n, 1, i == k ? 1.0 : 0.0, i == k ? x : 0.0, (double)n, i == k ? x : 0.0 }; } };
struct C21_add3 {
  static bool pre(std::size_t n, std::size_t i, double x, std::size_t j, double y, std::size_t l, double z, std::size_t k) { return i < n && j < n && l < n && k < n && n < (1UL << 40); }
  static vd impl(std::size_t n, std::size_t i, double x, std::size_t j, double y, std::size_t l, double z, std::size_t k) { H h(n); h.Add(i, x); h.Add(j, y); h.Add(l, z); return vd{ (double)h.GetNbins(), (double)h.GetCount(), (double)h.GetCount(k), h.GetResult(k) }; }
  static vd spec(std::size_t n, std::size_t i, double x, std::size_t j, double y, std::size_t l, double z, std::size_t k) { return vd{ (double)n, 3, (double)cnt3(k, i, j, l), sum2(k, i, x, j, y, l, z) / 3.0 }; } };
struct C21_results {
  static bool pre(std::size_t n, std::size_t i, double x, std::size_t j, double y, std::size_t k) { return i < n && j < n && k < n && n < (1UL << 40); }
  static vd impl(std::size_t n, std::size_t i, double x, std::size_t j, double y, std::size_t k) { H h(n); h.Add(i, x); h.Add(j, y); auto r = h.GetResults(); return vd{ (double)r.size(), r[k] }; }
  static vd spec(std::size_t n, std::size_t i, double x, std::size_t j, double y, std::size_t k) { return vd{ (double)n, sum2(k, i, x, j, y, n, 0) / 2.0 }; } };
struct C21_normalised {
  static bool pre(std::size_t n, std::size_t i, double x, std::size_t j, double y, std::size_t k) { return i < n && j < n && k < n && i != j && x > 0 && y > 0 && n < (1UL << 40); }
  static vd impl(std::size_t n, std::size_t i, double x, std::size_t j, double y, std::size_t k) { H h(n); h.Add(i, x); h.Add(j, y); auto r = h.GetResults(i); return vd{ (double)r.size(), r[k] }; }
  static vd spec(std::size_t n, std::size_t i, double x, std::size_t j, double y, std::size_t k) { return vd{ (double)n, sum2(k, i, x, j, y, n, 0) / x }; } };
// all bins of a small histogram, every normalisation bin
template<std::size_t N> struct C21_small {
  static bool pre(std::array<double, N> x, std::array<double, N> y, std::size_t i) { bool r = i < N; for (auto v : x) r = r && v > 0; for (auto v : y) r = r && v > 0; return r; }
  static vd impl(std::array<double, N> x, std::array<double, N> y, std::size_t i) { H h(N); for (std::size_t k = 0; k < N; k++) { h.Add(k, x[k]); h.Add(k, y[k]); } vd r = h.GetResults(); for (auto v : h.GetResults(i)) r.push_back(v); return r; }
  static vd spec(std::array<double, N> x, std::array<double, N> y, std::size_t i) { vd r; for (std::size_t k = 0; k < N; k++) r.push_back((x[k] + y[k]) / (2.0 * N)); for (std::size_t k = 0; k < N; k++) r.push_back((x[k] + y[k]) / (x[i] + y[i])); return r; } };
template struct C21_small<1>; template struct C21_small<2>; template struct C21_small<3>;
// many measurements in one bin
struct C21_manybins {
  static bool pre(std::size_t n, double x, double y) { return n > 0 && n < (1UL << 40) && y > 0; }
  static vd impl(std::size_t n, double x, double y) { H h(2); for (std::size_t k = 0; k < n; k++) h.Add(0, x); h.Add(1, y); auto r = h.GetResults(), q = h.GetResults(1); return vd{ (double)h.GetCount(), (double)h.GetCount(0), h.GetResult(0), h.GetResult(1), r[0], r[1], q[0], q[1] }; }
  static vd spec(std::size_t n, double x, double y) { double m = (double)n + 1; return vd{ m, (double)n, x * n / m, y / m, x * n / m, y / m, x * n / y, 1 }; } };
struct C21_manyforce {
  static bool pre(std::size_t n, double x, double y) { return n > 0 && n < (1UL << 40); }
  static vd impl(std::size_t n, double x, double y) { H h; for (std::size_t k = 0; k < n; k++) h.ForceAdd(1, x); h.ForceAdd(2, y); return vd{ (double)h.GetNbins(), (double)h.GetCount(), (double)h.GetCount(1), h.GetResult(0), h.GetResult(1), h.GetResult(2) }; }
  static vd spec(std::size_t n, double x, double y) { double m = (double)n + 1; return vd{ 3, m, (double)n, 0, x * n / m, y / m }; } };
struct C21_unit {
  static bool pre(std::size_t n, std::size_t i, std::size_t k) { return i < n && k < n && n < (1UL << 40); }
  static vd impl(std::size_t n, std::size_t i, std::size_t k) { H h(n); h.Add(i); h.ForceAdd(i); return vd{ (double)h.GetNbins(), (double)h.GetCount(), (double)h.GetCount(k), h.GetResult(k) }; }
  static vd spec(std::size_t n, std::size_t i, std::size_t k) { return vd{ (double)n, 2, i == k ? 2.0 : 0.0, i == k ? 1.0 : 0.0 }; } };
// an integer measurement is added with its value
struct C21_integer {
  static bool pre(std::size_t n, std::size_t i, long x, std::size_t k) { return i < n && k < n && n < (1UL << 40) && x > -(1L << 50) && x < (1L << 50); }
  static vd impl(std::size_t n, std::size_t i, long x, std::size_t k) { H h(n); h.Add(i, x); h.ForceAdd(i, x); return vd{ (double)h.GetCount(k), h.GetResult(k) }; }
  static vd spec(std::size_t n, std::size_t i, long x, std::size_t k) { return vd{ i == k ? 2.0 : 0.0, i == k ? (double)x : 0.0 }; } };
struct C21_force {
  static bool pre(std::size_t n, std::size_t i, double x, std::size_t k) { return n < (1UL << 40) && i < (1UL << 40) && k < (n > i ? n : i + 1); }
  static vd impl(std::size_t n, std::size_t i, double x, std::size_t k) { H h(n); h.ForceAdd(i, x); return vd{ (double)h.GetNbins(), (double)h.GetCount(), (double)h.GetCount(k), h.GetResult(k), (double)h.GetResults().size() }; }
  static vd spec(std::size_t n, std::size_t i, double x, std::size_t k) { std::size_t m = n > i ? n : i + 1; return vd{ (double)m, 1, i == k ? 1.0 : 0.0, i == k ? x : 0.0, (double)m }; } };
struct C21_force2 {
  static bool pre(std::size_t n, std::size_t i, double x, std::size_t j, double y, std::size_t k) { std::size_t m = n > i ? n : i + 1; return n <= i && i < (1UL << 40) && j < (1UL << 40) && k < (m > j ? m : j + 1); }
  static vd impl(std::size_t n, std::size_t i, double x, std::size_t j, double y, std::size_t k) { H h(n); h.ForceAdd(i, x); h.ForceAdd(j, y); return vd{ (double)h.GetNbins(), (double)h.GetCount(), (double)h.GetCount(k), h.GetResult(k) }; }
  static vd spec(std::size_t n, std::size_t i, double x, std::size_t j, double y, std::size_t k) { std::size_t m = n > i ? n : i + 1; return vd{ (double)(m > j ? m : j + 1), 2, (double)cnt3(k, i, j, k + 1), sum2(k, i, x, j, y, k + 1, 0) / 2.0 }; } };
struct C21_grow {
  static bool pre(std::size_t n, std::size_t m, std::size_t i, double x, std::size_t k) { return i < n && n < (1UL << 40) && m < (1UL << 40) && k < m && i < m; }
  static vd impl(std::size_t n, std::size_t m, std::size_t i, double x, std::size_t k) { H h(n); h.Add(i, x); h.Resize(m); return vd{ (double)h.GetNbins(), (double)h.GetCount(), (double)h.GetCount(k), h.GetResult(k), (double)h.GetResults().size() }; }
  static vd spec(std::size_t n, std::size_t m, std::size_t i, double x, std::size_t k) { return vd{ (double)m, 1, i == k ? 1.0 : 0.0, i == k ? x : 0.0, (double)m }; } };
struct C21_resizeadd {
  static bool pre(std::size_t n, std::size_t m, std::size_t i, double x, std::size_t j, double y, std::size_t k) { return i < n && j < m && n < (1UL << 40) && m < (1UL << 40) && k < m && i < m; }
  static vd impl(std::size_t n, std::size_t m, std::size_t i, double x, std::size_t j, double y, std::size_t k) { H h(n); h.Add(i, x); h.Resize(m); h.Add(j, y); return vd{ (double)h.GetNbins(), (double)h.GetCount(), (double)h.GetCount(k), h.GetResult(k) }; }
  static vd spec(std::size_t n, std::size_t m, std::size_t i, double x, std::size_t j, double y, std::size_t k) { return vd{ (double)m, 2, (double)cnt3(k, i, j, m), sum2(k, i, x, j, y, m, 0) / 2.0 }; } };
struct C21_reset {
  static bool pre(std::size_t n, std::size_t i, double x, std::size_t j, double y, std::size_t k) { return i < n && j < n && k < n && n < (1UL << 40); }
  static vd impl(std::size_t n, std::size_t i, double x, std::size_t j, double y, std::size_t k) { H h(n); h.Add(i, x); h.Reset(); vd r{ (double)h.GetNbins(), (double)h.GetCount(), (double)h.GetCount(k), h.GetResult(k) }; h.Add(j, y); r.push_back((double)h.GetNbins()); r.push_back((double)h.GetCount()); r.push_back((double)h.GetCount(k)); r.push_back(h.GetResult(k)); return r; }
  static vd spec(std::size_t n, std::size_t i, double x, std::size_t j, double y, std::size_t k) { return vd{ (double)n, 0, 0, 0, (double)n, 1, j == k ? 1.0 : 0.0, j == k ? y : 0.0 }; } };
// any number of additions to the same bin
struct C21_many {
  static bool pre(std::size_t n, std::size_t i, vd x, std::size_t k) { return i < n && k < n && n < (1UL << 40) && x.size() > 0; }
  static vd impl(std::size_t n, std::size_t i, vd x, std::size_t k) { H h(n); for (std::size_t t = 0; t < x.size(); t++) h.Add(i, x[t]); return vd{ (double)h.GetCount(), (double)h.GetCount(k), h.GetResult(k) }; }
  static vd spec(std::size_t n, std::size_t i, vd x, std::size_t k) { double s = 0; for (std::size_t t = 0; t < x.size(); t++) s += x[t]; return vd{ (double)x.size(), i == k ? (double)x.size() : 0.0, i == k ? s / (double)x.size() : 0.0 }; } };
struct C21_copy {
  static bool pre(std::size_t n, std::size_t i, double x, std::size_t j, double y, std::size_t k) { return i < n && j < n && k < n && n < (1UL << 40); }
  static vd impl(std::size_t n, std::size_t i, double x, std::size_t j, double y, std::size_t k) { H h(n); h.Add(i, x); H g(h); g.Add(j, y); return vd{ (double)h.GetCount(), (double)h.GetCount(k), h.GetResult(k), (double)g.GetCount(), g.GetResult(k) }; }
  static vd spec(std::size_t n, std::size_t i, double x, std::size_t j, double y, std::size_t k) { return vd{ 1, i == k ? 1.0 : 0.0, i == k ? x : 0.0, 2, sum2(k, i, x, j, y, n, 0) / 2.0 }; } };
// histories over two histograms of two bins: what a reports at the end follows from the measurements it holds alone
// 0 1 2: add to the bin, F: force-add to bin 4, f: force-add to bin 1, s: resize to 1, L: resize to 3, Q q: ask (in reverse order),
// R reset, B: add to bin 1 of b, P ask b, D a = b, K change a copy, X load a from the archive of b
#define HASK r.push_back((double)h.GetNbins()); r.push_back((double)h.GetCount()); for (std::size_t k = 0; k < h.GetNbins(); k++) { r.push_back((double)h.GetCount(k)); r.push_back(h.GetResult(k)); }
#define HRES for (auto v : h.GetResults()) r.push_back(v);
#define HNRM for (std::size_t k = 0; k < h.GetNbins(); k++) if (h.GetCount(k) > 0) for (auto v : h.GetResults(k)) r.push_back(v);
inline void hask(H const& h, vd& r) { HASK HRES HNRM }
inline void hback(H const& h, vd& r) { HNRM HRES HASK }
struct HModel { vd sum{ 0, 0 }; vd cnt{ 0, 0 }; double n = 0; };
inline void hsize(HModel& m, std::size_t n) { while (m.sum.size() > n) { m.sum.pop_back(); m.cnt.pop_back(); } while (m.sum.size() < n) { m.sum.push_back(0); m.cnt.push_back(0); } }
inline void hadd(HModel& m, std::size_t i, double x) { if (m.sum.size() <= i) hsize(m, i + 1); m.sum[i] += x; m.cnt[i] += 1; m.n += 1; }
inline void hshow(HModel const& m, vd& r)
{
  r.push_back((double)m.sum.size()); r.push_back(m.n);
  for (std::size_t k = 0; k < m.sum.size(); k++) { r.push_back(m.cnt[k]); r.push_back(m.cnt[k] > 0 ? m.sum[k] / m.n : 0.0); }
  for (std::size_t k = 0; k < m.sum.size(); k++) r.push_back(m.cnt[k] > 0 ? m.sum[k] / m.n : 0.0);
  for (std::size_t j = 0; j < m.sum.size(); j++) if (m.cnt[j] > 0) for (std::size_t k = 0; k < m.sum.size(); k++) r.push_back(m.cnt[k] > 0 ? m.sum[k] / m.sum[j] : 0.0);
}
inline void hop(char o, H& a, H& b, vd const& x, std::size_t& k, vd& log)
{
  if (o == '0') { a.Add(0, x[k]); k++; }
  if (o == '1') { a.Add(1, x[k]); k++; }
  if (o == '2') { a.Add(2, x[k]); k++; }
  if (o == 'F') { a.ForceAdd(4, x[k]); k++; }
  if (o == 'f') { a.ForceAdd(1, x[k]); k++; }
  if (o == 'B') { b.Add(1, x[k]); k++; }
  if (o == 's') a.Resize(1);
  if (o == 'L') a.Resize(3);
  if (o == 'Q') hask(a, log);
  if (o == 'q') hback(a, log);
  if (o == 'P') hask(b, log);
  if (o == 'R') a.Reset();
  if (o == 'D') a = b;
  if (o == 'K') { H c(a); c.Add(0, x[0]); hask(c, log); c.Resize(5); c.Reset(); }
  if (o == 'X') { Tape t = store(b); restore(t, a); }
}
inline void mop(char o, HModel& a, HModel& b, vd const& x, std::size_t& k)
{
  if (o == '0' || o == '1' || o == '2') { hadd(a, (std::size_t)(o - '0'), x[k]); k++; }
  if (o == 'F') { hadd(a, 4, x[k]); k++; }
  if (o == 'f') { hadd(a, 1, x[k]); k++; }
  if (o == 'B') { hadd(b, 1, x[k]); k++; }
  if (o == 's') hsize(a, 1);
  if (o == 'L') hsize(a, 3);
  if (o == 'R') { for (auto& v : a.sum) v = 0; for (auto& v : a.cnt) v = 0; a.n = 0; }
  if (o == 'D' || o == 'X') a = b;
}
template<char... O> struct C21_history {
  static bool pre(double x0, double x1, double x2, double x3, double x4, double x5) { return x0 > 0 && x1 > 0 && x2 > 0 && x3 > 0 && x4 > 0 && x5 > 0; }
  static vd impl(double x0, double x1, double x2, double x3, double x4, double x5) { H a(2), b(2); vd x{ x0, x1, x2, x3, x4, x5 }; std::size_t k = 0; vd log; (hop(O, a, b, x, k, log), ...); vd r; hask(a, r); return r; }
  static vd spec(double x0, double x1, double x2, double x3, double x4, double x5) { HModel u, v; vd x{ x0, x1, x2, x3, x4, x5 }; std::size_t k = 0; (mop(O, u, v, x, k), ...); vd r; hshow(u, r); return r; } };
#define HH(...) template struct C21_history<__VA_ARGS__>;
HH('0', 'Q', '1') HH('0', '1', 'Q', 'R', '1', '1') HH('0', '1', 'q', 'R', '0', '0') HH('0', '1', 'Q', '0') HH('0', '1', 'q', 'F') HH('F', 'Q', '0') HH('F', 's', '0') HH('F', 'Q', 's', '0') HH('1', 'Q', 's', 'L') HH('1', 's', 'f') HH('1', '0', 's', 'L', '2')
HH('0', 'L', '2') HH('0', 'Q', 'L', '2') HH('0', 'L', 'Q', 'R', '2') HH('F', 'R', '1') HH('F', 'Q', 'R', 'F') HH('F', 'R', 'Q') HH('0', 'K', '1') HH('0', 'Q', 'K') HH('0', 'Q', 'B', 'B', 'D') HH('0', 'B', 'P', 'D', '0') HH('0', '1', 'Q', 'B', 'B', 'P', 'D', '1') HH('F', 'Q', 'B', 'D', 'f')
HH('0', 'Q', 'B', 'X', '0') HH('0', '1', 'Q', 'B', 'B', 'P', 'X', '1') HH('F', 'Q', 'B', 'X') HH('F', 's', 'R', '0', 'F') HH('0', 'R', 'Q', 'R', '1') HH('f', 'f', 'Q', 's', 'f')
}
