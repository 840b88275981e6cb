#include "bravais.hpp"
namespace bwslv {
// direct and dual basis are inverse of each other, so that periods do not change the phases
inline bwsl::Lattice chain(double p, std::size_t n, bool open) { return bwsl::Lattice(bwsl::Bravais(1, 0, vd{ p }, vd{ 1 / p }, vl{}), vsz{ n }, open ? G::boundaries_t::Open : G::boundaries_t::Closed); }
inline bwsl::Lattice plane(double p, double q, asz<2> const& L, bool open) { return bwsl::Lattice(bwsl::Bravais(2, 0, vd{ p, 0, 0, q }, vd{ 1 / p, 0, 0, 1 / q }, vl{}), vsz{ L[0], L[1] }, open ? G::boundaries_t::Open : G::boundaries_t::Closed); }
template<class T> double sk(bwsl::Lattice const& l, std::vector<T> const& n, double mult, std::size_t i, std::size_t D)
{
  auto k = l.GetMomentum(i);
  double re = 0, im = 0;
  for (std::size_t j = 0; j < l.GetNumSites(); j++) {
    auto x = l.GetVector(0, j);
    double ph = 0;
    for (std::size_t q = 0; q < D; q++) ph += k[q] * x[q];
    re += (double)n[j] * std::cos(ph);
    im += (double)n[j] * std::sin(ph);
  }
  double N = (double)l.GetNumSites();
  return mult * (re * re + im * im) / (N * N);
}
#define PRE1 p > 0 && N > 0 && N < (1UL << 40) && n.size() == N
#define PRE2 p > 0 && q > 0 && sizes_ok(L) && n.size() == volume(L)
#define ONE(NAME, T) \
struct C11_##NAME##chain { \
  enum { argmin = 1 }; \
  static bool pre(double p, std::size_t N, std::vector<T> n, double m) { return PRE1; } \
  static vd impl(double p, std::size_t N, std::vector<T> n, double m) { return chain(p, N, false).ComputeSk(n, m); } \
  static vd spec(double p, std::size_t N, std::vector<T> n, double m) { auto l = chain(p, N, false); vd r; for (std::size_t i = 0; i < N; i++) r.push_back(sk(l, n, m, i, 1)); return r; } }; \
struct C11_##NAME##plane { \
  enum { argmin = 1 }; \
  static bool pre(double p, double q, asz<2> L, std::vector<T> n, double m) { return PRE2; } \
  static vd impl(double p, double q, asz<2> L, std::vector<T> n, double m) { return plane(p, q, L, false).ComputeSk(n, m); } \
  static vd spec(double p, double q, asz<2> L, std::vector<T> n, double m) { auto l = plane(p, q, L, false); vd r; for (std::size_t i = 0; i < volume(L); i++) r.push_back(sk(l, n, m, i, 2)); return r; } };
ONE(int, int)
ONE(real, double)
struct C11_unit {
  enum { argmin = 1 };
  static bool pre(double p, std::size_t N, std::vector<int> n) { return PRE1; }
  static vd impl(double p, std::size_t N, std::vector<int> n) { return chain(p, N, false).ComputeSk(n); }
  static vd spec(double p, std::size_t N, std::vector<int> n) { auto l = chain(p, N, false); vd r; for (std::size_t i = 0; i < N; i++) r.push_back(sk(l, n, 1.0, i, 1)); return r; } };
struct C11_add {
  enum { argmin = 1 };
  static bool pre(double p, std::size_t N, std::vector<int> n, vd s, double m) { return PRE1 && s.size() == N; }
  static vd impl(double p, std::size_t N, std::vector<int> n, vd s, double m) { chain(p, N, false).AccumulateSk(n, s, m); return s; }
  static vd spec(double p, std::size_t N, std::vector<int> n, vd s, double m) { auto l = chain(p, N, false); vd r; for (std::size_t i = 0; i < N; i++) r.push_back(s[i] + sk(l, n, m, i, 1)); return r; } };
// accumulating twice adds twice
struct C11_twice {
  enum { argmin = 1 };
  static bool pre(double p, std::size_t N, std::vector<int> n, double m) { return PRE1; }
  static vd impl(double p, std::size_t N, std::vector<int> n, double m) { auto l = chain(p, N, false); vd s(N, 0.0); l.AccumulateSk(n, s, m); l.AccumulateSk(n, s, m); return s; }
  static vd spec(double p, std::size_t N, std::vector<int> n, double m) { auto l = chain(p, N, false); vd r; for (std::size_t i = 0; i < N; i++) r.push_back(2 * sk(l, n, m, i, 1)); return r; } };
struct C11_open {
  static bool pre(double p, std::size_t N, std::vector<int> n, double m) { return PRE1; }
  static vd impl(double p, std::size_t N, std::vector<int> n, double m) { return chain(p, N, true).ComputeSk(n, m); }
  static vd spec(double p, std::size_t N, std::vector<int> n, double m) { return vd(N, 0.0); } };
struct C11_openadd {
  static bool pre(double p, double q, asz<2> L, std::vector<double> n, vd s, double m) { return PRE2; }
  static vd impl(double p, double q, asz<2> L, std::vector<double> n, vd s, double m) { plane(p, q, L, true).AccumulateSk(n, s, m); return s; }
  static vd spec(double p, double q, asz<2> L, std::vector<double> n, vd s, double m) { return s; } };
// at zero momentum the structure factor is the squared mean occupation
struct C11_zero {
  enum { argmin = 1 };
  static bool pre(double p, std::size_t h, std::vector<int> n) { std::size_t N = 2 * h; return PRE1; }
  static double impl(double p, std::size_t h, std::vector<int> n) { return chain(p, 2 * h, false).ComputeSk(n)[h]; }
  static double spec(double p, std::size_t h, std::vector<int> n) { double s = 0; for (std::size_t j = 0; j < 2 * h; j++) s += n[j]; double N = 2 * (double)h; return s * s / (N * N); } };
}
