#include "bravais.hpp"
namespace bwslv {
template<std::size_t D> bwsl::Lattice lattice(std::array<double, D * D> const& Q, asz<D> const& L, bool open)
{
  std::array<double, D * D> P{};
  for (std::size_t k = 0; k < D; k++) P[k * D + k] = 1;
  return bwsl::Lattice(basis<D>(P, Q), to_vec(L), open ? G::boundaries_t::Open : G::boundaries_t::Closed);
}
// the momentum of site i: half-shifted coordinates in units of the periods
template<std::size_t D> vd kappa(std::array<double, D * D> const& Q, asz<D> const& L, al<D> const& c)
{
  vd r;
  for (std::size_t m = 0; m < D; m++) {
    double s = 0;
    for (std::size_t j = 0; j < D; j++) s += ((double)(c[j] - (long)(L[j] / 2)) / (double)L[j]) * (2 * M_PI * Q[j * D + m]);
    r.push_back(s);
  }
  return r;
}
template<std::size_t D> struct C10_value {
  static bool pre(mat Q, asz<D> L, al<D> c) { return sizes_ok(L) && inside(L, c); }
  static vd impl(mat Q, asz<D> L, al<D> c) { return lattice<D>(Q, L, false).GetMomentum(encode(L, c)); }
  static vd spec(mat Q, asz<D> L, al<D> c) { return kappa<D>(Q, L, c); } };
// commensurate with every period: k . (n_j L_j a_j) = 2 pi times an integer when Q is the inverse of P
struct C10_period1 {
  static bool pre(double p, asz<1> L, al<1> c) { return sizes_ok(L) && inside(L, c) && p != 0; }
  static double impl(double p, asz<1> L, al<1> c) { bwsl::Lattice l(bwsl::Bravais(1, 0, vd{ p }, vd{ 1 / p }, vl{}), to_vec(L), G::boundaries_t::Closed); auto k = l.GetMomentum(encode(L, c)); return k[0] * (double)L[0] * p; }
  static double spec(double p, asz<1> L, al<1> c) { return 2 * M_PI * (double)(c[0] - (long)(L[0] / 2)); } };
struct C10_period2 {
  static bool pre(double a, double b, double c, double d, asz<2> L, al<2> s) { return sizes_ok(L) && inside(L, s) && a * d - b * c != 0; }
  static std::pair<double, double> impl(double a, double b, double c, double d, asz<2> L, al<2> s) {
    double t = a * d - b * c;
    // rows of the second matrix are dual to the rows of the first
    bwsl::Lattice l(bwsl::Bravais(2, 0, vd{ a, b, c, d }, vd{ d / t, -c / t, -b / t, a / t }, vl{}), to_vec(L), G::boundaries_t::Closed);
    auto k = l.GetMomentum(encode(L, s));
    return std::make_pair((k[0] * a + k[1] * b) * (double)L[0], (k[0] * c + k[1] * d) * (double)L[1]); }
  static std::pair<double, double> spec(double a, double b, double c, double d, asz<2> L, al<2> s) { return std::make_pair(2 * M_PI * (double)(s[0] - (long)(L[0] / 2)), 2 * M_PI * (double)(s[1] - (long)(L[1] / 2))); } };
// one momentum per site: the exported table has exactly one row per site
template<std::size_t D> struct C10_first {
  static bool pre(mat Q, asz<D> L) { return sizes_ok(L); }
  static vd impl(mat Q, asz<D> L) { auto l = lattice<D>(Q, L, false); return l.GetMomentum(l.GetNumSites() - 1); }
  static vd spec(mat Q, asz<D> L) { al<D> c{}; for (std::size_t k = 0; k < D; k++) c[k] = (long)L[k] - 1; return kappa<D>(Q, L, c); } };
#define INST(D) template struct C10_value<D>; template struct C10_first<D>;
INST(1) INST(2) INST(3)
}
