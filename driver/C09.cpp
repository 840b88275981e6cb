#include "bravais.hpp"
namespace bwslv {
#define LAT(o) bwsl::Lattice l(basis<D>(P, P), to_vec(L), o)
#define OPEN G::boundaries_t::Open
#define CLOSED G::boundaries_t::Closed
template<std::size_t D> vd diff(vd const& a, vd const& b) { vd r; for (std::size_t k = 0; k < D; k++) r.push_back(a[k] - b[k]); return r; }
template<std::size_t D> struct C09_position {
  enum { argmin = 1, thorough = D > 2 };
  static bool pre(mat P, asz<D> L, al<D> a, bool o) { return sizes_ok(L) && inside(L, a); }
  static vd impl(mat P, asz<D> L, al<D> a, bool o) { LAT(o ? OPEN : CLOSED); return l.GetPosition(encode(L, a)); }
  static vd spec(mat P, asz<D> L, al<D> a, bool o) { return to_vec(point<D>(P, a)); } };
template<std::size_t D> struct C09_openvec {
  enum { argmin = 1 };
  static bool pre(mat P, asz<D> L, al<D> a, al<D> b) { return sizes_ok(L) && inside(L, a) && inside(L, b); }
  static vd impl(mat P, asz<D> L, al<D> a, al<D> b) { LAT(OPEN); return l.GetVector(encode(L, a), encode(L, b)); }
  static vd spec(mat P, asz<D> L, al<D> a, al<D> b) { return to_vec(point<D>(P, minus<D>(b, a))); } };
template<std::size_t D> struct C09_opendist {
  enum { argmin = 1 };
  static bool pre(mat P, asz<D> L, al<D> a, al<D> b) { return sizes_ok(L) && inside(L, a) && inside(L, b); }
  static double impl(mat P, asz<D> L, al<D> a, al<D> b) { LAT(OPEN); return l.GetDistance(encode(L, a), encode(L, b)); }
  static double spec(mat P, asz<D> L, al<D> a, al<D> b) { return std::sqrt(norm2<D>(point<D>(P, minus<D>(b, a)))); } };
// first-shell images of the wrapped difference, any of the shortest
template<std::size_t D> al<D> image(asz<D> const& L, al<D> const& w, std::size_t k) { al<D> r = w; for (std::size_t m = D; m > 0; m--) { r[m - 1] += ((long)(k % 3) - 1) * (long)L[m - 1]; k /= 3; } return r; }
template<std::size_t D> struct shell { static constexpr std::size_t n = 3 * shell<D - 1>::n; };
template<> struct shell<0> { static constexpr std::size_t n = 1; };
template<std::size_t D> std::pair<double, vd> nearest(std::array<double, D * D> const& P, asz<D> const& L, al<D> const& a, al<D> const& b)
{
  al<D> w = minus<D>(b, a);
  for (std::size_t k = 0; k < D; k++) w[k] = fmodl_(w[k], (long)L[k]);
  auto v = point<D>(P, w);
  double best = std::sqrt(norm2<D>(v));
  for (std::size_t k = 0; k < shell<D>::n; k++) {
    auto u = point<D>(P, image<D>(L, w, k));
    double d = std::sqrt(norm2<D>(u));
    if (d < best) { best = d; v = u; }
  }
  return std::make_pair(best, to_vec(v));
}
template<std::size_t D> struct C09_closedvec {
  enum { argmin = 1, thorough = D > 2 };
  static bool pre(mat P, asz<D> L, al<D> a, al<D> b) { return sizes_ok(L) && inside(L, a) && inside(L, b); }
  static vd impl(mat P, asz<D> L, al<D> a, al<D> b) { LAT(CLOSED); return l.GetVector(encode(L, a), encode(L, b)); }
  static vd spec(mat P, asz<D> L, al<D> a, al<D> b) { return nearest<D>(P, L, a, b).second; } };
template<std::size_t D> struct C09_closeddist {
  enum { argmin = 1, thorough = D > 2 };
  static bool pre(mat P, asz<D> L, al<D> a, al<D> b) { return sizes_ok(L) && inside(L, a) && inside(L, b); }
  static double impl(mat P, asz<D> L, al<D> a, al<D> b) { LAT(CLOSED); return l.GetDistance(encode(L, a), encode(L, b)); }
  static double spec(mat P, asz<D> L, al<D> a, al<D> b) { return nearest<D>(P, L, a, b).first; } };
// distance is the length of the vector
template<std::size_t D> struct C09_length {
  enum { argmin = 1, thorough = D > 2 };
  static bool pre(mat P, asz<D> L, al<D> a, al<D> b) { return sizes_ok(L) && inside(L, a) && inside(L, b); }
  static double impl(mat P, asz<D> L, al<D> a, al<D> b) { LAT(CLOSED); double d = l.GetDistance(encode(L, a), encode(L, b)); return d; }
  static double spec(mat P, asz<D> L, al<D> a, al<D> b) { LAT(CLOSED); auto v = l.GetVector(encode(L, a), encode(L, b)); double s = 0; for (auto x : v) s += x * x; return std::sqrt(s); } };
// unit basis in three dimensions
struct C09_cubic {
  enum { argmin = 1, thorough = 1 };
  static bool pre(asz<3> L, al<3> a, al<3> b) { return sizes_ok(L) && inside(L, a) && inside(L, b); }
  static std::pair<double, vd> impl(asz<3> L, al<3> a, al<3> b) { constexpr std::size_t D = 3; mat P{ 1, 0, 0, 0, 1, 0, 0, 0, 1 }; LAT(CLOSED); auto i = encode(L, a), j = encode(L, b); return std::make_pair(l.GetDistance(i, j), l.GetVector(i, j)); }
  static std::pair<double, vd> spec(asz<3> L, al<3> a, al<3> b) { constexpr std::size_t D = 3; mat P{ 1, 0, 0, 0, 1, 0, 0, 0, 1 }; return nearest<D>(P, L, a, b); } };
#define INST(D) template struct C09_position<D>; template struct C09_openvec<D>; template struct C09_opendist<D>; template struct C09_closedvec<D>; template struct C09_closeddist<D>; template struct C09_length<D>;
INST(1) INST(2) INST(3)
}
