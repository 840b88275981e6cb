#include "bravais.hpp"
namespace bwslv {
// vectors of a lattice from the class itself
inline vl unit(std::size_t d, std::size_t i) { vl e(d, 0); e[i] = 1; return e; }
inline double dot(vd const& a, vd const& b) { double r = 0; for (std::size_t i = 0; i < a.size(); i++) r += a[i] * b[i]; return r; }
inline bool dual(bwsl::Bravais const& b, std::size_t d)
{
  bool ok = b.GetDim() == d;
  for (std::size_t i = 0; i < d; i++)
    for (std::size_t j = 0; j < d; j++) {
      auto const x = b.GetRealSpace(unit(d, i));
      ok = ok && dot(x, b.GetReciprocalSpace(unit(d, j))) == (i == j ? 2 * M_PI : 0.0);
      ok = ok && b.GetInverseVector(x)[j] == (i == j ? 1.0 : 0.0);
    }
  return ok;
}
inline bool same(vl const& a, vl const& b) { bool r = true; for (std::size_t i = 0; i < a.size(); i++) r = r && a[i] == b[i]; return r; }
// every non-zero vector of the box [-w,w]^d is longer than one or is listed exactly once, and then has length one
inline bool shortest(bwsl::Bravais const& b, std::size_t d, long w)
{
  std::size_t n = 1, side = 2 * w + 1;
  for (std::size_t i = 0; i < d; i++) n *= side;
  bool ok = true;
  for (std::size_t k = 0; k < n; k++) {
    vl c(d, 0);
    std::size_t q = k;
    bool zero = true;
    for (std::size_t i = 0; i < d; i++) { c[i] = (long)(q % side) - w; q /= side; zero = zero && c[i] == 0; }
    if (zero) continue;
    auto const x = b.GetRealSpace(c);
    double const l = dot(x, x);
    std::size_t times = 0;
    for (std::size_t g = 0; g < b.GetGamma(); g++) if (same(b.GetNeighbor(vl(d, 0), g), c)) times++;
    ok = ok && (times == 0 ? l > 1 : times == 1 && l == 1);
  }
  return ok;
}
inline bool unitlength(bwsl::Bravais const& b, std::size_t d)
{
  bool ok = true;
  for (std::size_t g = 0; g < b.GetGamma(); g++) { auto const x = b.GetRealSpace(b.GetNeighbor(vl(d, 0), g)); ok = ok && dot(x, x) == 1; }
  return ok;
}
// the listed directions come in opposite pairs
inline bool opposite(bwsl::Bravais const& b, std::size_t d)
{
  bool ok = b.GetGamma() % 2 == 0;
  for (std::size_t g = 0; g + 1 < b.GetGamma(); g += 2) { auto const x = b.GetNeighbor(vl(d, 0), g), y = b.GetNeighbor(vl(d, 0), g + 1); for (std::size_t i = 0; i < d; i++) ok = ok && x[i] == -y[i]; }
  return ok;
}
#define LAT(L, D, Z)                                                                                                   \
  struct C07_dual_##L { static bool impl() { return dual(bwsl::L, D); } static bool spec() { return true; } };         \
  struct C07_coord_##L { static std::pair<std::size_t, std::size_t> impl() { return std::make_pair(bwsl::L.GetDim(), bwsl::L.GetGamma()); } static std::pair<std::size_t, std::size_t> spec() { return std::make_pair(std::size_t(D), std::size_t(Z)); } }; \
  struct C07_shortest_##L { static bool impl() { return shortest(bwsl::L, D, D < 3 ? 3 : 2); } static bool spec() { return true; } }; \
  struct C07_unit_##L { static bool impl() { return unitlength(bwsl::L, D); } static bool spec() { return true; } };   \
  struct C07_opposite_##L { static bool impl() { return opposite(bwsl::L, D); } static bool spec() { return true; } };
LAT(ChainLattice, 1, 2) LAT(SquareLattice, 2, 4) LAT(CubicLattice, 3, 6) LAT(TriangularLattice, 2, 6)
// the vectors themselves
struct C07_square_points { static std::pair<double, double> impl(long a, long b) { auto x = bwsl::SquareLattice.GetRealSpace(vl{ a, b }); return std::make_pair(x[0], x[1]); } static std::pair<double, double> spec(long a, long b) { return std::make_pair((double)a, (double)b); } };
struct C07_triangular_length { static double impl(long a, long b) { auto x = bwsl::TriangularLattice.GetRealSpace(vl{ a, b }); return x[0] * x[0] + x[1] * x[1]; } static double spec(long a, long b) { return (double)(a * a + a * b + b * b); } };
struct C07_cubic_length { static double impl(long a, long b, long c) { auto x = bwsl::CubicLattice.GetRealSpace(vl{ a, b, c }); return x[0] * x[0] + x[1] * x[1] + x[2] * x[2]; } static double spec(long a, long b, long c) { return (double)(a * a + b * b + c * c); } };
struct C07_chain_points { static double impl(long a) { return bwsl::ChainLattice.GetRealSpace(vl{ a })[0]; } static double spec(long a) { return (double)a; } };
}
