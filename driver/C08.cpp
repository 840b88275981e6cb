#include "bravais.hpp"
namespace bwslv {
template<std::size_t D, std::size_t N> al<D> step(std::array<long, N> const& nb, al<D> const& c, std::size_t g)
{
  al<D> r = c;
  for (std::size_t k = 0; k < D; k++) r[k] += (g % 2 == 0 ? 1 : -1) * nb[(g / 2) * D + k];
  return r;
}
// neighbours do not depend on the basis: unit vectors
template<std::size_t D, std::size_t N> bwsl::Bravais flat(std::array<long, N> const& nb)
{
  std::array<double, D * D> E{};
  for (std::size_t k = 0; k < D; k++) E[k * D + k] = 1;
  return basis<D, N>(E, E, nb);
}
template<std::size_t D> al<D> wrap(asz<D> const& L, al<D> c) { for (std::size_t k = 0; k < D; k++) c[k] = fmodl_(c[k], (long)L[k]); return c; }
template<std::size_t D, std::size_t Z> struct C08_dir {
  static vl impl(std::array<double, D * D> P, std::array<long, Z * D> nb, al<D> c) { auto b = basis<D, Z * D>(P, P, nb); vl r; for (std::size_t g = 0; g < 2 * Z; g++) { auto x = b.GetNeighbor(to_vec(c), g); r.insert(r.end(), x.begin(), x.end()); } return r; }
  static vl spec(std::array<double, D * D> P, std::array<long, Z * D> nb, al<D> c) { vl r; for (std::size_t g = 0; g < 2 * Z; g++) { auto x = step<D, Z * D>(nb, c, g); for (auto v : x) r.push_back(v); } return r; } };
// plus and minus cancel
template<std::size_t D> struct C08_back {
  static vl impl(std::array<double, D * D> P, std::array<long, D> nb, al<D> c) { auto b = basis<D, D>(P, P, nb); return b.GetNeighbor(b.GetNeighbor(to_vec(c), 0), 1); }
  static vl spec(std::array<double, D * D> P, std::array<long, D> nb, al<D> c) { return to_vec(c); } };
template<std::size_t D, std::size_t Z> struct C08_closed {
  enum { thorough = D * Z > 4 };
  static bool pre(asz<D> L, std::array<long, Z * D> nb, al<D> c) { return sizes_ok(L) && inside(L, c); }
  static vsz impl(asz<D> L, std::array<long, Z * D> nb, al<D> c) { bwsl::Lattice l(flat<D, Z * D>(nb), to_vec(L), G::boundaries_t::Closed); return l.GetNeighbors(encode(L, c)); }
  static vsz spec(asz<D> L, std::array<long, Z * D> nb, al<D> c) { vsz r; for (std::size_t g = 0; g < 2 * Z; g++) r.push_back(encode(L, wrap(L, step<D, Z * D>(nb, c, g)))); return r; } };
template<std::size_t D, std::size_t Z> struct C08_open {
  static bool pre(asz<D> L, std::array<long, Z * D> nb, al<D> c) { return sizes_ok(L) && inside(L, c); }
  static vsz impl(asz<D> L, std::array<long, Z * D> nb, al<D> c) { bwsl::Lattice l(flat<D, Z * D>(nb), to_vec(L), G::boundaries_t::Open); return l.GetNeighbors(encode(L, c)); }
  static vsz spec(asz<D> L, std::array<long, Z * D> nb, al<D> c) { vsz r; for (std::size_t g = 0; g < 2 * Z; g++) { auto q = step<D, Z * D>(nb, c, g); if (inside(L, q)) r.push_back(encode(L, q)); } return r; } };
template<std::size_t D, std::size_t Z> struct C08_number {
  enum { thorough = D > 1 };
  static bool pre(asz<D> L, std::array<long, Z * D> nb, al<D> c, bool o) { return sizes_ok(L) && inside(L, c); }
  static std::size_t impl(asz<D> L, std::array<long, Z * D> nb, al<D> c, bool o) { bwsl::Lattice l(flat<D, Z * D>(nb), to_vec(L), o ? G::boundaries_t::Open : G::boundaries_t::Closed); return l.GetCoordination(encode(L, c)); }
  static std::size_t spec(asz<D> L, std::array<long, Z * D> nb, al<D> c, bool o) { std::size_t r = 0; for (std::size_t g = 0; g < 2 * Z; g++) if (!o || inside(L, step<D, Z * D>(nb, c, g))) r++; return r; } };
template<std::size_t D, std::size_t Z> struct C08_first {
  enum { thorough = D > 2 };
  static bool pre(asz<D> L, std::array<long, Z * D> nb) { return sizes_ok(L); }
  static bool impl(asz<D> L, std::array<long, Z * D> nb) { bwsl::Lattice l(flat<D, Z * D>(nb), to_vec(L), G::boundaries_t::Closed); return l.GetCoordination() == l.GetCoordination(0); }
  static bool spec(asz<D> L, std::array<long, Z * D> nb) { return true; } };
template<std::size_t D, std::size_t Z> struct C08_are {
  static bool pre(asz<D> L, std::array<long, Z * D> nb, al<D> c, std::size_t j) { return sizes_ok(L) && inside(L, c) && j < volume(L); }
  static bool impl(asz<D> L, std::array<long, Z * D> nb, al<D> c, std::size_t j) { bwsl::Lattice l(flat<D, Z * D>(nb), to_vec(L), G::boundaries_t::Closed); return l.AreNeighbors(encode(L, c), j); }
  static bool spec(asz<D> L, std::array<long, Z * D> nb, al<D> c, std::size_t j) { bool r = false; for (std::size_t g = 0; g < 2 * Z; g++) r = r || encode(L, wrap(L, step<D, Z * D>(nb, c, g))) == j; return r; } };
template<std::size_t D, std::size_t Z> struct C08_areopen {
  enum { thorough = D > 1 };
  static bool pre(asz<D> L, std::array<long, Z * D> nb, al<D> c, std::size_t j) { return sizes_ok(L) && inside(L, c) && j < volume(L); }
  static bool impl(asz<D> L, std::array<long, Z * D> nb, al<D> c, std::size_t j) { bwsl::Lattice l(flat<D, Z * D>(nb), to_vec(L), G::boundaries_t::Open); return l.AreNeighbors(encode(L, c), j); }
  static bool spec(asz<D> L, std::array<long, Z * D> nb, al<D> c, std::size_t j) { bool r = false; for (std::size_t g = 0; g < 2 * Z; g++) { auto q = step<D, Z * D>(nb, c, g); r = r || (inside(L, q) && encode(L, q) == j); } return r; } };
// queries against the stored lists, whatever they are
struct C08_member {
  static bool pre(bwsl::Lattice const& l, std::size_t i, std::size_t j) { return i < l.GetNumSites(); }
  static bool impl(bwsl::Lattice const& l, std::size_t i, std::size_t j) { return l.AreNeighbors(i, j); }
  static bool spec(bwsl::Lattice const& l, std::size_t i, std::size_t j) { auto const& v = l.GetNeighbors(i); for (std::size_t k = 0; k < v.size(); k++) if (v[k] == j) return true; return false; } };
struct C08_whole { static bool pre(bwsl::Lattice const& l) { return l.GetNumSites() > 0; }
  static std::size_t impl(bwsl::Lattice const& l) { return l.GetCoordination(); }
  static std::size_t spec(bwsl::Lattice const& l) { return l.GetNeighbors(0).size(); } };
struct C08_length {
  static bool pre(bwsl::Lattice const& l, std::size_t i) { return i < l.GetNumSites(); }
  static std::size_t impl(bwsl::Lattice const& l, std::size_t i) { return l.GetCoordination(i); }
  static std::size_t spec(bwsl::Lattice const& l, std::size_t i) { return l.GetNeighbors(i).size(); } };
template struct C08_back<1>; template struct C08_back<2>; template struct C08_back<3>;
#define INST(D, Z) template struct C08_dir<D, Z>; template struct C08_closed<D, Z>; template struct C08_number<D, Z>; template struct C08_first<D, Z>;
#define INSO(D, Z) template struct C08_open<D, Z>;
INST(1, 1) INST(2, 2) INST(2, 3) INST(3, 3) template struct C08_closed<3, 1>; INSO(3, 1) INSO(1, 1) INSO(1, 2) INSO(2, 1) INSO(2, 2)
template struct C08_are<1, 1>; template struct C08_are<2, 1>; template struct C08_areopen<1, 1>; template struct C08_areopen<2, 1>;
}
