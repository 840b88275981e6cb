#include <bwsl/HyperCubicGrid.hpp>
#include "common.hpp"
namespace bwslv {
using G = bwsl::HyperCubicGrid;
template<std::size_t D> struct C02_roundtrip {
  static bool pre(asz<D> L, std::size_t i) { return sizes_ok(L) && i < volume(L); }
  static std::size_t impl(asz<D> L, std::size_t i) { G g(to_vec(L), G::boundaries_t::Closed); return g.GetIndex(g.GetCoordinates(i)); }
  static std::size_t spec(asz<D> L, std::size_t i) { return i; } };
template<std::size_t D> struct C02_coords {
  static bool pre(asz<D> L, std::size_t i) { return sizes_ok(L) && i < volume(L); }
  static vl impl(asz<D> L, std::size_t i) { G g(to_vec(L), G::boundaries_t::Open); return g.GetCoordinates(i); }
  static vl spec(asz<D> L, std::size_t i) { return to_vec(decode(L, i)); } };
template<std::size_t D> struct C02_inside {
  static bool pre(asz<D> L, std::size_t i) { return sizes_ok(L) && i < volume(L); }
  static bool impl(asz<D> L, std::size_t i) { G g(to_vec(L), G::boundaries_t::Open); auto c = g.GetCoordinates(i); bool r = c.size() == D; for (std::size_t k = 0; k < D; k++) r = r && c[k] >= 0 && c[k] < (long)L[k]; return r; }
  static bool spec(asz<D> L, std::size_t i) { return true; } };
template<std::size_t D> struct C02_index {
  static bool pre(asz<D> L, al<D> c) { return sizes_ok(L) && inside(L, c); }
  static std::size_t impl(asz<D> L, al<D> c) { G g(to_vec(L), G::boundaries_t::Open); return g.GetIndex(to_vec(c)); }
  static std::size_t spec(asz<D> L, al<D> c) { return encode(L, c); } };
template<std::size_t D> struct C02_valid {
  static bool pre(asz<D> L, al<D> c) { return sizes_ok(L) && inside(L, c); }
  static bool impl(asz<D> L, al<D> c) { G g(to_vec(L), G::boundaries_t::Open); return g.GetIndex(to_vec(c)) < g.GetNumSites(); }
  static bool spec(asz<D> L, al<D> c) { return true; } };
template<std::size_t D> struct C02_inverse {
  static bool pre(asz<D> L, al<D> c) { return sizes_ok(L) && inside(L, c); }
  static vl impl(asz<D> L, al<D> c) { G g(to_vec(L), G::boundaries_t::Closed); return g.GetCoordinates(g.GetIndex(to_vec(c))); }
  static vl spec(asz<D> L, al<D> c) { return to_vec(c); } };
template<std::size_t D> struct C02_numsites {
  static bool pre(asz<D> L) { return sizes_ok(L); }
  static std::size_t impl(asz<D> L) { G g(to_vec(L), G::boundaries_t::Closed); return g.GetNumSites(); }
  static std::size_t spec(asz<D> L) { return volume(L); } };
template<std::size_t D> struct C02_free {
  static bool pre(asz<D> L, std::size_t i) { return sizes_ok(L) && i < volume(L); }
  static vl impl(asz<D> L, std::size_t i) { return bwsl::index_to_array<vl, vsz>(i, to_vec(L)); }
  static vl spec(asz<D> L, std::size_t i) { return to_vec(decode(L, i)); } };
template<std::size_t D> struct C02_freeindex {
  static bool pre(asz<D> L, al<D> c) { return sizes_ok(L) && inside(L, c); }
  static std::size_t impl(asz<D> L, al<D> c) { return bwsl::array_to_index(to_vec(c), to_vec(L)); }
  static std::size_t spec(asz<D> L, al<D> c) { return encode(L, c); } };
// other coordinate types accepted by the free functions
template<std::size_t D> struct C02_freetypes {
  static bool pre(asz<D> L, std::size_t i) { return sizes_ok(L) && i < volume(L); }
  static std::size_t impl(asz<D> L, std::size_t i) { return bwsl::array_to_index(bwsl::index_to_array<std::vector<long long>, vsz>(i, to_vec(L)), to_vec(L)); }
  static std::size_t spec(asz<D> L, std::size_t i) { return i; } };
struct C02_shape {
  static std::pair<std::size_t, std::pair<vsz, bool>> impl(vsz const& L, bool c) { G g(L, c ? G::boundaries_t::Closed : G::boundaries_t::Open); return std::make_pair(g.GetDim(), std::make_pair(g.GetSize(), g.HasClosedBoundaries())); }
  static std::pair<std::size_t, std::pair<vsz, bool>> spec(vsz const& L, bool c) { return std::make_pair(L.size(), std::make_pair(L, c)); } };
// the grid handed out is the same grid
struct C02_grid {
  static std::pair<std::pair<std::size_t, std::size_t>, std::pair<vsz, bool>> impl(vsz const& L, bool c) { G g0(L, c ? G::boundaries_t::Closed : G::boundaries_t::Open); G g = g0.GetGrid(); return std::make_pair(std::make_pair(g.GetDim(), g.GetNumSites()), std::make_pair(g.GetSize(), g.GetBoundaries() == G::boundaries_t::Closed)); }
  static std::pair<std::pair<std::size_t, std::size_t>, std::pair<vsz, bool>> spec(vsz const& L, bool c) { std::size_t n = 1; for (std::size_t i = 0; i < L.size(); i++) n *= L[i]; return std::make_pair(std::make_pair(L.size(), n), std::make_pair(L, c)); } };
// any number of dimensions
struct C02_anysites {
  static std::size_t impl(vsz const& L) { G g(L, G::boundaries_t::Open); return g.GetNumSites(); }
  static std::size_t spec(vsz const& L) { std::size_t n = 1; for (std::size_t i = 0; i < L.size(); i++) n *= L[i]; return n; } };
struct C02_anymethods {
  static bool pre(vsz const& L, std::size_t i) { bool r = true; for (auto x : L) r = r && x > 0; return r; }
  static vl impl(vsz const& L, std::size_t i) { G g(L, G::boundaries_t::Open); return g.GetCoordinates(i); }
  static vl spec(vsz const& L, std::size_t i) { return bwsl::index_to_array<vl, vsz>(i, L); } };
#define INST(D) template struct C02_roundtrip<D>; template struct C02_coords<D>; template struct C02_inside<D>; template struct C02_index<D>; \
  template struct C02_valid<D>; template struct C02_inverse<D>; template struct C02_numsites<D>; template struct C02_free<D>; template struct C02_freeindex<D>; template struct C02_freetypes<D>;
INST(1) INST(2) INST(3) INST(4)
}
