#include <bwsl/HyperCubicGrid.hpp>
#include <bwsl/Lattice.hpp>
#include "common.hpp"
namespace bwslv {
using G = bwsl::HyperCubicGrid;
template<std::size_t D> struct C03_wrap {
  static bool pre(asz<D> L, al<D> c) { return sizes_ok(L); }
  static vl impl(asz<D> L, al<D> c) { G g(to_vec(L), G::boundaries_t::Closed); auto v = to_vec(c); g.EnforceBoundaries(v); return v; }
  static vl spec(asz<D> L, al<D> c) { vl r; for (std::size_t k = 0; k < D; k++) r.push_back(fmodl_(c[k], (long)L[k])); return r; } };
template<std::size_t D> struct C03_open {
  static bool pre(asz<D> L, al<D> c) { return sizes_ok(L); }
  static vl impl(asz<D> L, al<D> c) { G g(to_vec(L), G::boundaries_t::Open); auto v = to_vec(c); g.EnforceBoundaries(v); return v; }
  static vl spec(asz<D> L, al<D> c) { return to_vec(c); } };
// any number of dimensions
struct C03_wrapany {
  static bool pre(vsz const& L, vl const& c) { bool r = true; for (auto x : L) r = r && x > 0 && x < (1UL << 40); return r && L.size() == c.size(); }
  static vl impl(vsz const& L, vl const& c) { G g(L, G::boundaries_t::Closed); auto v = c; g.EnforceBoundaries(v); return v; }
  static vl spec(vsz const& L, vl const& c) { vl r; for (std::size_t k = 0; k < c.size(); k++) r.push_back(fmodl_(c[k], (long)L[k])); return r; } };
struct C03_ongrid {
  static bool pre(vsz const& L, vl const& c) { bool r = true; for (auto x : L) r = r && x > 0 && x < (1UL << 40); return r && L.size() == c.size(); }
  static bool impl(vsz const& L, vl const& c) { G g(L, G::boundaries_t::Closed); return g.IsOnGrid(c); }
  static bool spec(vsz const& L, vl const& c) { for (std::size_t k = 0; k < c.size(); k++) if (c[k] < 0 || c[k] >= (long)L[k]) return false; return true; } };
template<std::size_t D> struct C03_ongridd {
  static bool pre(asz<D> L, al<D> c, bool o) { return sizes_ok(L); }
  static bool impl(asz<D> L, al<D> c, bool o) { G g(to_vec(L), o ? G::boundaries_t::Open : G::boundaries_t::Closed); return g.IsOnGrid(to_vec(c)); }
  static bool spec(asz<D> L, al<D> c, bool o) { return inside(L, c); } };
template<std::size_t D> struct C03_valid {
  static bool pre(asz<D> L, std::size_t i) { return sizes_ok(L); }
  static bool impl(asz<D> L, std::size_t i) { G g(to_vec(L), G::boundaries_t::Open); return g.IndexIsValid(i); }
  static bool spec(asz<D> L, std::size_t i) { return i < volume(L); } };
struct C03_empty {
  static std::pair<std::pair<std::size_t, std::size_t>, std::pair<std::size_t, bool>> impl(std::size_t i) { G g; return std::make_pair(std::make_pair(g.GetDim(), g.GetNumSites()), std::make_pair(g.GetSize().size(), g.IndexIsValid(i))); }
  static std::pair<std::pair<std::size_t, std::size_t>, std::pair<std::size_t, bool>> spec(std::size_t i) { return std::make_pair(std::make_pair(std::size_t(0), std::size_t(0)), std::make_pair(std::size_t(0), false)); } };
template<std::size_t D> struct C03_query {
  static bool pre(asz<D> L, bool o) { return sizes_ok(L); }
  static bool impl(asz<D> L, bool o) { G g(to_vec(L), o ? G::boundaries_t::Open : G::boundaries_t::Closed); return g.HasOpenBoundaries() == o && g.HasClosedBoundaries() == !o && (g.GetBoundaries() == G::boundaries_t::Open) == o; }
  static bool spec(asz<D> L, bool o) { return true; } };
// the lattice form, through the lattice class itself
template<std::size_t D> struct C03_lattice {
  static bool pre(bwsl::Lattice const& l, al<D> c) { return l.GetDim() == D && l.GetSize().size() == D && l.GetSize()[0] > 0 && (D < 2 || l.GetSize()[D > 1 ? 1 : 0] > 0) && (D < 3 || l.GetSize()[D > 2 ? 2 : 0] > 0); }
  static vl impl(bwsl::Lattice const& l, al<D> c) { auto v = to_vec(c); l.EnforceBoundaries(v); return v; }
  static vl spec(bwsl::Lattice const& l, al<D> c) { vl r; for (std::size_t k = 0; k < D; k++) r.push_back(l.HasClosedBoundaries() ? fmodl_(c[k], (long)l.GetSize()[k]) : c[k]); return r; } };
#define INST(D) template struct C03_wrap<D>; template struct C03_open<D>; template struct C03_ongridd<D>; template struct C03_valid<D>; template struct C03_query<D>; template struct C03_lattice<D>;
INST(1) INST(2) INST(3)
}
