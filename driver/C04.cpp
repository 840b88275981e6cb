#include <bwsl/HyperCubicGrid.hpp>
#include "common.hpp"
namespace bwslv {
using G = bwsl::HyperCubicGrid;
template<std::size_t D> struct C04_mapped {
  enum { thorough = D > 2 };
  static bool pre(asz<D> L, std::size_t a, std::size_t b) { return sizes_ok(L) && a < volume(L) && b < volume(L); }
  static vl impl(asz<D> L, std::size_t a, std::size_t b) { G g(to_vec(L), G::boundaries_t::Closed); return g.GetCoordinates(g.GetMappedSite(a, b)); }
  static vl spec(asz<D> L, std::size_t a, std::size_t b) { auto ca = decode(L, a), cb = decode(L, b); vl r; for (std::size_t k = 0; k < D; k++) r.push_back(fmodl_(cb[k] - ca[k], (long)L[k])); return r; } };
template<std::size_t D> struct C04_mappedsite {
  static bool pre(asz<D> L, al<D> a, al<D> b) { return sizes_ok(L) && inside(L, a) && inside(L, b); }
  static std::size_t impl(asz<D> L, al<D> a, al<D> b) { G g(to_vec(L), G::boundaries_t::Closed); return g.GetMappedSite(encode(L, a), encode(L, b)); }
  static std::size_t spec(asz<D> L, al<D> a, al<D> b) { al<D> r{}; for (std::size_t k = 0; k < D; k++) r[k] = fmodl_(b[k] - a[k], (long)L[k]); return encode(L, r); } };
template<std::size_t D> struct C04_unmappedsite {
  static bool pre(asz<D> L, al<D> a, al<D> i) { return sizes_ok(L) && inside(L, a) && inside(L, i); }
  static std::size_t impl(asz<D> L, al<D> a, al<D> i) { G g(to_vec(L), G::boundaries_t::Closed); return g.GetUnMappedSite(encode(L, i), encode(L, a)); }
  static std::size_t spec(asz<D> L, al<D> a, al<D> i) { al<D> r{}; for (std::size_t k = 0; k < D; k++) r[k] = fmodl_(i[k] + a[k], (long)L[k]); return encode(L, r); } };
template<std::size_t D> struct C04_undo {
  static bool pre(asz<D> L, al<D> a, al<D> b) { return sizes_ok(L) && inside(L, a) && inside(L, b); }
  static std::size_t impl(asz<D> L, al<D> a, al<D> b) { G g(to_vec(L), G::boundaries_t::Closed); return g.GetUnMappedSite(g.GetMappedSite(encode(L, a), encode(L, b)), encode(L, a)); }
  static std::size_t spec(asz<D> L, al<D> a, al<D> b) { return encode(L, b); } };
template<std::size_t D> struct C04_self {
  static bool pre(asz<D> L, std::size_t a) { return sizes_ok(L) && a < volume(L); }
  static std::size_t impl(asz<D> L, std::size_t a) { G g(to_vec(L), G::boundaries_t::Closed); return g.GetMappedSite(a, a); }
  static std::size_t spec(asz<D> L, std::size_t a) { return 0; } };
template<std::size_t D> struct C04_valid {
  static bool pre(asz<D> L, al<D> a, al<D> b) { return sizes_ok(L) && inside(L, a) && inside(L, b); }
  static std::pair<bool, bool> impl(asz<D> L, al<D> a, al<D> b) { G g(to_vec(L), G::boundaries_t::Closed); return std::make_pair(g.GetMappedSite(encode(L, a), encode(L, b)) < g.GetNumSites(), g.GetUnMappedSite(encode(L, a), encode(L, b)) < g.GetNumSites()); }
  static std::pair<bool, bool> spec(asz<D> L, al<D> a, al<D> b) { return std::make_pair(true, true); } };
#define INST(D) template struct C04_mapped<D>; template struct C04_mappedsite<D>; template struct C04_unmappedsite<D>; template struct C04_undo<D>; template struct C04_self<D>; template struct C04_valid<D>;
INST(1) INST(2) INST(3)
}
