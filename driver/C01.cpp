#include <bwsl/Pairs.hpp>
#include <bwsl/HyperCubicGrid.hpp>
#include "common.hpp"
namespace bwslv {
using namespace bwsl::pairs;
using P2 = std::pair<std::size_t, std::size_t>;
using G = bwsl::HyperCubicGrid;

struct C01_below { static bool pre(std::size_t n, std::size_t a, std::size_t b) { return a < n && b < n; }
  static bool impl(std::size_t n, std::size_t a, std::size_t b) { return GetPairIndex(a, b, n) < GetNumPairs(n); }
  static bool spec(std::size_t n, std::size_t a, std::size_t b) { return true; } };
struct C01_decode { static bool pre(std::size_t n, std::size_t a, std::size_t b) { return a < n && b < n; }
  static P2 impl(std::size_t n, std::size_t a, std::size_t b) { return GetPair(GetPairIndex(a, b, n), n); }
  static P2 spec(std::size_t n, std::size_t a, std::size_t b) { return P2(a, b); } };
struct C01_num { static std::size_t impl(std::size_t n) { return GetNumPairs(n); }
  static std::size_t spec(std::size_t n) { return n * n; } };
struct C01_components { static bool pre(std::size_t n, std::size_t i) { return n > 0 && i < n * n; }
  static std::pair<bool, bool> impl(std::size_t n, std::size_t i) { auto p = GetPair(i, n); return std::make_pair(p.first < n, p.second < n); }
  static std::pair<bool, bool> spec(std::size_t n, std::size_t i) { return std::make_pair(true, true); } };
struct C01_encode { static bool pre(std::size_t n, std::size_t i) { return n > 0 && i < n * n; }
  static std::size_t impl(std::size_t n, std::size_t i) { auto p = GetPair(i, n); return GetPairIndex(p.first, p.second, n); }
  static std::size_t spec(std::size_t n, std::size_t i) { return i; } };
struct C01_forms { static bool pre(std::size_t n, std::size_t a, std::size_t b) { return a < n && b < n; }
  static std::size_t impl(std::size_t n, std::size_t a, std::size_t b) { return GetPairIndex(P2(a, b), n); }
  static std::size_t spec(std::size_t n, std::size_t a, std::size_t b) { return GetPairIndex(a, b, n); } };
template<std::size_t D> struct C01_grid {
  static bool pre(asz<D> L, std::size_t a, std::size_t b) { return sizes_ok(L) && a < volume(L) && b < volume(L); }
  static std::size_t impl(asz<D> L, std::size_t a, std::size_t b) { G g(to_vec(L), G::boundaries_t::Closed); return g.GetPairIndex(a, b); }
  static std::size_t spec(asz<D> L, std::size_t a, std::size_t b) { return GetPairIndex(a, b, volume(L)); } };
template<std::size_t D> struct C01_gridround {
  static bool pre(asz<D> L, std::size_t a, std::size_t b) { return sizes_ok(L) && a < volume(L) && b < volume(L); }
  static P2 impl(asz<D> L, std::size_t a, std::size_t b) { G g(to_vec(L), G::boundaries_t::Open); return g.GetIndividualIndices(g.GetPairIndex(a, b)); }
  static P2 spec(asz<D> L, std::size_t a, std::size_t b) { return P2(a, b); } };
template<std::size_t D> struct C01_gridpair {
  static bool pre(asz<D> L, std::size_t i) { return sizes_ok(L) && i < volume(L) * volume(L); }
  static P2 impl(asz<D> L, std::size_t i) { G g(to_vec(L), G::boundaries_t::Open); return g.GetIndividualIndices(i); }
  static P2 spec(asz<D> L, std::size_t i) { return GetPair(i, volume(L)); } };
// grids of any dimension (sizes vector of arbitrary length)
struct C01_anydim { 
  static std::pair<std::size_t, P2> impl(vsz const& L, std::size_t a, std::size_t b) { G g(L, G::boundaries_t::Closed); return std::make_pair(g.GetPairIndex(a, b), g.GetIndividualIndices(a)); }
  static std::pair<std::size_t, P2> spec(vsz const& L, std::size_t a, std::size_t b) { G g(L, G::boundaries_t::Closed); return std::make_pair(GetPairIndex(a, b, g.GetNumSites()), GetPair(a, g.GetNumSites())); } };
template struct C01_grid<1>; template struct C01_grid<2>; template struct C01_grid<3>;
template struct C01_gridround<1>; template struct C01_gridround<2>; template struct C01_gridround<3>;
template struct C01_gridpair<1>; template struct C01_gridpair<2>; template struct C01_gridpair<3>;
}
