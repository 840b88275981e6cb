#include <bwsl/HyperCubicGrid.hpp>
#include <bwsl/Lattice.hpp>
#include "common.hpp"
namespace bwslv {
using G = bwsl::HyperCubicGrid;
inline long fold(long d, long s) { long r = fmodl_(d, s); return 2 * r > s ? r - s : r; }
template<std::size_t D> struct C05_jump {
  static bool pre(asz<D> L, al<D> a, al<D> b) { return sizes_ok(L) && inside(L, a) && inside(L, b); }
  static vl impl(asz<D> L, al<D> a, al<D> b) { G g(to_vec(L), G::boundaries_t::Closed); return g.GetJump(encode(L, a), encode(L, b)); }
  static vl spec(asz<D> L, al<D> a, al<D> b) { vl r; for (std::size_t k = 0; k < D; k++) r.push_back(fold(b[k] - a[k], (long)L[k])); return r; } };
template<std::size_t D> struct C05_open {
  static bool pre(asz<D> L, al<D> a, al<D> b) { return sizes_ok(L) && inside(L, a) && inside(L, b); }
  static vl impl(asz<D> L, al<D> a, al<D> b) { G g(to_vec(L), G::boundaries_t::Open); return g.GetJump(encode(L, a), encode(L, b)); }
  static vl spec(asz<D> L, al<D> a, al<D> b) { vl r; for (std::size_t k = 0; k < D; k++) r.push_back(b[k] - a[k]); return r; } };
template<std::size_t D> struct C05_sites {
  enum { thorough = D > 1 };
  static bool pre(asz<D> L, std::size_t a, std::size_t b, bool c) { return sizes_ok(L) && a < volume(L) && b < volume(L); }
  static vl impl(asz<D> L, std::size_t a, std::size_t b, bool c) { G g(to_vec(L), c ? G::boundaries_t::Closed : G::boundaries_t::Open); return g.GetJump(a, b); }
  static vl spec(asz<D> L, std::size_t a, std::size_t b, bool c) { auto ca = decode(L, a), cb = decode(L, b); vl r; for (std::size_t k = 0; k < D; k++) r.push_back(c ? fold(cb[k] - ca[k], (long)L[k]) : cb[k] - ca[k]); return r; } };
// winding: jumps summing to w periods
template<std::size_t D> struct C05_winding {
  static bool pre(bwsl::Lattice const& l, al<D> w) { bool r = l.GetDim() == D && l.GetSize().size() == D; for (std::size_t k = 0; k < D; k++) r = r && l.GetSize()[k] > 0; return r; }
  static vl impl(bwsl::Lattice const& l, al<D> w) { vl j; for (std::size_t k = 0; k < D; k++) j.push_back(w[k] * (long)l.GetSize()[k]); return l.GetWinding(j); }
  static vl spec(bwsl::Lattice const& l, al<D> w) { return to_vec(w); } };
template<std::size_t D> struct C05_divides {
  static bool pre(bwsl::Lattice const& l, al<D> j) { bool r = l.GetDim() == D && l.GetSize().size() == D; for (std::size_t k = 0; k < D; k++) r = r && l.GetSize()[k] > 0; return r; }
  static vl impl(bwsl::Lattice const& l, al<D> j) { auto v = to_vec(j); return l.GetWinding(v); }
  static vl spec(bwsl::Lattice const& l, al<D> j) { vl r; for (std::size_t k = 0; k < D; k++) r.push_back(j[k] / (long)l.GetSize()[k]); return r; } };
// a loop of two jumps closes on a multiple of the extent, in every direction
struct C05_loop {
  static bool pre(std::size_t L, long a, long b) { return L > 0 && L < (1UL << 40) && a >= 0 && a < (long)L && b >= 0 && b < (long)L; }
  static long impl(std::size_t L, long a, long b) { G g(vsz(1, L), G::boundaries_t::Closed); return (g.GetJump(a, b)[0] + g.GetJump(b, a)[0]) % (long)L; }
  static long spec(std::size_t L, long a, long b) { return 0; } };
#define INST(D) template struct C05_jump<D>; template struct C05_open<D>; template struct C05_sites<D>; template struct C05_winding<D>; template struct C05_divides<D>;
INST(1) INST(2) INST(3)
}
