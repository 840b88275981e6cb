#include <fstream>
#include <string>
#include <fmt/format.h>
#include <fmt/ostream.h>
#include "bravais.hpp"
namespace bwslv {
#define LAT bwsl::Lattice l(basis<D>(P, P), to_vec(L), o ? G::boundaries_t::Open : G::boundaries_t::Closed)
#define ARGS std::array<double, D * D> P, asz<D> L, std::string f
inline void head(std::ofstream& s, char const* c, std::size_t D) { for (std::size_t k = 0; k < D; k++) fmt::print(s, ",{}{}", c, k); }
inline void row(std::ofstream& s, vd const& v) { for (std::size_t k = 0; k < v.size(); k++) fmt::print(s, ",{}", v[k]); }
template<std::size_t D, bool o> struct C12_positions {
  enum { argmin = 1, thorough = D > 2 && !o };
  static bool pre(ARGS) { return sizes_ok(L); }
  static void impl(ARGS) { LAT; l.SavePositions(f); }
  static void spec(ARGS) { LAT; std::ofstream s(f); fmt::print(s, "i"); head(s, "x", D); fmt::print(s, "\n"); for (std::size_t i = 0; i < volume(L); i++) { fmt::print(s, "{}", i); row(s, l.GetPosition(i)); fmt::print(s, "\n"); } } };
template<std::size_t D, bool o> struct C12_distances {
  enum { argmin = 1, thorough = D > 2 && !o };
  static bool pre(ARGS) { return sizes_ok(L); }
  static void impl(ARGS) { LAT; l.SaveDistances(f); }
  static void spec(ARGS) { LAT; std::ofstream s(f); fmt::print(s, "i"); head(s, "d", D); fmt::print(s, "\n"); for (std::size_t i = 0; i < volume(L); i++) { fmt::print(s, "{}", i); row(s, l.GetVector(0, i)); fmt::print(s, "\n"); } } };
template<std::size_t D, bool o> struct C12_momenta {
  enum { argmin = 1, thorough = D > 2 && !o };
  static bool pre(ARGS) { return sizes_ok(L); }
  static void impl(ARGS) { LAT; l.SaveMomenta(f); }
  static void spec(ARGS) { LAT; std::ofstream s(f); fmt::print(s, "i"); head(s, "k", D); fmt::print(s, "\n"); if (!o) for (std::size_t i = 0; i < volume(L); i++) { fmt::print(s, "{}", i); row(s, l.GetMomentum(i)); fmt::print(s, "\n"); } } };
template<std::size_t D, bool o> struct C12_pairs {
  enum { argmin = 1, thorough = D > 2 && !o };
  static bool pre(ARGS) { return sizes_ok(L); }
  static void impl(ARGS) { LAT; l.SavePairs(f); }
  static void spec(ARGS) {
    LAT; std::ofstream s(f); fmt::print(s, "i,a,b"); head(s, "x", D); head(s, "y", D); head(s, "d", D); fmt::print(s, "\n");
    std::size_t n = volume(L);
    for (std::size_t i = 0; i < n * n; i++) { auto [a, b] = bwsl::pairs::GetPair(i, n); fmt::print(s, "{},{},{}", i, a, b); row(s, l.GetVector(0, a)); row(s, l.GetVector(0, b)); row(s, l.GetVector(a, b)); fmt::print(s, "\n"); } } };
#define INST(D, o) template struct C12_positions<D, o>; template struct C12_distances<D, o>; template struct C12_momenta<D, o>; template struct C12_pairs<D, o>;
INST(1, false) INST(2, false) INST(3, false) INST(1, true) INST(2, true) INST(3, true)
}
