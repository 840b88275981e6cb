#include <cmath>
#include <bwsl/MathUtils.hpp>
#include "common.hpp"
namespace bwslv {
#define R std::mt19937_64
template<std::size_t N> struct C32_between {
  static bool pre(std::array<double, N> p, R& g) { double t = 0; bool r = true; for (auto x : p) { t += x; r = r && x >= 0; } return r && t > 0; }
  static std::size_t impl(std::array<double, N> p, R& g) { std::vector<double> v(p.begin(), p.end()); return bwsl::choose_between(v, g); }
  static std::size_t spec(std::array<double, N> p, R& g) { double t = 0; for (auto x : p) t += x; double u = std::uniform_real_distribution<double>(0., t)(g); double s = 0; for (std::size_t i = 0; i < N; i++) { s += p[i]; if (u < s) return i; } return N; } };
template<std::size_t N> struct C32_valid {
  static bool pre(std::array<double, N> p, R& g) { double t = 0; bool r = true; for (auto x : p) { t += x; r = r && x >= 0; } return r && t > 0; }
  static bool impl(std::array<double, N> p, R& g) { std::vector<double> v(p.begin(), p.end()); auto i = bwsl::choose_between(v, g); bool nz = false; for (std::size_t k = 0; k < N; k++) nz = nz || (i == k && p[k] > 0); return nz; }
  static bool spec(std::array<double, N> p, R& g) { std::uniform_real_distribution<double>(0., 1.)(g); return true; } };
template<std::size_t N> struct C32_untouched {
  static bool pre(std::array<double, N> p, R& g) { double t = 0; bool r = true; for (auto x : p) { t += x; r = r && x >= 0; } return r && t > 0; }
  static std::vector<double> impl(std::array<double, N> p, R& g) { std::vector<double> v(p.begin(), p.end()); bwsl::choose_between(v, g); return v; }
  static std::vector<double> spec(std::array<double, N> p, R& g) { std::uniform_real_distribution<double>(0., 1.)(g); return std::vector<double>(p.begin(), p.end()); } };
template<std::size_t N> struct C32_psums {
  static bool pre(std::array<double, N> c, R& g) { bool r = c[0] >= 0 && c[N - 1] > 0; for (std::size_t i = 1; i < N; i++) r = r && c[i] >= c[i - 1]; return r; }
  static std::size_t impl(std::array<double, N> c, R& g) { std::vector<double> v(c.begin(), c.end()); return bwsl::choose_between_psums(v, g); }
  static std::size_t spec(std::array<double, N> c, R& g) { double u = std::uniform_real_distribution<double>(0., c[N - 1])(g); for (std::size_t i = 0; i < N; i++) if (u < c[i]) return i; return N; } };
// any number of weights
struct C32_psumsany {
  enum { sorted = 1 }; // the precondition of the property: partial sums
  static bool pre(std::vector<double> const& c, R& g) { return c.size() > 0; }
  static std::size_t impl(std::vector<double> const& c, R& g) { return bwsl::choose_between_psums(c, g); }
  static std::size_t spec(std::vector<double> const& c, R& g) { double u = std::uniform_real_distribution<double>(0., c[c.size() - 1])(g); for (std::size_t i = 0; i < c.size(); i++) if (u < c[i]) return i; return c.size(); } };
struct C32_any {
  enum { sorted = 1 }; // the weights are not negative
  static bool pre(std::vector<double> const& p, R& g) { return p.size() > 0; }
  static std::size_t impl(std::vector<double> const& p, R& g) { return bwsl::choose_between(p, g); }
  static std::size_t spec(std::vector<double> const& p, R& g) { std::vector<double> c; double s = 0; for (std::size_t i = 0; i < p.size(); i++) { s += p[i]; c.push_back(s); } double u = std::uniform_real_distribution<double>(0., c[p.size() - 1])(g); for (std::size_t i = 0; i < p.size(); i++) if (u < c[i]) return i; return p.size(); } };
struct C32_prob {
  static bool impl(double p, R& g) { return bwsl::choose_with_probability(p, g); }
  static bool spec(double p, R& g) { return std::uniform_real_distribution<double>(0., 1.)(g) < p; } };
struct C32_probedges {
  static std::pair<bool, bool> impl(R& g) { bool a = bwsl::choose_with_probability(0.0, g); bool b = bwsl::choose_with_probability(1.0, g); return std::make_pair(a, b); }
  static std::pair<bool, bool> spec(R& g) { std::uniform_real_distribution<double> d(0., 1.); d(g); d(g); return std::make_pair(false, true); } };
// two draws in sequence use consecutive numbers
struct C32_sequence {
  static bool pre(std::array<double, 2> p, double q, R& g) { return p[0] >= 0 && p[1] > 0; }
  static std::pair<std::size_t, bool> impl(std::array<double, 2> p, double q, R& g) { std::vector<double> v(p.begin(), p.end()); auto a = bwsl::choose_between(v, g); auto b = bwsl::choose_with_probability(q, g); return std::make_pair(a, b); }
  static std::pair<std::size_t, bool> spec(std::array<double, 2> p, double q, R& g) { double u = std::uniform_real_distribution<double>(0., p[0] + p[1])(g); double w = std::uniform_real_distribution<double>(0., 1.)(g); return std::make_pair(std::size_t(u < p[0] ? 0 : 1), w < q); } };
#define INST(N) template struct C32_between<N>; template struct C32_valid<N>; template struct C32_untouched<N>; template struct C32_psums<N>;
INST(1) INST(2) INST(3) INST(4) INST(6)
}
