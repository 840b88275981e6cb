#include <algorithm>
#include <cmath>
#include <cstdint>
#include <bwsl/MathUtils.hpp>
#include "common.hpp"
namespace bwslv {
// short ranges: the position of the first element greater than the value
template<std::size_t N> struct C33_short {
  static bool pre(std::array<long, N> x, long v) { bool r = true; for (std::size_t i = 1; i < N; i++) r = r && x[i - 1] <= x[i]; return r; }
  static long impl(std::array<long, N> x, long v) { std::vector<long> a(x.begin(), x.end()); return bwsl::upper_bound(a.begin(), a.end(), v) - a.begin(); }
  static long spec(std::array<long, N> x, long v) { for (std::size_t i = 0; i < N; i++) if (v < x[i]) return (long)i; return N; } };
template<std::size_t N> struct C33_shortreal {
  static bool pre(std::array<double, N> x, double v) { bool r = true; for (std::size_t i = 1; i < N; i++) r = r && x[i - 1] <= x[i]; return r; }
  static long impl(std::array<double, N> x, double v) { std::vector<double> a(x.begin(), x.end()); return bwsl::upper_bound(a.begin(), a.end(), v) - a.begin(); }
  static long spec(std::array<double, N> x, double v) { for (std::size_t i = 0; i < N; i++) if (v < x[i]) return (long)i; return N; } };
struct C33_empty {
  static bool impl(long v) { std::vector<long> a; return bwsl::upper_bound(a.begin(), a.end(), v) == a.end(); }
  static bool spec(long v) { return true; } };
template struct C33_short<1>; template struct C33_short<2>; template struct C33_short<3>; template struct C33_short<4>;
template struct C33_shortreal<1>; template struct C33_shortreal<2>; template struct C33_shortreal<3>;
// any length: analysed with loop invariants (sa/special/C33.py)
template<class T> struct C33search { static long at(std::vector<T> const& x, T v) { return bwsl::upper_bound(x.begin(), x.end(), v) - x.begin(); } };
template struct C33search<int>; template struct C33search<long>; template struct C33search<unsigned long>; template struct C33search<float>; template struct C33search<double>;
}
