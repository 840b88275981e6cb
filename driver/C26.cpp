#include "common.hpp"
#include "rational.hpp"
namespace bwslv {
#define R bwsl::RationalNum<T>
#define A6 std::array<bool, 6>
template<class T> struct Lim { static constexpr T m = T(1) << (sizeof(T) * 4 - 2); };
template<class T> bool fits(T x) { return x > -Lim<T>::m && x < Lim<T>::m; }
template<class T> bool ok(R const& a) { return fits(a.GetNum()) && a.GetDen() > 0 && a.GetDen() < Lim<T>::m && std::gcd(a.GetNum(), a.GetDen()) == 1; }
// the order of two numbers given by the sign of their difference d
template<class T> A6 order(T d) { return A6{ d < 0, d <= 0, d > 0, d >= 0, d == 0, d != 0 }; }
#define ALL(a, b) A6{ a < b, a <= b, a > b, a >= b, a == b, a != b }

template<class T> struct C26_rr {
  static bool pre(R a, R b) { return ok<T>(a) && ok<T>(b); }
  static A6 impl(R a, R b) { return ALL(a, b); }
  static A6 spec(R a, R b) { return order<T>(a.GetNum() * b.GetDen() - b.GetNum() * a.GetDen()); } };
template<class T> struct C26_ri {
  static bool pre(R a, T b) { return ok<T>(a) && fits(b); }
  static A6 impl(R a, T b) { return ALL(a, b); }
  static A6 spec(R a, T b) { return order<T>(a.GetNum() - b * a.GetDen()); } };
template<class T> struct C26_ir {
  static bool pre(T a, R b) { return fits(a) && ok<T>(b); }
  static A6 impl(T a, R b) { return ALL(a, b); }
  static A6 spec(T a, R b) { return order<T>(a * b.GetDen() - b.GetNum()); } };
// in terms of values built from any numerator and denominator, of any sign
template<class T> struct C26_built {
  static bool pre(T n, T d, T p, T q) { return fits(n) && fits(d) && fits(p) && fits(q) && d != 0 && q > 0; }
  static A6 impl(T n, T d, T p, T q) { return ALL(R(n, d), R(p, q)); }
  static A6 spec(T n, T d, T p, T q) { T s = n * q - p * d; return order<T>(d < 0 ? -s : s); } };
template<class T> struct C26_builtint {
  static bool pre(T n, T d, T k) { return fits(n) && fits(d) && fits(k) && d != 0; }
  static A6 impl(T n, T d, T k) { return ALL(R(n, d), k); }
  static A6 spec(T n, T d, T k) { T s = n - k * d; return order<T>(d < 0 ? -s : s); } };
template<class T> struct C26_value {
  enum { fp = 0 };
  static bool pre(R a, R b) { return ok<T>(a) && ok<T>(b); }
  static A6 impl(R a, R b) { return ALL(a, b); }
  static A6 spec(R a, R b) { double x = (double)a.GetNum() / (double)a.GetDen(), y = (double)b.GetNum() / (double)b.GetDen(); return ALL(x, y); } };
template<class T> struct C26_trichotomy {
  static bool pre(R a, R b) { return ok<T>(a) && ok<T>(b); }
  static int impl(R a, R b) { return (a < b) + (a == b) + (a > b); }
  static int spec(R a, R b) { return 1; } };
template<class T> struct C26_trichotomyint {
  static bool pre(R a, T b) { return ok<T>(a) && fits(b); }
  static int impl(R a, T b) { return (a < b) + (a == b) + (a > b) + (b < a) + (b == a) + (b > a); }
  static int spec(R a, T b) { return 2; } };
template<class T> struct C26_mirror {
  static bool pre(R a, R b, T i) { return ok<T>(a) && ok<T>(b) && fits(i); }
  static A6 impl(R a, R b, T i) { return A6{ (a < b) == (b > a), (a <= b) == (b >= a), (a == b) == (b == a), (a < i) == (i > a), (a <= i) == (i >= a), (a >= i) == (i <= a) }; }
  static A6 spec(R a, R b, T i) { return A6{ true, true, true, true, true, true }; } };
template<class T> struct C26_operands {
  static bool pre(R a, R b, T i) { return ok<T>(a) && ok<T>(b) && fits(i); }
  static std::array<T, 4> impl(R a, R b, T i) { auto x = ALL(a, b); auto y = ALL(a, i); auto z = ALL(i, b); return std::array<T, 4>{ a.GetNum(), a.GetDen(), b.GetNum(), b.GetDen() }; }
  static std::array<T, 4> spec(R a, R b, T i) { return std::array<T, 4>{ a.GetNum(), a.GetDen(), b.GetNum(), b.GetDen() }; } };
template<class T, int n, int d, int p, int q, int s> struct C26_case {
  static A6 impl(int) { return ALL(R(n, d), R(p, q)); }
  static A6 spec(int) { return order<T>(s); } };
// whole numbers of the full range
template<class T> struct C26_wholes {
  static std::array<A6, 3> impl(T n, T k) { return std::array<A6, 3>{ ALL(R(n, 1), k), ALL(n, R(k, 1)), ALL(R(n, 1), R(k, 1)) }; }
  static std::array<A6, 3> spec(T n, T k) { A6 r = ALL(n, k); return std::array<A6, 3>{ r, r, r }; } };
#define INST(T) template struct C26_wholes<T>; template struct C26_rr<T>; template struct C26_ri<T>; template struct C26_ir<T>; template struct C26_built<T>; template struct C26_builtint<T>; template struct C26_value<T>; template struct C26_trichotomy<T>; template struct C26_trichotomyint<T>; template struct C26_mirror<T>; template struct C26_operands<T>; \
  template struct C26_case<T, 1, 2, 1, -3, 1>; template struct C26_case<T, -1, 2, 1, -2, 0>; template struct C26_case<T, -7, 3, -5, 2, 1>; template struct C26_case<T, 0, 5, 0, -2, 0>; template struct C26_case<T, 3, 7, 4, 9, -1>;
INST(long) INST(int)
}
