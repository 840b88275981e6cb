#include <numeric>
#include "common.hpp"
#include "rational.hpp"
namespace bwslv {
#define R bwsl::RationalNum<T>
#define PT std::pair<T, T>
template<class T> struct Lim { static constexpr T m = T(1) << (sizeof(T) * 4 - 3); };
template<class T> bool fits(T x) { return x > -Lim<T>::m && x < Lim<T>::m; }
// an arbitrary value of the class
template<class T> bool ok(R const& a) { return fits(a.GetNum()) && a.GetDen() > 0 && a.GetDen() < Lim<T>::m && std::gcd(a.GetNum(), a.GetDen()) == 1; }
template<class T> double val(R const& a) { return (double)a.GetNum() / (double)a.GetDen(); }
// the canonical form of n/d
template<class T> PT canon(T n, T d) { T g = std::gcd(n, d); if (d < 0) g = -g; return PT(n / g, d / g); }
template<class T> PT get(R const& a) { return PT(a.GetNum(), a.GetDen()); }
// both the value and the form
template<class T> std::pair<double, bool> form(R const& a) { return std::make_pair(val(a), a.GetDen() > 0); }
#define FORM std::pair<double, bool>

template<class T> struct C25_default {
  static PT impl(int) { R a; return get(a); }
  static PT spec(int) { return PT(0, 1); } };
template<class T> struct C25_construct {
  static bool pre(T n, T d) { return fits(n) && fits(d) && d != 0; }
  static PT impl(T n, T d) { R a(n, d); return get(a); }
  static PT spec(T n, T d) { return canon(n, d); } };
template<class T> struct C25_value {
  static bool pre(T n, T d) { return fits(n) && fits(d) && d != 0; }
  static FORM impl(T n, T d) { R a(n, d); return form(a); }
  static FORM spec(T n, T d) { return FORM((double)n / (double)d, true); } };
// concrete cases fix the form without reference to a gcd
template<class T, int n, int d, int p, int q> struct C25_case {
  static PT impl(int) { R a(n, d); return get(a); }
  static PT spec(int) { return PT(p, q); } };
#define CASES(T) template struct C25_case<T, 6, 4, 3, 2>; template struct C25_case<T, -6, 4, -3, 2>; template struct C25_case<T, 6, -4, -3, 2>; template struct C25_case<T, -6, -4, 3, 2>; template struct C25_case<T, 0, 7, 0, 1>; template struct C25_case<T, 0, -7, 0, 1>; template struct C25_case<T, 12, 1, 12, 1>; template struct C25_case<T, 12, -1, -12, 1>; template struct C25_case<T, -35, 21, -5, 3>; template struct C25_case<T, 4, 12, 1, 3>; template struct C25_case<T, -1, -9, 1, 9>; template struct C25_case<T, 1001, 1309, 13, 17>;

#define VALUE(name, op, X, Y, px, py, vx, vy) \
  template<class T> struct C25_##name { \
    static bool pre(X a, Y b) { return px && py; } \
    static FORM impl(X a, Y b) { R r = a op b; return form(r); } \
    static FORM spec(X a, Y b) { return FORM(vx op vy, true); } };
#define ALLOPS(s, X, Y, px, py, vx, vy, nz) VALUE(add##s, +, X, Y, px, py, vx, vy) VALUE(sub##s, -, X, Y, px, py, vx, vy) VALUE(mul##s, *, X, Y, px, py, vx, vy) VALUE(div##s, /, X, Y, px, (py && nz), vx, vy)
ALLOPS(rr, R, R, ok<T>(a), ok<T>(b), val<T>(a), val<T>(b), b.GetNum() != 0)
ALLOPS(ri, R, T, ok<T>(a), fits(b), val<T>(a), (double)b, b != 0)
ALLOPS(ir, T, R, fits(a), ok<T>(b), (double)a, val<T>(b), b.GetNum() != 0)
// the result is the canonical form of the exact result
#define CANON(name, op, X, Y, px, py, N, D) \
  template<class T> struct C25_canon_##name { \
    enum { fp = 1 }; \
    static bool pre(X a, Y b) { return px && py; } \
    static PT impl(X a, Y b) { R r = a op b; return get(r); } \
    static PT spec(X a, Y b) { return canon<T>(N, D); } };
#define AN a.GetNum()
#define AD a.GetDen()
#define BN b.GetNum()
#define BD b.GetDen()
CANON(addrr, +, R, R, ok<T>(a), ok<T>(b), AN * BD + BN * AD, AD * BD)
CANON(subrr, -, R, R, ok<T>(a), ok<T>(b), AN * BD - BN * AD, AD * BD)
CANON(mulrr, *, R, R, ok<T>(a), ok<T>(b), AN * BN, AD * BD)
CANON(divrr, /, R, R, ok<T>(a), (ok<T>(b) && BN != 0), AN * BD, AD * BN)
CANON(addri, +, R, T, ok<T>(a), fits(b), AN + b * AD, AD)
CANON(subri, -, R, T, ok<T>(a), fits(b), AN - b * AD, AD)
CANON(mulri, *, R, T, ok<T>(a), fits(b), AN * b, AD)
CANON(divri, /, R, T, ok<T>(a), (fits(b) && b != 0), AN, AD * b)
CANON(addir, +, T, R, fits(a), ok<T>(b), a * BD + BN, BD)
CANON(subir, -, T, R, fits(a), ok<T>(b), a * BD - BN, BD)
CANON(mulir, *, T, R, fits(a), ok<T>(b), a * BN, BD)
CANON(divir, /, T, R, fits(a), (ok<T>(b) && BN != 0), a * BD, BN)

template<class T> struct C25_todouble {
  static bool pre(R a) { return a.GetDen() > 0 && std::gcd(a.GetNum(), a.GetDen()) == 1; }
  static double impl(R a) { return (double)a; }
  static double spec(R a) { return val<T>(a); } };
template<class T> struct C25_toint {
  static bool pre(R a) { return ok<T>(a); }
  static T impl(R a) { return (T)a; }
  static T spec(R a) { T n = a.GetNum(); return n >= 0 ? n / a.GetDen() : -(-n / a.GetDen()); } };
template<class T> struct C25_isint {
  static bool pre(T n, T k) { return fits(n) && fits(k) && k != 0; }
  static bool impl(T n, T k) { return R(n * k, k).IsInt(); }
  static bool spec(T n, T k) { return true; } };
template<class T> struct C25_isintany {
  static bool pre(R a) { return ok<T>(a); }
  static bool impl(R a) { return a.IsInt(); }
  static bool spec(R a) { return a.GetNum() % a.GetDen() == 0; } };
template<class T> struct C25_eqint {
  static bool pre(R a, T i) { return ok<T>(a) && fits(i); }
  static std::array<bool, 4> impl(R a, T i) { return std::array<bool, 4>{ a == i, i == a, a != i, i != a }; }
  static std::array<bool, 4> spec(R a, T i) { bool e = a.GetNum() == i * a.GetDen(); return std::array<bool, 4>{ e, e, !e, !e }; } };
template<class T> struct C25_simplify {
  static bool pre(T n, T d) { return fits(n) && fits(d) && d != 0; }
  static PT impl(T n, T d) { R a(n, d); PT p = get(a); a.Simplify(); return PT(get(a).first - p.first, get(a).second - p.second); }
  static PT spec(T n, T d) { return PT(0, 0); } };
template<class T> struct C25_operands {
  static bool pre(R a, R b) { return ok<T>(a) && ok<T>(b) && b.GetNum() != 0; }
  static std::array<T, 4> impl(R a, R b) { auto s = a + b; auto d = a - b; auto p = a * b; auto q = a / b; return std::array<T, 4>{ a.GetNum(), a.GetDen(), b.GetNum(), b.GetDen() }; }
  static std::array<T, 4> spec(R a, R b) { return std::array<T, 4>{ a.GetNum(), a.GetDen(), b.GetNum(), b.GetDen() }; } };
#define INST(T) template struct C25_default<T>; template struct C25_construct<T>; template struct C25_value<T>; CASES(T) \
  template struct C25_addrr<T>; template struct C25_subrr<T>; template struct C25_mulrr<T>; template struct C25_divrr<T>; template struct C25_addri<T>; template struct C25_subri<T>; template struct C25_mulri<T>; template struct C25_divri<T>; template struct C25_addir<T>; template struct C25_subir<T>; template struct C25_mulir<T>; template struct C25_divir<T>; \
  template struct C25_canon_addrr<T>; template struct C25_canon_subrr<T>; template struct C25_canon_mulrr<T>; template struct C25_canon_divrr<T>; template struct C25_canon_addri<T>; template struct C25_canon_subri<T>; template struct C25_canon_mulri<T>; template struct C25_canon_divri<T>; template struct C25_canon_addir<T>; template struct C25_canon_subir<T>; template struct C25_canon_mulir<T>; template struct C25_canon_divir<T>; \
  template struct C25_todouble<T>; template struct C25_toint<T>; template struct C25_isint<T>; template struct C25_isintany<T>; template struct C25_eqint<T>; template struct C25_simplify<T>; template struct C25_operands<T>;
INST(long) INST(int)
}
