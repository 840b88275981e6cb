#include "common.hpp"
#include <bwsl/Approx.hpp>
namespace bwslv {
using bwsl::Approx;
#define EPS (100 * std::numeric_limits<double>::epsilon())
inline double mag(double x) { return x < 0 ? -x : x; }
inline bool near(double x, double v, double abs, double rel) { double t = mag(rel) * mag(v); double u = mag(abs); return mag(x - v) <= (t < u ? u : t); }
typedef std::array<bool, 6> Six;
inline Six six(double x, const Approx& a) { return Six{ x == a, x != a, x < a, x <= a, x > a, x >= a }; }
inline Six rsix(const Approx& a, double x) { return Six{ a == x, a != x, a < x, a <= x, a > x, a >= x }; }
inline Six want(double x, double v, double abs, double rel) { bool n = near(x, v, abs, rel); return Six{ n, !n, x < v && !n, x < v || n, x > v && !n, x > v || n }; }
inline Six rwant(double x, double v, double abs, double rel) { bool n = near(x, v, abs, rel); return Six{ n, !n, v < x && !n, v < x || n, v > x && !n, v > x || n }; }
struct C31_default {
  static bool pre(double x, double v) { return true; }
  static Six impl(double x, double v) { return six(x, Approx(v)); }
  static Six spec(double x, double v) { return want(x, v, 0, EPS); } };
struct C31_rdefault {
  static bool pre(double x, double v) { return true; }
  static Six impl(double x, double v) { return rsix(Approx(v), x); }
  static Six spec(double x, double v) { return rwant(x, v, 0, EPS); } };
struct C31_tolerances {
  static bool pre(double x, double v, double a, double r) { return true; }
  static Six impl(double x, double v, double a, double r) { return six(x, Approx(v).SetAbs(a).SetRel(r)); }
  static Six spec(double x, double v, double a, double r) { return want(x, v, a, r); } };
struct C31_rtolerances {
  static bool pre(double x, double v, double a, double r) { return true; }
  static Six impl(double x, double v, double a, double r) { return rsix(Approx(v).SetRel(r).SetAbs(a), x); }
  static Six spec(double x, double v, double a, double r) { return rwant(x, v, a, r); } };
struct C31_absonly {
  static bool pre(double x, double v, double a) { return true; }
  static Six impl(double x, double v, double a) { return six(x, Approx(v).SetAbs(a)); }
  static Six spec(double x, double v, double a) { return want(x, v, a, EPS); } };
struct C31_rabsonly {
  static bool pre(double x, double v, double a) { return true; }
  static Six impl(double x, double v, double a) { return rsix(Approx(v).SetAbs(a), x); }
  static Six spec(double x, double v, double a) { return rwant(x, v, a, EPS); } };
struct C31_relonly {
  static bool pre(double x, double v, double r) { return true; }
  static Six impl(double x, double v, double r) { return six(x, Approx(v).SetRel(r)); }
  static Six spec(double x, double v, double r) { return want(x, v, 0, r); } };
struct C31_rrelonly {
  static bool pre(double x, double v, double r) { return true; }
  static Six impl(double x, double v, double r) { return rsix(Approx(v).SetRel(r), x); }
  static Six spec(double x, double v, double r) { return rwant(x, v, 0, r); } };
// the last setting counts; the setters return the object itself; copies keep the tolerances
struct C31_resets {
  static bool pre(double x, double v, double a, double b, double r, double q) { return true; }
  static Six impl(double x, double v, double a, double b, double r, double q) { Approx p(v); p.SetAbs(a).SetRel(r).SetAbs(b); p.SetRel(q); Approx c(p); return six(x, c); }
  static Six spec(double x, double v, double a, double b, double r, double q) { return want(x, v, b, q); } };
struct C31_self {
  static bool pre(double v, double a, double r) { return true; }
  static std::array<bool, 3> impl(double v, double a, double r) { Approx p(v); Approx& s = p.SetAbs(a); Approx& t = p.SetRel(r); return std::array<bool, 3>{ &s == &p, &t == &p, v == p }; }
  static std::array<bool, 3> spec(double v, double a, double r) { return std::array<bool, 3>{ true, true, true }; } };
// a comparison changes neither side
struct C31_pure {
  static bool pre(double x, double y, double v, double a, double r) { return true; }
  static Six impl(double x, double y, double v, double a, double r) { Approx p(v); p.SetAbs(a).SetRel(r); six(y, p); rsix(p, y); return six(x, p); }
  static Six spec(double x, double y, double v, double a, double r) { return want(x, v, a, r); } };
// not-a-number equals nothing, != stays the negation of ==
struct C31_nan {
  static bool pre(double v, double a, double r) { return true; }
  static std::array<Six, 2> impl(double v, double a, double r) { Approx p(v); p.SetAbs(a).SetRel(r); double n = std::nan(""); return std::array<Six, 2>{ six(n, p), rsix(p, n) }; }
  static std::array<Six, 2> spec(double v, double a, double r) { Six s{ false, true, false, false, false, false }; return std::array<Six, 2>{ s, s }; } };
}
