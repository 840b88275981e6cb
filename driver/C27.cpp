#include <sstream>
#include <numeric>
#include "common.hpp"
#include "rational.hpp"
namespace bwslv {
#define R bwsl::RationalNum<T>
#define PT std::pair<T, T>
template<class T> struct Lim { static constexpr T m = T(1) << (sizeof(T) * 8 - 3); };
template<class T> bool fits(T x) { return x > -Lim<T>::m && x < Lim<T>::m; }
// a value in canonical form
template<class T> bool canonical(R const& a) { return fits(a.GetNum()) && a.GetDen() > 0 && a.GetDen() < Lim<T>::m && std::gcd(a.GetNum(), a.GetDen()) == 1; }
template<class T> PT canon(T n, T d) { T g = std::gcd(n, d); if (d < 0) g = -g; return PT(n / g, d / g); }
template<class T> PT get(R const& a) { return PT(a.GetNum(), a.GetDen()); }
template<class T> std::string text(T n, T d) { return std::to_string(n) + "//" + std::to_string(d); }

template<class T> struct C27_print {
  static bool pre(R a) { return canonical<T>(a); }
  static std::string impl(R a) { std::ostringstream s; s << a; return s.str(); }
  static std::string spec(R a) { return text<T>(a.GetNum(), a.GetDen()); } };
template<class T> struct C27_tostring {
  static bool pre(R a) { return canonical<T>(a); }
  static std::string impl(R a) { return ToString(a); }
  static std::string spec(R a) { return text<T>(a.GetNum(), a.GetDen()); } };
// printing leaves the value alone and prints nothing else
template<class T> struct C27_prints {
  static bool pre(R& a, R& b) { return canonical<T>(a) && canonical<T>(b); }
  static std::string impl(R& a, R& b) { std::ostringstream s; s << a << ' ' << b << '\n'; return s.str(); }
  static std::string spec(R& a, R& b) { return text<T>(a.GetNum(), a.GetDen()) + " " + text<T>(b.GetNum(), b.GetDen()) + "\n"; } };
template<class T> struct C27_built {
  static bool pre(T n, T d) { return fits(n) && fits(d) && d != 0; }
  static std::string impl(T n, T d) { return ToString(R(n, d)); }
  static std::string spec(T n, T d) { PT p = canon<T>(n, d); return text<T>(p.first, p.second); } };
// out and in again
template<class T> struct C27_roundtrip {
  static bool pre(R a, R b) { return canonical<T>(a) && canonical<T>(b); }
  static PT impl(R a, R b) { FromString(ToString(a), b); return get(b); }
  static PT spec(R a, R b) { return get(a); } };
template<class T> struct C27_streamtrip {
  static bool pre(R a, R b) { return canonical<T>(a) && canonical<T>(b); }
  static std::pair<PT, bool> impl(R a, R b) { std::stringstream s; s << a; s >> b; return std::make_pair(get(b), !s.fail()); }
  static std::pair<PT, bool> spec(R a, R b) { return std::make_pair(get(a), true); } };
template<class T> struct C27_two {
  static bool pre(R a, R b) { return canonical<T>(a) && canonical<T>(b); }
  static std::pair<PT, PT> impl(R a, R b) { std::stringstream s; s << a << " " << b; R x, y; s >> x >> y; return std::make_pair(get(x), get(y)); }
  static std::pair<PT, PT> spec(R a, R b) { return std::make_pair(get(a), get(b)); } };
// any numerator and denominator are read into canonical form
template<class T> struct C27_read {
  static bool pre(T n, T d, R b) { return fits(n) && fits(d) && d != 0 && canonical<T>(b); }
  static std::pair<PT, bool> impl(T n, T d, R b) { std::istringstream s(text<T>(n, d)); s >> b; return std::make_pair(get(b), !s.fail()); }
  static std::pair<PT, bool> spec(T n, T d, R b) { return std::make_pair(canon<T>(n, d), true); } };
template<class T> struct C27_fromstring {
  static bool pre(T n, T d, R b) { return fits(n) && fits(d) && d != 0 && canonical<T>(b); }
  static PT impl(T n, T d, R b) { FromString(text<T>(n, d), b); return get(b); }
  static PT spec(T n, T d, R b) { return canon<T>(n, d); } };
// zero denominators
template<class T> struct C27_zerostream {
  static bool pre(T n, R b) { return fits(n) && canonical<T>(b); }
  static bool impl(T n, R b) { std::istringstream s(std::to_string(n) + "//0"); s >> b; return s.fail(); }
  static bool spec(T n, R b) { return true; } };
template<class T> struct C27_zerostring {
  static bool pre(T n, R b) { return fits(n) && canonical<T>(b); }
  static bool impl(T n, R b) { bool t = false; try { FromString(std::to_string(n) + "//0", b); } catch (bwsl::exception::BadParsing const&) { t = true; } return t; }
  static bool spec(T n, R b) { return true; } };
// malformed text around any numbers
#define BAD(name, expr) \
template<class T> struct C27_stream_##name { \
  static bool pre(T n, T d, R b) { return fits(n) && fits(d) && d != 0 && canonical<T>(b); } \
  static bool impl(T n, T d, R b) { std::string N = std::to_string(n), D = std::to_string(d); std::istringstream s{ std::string(expr) }; s >> b; return s.fail(); } \
  static bool spec(T n, T d, R b) { return true; } }; \
template<class T> struct C27_throws_##name { \
  static bool pre(T n, T d, R b) { return fits(n) && fits(d) && d != 0 && canonical<T>(b); } \
  static bool impl(T n, T d, R b) { std::string N = std::to_string(n), D = std::to_string(d); bool t = false; try { FromString(expr, b); } catch (bwsl::exception::BadParsing const&) { t = true; } return t; } \
  static bool spec(T n, T d, R b) { return true; } }; \
template struct C27_stream_##name<long>; template struct C27_stream_##name<int>; template struct C27_throws_##name<long>; template struct C27_throws_##name<int>;
BAD(empty, std::string())
BAD(blank, std::string("  "))
BAD(number, N)
BAD(slash, N + "/" + D)
BAD(second, N + "/:" + D)
BAD(first, N + ":/" + D)
BAD(colon, N + "::" + D)
BAD(onlysep, std::string("//"))
BAD(nonum, "//" + D)
BAD(noden, N + "//")
BAD(half, N + "/")
BAD(word, std::string("abc"))
BAD(worddens, N + "//x")
BAD(wordnum, "x//" + D)
BAD(triple, N + "///" + D)
BAD(minus, N + "//-")
BAD(backslash, N + "\\\\" + D)
BAD(letter, N + "/a" + D)
#define INST(T) template struct C27_print<T>; template struct C27_tostring<T>; template struct C27_prints<T>; template struct C27_built<T>; template struct C27_roundtrip<T>; template struct C27_streamtrip<T>; template struct C27_two<T>; template struct C27_read<T>; template struct C27_fromstring<T>; template struct C27_zerostream<T>; template struct C27_zerostring<T>;
INST(long) INST(int)
}
