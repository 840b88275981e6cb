#include <cmath>
#include <bwsl/MathUtils.hpp>
#include "common.hpp"
namespace bwslv {
template<class T> struct C34_square { static T impl(T x) { return bwsl::square(x); } static T spec(T x) { return x * x; } };
template<class T> struct C34_cube { static T impl(T x) { return bwsl::cube(x); } static T spec(T x) { return x * x * x; } };
template<class T> struct C34_product { static T impl(std::vector<T> const& v) { return bwsl::accumulate_product(v); } static T spec(std::vector<T> const& v) { T r = 1; for (std::size_t i = 0; i < v.size(); i++) r *= v[i]; return r; } };
template<class T> struct C34_sum { static T impl(std::vector<T> const& v) { return bwsl::accumulate_sum(v); } static T spec(std::vector<T> const& v) { T r = 0; for (std::size_t i = 0; i < v.size(); i++) r += v[i]; return r; } };
template<class T> struct C34_sumsq { static T impl(std::vector<T> const& v) { return bwsl::sum_squared<std::vector<T>, T>(v); } static T spec(std::vector<T> const& v) { T r = 0; for (std::size_t i = 0; i < v.size(); i++) r += v[i] * v[i]; return r; } };
struct C34_l2norm { static double impl(std::vector<double> const& v) { return bwsl::l2norm(v); } static double spec(std::vector<double> const& v) { double r = 0; for (std::size_t i = 0; i < v.size(); i++) r += v[i] * v[i]; return std::sqrt(r); } };
struct C34_l2normint { static double impl(std::vector<long> const& v) { return bwsl::l2norm(v); } static double spec(std::vector<long> const& v) { long r = 0; for (std::size_t i = 0; i < v.size(); i++) r += v[i] * v[i]; return std::sqrt((double)r); } };
template<class T, std::size_t N> struct C34_maxn { static T impl(std::array<T, N> const& v) { return bwsl::max(v); } static T spec(std::array<T, N> const& v) { T r = v[0]; for (std::size_t i = 1; i < N; i++) if (v[i] > r) r = v[i]; return r; } };
template<class T, std::size_t N> struct C34_minn { static T impl(std::array<T, N> const& v) { return bwsl::min(v); } static T spec(std::array<T, N> const& v) { T r = v[0]; for (std::size_t i = 1; i < N; i++) if (v[i] < r) r = v[i]; return r; } };
template<class T> struct C34_sgn { static int impl(T x) { return bwsl::sgn(x); } static int spec(T x) { return x > 0 ? 1 : x < 0 ? -1 : 0; } };
template<class T> struct C34_absdiff { static T impl(T a, T b) { return bwsl::absdiff(a, b); } static T spec(T a, T b) { return a < b ? b - a : a - b; } };
struct C34_signeddiff { static bool pre(unsigned long a, unsigned long b) { return a < (1UL << 62) && b < (1UL << 62); } static long impl(unsigned long a, unsigned long b) { return bwsl::signeddiff<unsigned long, long>(a, b); } static long spec(unsigned long a, unsigned long b) { return (long)a - (long)b; } };
struct C34_signeddiff32 { static bool pre(unsigned a, unsigned b) { return a < (1U << 31) && b < (1U << 31); } static int impl(unsigned a, unsigned b) { return bwsl::signeddiff<unsigned, int>(a, b); } static int spec(unsigned a, unsigned b) { return (int)((long)a - (long)b); } };
template<class T> struct C34_suminto { static bool pre(std::vector<T>& a, std::vector<T> const& b) { return a.size() == b.size(); } 
  static std::vector<T> impl(std::vector<T>& a, std::vector<T> const& b) { return bwsl::sum_into(a, b); } 
  static std::vector<T> spec(std::vector<T>& a, std::vector<T> const& b) { for (std::size_t i = 0; i < a.size(); i++) a[i] = a[i] + b[i]; return a; } };
template<class T> struct C34_subinto { static bool pre(std::vector<T>& a, std::vector<T> const& b) { return a.size() == b.size(); } 
  static std::vector<T> impl(std::vector<T>& a, std::vector<T> const& b) { return bwsl::subtract_into(a, b); } 
  static std::vector<T> spec(std::vector<T>& a, std::vector<T> const& b) { for (std::size_t i = 0; i < a.size(); i++) a[i] = a[i] - b[i]; return a; } };
// aliasing: both arguments the same container
struct C34_sumself { static std::vector<long> impl(std::vector<long>& a) { return bwsl::sum_into(a, a); } static std::vector<long> spec(std::vector<long>& a) { for (std::size_t i = 0; i < a.size(); i++) a[i] = 2 * a[i]; return a; } };
template<class T> struct C34_invert { static std::vector<T> impl(std::vector<T>& a) { return bwsl::invert(a); } static std::vector<T> spec(std::vector<T>& a) { for (std::size_t i = 0; i < a.size(); i++) a[i] = -a[i]; return a; } };
template<class T> struct C34_inverted { static std::vector<T> impl(std::vector<T>& a) { return bwsl::get_inverted(a); } static std::vector<T> spec(std::vector<T>& a) { std::vector<T> r; for (std::size_t i = 0; i < a.size(); i++) r.push_back(-a[i]); return r; } };
template<class T> struct C34_gcd { static bool pre(T a, T b) { return true; } static T impl(T a, T b) { return bwsl::get_gcd(a, b); } static T spec(T a, T b) { while (b != 0) { T t = a % b; a = b; b = t; } return a; } };
struct C34_gcdbase { static long impl(long a) { return bwsl::get_gcd(a, 0L); } static long spec(long a) { return a; } };
struct C34_gcdconst { static bool impl() { return bwsl::get_gcd(12, 18) == 6 && bwsl::get_gcd(35, 64) == 1 && bwsl::get_gcd(0, 7) == 7 && bwsl::get_gcd(1071, 462) == 21; } static bool spec() { return true; } };
template<class T> struct C34_theta { static T impl(T x) { return bwsl::heaviside(x); } static T spec(T x) { return x < 0 ? 0 : 1; } };
template<class T> struct C34_theta2 { static T impl(T x) { return bwsl::heaviside2(x); } static T spec(T x) { return x < 0 ? T(0) : x > 0 ? T(1) : T(0.5); } };
struct C34_lerp { static double impl(double a, double b, double t) { return bwsl::lerp(a, b, t); } static double spec(double a, double b, double t) { return a + t * (b - a); } };
struct C34_lerpi { static bool pre(long i, long j, double a, double b) { return j != 0; } static double impl(long i, long j, double a, double b) { return bwsl::lerpi(i, j, a, b); } static double spec(long i, long j, double a, double b) { return a + (b - a) * (double)i / (double)j; } };
struct C34_lerpiu { static bool pre(unsigned long i, unsigned long j, double a, double b) { return j != 0; } static double impl(unsigned long i, unsigned long j, double a, double b) { return bwsl::lerpi(i, j, a, b); } static double spec(unsigned long i, unsigned long j, double a, double b) { return a + (b - a) * (double)i / (double)j; } };
// binomial coefficients: outside the triangle, edges, symmetry, and every row for fixed k
struct C34_binzero { static bool pre(long n, long k) { return n >= 0 && k > n; } static double impl(long n, long k) { return bwsl::cbinomial(n, k); } static double spec(long n, long k) { return 0; } };
struct C34_binsym { static bool pre(long n, long k) { return n >= 0 && k >= 0 && k <= n; } static double impl(long n, long k) { return bwsl::cbinomial(n, k); } static double spec(long n, long k) { return bwsl::cbinomial(n, n - k); } };
template<long K> struct C34_binrow { static bool pre(long n) { return n >= 2 * K && n < 1000; } static double impl(long n) { return bwsl::cbinomial(n, K); } 
  static double spec(long n) { double r = 1; for (long i = 0; i < K; i++) r = r * (double)(n - i) / (double)(i + 1); return r; } };
template<long N> struct C34_bintable { 
  static bool impl() { double row[N + 1] = { 1 }; bool ok = true; for (long n = 0; n <= N; n++) { for (long k = 0; k <= n; k++) ok = ok && bwsl::cbinomial(n, k) == row[k]; for (long k = n + 1; k > 0; k--) if (k <= N) row[k] += row[k - 1]; } return ok; } 
  static bool spec() { return true; } };
// the squares are summed in the type asked for, not in the one of the elements
template<class U, class T> struct C34_sumwide { static T impl(std::vector<U> const& v) { return bwsl::sum_squared<std::vector<U>, T>(v); } static T spec(std::vector<U> const& v) { T r = 0; for (std::size_t i = 0; i < v.size(); i++) r += (T)v[i] * (T)v[i]; return r; } };
template struct C34_sumwide<unsigned, unsigned long>; template struct C34_sumwide<unsigned, double>; template struct C34_sumwide<int, double>; template struct C34_sumwide<int, long>;
#define NUM(S) template struct S<int>; template struct S<long>; template struct S<double>; template struct S<unsigned long>;
NUM(C34_square) NUM(C34_cube) NUM(C34_product) NUM(C34_sum) NUM(C34_sumsq) NUM(C34_absdiff) NUM(C34_suminto) NUM(C34_subinto)
template struct C34_sgn<int>; template struct C34_sgn<long>; template struct C34_sgn<double>; template struct C34_sgn<unsigned long>;
template struct C34_invert<int>; template struct C34_invert<long>; template struct C34_invert<double>;
template struct C34_inverted<int>; template struct C34_inverted<long>; template struct C34_inverted<double>;
template struct C34_maxn<double, 1>; template struct C34_maxn<double, 2>; template struct C34_maxn<long, 4>; template struct C34_minn<double, 1>; template struct C34_minn<double, 2>; template struct C34_minn<long, 4>;
template struct C34_gcd<long>; template struct C34_gcd<unsigned long>; template struct C34_gcd<int>;
template struct C34_theta<double>; template struct C34_theta<float>; template struct C34_theta2<double>; template struct C34_theta2<float>;
template struct C34_binrow<0>; template struct C34_binrow<1>; template struct C34_binrow<2>; template struct C34_binrow<3>; template struct C34_binrow<4>;
template struct C34_bintable<12>;
}
