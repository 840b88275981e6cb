#include <algorithm>
#include <iterator>
#include <utility>
#include "common.hpp"
#include <bwsl/LinSpace.hpp>
namespace bwslv {
#define S bwsl::LinSpace<T>
#define OK (a < b && n > 0 && n < (1UL << 40))
#define NEXT(s, k) for (std::size_t i = 0; i < k; i++) ++s;
template<class T> T at(T a, T b, std::size_t n, std::size_t k) { return a + (T)k * (b - a) / (T)n; }
template<class T> struct C29_first {
  static bool pre(T a, T b, std::size_t n) { return OK; }
  static T impl(T a, T b, std::size_t n) { S s(a, b, n); return *s; }
  static T spec(T a, T b, std::size_t n) { return a; } };
template<class T> struct C29_increment {
  static bool pre(T a, T b, std::size_t n, std::size_t k) { return OK && k < (1UL << 40); }
  static T impl(T a, T b, std::size_t n, std::size_t k) { S s(a, b, n); NEXT(s, k) return *s; }
  static T spec(T a, T b, std::size_t n, std::size_t k) { return at(a, b, n, k); } };
template<class T> struct C29_post {
  static bool pre(T a, T b, std::size_t n, std::size_t k) { return OK && k < (1UL << 40); }
  static std::array<T, 3> impl(T a, T b, std::size_t n, std::size_t k) { S s(a, b, n); for (std::size_t i = 0; i < k; i++) s++; S t = s++; S u = ++s; return std::array<T, 3>{ *t, *s, *u }; }
  static std::array<T, 3> spec(T a, T b, std::size_t n, std::size_t k) { return std::array<T, 3>{ at(a, b, n, k), at(a, b, n, k + 2), at(a, b, n, k + 2) }; } };
template<class T> struct C29_call {
  static bool pre(T a, T b, std::size_t n, std::size_t k) { return OK && k < (1UL << 40); }
  static std::array<T, 3> impl(T a, T b, std::size_t n, std::size_t k) { S s(a, b, n); for (std::size_t i = 0; i < k; i++) s(); T x = s(); T y = s(); return std::array<T, 3>{ x, y, *s }; }
  static std::array<T, 3> spec(T a, T b, std::size_t n, std::size_t k) { return std::array<T, 3>{ at(a, b, n, k), at(a, b, n, k + 1), at(a, b, n, k + 2) }; } };
template<class T> struct C29_collect {
  static bool pre(T a, T b, std::size_t n, std::size_t m) { return OK && m < (1UL << 40); }
  static std::vector<T> impl(T a, T b, std::size_t n, std::size_t m) { S s(a, b, n); return s.Collect(m); }
  static std::vector<T> spec(T a, T b, std::size_t n, std::size_t m) { std::vector<T> r; for (std::size_t k = 0; k < m; k++) r.push_back(at(a, b, n, k)); return r; } };
// Collect continues from the current position and leaves the space where it is
template<class T> struct C29_collectfrom {
  static bool pre(T a, T b, std::size_t n, std::size_t j, std::size_t m) { return OK && m < (1UL << 40) && j < (1UL << 40); }
  static std::pair<std::vector<T>, T> impl(T a, T b, std::size_t n, std::size_t j, std::size_t m) { S s(a, b, n); NEXT(s, j) auto v = s.Collect(m); return std::make_pair(v, *s); }
  static std::pair<std::vector<T>, T> spec(T a, T b, std::size_t n, std::size_t j, std::size_t m) { std::vector<T> r; for (std::size_t k = 0; k < m; k++) r.push_back(at(a, b, n, j + k)); return std::make_pair(r, at(a, b, n, j)); } };
template<class T> struct C29_begin {
  static bool pre(T a, T b, std::size_t n, std::size_t j, std::size_t k) { return OK && k < (1UL << 40) && j < (1UL << 40); }
  static std::array<T, 3> impl(T a, T b, std::size_t n, std::size_t j, std::size_t k) { S s(a, b, n); NEXT(s, j) S t = s.begin(); T x = *t; NEXT(t, k) return std::array<T, 3>{ x, *t, *s }; }
  static std::array<T, 3> spec(T a, T b, std::size_t n, std::size_t j, std::size_t k) { return std::array<T, 3>{ a, at(a, b, n, k), at(a, b, n, j) }; } };
template<class T> struct C29_end {
  static bool pre(T a, T b, std::size_t n, std::size_t j) { return OK && j < (1UL << 40); }
  static std::array<T, 2> impl(T a, T b, std::size_t n, std::size_t j) { S s(a, b, n); NEXT(s, j) S t = s.end(); return std::array<T, 2>{ *t, *s }; }
  static std::array<T, 2> spec(T a, T b, std::size_t n, std::size_t j) { return std::array<T, 2>{ b, at(a, b, n, j) }; } };
// the end is reached after exactly n increments
template<class T> struct C29_reach {
  static bool pre(T a, T b, std::size_t n, std::size_t k) { return OK && k < (1UL << 40); }
  static std::array<bool, 4> impl(T a, T b, std::size_t n, std::size_t k) { S s(a, b, n); S t = s.begin(); NEXT(t, k) S e = s.end(); return std::array<bool, 4>{ t == e, t != e, e == t, e != t }; }
  static std::array<bool, 4> spec(T a, T b, std::size_t n, std::size_t k) { return std::array<bool, 4>{ k == n, k != n, k == n, k != n }; } };
template<class T> struct C29_last {
  static bool pre(T a, T b, std::size_t n) { return OK; }
  static T impl(T a, T b, std::size_t n) { S s(a, b, n); NEXT(s, n) return *s; }
  static T spec(T a, T b, std::size_t n) { return b; } };
template<class T> struct C29_position {
  static bool pre(T a, T b, std::size_t n, std::size_t j, std::size_t k) { return OK && k < (1UL << 40) && j < (1UL << 40); }
  static std::array<bool, 2> impl(T a, T b, std::size_t n, std::size_t j, std::size_t k) { S s(a, b, n); S t(s); NEXT(s, j) NEXT(t, k) return std::array<bool, 2>{ s == t, s != t }; }
  static std::array<bool, 2> spec(T a, T b, std::size_t n, std::size_t j, std::size_t k) { return std::array<bool, 2>{ j == k, j != k }; } };
// iteration visits exactly the n values
template<class T> struct C29_iterate {
  static bool pre(T a, T b, std::size_t n) { return OK; }
  static std::vector<T> impl(T a, T b, std::size_t n) { S s(a, b, n); std::vector<T> r; S e = s.end(); S i = s.begin(); for (std::size_t k = 0; k < n; k++) { if (i == e) r.push_back(T(0)); else r.push_back(*i); ++i; } if (i != e) r.push_back(T(1)); return r; }
  static std::vector<T> spec(T a, T b, std::size_t n) { std::vector<T> r; for (std::size_t k = 0; k < n; k++) r.push_back(at(a, b, n, k)); return r; } };
template<class T, std::size_t N> struct C29_range {
  static bool pre(T a, T b) { return a < b; }
  static std::vector<T> impl(T a, T b) { S s(a, b, N); std::vector<T> r; for (auto x : s) r.push_back(x); return r; }
  static std::vector<T> spec(T a, T b) { std::vector<T> r; for (std::size_t k = 0; k < N; k++) r.push_back(at(a, b, N, k)); return r; } };
// the position alone decides: mixed advances agree
template<class T> struct C29_mixed {
  static bool pre(T a, T b, std::size_t n) { return OK; }
  static std::array<T, 4> impl(T a, T b, std::size_t n) { S s(a, b, n); ++s; s(); s++; T x = *s; T y = s(); S t(s); t = s.begin(); ++t; return std::array<T, 4>{ x, y, *s, *t }; }
  static std::array<T, 4> spec(T a, T b, std::size_t n) { return std::array<T, 4>{ at(a, b, n, 3), at(a, b, n, 3), at(a, b, n, 4), at(a, b, n, 1) }; } };
#define INST(T) template struct C29_first<T>; template struct C29_increment<T>; template struct C29_post<T>; template struct C29_call<T>; template struct C29_collect<T>; template struct C29_collectfrom<T>; template struct C29_begin<T>; template struct C29_end<T>; template struct C29_reach<T>; template struct C29_last<T>; template struct C29_position<T>; template struct C29_iterate<T>; template struct C29_mixed<T>;  template struct C29_range<T, 1>; template struct C29_range<T, 2>; template struct C29_range<T, 5>;
INST(double) INST(float)
}
