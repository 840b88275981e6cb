#pragma once
#include <numeric>
#include <bwsl/RationalNum.hpp>
namespace bwslv {
// used when the representation is not the recorded one: every canonical value, made by the constructor
template<class C> struct Build;
template<class T> struct Build<bwsl::RationalNum<T>> {
  static bool ok(T n, T d) { return d > 0 && std::gcd(n, d) == 1; }
  static bwsl::RationalNum<T> make(T n, T d) { return bwsl::RationalNum<T>(n, d); } };
template struct Build<bwsl::RationalNum<long>>;
template struct Build<bwsl::RationalNum<int>>;
}
