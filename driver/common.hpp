// shared by the analysis drivers: never compiled to code, only parsed
#pragma once
#include <array>
#include <cmath>
#include <cstddef>
#include <random>
#include <string>
#include <utility>
#include <vector>
namespace bwslv {
// analysis intrinsics (no body)
void assume(bool);
bool file_readable(std::string const&);
std::size_t file_size(std::string const&);
int file_byte(std::string const&, std::size_t);
bool io_fails();
bool bad_state(std::string const&);
unsigned long long parse_u64(std::string const&);
double real_floor(double);
long floor_mod(long, long); // in [0,s) for s > 0

// spelled out: parameter types are read from the syntax tree
#define vsz std::vector<std::size_t>
#define vl std::vector<long>
template<std::size_t D> using asz = std::array<std::size_t, D>;
template<std::size_t D> using al = std::array<long, D>;
#define vd std::vector<double>

template<std::size_t D> vsz to_vec(asz<D> const& a) { return vsz(a.begin(), a.end()); }
template<std::size_t D> vl to_vec(al<D> const& a) { return vl(a.begin(), a.end()); }
template<std::size_t D> bool sizes_ok(asz<D> const& L) { bool r = true; for (auto x : L) r = r && x > 0 && x < (1UL << 40); return r; }
template<std::size_t D> std::size_t volume(asz<D> const& L) { std::size_t n = 1; for (auto x : L) n *= x; return n; }
inline long fmodl_(long a, long s) { return floor_mod(a, s); }
// row-major decoding, last coordinate fastest
template<std::size_t D> al<D> decode(asz<D> const& L, std::size_t i)
{
  al<D> r{};
  for (std::size_t k = D; k > 0; k--) { r[k - 1] = (long)(i % L[k - 1]); i /= L[k - 1]; }
  return r;
}
template<std::size_t D> std::size_t encode(asz<D> const& L, al<D> const& c)
{
  std::size_t r = 0;
  for (std::size_t k = 0; k < D; k++) r = r * L[k] + (std::size_t)c[k];
  return r;
}
template<std::size_t D> bool inside(asz<D> const& L, al<D> const& c) { bool r = true; for (std::size_t k = 0; k < D; k++) r = r && c[k] >= 0 && c[k] < (long)L[k]; return r; }
}
