#pragma once
#include <cmath>
#include <bwsl/Bravais.hpp>
#include <bwsl/HyperCubicGrid.hpp>
#include <bwsl/Lattice.hpp>
#include "common.hpp"
namespace bwslv {
using G = bwsl::HyperCubicGrid;
#define mat std::array<double, D * D>
template<std::size_t N> vd to_vec(std::array<double, N> const& a) { return vd(a.begin(), a.end()); }
// a lattice basis with G/2 listed directions
template<std::size_t D, std::size_t N> bwsl::Bravais basis(std::array<double, D * D> const& P, std::array<double, D * D> const& Q, std::array<long, N> const& nb)
{
  return bwsl::Bravais(D, 2 * (N / D), to_vec(P), to_vec(Q), to_vec(nb));
}
template<std::size_t D> bwsl::Bravais basis(std::array<double, D * D> const& P, std::array<double, D * D> const& Q)
{
  return bwsl::Bravais(D, 0, to_vec(P), to_vec(Q), vl{});
}
// real space point of integer coordinates: sum_j c_j a_j, a_j = P[j*D..]
template<std::size_t D> std::array<double, D> point(std::array<double, D * D> const& P, al<D> const& c)
{
  std::array<double, D> r{};
  for (std::size_t i = 0; i < D; i++) for (std::size_t j = 0; j < D; j++) r[i] += (double)c[j] * P[j * D + i];
  return r;
}
template<std::size_t D> double norm2(std::array<double, D> const& x) { double r = 0; for (std::size_t i = 0; i < D; i++) r += x[i] * x[i]; return r; }
template<std::size_t D> al<D> minus(al<D> const& a, al<D> const& b) { al<D> r{}; for (std::size_t k = 0; k < D; k++) r[k] = a[k] - b[k]; return r; }
}
