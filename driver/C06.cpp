#include "bravais.hpp"
namespace bwslv {
template<std::size_t D> struct C06_real {
  static vd impl(mat P, mat Q, al<D> c) { return basis<D>(P, Q).GetRealSpace(to_vec(c)); }
  static vd spec(mat P, mat Q, al<D> c) { return to_vec(point<D>(P, c)); } };
template<std::size_t D> struct C06_vector {
  static vd impl(mat P, mat Q, al<D> a, al<D> b) { return basis<D>(P, Q).GetVector(to_vec(a), to_vec(b)); }
  static vd spec(mat P, mat Q, al<D> a, al<D> b) { return to_vec(point<D>(P, minus<D>(b, a))); } };
template<std::size_t D> struct C06_recip {
  static vd impl(mat P, mat Q, al<D> c) { return basis<D>(P, Q).GetReciprocalSpace(to_vec(c)); }
  static vd spec(mat P, mat Q, al<D> c) { vd r; for (std::size_t i = 0; i < D; i++) { double s = 0; for (std::size_t j = 0; j < D; j++) s += (double)c[j] * (2 * M_PI * Q[j * D + i]); r.push_back(s); } return r; } };
template<std::size_t D> struct C06_distance {
  static double impl(mat P, mat Q, al<D> a, al<D> b) { return basis<D>(P, Q).GetDistance(to_vec(a), to_vec(b)); }
  static double spec(mat P, mat Q, al<D> a, al<D> b) { return std::sqrt(norm2<D>(point<D>(P, minus<D>(b, a)))); } };
template<std::size_t D> struct C06_distvec {
  static std::pair<double, vd> impl(mat P, mat Q, al<D> a, al<D> b) { return basis<D>(P, Q).GetDistanceVector(to_vec(a), to_vec(b)); }
  static std::pair<double, vd> spec(mat P, mat Q, al<D> a, al<D> b) { auto v = point<D>(P, minus<D>(b, a)); return std::make_pair(std::sqrt(norm2<D>(v)), to_vec(v)); } };
// dual basis as coordinates read it: c_i = sum_j Q[i*D+j] x_j
template<std::size_t D> struct C06_inverse {
  static vd impl(mat P, mat Q, std::array<double, D> x) { return basis<D>(P, Q).GetInverseVector(to_vec(x)); }
  static vd spec(mat P, mat Q, std::array<double, D> x) { vd r; for (std::size_t i = 0; i < D; i++) { double s = 0; for (std::size_t j = 0; j < D; j++) s += Q[i * D + j] * x[j]; r.push_back(s); } return r; } };
// the two maps undo each other when Q is the inverse of P
struct C06_undo1 {
  static bool pre(double p, long c) { return p != 0; }
  static double impl(double p, long c) { std::array<double, 1> P{ p }, Q{ 1 / p }; auto b = basis<1>(P, Q); return b.GetInverseVector(b.GetRealSpace(vl{ c }))[0]; }
  static double spec(double p, long c) { return (double)c; } };
struct C06_undo2 {
  static bool pre(double a, double b, double c, double d, long x, long y) { return a * d - b * c != 0; }
  static std::pair<double, double> impl(double a, double b, double c, double d, long x, long y) {
    double t = a * d - b * c;
    std::array<double, 4> P{ a, b, c, d }, Q{ d / t, -c / t, -b / t, a / t };
    auto l = basis<2>(P, Q); auto r = l.GetInverseVector(l.GetRealSpace(vl{ x, y })); return std::make_pair(r[0], r[1]); }
  static std::pair<double, double> spec(double a, double b, double c, double d, long x, long y) { return std::make_pair((double)x, (double)y); } };
// reciprocal and direct vectors are dual: a_i . b_j = 2 pi delta_ij
struct C06_dual2 {
  static bool pre(double a, double b, double c, double d) { return a * d - b * c != 0; }
  static std::array<double, 4> impl(double a, double b, double c, double d) {
    double t = a * d - b * c;
    std::array<double, 4> P{ a, b, c, d }, Q{ d / t, -c / t, -b / t, a / t };
    auto l = basis<2>(P, Q); std::array<double, 4> r{};
    for (std::size_t i = 0; i < 2; i++) for (std::size_t j = 0; j < 2; j++) { vl ei(2, 0), ej(2, 0); ei[i] = 1; ej[j] = 1; auto x = l.GetRealSpace(ei), k = l.GetReciprocalSpace(ej); r[2 * i + j] = x[0] * k[0] + x[1] * k[1]; }
    return r; }
  static std::array<double, 4> spec(double a, double b, double c, double d) { return { 2 * M_PI, 0, 0, 2 * M_PI }; } };
template<std::size_t D> struct C06_dim {
  static std::pair<std::size_t, std::size_t> impl(mat P, mat Q, al<2 * D> nb) { auto b = basis<D, 2 * D>(P, Q, nb); return std::make_pair(b.GetDim(), b.GetGamma()); }
  static std::pair<std::size_t, std::size_t> spec(mat P, mat Q, al<2 * D> nb) { return std::make_pair(D, std::size_t(4)); } };
// any dimension
struct C06_realany {
  static bool pre(vd const& P, vl const& c) { return P.size() == c.size() * c.size(); }
  static vd impl(vd const& P, vl const& c) { bwsl::Bravais b(c.size(), 0, P, P, vl{}); return b.GetRealSpace(c); }
  static vd spec(vd const& P, vl const& c) { vd r; for (std::size_t i = 0; i < c.size(); i++) { double s = 0; for (std::size_t j = 0; j < c.size(); j++) s += (double)c[j] * P[j * c.size() + i]; r.push_back(s); } return r; } };
#define INST(D) template struct C06_real<D>; template struct C06_vector<D>; template struct C06_recip<D>; template struct C06_distance<D>; template struct C06_distvec<D>; template struct C06_inverse<D>; template struct C06_dim<D>;
INST(1) INST(2) INST(3)
}
