#include "common.hpp"
#include "moves.hpp"
#include <sstream>
#include <string>
#include <bwsl/MonteCarloUtils.hpp>
namespace bwslv {
#define MS bwsl::montecarlo::MoveStats
#define MR bwsl::montecarlo::MoveResult
#define BADSEQ bwsl::montecarlo::exception::MoveInvalidSequence
// 0 propose, 1 accept, 2 reject, 3 impossible
inline void op(MS& m, int o, double p) { if (o == 0) m.Propose(); else if (o == 1) m.Accept(p); else if (o == 2) m.Reject(p); else m.Impossible(); }
struct Model { bool pending; std::array<double, 4> n; double prob; };
inline bool legal(Model const& m, int o) { return o == 0 ? !m.pending : m.pending; }
inline void step(Model& m, int o, double p) { m.n[o] += 1; m.pending = o == 0; if (o == 1 || o == 2) m.prob += p; }
inline double resolved(Model const& m) { return m.n[1] + m.n[2] + m.n[3]; }
inline vd show(MS const& m) { return vd{ m.GetAcceptedRatio(), m.GetRejectedRatio(), m.GetImpossibleRatio() }; }
inline vd show(Model const& m) { double d = m.n[0]; if (d == 0) return vd{ 0, 0, 0 }; return vd{ m.n[1] / d, m.n[2] / d, m.n[3] / d }; }
template<std::size_t N> bool ops_ok(std::array<int, N> const& o) { bool r = true; for (auto x : o) r = r && x >= 0 && x < 4; return r; }
// an illegal call throws, a legal one does not; what comes before is arbitrary
template<std::size_t N> struct C23_throws {
  static bool pre(std::array<int, N> o, std::array<double, N> p) { return ops_ok(o); }
  static bool impl(std::array<int, N> o, std::array<double, N> p) { MS m("x"); for (std::size_t i = 0; i < N; i++) op(m, o[i], p[i]); return true; }
  static bool spec(std::array<int, N> o, std::array<double, N> p) { Model m{ false, { 0, 0, 0, 0 }, 0 }; for (std::size_t i = 0; i < N; i++) { if (!legal(m, o[i])) throw BADSEQ("x"); step(m, o[i], p[i]); } return true; } };
// after an illegal call nothing has changed
template<std::size_t N> struct C23_counts {
  enum { thorough = N > 4 };
  static bool pre(std::array<int, N> o, std::array<double, N> p) { return ops_ok(o); }
  static vd impl(std::array<int, N> o, std::array<double, N> p) { MS m("x"); for (std::size_t i = 0; i < N; i++) { try { op(m, o[i], p[i]); } catch (BADSEQ const&) {} } return show(m); }
  static vd spec(std::array<int, N> o, std::array<double, N> p) { Model m{ false, { 0, 0, 0, 0 }, 0 }; for (std::size_t i = 0; i < N; i++) if (legal(m, o[i])) step(m, o[i], p[i]); return show(m); } };
template<std::size_t N> struct C23_prob {
  enum { thorough = N > 4 };
  static bool pre(std::array<int, N> o, std::array<double, N> p) { return ops_ok(o) && o[0] == 0 && o[1] != 0; }
  static double impl(std::array<int, N> o, std::array<double, N> p) { MS m("x"); for (std::size_t i = 0; i < N; i++) { try { op(m, o[i], p[i]); } catch (BADSEQ const&) {} } return m.GetAverageProbability(); }
  static double spec(std::array<int, N> o, std::array<double, N> p) { Model m{ false, { 0, 0, 0, 0 }, 0 }; for (std::size_t i = 0; i < N; i++) if (legal(m, o[i])) step(m, o[i], p[i]); return m.prob / resolved(m); } };
template struct C23_throws<1>; template struct C23_throws<2>; template struct C23_throws<3>; template struct C23_throws<4>; template struct C23_throws<5>;
template struct C23_counts<1>; template struct C23_counts<2>; template struct C23_counts<3>; template struct C23_counts<4>; template struct C23_counts<5>;
template struct C23_prob<2>; template struct C23_prob<3>; template struct C23_prob<4>; template struct C23_prob<5>;
// from any state
struct C23_step_counts {
  static bool pre(MS m, int o, double p, std::array<unsigned long, 4> n) { return o >= 0 && o < 4 && n[0] > 0 && n[0] < (1UL << 40); }
  static bool impl(MS m, int o, double p, std::array<unsigned long, 4> n) { try { op(m, o, p); } catch (BADSEQ const&) { return false; } return true; }
  static bool spec(MS m, int o, double p, std::array<unsigned long, 4> n) { bool pending = true; try { MS c(m); c.Propose(); pending = false; } catch (BADSEQ const&) {} return o == 0 ? !pending : pending; } };
// a proposal followed by anything can be followed by a proposal exactly when it was resolved
struct C23_pending {
  static bool pre(MS m, int o, double p, int q) { return o >= 0 && o < 4 && q >= 0 && q < 4; }
  static int impl(MS m, int o, double p, int q) { int r = 0; m.Reset(); try { op(m, o, p); r += 1; } catch (BADSEQ const&) {} try { op(m, q, p); r += 2; } catch (BADSEQ const&) {} return r; }
  static int spec(MS m, int o, double p, int q) { return o == 0 ? (q == 0 ? 1 : 3) : (q == 0 ? 2 : 0); } };
// every resolved proposal is counted once: any number of them
struct C23_many {
  static bool pre(std::size_t n, std::size_t k, std::size_t l, double p, double q) { return n > 0 && n < (1UL << 40) && k < (1UL << 40) && l < (1UL << 40); }
  static vd impl(std::size_t n, std::size_t k, std::size_t l, double p, double q) { MS m("x"); for (std::size_t i = 0; i < n; i++) { m.Propose(); m.Accept(p); } for (std::size_t i = 0; i < k; i++) { m.Propose(); m.Reject(q); } for (std::size_t i = 0; i < l; i++) { m.Propose(); m.Impossible(); } vd r = show(m); r.push_back(m.GetAverageProbability()); return r; }
  static vd spec(std::size_t n, std::size_t k, std::size_t l, double p, double q) { double a = (double)n, b = (double)k, c = (double)l, d = a + b + c; return vd{ a / d, b / d, c / d, (a * p + b * q) / d }; } };
// Add is a proposal followed by the outcome of the result
struct C23_add {
  static bool pre(int o, int s, double p, double q) { return o >= 0 && o < 4 && s > 0 && s < 4; }
  static vd impl(int o, int s, double p, double q) { MS m("x"); m.Propose(); if (o > 0) op(m, o, q); m.Add(s == 1 ? MR::Accept(p) : s == 2 ? MR::Reject(p) : MR::Impossible()); vd r = show(m); r.push_back(m.GetAverageProbability()); return r; }
  static vd spec(int o, int s, double p, double q) { MS m("x"); m.Propose(); if (o > 0) op(m, o, q); m.Propose(); op(m, s, p); vd r = show(m); r.push_back(m.GetAverageProbability()); return r; } };
struct C23_addpending {
  static vd impl(double p, double q) { MS m("x"); m.Propose(); m.Accept(q); m.Propose(); int t = 0; try { m.Add(MR::Reject(p)); } catch (BADSEQ const&) { t = 1; } vd r = show(m); r.push_back(m.GetAverageProbability()); r.push_back(t); m.Reject(p); r.push_back(m.GetRejectedRatio()); return r; }
  static vd spec(double p, double q) { return vd{ 0.5, 0, 0, q, 1, 0.5 }; } };
template<std::size_t N> struct C23_addseq {
  static bool pre(std::array<int, N> o, std::array<double, N> p) { return ops_ok(o); }
  static vd impl(std::array<int, N> o, std::array<double, N> p) { MS m("x"); for (std::size_t i = 0; i < N; i++) m.Add(o[i] == 1 ? MR::Accept(p[i]) : o[i] == 2 ? MR::Reject(p[i]) : MR::Impossible()); vd r = show(m); r.push_back(m.GetAverageProbability()); return r; }
  static vd spec(std::array<int, N> o, std::array<double, N> p) { Model m{ false, { 0, 0, 0, 0 }, 0 }; for (std::size_t i = 0; i < N; i++) { step(m, 0, 0); step(m, o[i] == 1 ? 1 : o[i] == 2 ? 2 : 3, p[i]); } vd r = show(m); r.push_back(m.prob / (double)N); return r; } };
template struct C23_addseq<1>; template struct C23_addseq<2>; template struct C23_addseq<3>;
struct C23_default {
  static int impl(int q, double p) { MS m; int r = 0; try { m.Accept(p); r += 1; } catch (BADSEQ const&) {} try { m.Reject(p); r += 2; } catch (BADSEQ const&) {} try { m.Impossible(); r += 4; } catch (BADSEQ const&) {} try { m.Propose(); r += 8; } catch (BADSEQ const&) {} return r; }
  static int spec(int q, double p) { return 8; } };
// histories (moves.hpp)
MHOBS(C23_history)
MPLAIN(C23_history) MRESET(C23_history) MCOPY(C23_history)
}
