#include "common.hpp"
#include "moves.hpp"
#include <sstream>
#include <string>
#include <bwsl/MonteCarloUtils.hpp>
namespace bwslv {
#define MS bwsl::montecarlo::MoveStats
#define MR bwsl::montecarlo::MoveResult
#define ST bwsl::montecarlo::MoveStatus
inline void op(MS& m, int o, double p) { m.Propose(); if (o == 1) m.Accept(p); else if (o == 2) m.Reject(p); else m.Impossible(); }
inline vd show(MS const& m) { return vd{ m.GetAcceptedRatio(), m.GetRejectedRatio(), m.GetImpossibleRatio() }; }
template<std::size_t N> bool ops_ok(std::array<int, N> const& o) { bool r = true; for (auto x : o) r = r && x > 0 && x < 4; return r; }
struct C24_nothing {
  static vd impl(int) { MS m; return show(m); }
  static vd spec(int) { return vd{ 0, 0, 0 }; } };
struct C24_named {
  static vd impl(std::string n) { MS m(n); return show(m); }
  static vd spec(std::string n) { return vd{ 0, 0, 0 }; } };
struct C24_proposedonly {
  static vd impl(std::string n) { MS m(n); m.Propose(); return show(m); }
  static vd spec(std::string n) { return vd{ 0, 0, 0 }; } };
struct C24_pending {
  static vd impl(std::string n, double p) { MS m(n); m.Propose(); m.Accept(p); m.Propose(); vd r = show(m); r.push_back(m.GetAverageProbability()); return r; }
  static vd spec(std::string n, double p) { return vd{ 0.5, 0, 0, p }; } };
template<std::size_t N> struct C24_ratios {
  static bool pre(std::array<int, N> o, std::array<double, N> p) { return ops_ok(o); }
  static vd impl(std::array<int, N> o, std::array<double, N> p) { MS m("x"); for (std::size_t i = 0; i < N; i++) op(m, o[i], p[i]); vd r = show(m); r.push_back(m.GetAverageProbability()); return r; }
  static vd spec(std::array<int, N> o, std::array<double, N> p) { double a = 0, b = 0, c = 0, s = 0, d = (double)N; for (std::size_t i = 0; i < N; i++) { a += o[i] == 1; b += o[i] == 2; c += o[i] == 3; s += o[i] == 3 ? 0.0 : p[i]; } return vd{ a / d, b / d, c / d, s / d }; } };
template struct C24_ratios<1>; template struct C24_ratios<2>; template struct C24_ratios<3>; template struct C24_ratios<4>;
// as many as wanted
struct C24_many {
  static bool pre(std::size_t n, std::size_t k, vd p, vd q) { return p.size() > 0 && n < (1UL << 40) && k < (1UL << 40) && p.size() < (1UL << 40) && q.size() < (1UL << 40); }
  static vd impl(std::size_t n, std::size_t k, vd p, vd q) { MS m("x"); for (std::size_t i = 0; i < p.size(); i++) { m.Propose(); m.Accept(p[i]); } for (std::size_t i = 0; i < q.size(); i++) { m.Propose(); m.Reject(q[i]); } for (std::size_t i = 0; i < n; i++) { m.Propose(); m.Impossible(); } vd r = show(m); r.push_back(m.GetAverageProbability()); return r; }
  static vd spec(std::size_t n, std::size_t k, vd p, vd q) { double a = (double)p.size(), b = (double)q.size(), c = (double)n, d = a + b + c, s = 0; for (std::size_t i = 0; i < p.size(); i++) s += p[i]; for (std::size_t i = 0; i < q.size(); i++) s += q[i]; return vd{ a / d, b / d, c / d, s / d }; } };
struct C24_reset {
  static vd impl(MS m) { m.Reset(); return show(m); }
  static vd spec(MS m) { return vd{ 0, 0, 0 }; } };
struct C24_resetthen {
  static bool pre(MS m, int o, double p) { return o > 0 && o < 4; }
  static vd impl(MS m, int o, double p) { m.Reset(); op(m, o, p); vd r = show(m); r.push_back(m.GetAverageProbability()); return r; }
  static vd spec(MS m, int o, double p) { return vd{ o == 1 ? 1.0 : 0.0, o == 2 ? 1.0 : 0.0, o == 3 ? 1.0 : 0.0, o == 3 ? 0.0 : p }; } };
struct C24_resetname {
  static std::string impl(std::string n, double p) { MS m(n); m.Propose(); m.Reset(); m.Propose(); m.Reject(p); m.Reset(); return m.GetName(); }
  static std::string spec(std::string n, double p) { return n; } };
struct C24_resetnameany {
  static std::string impl(MS m) { m.Reset(); return m.GetName(); }
  static std::string spec(MS m) { return m.GetName(); } };
struct C24_name {
  static std::string impl(std::string n) { MS m(n); return m.GetName(); }
  static std::string spec(std::string n) { return n; } };
struct C24_print {
  static bool pre(std::string n, std::array<int, 3> o, std::array<double, 3> p) { return ops_ok(o); }
  static std::string impl(std::string n, std::array<int, 3> o, std::array<double, 3> p) { MS m(n); for (std::size_t i = 0; i < 3; i++) op(m, o[i], p[i]); std::ostringstream s; s << m; return s.str(); }
  static std::string spec(std::string n, std::array<int, 3> o, std::array<double, 3> p) { double a = 0, b = 0, c = 0, t = 0; for (std::size_t i = 0; i < 3; i++) { a += o[i] == 1; b += o[i] == 2; c += o[i] == 3; t += o[i] == 3 ? 0.0 : p[i]; } return fmt::format("{}(accepted = {:.3e}, rejected = {:.3e}, impossible = {:.3e}, probability = {:.3e})", n, a / 3, b / 3, c / 3, t / 3); } };
struct C24_printany {
  static std::string impl(MS m) { std::ostringstream s; s << m; return s.str(); }
  static std::string spec(MS m) { return fmt::format("{}(accepted = {:.3e}, rejected = {:.3e}, impossible = {:.3e}, probability = {:.3e})", m.GetName(), m.GetAcceptedRatio(), m.GetRejectedRatio(), m.GetImpossibleRatio(), m.GetAverageProbability()); } };
struct C24_printreset {
  static std::string impl(std::string n) { MS m(n); m.Propose(); m.Reset(); m.Propose(); m.Impossible(); std::ostringstream s; s << m; return s.str(); }
  static std::string spec(std::string n) { return n + "(accepted = 0.000e+00, rejected = 0.000e+00, impossible = 1.000e+00, probability = 0.000e+00)"; } };
// results
inline vd show(MR const& r) { return vd{ r.IsAccepted() ? 1.0 : 0.0, r.IsRejected() ? 1.0 : 0.0, r.IsImpossible() ? 1.0 : 0.0, r.GetStatus() == ST::Accepted ? 1.0 : 0.0, r.GetStatus() == ST::Rejected ? 1.0 : 0.0, r.GetStatus() == ST::Impossible ? 1.0 : 0.0, r.Probability() }; }
struct C24_accept {
  static vd impl(double p) { return show(MR::Accept(p)); }
  static vd spec(double p) { return vd{ 1, 0, 0, 1, 0, 0, p }; } };
struct C24_reject {
  static vd impl(double p) { return show(MR::Reject(p)); }
  static vd spec(double p) { return vd{ 0, 1, 0, 0, 1, 0, p }; } };
struct C24_impossible {
  static vd impl(double p) { return show(MR::Impossible()); }
  static vd spec(double p) { return vd{ 0, 0, 1, 0, 0, 1, 0 }; } };
struct C24_resultdefault {
  static vd impl(double p) { return show(MR()); }
  static vd spec(double p) { return vd{ 0, 0, 1, 0, 0, 1, 0 }; } };
struct C24_build {
  static bool pre(int s, double p) { return s > 0 && s < 4; }
  static vd impl(int s, double p) { return show(MR(s == 1 ? ST::Accepted : s == 2 ? ST::Rejected : ST::Impossible, p)); }
  static vd spec(int s, double p) { return vd{ s == 1 ? 1.0 : 0.0, s == 2 ? 1.0 : 0.0, s == 3 ? 1.0 : 0.0, s == 1 ? 1.0 : 0.0, s == 2 ? 1.0 : 0.0, s == 3 ? 1.0 : 0.0, p }; } };
struct C24_copy {
  static vd impl(double p, double q) { MR a = MR::Accept(p); MR b(a); a = MR::Reject(q); vd r = show(a); for (auto x : show(b)) r.push_back(x); return r; }
  static vd spec(double p, double q) { return vd{ 0, 1, 0, 0, 1, 0, q, 1, 0, 0, 1, 0, 0, p }; } };
// histories (moves.hpp)
MHOBS(C24_history)
MPLAIN(C24_history) MRESET(C24_history)
}
