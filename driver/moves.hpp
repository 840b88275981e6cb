// Histories of move statistics: see history.hpp
#pragma once
#include <sstream>
#include <string>
#include "archive.hpp"
namespace bwslv {
// P propose, A accept, R reject, I impossible (refused when out of order), Z reset, Q q ask (in reverse order), p a r: on b, w ask b,
// D a = b, K change a copy, L load a from the archive of b, V save a, + add an accepted result, - add a rejected one, 0 add an impossible one
#define HMS bwsl::montecarlo::MoveStats
#define HMR bwsl::montecarlo::MoveResult
#define HBAD bwsl::montecarlo::exception::MoveInvalidSequence
struct MoveModel { bool pending = false; double n = 0, acc = 0, rej = 0, imp = 0, sum = 0; std::string name; };
inline std::string mtext(std::string const& n, double a, double r, double i, double p) { std::ostringstream s; fmt::print(s, "{}(accepted = {:.3e}, rejected = {:.3e}, impossible = {:.3e}, probability = {:.3e})", n, a, r, i, p); return s.str(); }
struct MoveView { vd v; std::vector<std::string> s; };
inline void mask(HMS const& m, bool some, MoveView& r) { r.v.push_back(m.GetAcceptedRatio()); r.v.push_back(m.GetRejectedRatio()); r.v.push_back(m.GetImpossibleRatio()); if (some) { r.v.push_back(m.GetAverageProbability()); std::ostringstream o; o << m; r.s.push_back(o.str()); } r.s.push_back(m.GetName()); }
inline void mback(HMS const& m, bool some, MoveView& r) { r.s.push_back(m.GetName()); if (some) { std::ostringstream o; o << m; r.s.push_back(o.str()); r.v.push_back(m.GetAverageProbability()); } r.v.push_back(m.GetImpossibleRatio()); r.v.push_back(m.GetRejectedRatio()); r.v.push_back(m.GetAcceptedRatio()); }
inline void mask(MoveModel const& m, MoveView& r)
{
  double a = m.n > 0 ? m.acc / m.n : 0.0, j = m.n > 0 ? m.rej / m.n : 0.0, i = m.n > 0 ? m.imp / m.n : 0.0, c = m.acc + m.rej + m.imp;
  r.v.push_back(a); r.v.push_back(j); r.v.push_back(i);
  if (c > 0) { r.v.push_back(m.sum / c); r.s.push_back(mtext(m.name, a, j, i, m.sum / c)); }
  r.s.push_back(m.name);
}
inline void hop(char o, HMS& a, HMS& b, double x, bool some, MoveView& log)
{
  if (o == 'P') a.Propose();
  if (o == 'A') a.Accept(x);
  if (o == 'R') a.Reject(x);
  if (o == 'I') a.Impossible();
  if (o == '+') a.Add(HMR::Accept(x));
  if (o == '-') a.Add(HMR::Reject(x));
  if (o == '0') a.Add(HMR::Impossible());
  if (o == 'Z') a.Reset();
  if (o == 'Q') mask(a, some, log);
  if (o == 'q') mback(a, some, log);
  if (o == 'p') b.Propose();
  if (o == 'a') b.Accept(x);
  if (o == 'r') b.Reject(x);
  if (o == 'w') mask(b, true, log);
  if (o == 'D') a = b;
  if (o == 'K') { HMS c(a); c.Reset(); c.Propose(); c.Accept(x); mask(c, true, log); }
  if (o == 'L') { Tape t = store(b); restore(t, a); }
  if (o == 'V') { Tape t = store(a); }
}
inline void mpropose(MoveModel& m) { if (!m.pending) { m.pending = true; m.n += 1; } }
inline bool mresolve(MoveModel& m) { bool r = m.pending; m.pending = false; return r; }
inline void mop(char o, MoveModel& a, MoveModel& b, double x)
{
  bool add = o == '+' || o == '-' || o == '0';
  if (add && a.pending) return;
  if (o == 'P' || add) mpropose(a);
  if (o == 'p') mpropose(b);
  if ((o == 'A' || o == '+') && mresolve(a)) { a.acc += 1; a.sum += x; }
  if ((o == 'R' || o == '-') && mresolve(a)) { a.rej += 1; a.sum += x; }
  if ((o == 'I' || o == '0') && mresolve(a)) a.imp += 1;
  if (o == 'a' && mresolve(b)) { b.acc += 1; b.sum += x; }
  if (o == 'r' && mresolve(b)) { b.rej += 1; b.sum += x; }
  if (o == 'Z') { std::string s = a.name; a = MoveModel{}; a.name = s; }
  if (o == 'D' || o == 'L') a = b;
}
// the model says which calls are refused: a refused call throws, any other does not
template<char... O> struct MoveReplay {
  static void one(char o, HMS& a, HMS& b, MoveModel& u, MoveModel& v, vd const& x, std::size_t& k, MoveView& log, double& wrong)
  {
    bool res = o == 'A' || o == 'R' || o == 'I';
    bool pro = o == 'P' || o == '+' || o == '-' || o == '0';
    bool bad = (res && !u.pending) || (pro && u.pending);
    bool some = u.acc + u.rej + u.imp > 0;
    if (bad) { int t = 0; try { hop(o, a, b, x[k], some, log); } catch (HBAD const&) { t = 1; } if (t == 0) wrong += 1; }
    else { hop(o, a, b, x[k], some, log); mop(o, u, v, x[k]); }
    k++;
  }
  static std::pair<vd, std::vector<std::string>> impl(std::string n, vd const& x) { HMS a(n), b("other"); MoveModel u, v; u.name = n; v.name = "other"; MoveView log, r; std::size_t k = 0; double wrong = 0; (one(O, a, b, u, v, x, k, log, wrong), ...); mask(a, u.acc + u.rej + u.imp > 0, r); r.v.push_back(wrong); return std::make_pair(r.v, r.s); }
  static std::pair<vd, std::vector<std::string>> spec(std::string n, vd const& x) { MoveModel u, v; u.name = n; v.name = "other"; std::size_t k = 0; ((mop(O, u, v, x[k]), k++), ...); MoveView r; mask(u, r); r.v.push_back(0); return std::make_pair(r.v, r.s); }
};
#define MHOBS(ID) template<char... O> struct ID { static std::pair<vd, std::vector<std::string>> impl(std::string n, std::array<double, sizeof...(O)> x) { return MoveReplay<O...>::impl(n, vd(x.begin(), x.end())); } static std::pair<vd, std::vector<std::string>> spec(std::string n, std::array<double, sizeof...(O)> x) { return MoveReplay<O...>::spec(n, vd(x.begin(), x.end())); } };
#define MH(T, ...) template struct T<__VA_ARGS__>;
#define MPLAIN(T) MH(T, 'P', 'Q', 'A') MH(T, 'P', 'q', 'R') MH(T, 'P', 'A', 'Q', 'P', 'R') MH(T, 'P', 'A', 'q', 'P', 'I') MH(T, 'P', 'A', 'P', 'Q', 'R', 'Q', 'P', 'A') MH(T, 'P', 'P', 'Q', 'A', 'A') MH(T, 'A', 'Q', 'P', 'A', 'R', 'I') MH(T, 'P', 'A', '+', 'Q', '-', '0') MH(T, 'P', '+', '-', '0', 'Q', 'I') MH(T, '+', 'Q', 'P', '+', 'R') MH(T, 'P', 'I', 'Q', 'P', 'I', 'A') MH(T, '-', 'q', '+', 'q', '0')
#define MRESET(T) MH(T, 'P', 'A', 'Q', 'Z') MH(T, 'P', 'A', 'Q', 'Z', 'P', 'R') MH(T, 'P', 'Z', 'P', 'A') MH(T, 'P', 'Z', 'A', 'Q', 'P', 'R') MH(T, 'P', 'A', 'P', 'Z', 'Q', 'R') MH(T, '+', '-', '0', 'q', 'Z', '-', '-', '+') MH(T, 'Z', 'Q', 'Z', 'P', 'I') MH(T, '+', 'Z', '+', 'Q', 'Z', '-')
#define MCOPY(T) MH(T, 'P', 'A', 'Q', 'p', 'r', 'D') MH(T, 'P', 'Q', 'p', 'a', 'w', 'D', 'P', 'R') MH(T, 'p', 'D', 'A', 'a') MH(T, 'P', 'K', 'A') MH(T, 'P', 'A', 'K', 'Q', 'P', 'R') MH(T, 'P', 'p', 'r', 'w', 'A') MH(T, 'p', 'a', 'D', 'Z', 'p', 'P', 'R')
#define MARCHIVE(T) MH(T, 'P', 'A', 'Q', 'p', 'r', 'L') MH(T, 'P', 'Q', 'p', 'a', 'w', 'L', 'P', 'R') MH(T, 'p', 'L', 'A', 'a') MH(T, 'P', 'V', 'A') MH(T, 'P', 'A', 'V', 'Q', 'P', 'R') MH(T, 'P', 'p', 'a', 'L', 'P', 'I') MH(T, 'p', 'a', 'L', 'Z', 'p', 'P', 'R') MH(T, 'P', 'A', 'Q', 'L', 'Q') MH(T, '+', 'Q', 'L', '-')
}
