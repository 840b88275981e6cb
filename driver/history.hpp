// Histories: a fixed sequence of operations on two objects a and b of a class, with arbitrary values. What a reports at the end must
// be what a fresh object reports that was given a's present values and nothing else - whatever was asked, reset, copied or archived
// in between. Both objects come from the constructor: nothing is assumed about the representation.
#pragma once
#include "archive.hpp"
namespace bwslv {
// operations: A a.Add, B b.Add, Q ask a, q ask a in reverse order, P ask b, R reset a, S reset b, D a = b, M a = copy of b by move,
// K change a copy of a, L load a from the archive of b, V save a
template<class F, class C> void hop(char o, C& a, C& b, vd const& x, std::size_t& k, vd& log)
{
  if (o == 'A') { F::add(a, x[k]); k++; }
  if (o == 'B') { F::add(b, x[k]); k++; }
  if (o == 'Q') F::ask(a, log);
  if (o == 'q') F::askback(a, log);
  if (o == 'P') F::ask(b, log);
  if (o == 'R') a.Reset();
  if (o == 'S') b.Reset();
  if (o == 'D') a = b;
  if (o == 'M') { C c(b); a = std::move(c); }
  if (o == 'K') { C c(a); F::add(c, x[0]); F::ask(c, log); c.Reset(); }
  if (o == 'V') { Tape t = store(a); }
  if (o == 'L') { Tape t = store(b); restore(t, a); }
}
inline void mop(char o, vd& a, vd& b, vd const& x, std::size_t& k)
{
  if (o == 'A') { a.push_back(x[k]); k++; }
  if (o == 'B') { b.push_back(x[k]); k++; }
  if (o == 'R') a.clear();
  if (o == 'S') b.clear();
  if (o == 'D' || o == 'M' || o == 'L') a = b;
}
template<class F, char... O> struct Replay {
  static vd impl(vd const& x) { typename F::type a, b; std::size_t k = 0; vd log; (hop<F>(O, a, b, x, k, log), ...); vd r; F::ask(a, r); return r; }
  static vd spec(vd const& x) { vd u, v; std::size_t k = 0; (mop(O, u, v, x, k), ...); typename F::type a; for (auto y : u) F::add(a, y); vd r; F::ask(a, r); return r; }
};
#define HASK2 r.push_back((double)a.Count()); r.push_back((double)a.Sum()); if (a.Count() > 0) r.push_back(a.Mean());
#define HBACK2 if (a.Count() > 0) r.push_back(a.Mean()); r.push_back((double)a.Sum()); r.push_back((double)a.Count());
#define HASK3 HASK2 r.push_back(a.ScaledVariance()); r.push_back(a.Variance(true)); r.push_back(a.Variance(false)); r.push_back(a.StandardDeviation(true)); r.push_back(a.StandardDeviation(false));
#define HBACK3 r.push_back(a.StandardDeviation(false)); r.push_back(a.StandardDeviation(true)); r.push_back(a.Variance(false)); r.push_back(a.Variance(true)); r.push_back(a.ScaledVariance()); HBACK2
#define HASK5 HASK3 r.push_back(a.Error(true)); r.push_back(a.Error(false));
#define HBACK5 r.push_back(a.Error(false)); r.push_back(a.Error(true)); HBACK3
#define HASK4 HASK2 r.push_back(a.PopulationVariance()); r.push_back(a.SampleFrequencyVariance()); r.push_back(a.SampleReliabilityVariance());
#define HBACK4 r.push_back(a.SampleReliabilityVariance()); r.push_back(a.SampleFrequencyVariance()); r.push_back(a.PopulationVariance()); HBACK2
#define HFACE(NAME, CLS, ADD, ASK, BACK) struct NAME { using type = CLS; static void add(CLS& a, double x) { ADD; } static void ask(CLS const& a, vd& r) { ASK } static void askback(CLS const& a, vd& r) { BACK } };
HFACE(HKahan, KAHAN, a.Add(x), HASK2, HBACK2)
HFACE(HNeum, NEUM, a.Add(x), HASK2, HBACK2)
HFACE(HKnuth, KNUTH, a.Add(x), HASK5, HBACK5)
HFACE(HNaive, NAIVE, a.Add((long)x), HASK3, HBACK3)
HFACE(HWest, WEST, a.Add(x, 2.0), HASK4, HBACK4)
// HOBS(property, name, fp): the obligation type
#define HOBS(ID, NAME, F, FP) template<char... O> struct ID##_##NAME { enum { fp = FP }; static vd impl(double x0, double x1, double x2, double x3, double x4, double x5) { return Replay<F, O...>::impl(vd{ x0, x1, x2, x3, x4, x5 }); } static vd spec(double x0, double x1, double x2, double x3, double x4, double x5) { return Replay<F, O...>::spec(vd{ x0, x1, x2, x3, x4, x5 }); } };
#define H3(T, a, b, c) template struct T<a, b, c>;
#define H4(T, a, b, c, d) template struct T<a, b, c, d>;
#define H5(T, a, b, c, d, e) template struct T<a, b, c, d, e>;
#define H6(T, a, b, c, d, e, f) template struct T<a, b, c, d, e, f>;
#define H7(T, a, b, c, d, e, f, g) template struct T<a, b, c, d, e, f, g>;
#define H8(T, a, b, c, d, e, f, g, h) template struct T<a, b, c, d, e, f, g, h>;
// values and questions only
#define HADDS(T) H3(T, 'A', 'Q', 'A') H3(T, 'A', 'A', 'Q') H3(T, 'A', 'A', 'q') H4(T, 'A', 'A', 'Q', 'A') H4(T, 'A', 'A', 'q', 'A') H4(T, 'A', 'A', 'q', 'Q') H6(T, 'A', 'Q', 'A', 'q', 'A', 'A') H3(T, 'Q', 'A', 'A') H6(T, 'A', 'Q', 'Q', 'A', 'Q', 'A')
// with resets
#define HRESETS(T) H4(T, 'A', 'Q', 'R', 'A') H4(T, 'A', 'A', 'Q', 'R') H6(T, 'A', 'A', 'Q', 'R', 'A', 'A') H6(T, 'A', 'A', 'q', 'R', 'A', 'A') H6(T, 'A', 'A', 'R', 'Q', 'A', 'A') H8(T, 'A', 'A', 'Q', 'R', 'A', 'A', 'Q', 'A') H7(T, 'A', 'A', 'A', 'Q', 'R', 'A', 'A') H8(T, 'A', 'Q', 'R', 'A', 'Q', 'R', 'A', 'A')
// with a second object and copies
#define HCOPIES(T) H6(T, 'A', 'A', 'Q', 'B', 'B', 'D') H7(T, 'A', 'A', 'Q', 'B', 'B', 'P', 'D') H7(T, 'A', 'A', 'Q', 'B', 'B', 'D', 'A') H7(T, 'A', 'A', 'B', 'B', 'P', 'M', 'A') H5(T, 'A', 'A', 'Q', 'K', 'A') H4(T, 'A', 'A', 'K', 'Q') H6(T, 'A', 'B', 'P', 'A', 'P', 'B') H8(T, 'A', 'A', 'B', 'B', 'D', 'S', 'P', 'A')
// with archives
#define HARCHIVES(T) H6(T, 'A', 'A', 'Q', 'B', 'B', 'L') H7(T, 'A', 'A', 'Q', 'B', 'B', 'P', 'L') H7(T, 'A', 'A', 'Q', 'B', 'B', 'L', 'A') H8(T, 'A', 'A', 'Q', 'B', 'B', 'P', 'L', 'A') H6(T, 'A', 'A', 'Q', 'L', 'A', 'A') H6(T, 'A', 'A', 'Q', 'V', 'A', 'A') H7(T, 'B', 'B', 'P', 'L', 'R', 'A', 'A') H8(T, 'B', 'B', 'P', 'S', 'B', 'B', 'L', 'A') H7(T, 'A', 'Q', 'R', 'B', 'B', 'L', 'A') H5(T, 'B', 'B', 'L', 'A', 'A') H4(T, 'B', 'L', 'A', 'A')
}
