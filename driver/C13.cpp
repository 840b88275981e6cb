#include "acc.hpp"
namespace bwslv {
struct kahan { double s = 0, c = 0; void add(double x) { double y = x - c; double t = s + y; c = (t - s) - y; s = t; } double sum() const { return s; } };
struct neumaier { double s = 0, c = 0; void add(double x) { double t = s + x; if (std::abs(s) >= std::abs(x)) c += (s - t) + x; else c += (x - t) + s; s = t; } double sum() const { return s + c; } };
#define BOTH(NAME, CLS, REF) \
template<std::size_t N> struct C13_##NAME { \
  enum { fp = 1 }; \
  static double impl(std::array<double, N> x) { CLS a; for (auto v : x) a.Add(v); return a.Sum(); } \
  static double spec(std::array<double, N> x) { REF a; for (auto v : x) a.add(v); return a.sum(); } }; \
template struct C13_##NAME<0>; template struct C13_##NAME<1>; template struct C13_##NAME<2>; template struct C13_##NAME<3>; template struct C13_##NAME<4>; \
/* asking in between, or copying, changes nothing */ \
struct C13_##NAME##query { \
  enum { fp = 1 }; \
  static std::pair<double, double> impl(double x, double y, double z) { CLS a; a.Add(x); a.Add(y); double u = a.Sum(); a.Mean(); a.Count(); a.Add(z); return std::make_pair(u, a.Sum()); } \
  static std::pair<double, double> spec(double x, double y, double z) { REF a; a.add(x); a.add(y); double u = a.sum(); a.add(z); return std::make_pair(u, a.sum()); } }; \
/* the compensation does not survive a reset */ \
struct C13_##NAME##reset { \
  enum { fp = 1 }; \
  static double impl(double x, double y, double z, double w) { CLS a; a.Add(x); a.Add(y); a.Reset(); a.Add(z); a.Add(w); return a.Sum(); } \
  static double spec(double x, double y, double z, double w) { REF a; a.add(z); a.add(w); return a.sum(); } }; \
struct C13_##NAME##copy { \
  enum { fp = 1 }; \
  static double impl(double x, double y, double z) { CLS a; a.Add(x); a.Add(y); CLS b(a); a.Add(x); b.Add(z); return b.Sum(); } \
  static double spec(double x, double y, double z) { REF a; a.add(x); a.add(y); a.add(z); return a.sum(); } }; \
struct C13_##NAME##mean { \
  enum { fp = 1 }; \
  static double impl(double x, double y, double z) { CLS a; a.Add(x); a.Add(y); a.Add(z); return a.Mean(); } \
  static double spec(double x, double y, double z) { REF a; a.add(x); a.add(y); a.add(z); return a.sum() / 3; } }; \
/* any number of values */ \
struct C13_##NAME##any { \
  enum { fp = 1 }; \
  static double impl(vd x) { CLS a; for (std::size_t i = 0; i < x.size(); i++) a.Add(x[i]); return a.Sum(); } \
  static double spec(vd x) { REF a; for (std::size_t i = 0; i < x.size(); i++) a.add(x[i]); return a.sum(); } };
BOTH(kahan, KAHAN, kahan)
BOTH(neumaier, NEUM, neumaier)
}
