#include "common.hpp"
#include <fstream>
#include <stdexcept>
#include <string>
#include <bwsl/ObservableGroup.hpp>
namespace bwslv {
// two key types; the literal keys are not given in key order
template<class K> struct Keys;
template<> struct Keys<std::string> { static std::string a() { return "energy"; } static std::string b() { return "magnetisation"; } static std::string c() { return "winding"; } static std::string d() { return "absent"; } static char const* names() { return "energy,magnetisation,winding,Count\n"; } static char const* two() { return "energy,winding,Count\n"; } static char const* one() { return "magnetisation,Count\n"; } };
template<> struct Keys<int> { static int a() { return -3; } static int b() { return 5; } static int c() { return 17; } static int d() { return 4; } static char const* names() { return "-3,5,17,Count\n"; } static char const* two() { return "-3,17,Count\n"; } static char const* one() { return "5,Count\n"; } };
#define OG bwsl::ObservableGroup<K>
inline void line(std::ofstream& s, std::array<double, 3> m, std::size_t n, std::size_t p) { fmt::print(s, "{:.{}e},{:.{}e},{:.{}e},{}\n", m[0], p, m[1], p, m[2], p, n); }
template<class K> struct C22_headers {
  static void impl(std::string f) { OG g(f, std::vector<K>{ Keys<K>::b(), Keys<K>::c(), Keys<K>::a() }); g.PrintHeaders(); }
  static void spec(std::string f) { std::ofstream s(f, std::ios::trunc); fmt::print(s, "{}", Keys<K>::names()); } };
template<class K> struct C22_headers2 {
  static void impl(std::string f) { OG g(f); g.AddObservable(Keys<K>::c()).AddObservable(Keys<K>::a()); g.PrintHeaders(); }
  static void spec(std::string f) { std::ofstream s(f, std::ios::trunc); fmt::print(s, "{}", Keys<K>::two()); } };
// a key given twice is one observable
template<class K> struct C22_twice {
  static void impl(std::string f) { OG g(f, std::vector<K>{ Keys<K>::c(), Keys<K>::c(), Keys<K>::a(), Keys<K>::c(), Keys<K>::b(), Keys<K>::a() }); g.PrintHeaders(); }
  static void spec(std::string f) { std::ofstream s(f, std::ios::trunc); fmt::print(s, "{}", Keys<K>::names()); } };
template<class K> struct C22_headers1 {
  static void impl(std::string f) { OG g(f); g.AddObservable(Keys<K>::b()); g.AddObservable(Keys<K>::b()); g.PrintHeaders(); }
  static void spec(std::string f) { std::ofstream s(f, std::ios::trunc); fmt::print(s, "{}", Keys<K>::one()); } };
// printing the headers again discards what the file held
template<class K> struct C22_truncates {
  static void impl(std::string f, double x) { OG g(f, std::vector<K>{ Keys<K>::b() }); g.PrintHeaders(); g.Measure(Keys<K>::b(), x); g.PrintAndReset(); g.PrintHeaders(); }
  static void spec(std::string f, double x) { std::ofstream s(f, std::ios::trunc); fmt::print(s, "{}", Keys<K>::one()); } };
template<class K> struct C22_emptyprint {
  static void impl(std::string f) { OG g(f); g.PrintAndReset(); }
  static void spec(std::string f) { std::ofstream s(f, std::ios::app); } };
template<class K> struct C22_emptyheaders {
  static void impl(std::string f) { OG g(f); g.PrintHeaders(); }
  static void spec(std::string f) { std::ofstream s(f, std::ios::trunc); } };
// the means, in key order, whatever the order of the measurements
template<class K> struct C22_means {
  static void impl(std::string f, std::array<double, 6> x, std::size_t p) { OG g(f, std::vector<K>{ Keys<K>::b(), Keys<K>::c(), Keys<K>::a() }); g.Measure(Keys<K>::b(), x[2]); g.Measure(Keys<K>::a(), x[0]); g.Measure(Keys<K>::a(), x[1]); g.Measure(Keys<K>::c(), x[4]); g.Measure(Keys<K>::b(), x[3]); g.Measure(Keys<K>::c(), x[5]); g.PrintAndReset(p); }
  static void spec(std::string f, std::array<double, 6> x, std::size_t p) { std::ofstream s(f, std::ios::app); line(s, { (x[0] + x[1]) / 2, (x[2] + x[3]) / 2, (x[4] + x[5]) / 2 }, 2, p); } };
template<class K> struct C22_single {
  static void impl(std::string f, std::array<double, 3> x) { OG g(f, std::vector<K>{ Keys<K>::c() }); for (auto v : x) g.Measure(Keys<K>::c(), v); g.PrintAndReset(); }
  static void spec(std::string f, std::array<double, 3> x) { std::ofstream s(f, std::ios::app); fmt::print(s, "{:.{}e},{}\n", (x[0] + x[1] + x[2]) / 3, 10UL, 3); } };
// headers, then two rounds: the second knows nothing of the first
template<class K> struct C22_rounds {
  static void impl(std::string f, std::array<double, 9> x, std::size_t p) { OG g(f, std::vector<K>{ Keys<K>::a(), Keys<K>::b(), Keys<K>::c() }); g.PrintHeaders(); for (std::size_t i = 0; i < 2; i++) { g.Measure(Keys<K>::a(), x[3 * i]); g.Measure(Keys<K>::b(), x[3 * i + 1]); g.Measure(Keys<K>::c(), x[3 * i + 2]); } g.PrintAndReset(p); g.Measure(Keys<K>::a(), x[6]); g.Measure(Keys<K>::b(), x[7]); g.Measure(Keys<K>::c(), x[8]); g.PrintAndReset(p); }
  static void spec(std::string f, std::array<double, 9> x, std::size_t p) { std::ofstream s(f, std::ios::trunc); fmt::print(s, "{}", Keys<K>::names()); line(s, { (x[0] + x[3]) / 2, (x[1] + x[4]) / 2, (x[2] + x[5]) / 2 }, 2, p); line(s, { x[6], x[7], x[8] }, 1, p); } };
// an observable added again keeps its data
template<class K> struct C22_again {
  static void impl(std::string f, double x, double y, std::size_t p) { OG g(f, std::vector<K>{ Keys<K>::a() }); g.Measure(Keys<K>::a(), x); g.AddObservable(Keys<K>::a()); g.Measure(Keys<K>::a(), y); g.PrintAndReset(p); }
  static void spec(std::string f, double x, double y, std::size_t p) { std::ofstream s(f, std::ios::app); fmt::print(s, "{:.{}e},{}\n", (x + y) / 2, p, 2); } };
template<class K> struct C22_unknown {
  static bool impl(std::string f, double x) { OG g(f, std::vector<K>{ Keys<K>::a(), Keys<K>::c() }); g.Measure(Keys<K>::d(), x); return true; }
  static bool spec(std::string f, double x) { throw std::out_of_range("key"); } };
template<class K> struct C22_unknownkeeps {
  static void impl(std::string f, double x, double y, std::size_t p) { OG g(f, std::vector<K>{ Keys<K>::a(), Keys<K>::c() }); g.PrintHeaders(); g.Measure(Keys<K>::a(), x); g.Measure(Keys<K>::c(), x); try { g.Measure(Keys<K>::d(), y); } catch (std::out_of_range const&) {} g.PrintAndReset(p); }
  static void spec(std::string f, double x, double y, std::size_t p) { std::ofstream s(f, std::ios::trunc); fmt::print(s, "{}", Keys<K>::two()); fmt::print(s, "{:.{}e},{:.{}e},{}\n", x, p, x, p, 1); } };
template<class K> struct C22_copy {
  static void impl(std::string f, double x, double y, std::size_t p) { OG g(f, std::vector<K>{ Keys<K>::a() }); g.Measure(Keys<K>::a(), x); OG h(g); h.Measure(Keys<K>::a(), y); g.PrintAndReset(p); h.PrintAndReset(p); }
  static void spec(std::string f, double x, double y, std::size_t p) { std::ofstream s(f, std::ios::app); fmt::print(s, "{:.{}e},{}\n", x, p, 1); fmt::print(s, "{:.{}e},{}\n", (x + y) / 2, p, 2); } };
// observables measured unequally often: every one of them is printed with its own mean and starts afresh
template<class K, std::size_t A, std::size_t B> struct C22_uneven {
  static void impl(std::string f, std::array<double, 9> x, std::size_t p) { OG g(f, std::vector<K>{ Keys<K>::a(), Keys<K>::b() }); for (std::size_t i = 0; i < A; i++) g.Measure(Keys<K>::a(), x[i]); for (std::size_t i = 0; i < B; i++) g.Measure(Keys<K>::b(), x[A + i]); g.PrintAndReset(p); g.Measure(Keys<K>::b(), x[8]); g.Measure(Keys<K>::a(), x[7]); g.PrintAndReset(p); }
  static void spec(std::string f, std::array<double, 9> x, std::size_t p) { std::ofstream s(f, std::ios::app); double u = 0, v = 0; for (std::size_t i = 0; i < A; i++) u += x[i]; for (std::size_t i = 0; i < B; i++) v += x[A + i]; fmt::print(s, "{:.{}e},{:.{}e},{}\n", u / (double)A, p, v / (double)B, p, A); fmt::print(s, "{:.{}e},{:.{}e},{}\n", x[7], p, x[8], p, 1); } };
#define UNEVEN(K) template struct C22_uneven<K, 1, 2>; template struct C22_uneven<K, 3, 1>; template struct C22_uneven<K, 2, 4>;
UNEVEN(std::string) UNEVEN(int)
#define INST(K) template struct C22_headers<K>; template struct C22_twice<K>; template struct C22_headers2<K>; template struct C22_headers1<K>; template struct C22_truncates<K>; template struct C22_emptyprint<K>; template struct C22_emptyheaders<K>; template struct C22_means<K>; template struct C22_single<K>; template struct C22_rounds<K>; template struct C22_again<K>; template struct C22_unknown<K>; template struct C22_unknownkeeps<K>; template struct C22_copy<K>;
INST(std::string) INST(int)
// histories of a group of two: E M measure the first or second, H headers, P print, N add a third observable, W measure it, A B add the first or second again, K change and
// print nothing from a copy, X measure an unknown key; every print is a row with the means since the last print
struct GModel { vd sum{ 0, 0 }; vd cnt{ 0, 0 }; };
template<class K> void gop(char o, OG& g, vd const& x, std::size_t& k)
{
  if (o == 'E') { g.Measure(Keys<K>::a(), x[k]); k++; }
  if (o == 'M') { g.Measure(Keys<K>::b(), x[k]); k++; }
  if (o == 'W') { g.Measure(Keys<K>::c(), x[k]); k++; }
  if (o == 'N') g.AddObservable(Keys<K>::c());
  if (o == 'A') g.AddObservable(Keys<K>::a());
  if (o == 'B') g.AddObservable(Keys<K>::b());
  if (o == 'H') g.PrintHeaders();
  if (o == 'P') g.PrintAndReset(6);
  if (o == 'X') { try { g.Measure(Keys<K>::d(), x[0]); } catch (std::out_of_range const&) {} }
  if (o == 'K') { OG c(g); c.AddObservable(Keys<K>::c()); c.Measure(Keys<K>::a(), x[0]); c.Measure(Keys<K>::c(), x[0]); }
}
template<class K> void gop(char o, std::string const& f, GModel& m, vd const& x, std::size_t& k)
{
  if (o == 'E' || o == 'M' || o == 'W') { std::size_t i = o == 'E' ? 0 : o == 'M' ? 1 : 2; m.sum[i] += x[k]; m.cnt[i] += 1; k++; }
  if (o == 'N' && m.sum.size() < 3) { m.sum.push_back(0); m.cnt.push_back(0); }
  if (o == 'H') { std::ofstream s(f, std::ios::trunc); if (m.sum.size() == 3) fmt::print(s, "{}", Keys<K>::names()); else fmt::print(s, "{},{},Count\n", Keys<K>::a(), Keys<K>::b()); }
  if (o == 'P') { std::ofstream s(f, std::ios::app); std::size_t n = (std::size_t)m.cnt[0]; for (std::size_t i = 0; i < m.sum.size(); i++) { fmt::print(s, i ? ",{:.{}e}" : "{:.{}e}", m.sum[i] / m.cnt[i], 6); m.sum[i] = 0; m.cnt[i] = 0; } fmt::print(s, ",{}\n", n); }
}
template<class K, char... O> struct C22_history {
  static void impl(std::string f, double x0, double x1, double x2, double x3, double x4, double x5) { OG g(f, std::vector<K>{ Keys<K>::b(), Keys<K>::a() }); vd x{ x0, x1, x2, x3, x4, x5 }; std::size_t k = 0; (gop<K>(O, g, x, k), ...); }
  static void spec(std::string f, double x0, double x1, double x2, double x3, double x4, double x5) { GModel m; vd x{ x0, x1, x2, x3, x4, x5 }; std::size_t k = 0; (gop<K>(O, f, m, x, k), ...); } };
#define GH(...) template struct C22_history<std::string, __VA_ARGS__>; template struct C22_history<int, __VA_ARGS__>;
GH('H', 'E', 'M', 'P') GH('E', 'M', 'P', 'E', 'M', 'P') GH('E', 'M', 'P', 'M', 'E', 'M', 'P') GH('E', 'H', 'M', 'P') GH('E', 'M', 'P', 'H', 'E', 'M', 'P') GH('E', 'M', 'N', 'W', 'P') GH('N', 'H', 'E', 'M', 'W', 'P', 'E', 'W', 'M', 'P')
GH('E', 'M', 'P', 'N', 'H', 'E', 'M', 'W', 'P') GH('E', 'M', 'X', 'P') GH('E', 'K', 'M', 'P') GH('N', 'E', 'W', 'N', 'W', 'M', 'P') GH('E', 'M', 'M', 'P', 'E', 'E', 'M', 'P') GH('H', 'H', 'M', 'E', 'P')
GH('M', 'A', 'E', 'P') GH('E', 'B', 'M', 'P') GH('E', 'A', 'M', 'B', 'A', 'P') GH('E', 'M', 'P', 'A', 'E', 'B', 'M', 'P') GH('E', 'N', 'M', 'N', 'P') GH('A', 'N', 'E', 'B', 'W', 'M', 'N', 'P')
GH('P') GH('E', 'P') GH('M', 'P') GH('E', 'M', 'P', 'P') GH('E', 'M', 'P', 'E', 'P') GH('E', 'M', 'N', 'P')
}
