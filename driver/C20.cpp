#include <stdexcept>
#include <type_traits>
#include <sstream>
#include <boost/serialization/serialization.hpp>
#include <boost/serialization/split_free.hpp>
#include <boost/serialization/string.hpp>
#include <boost/serialization/version.hpp>
// the header adds to boost::serialization; here its additions are put into a
// namespace of their own so that they can be told from boost's
namespace bwsl_boost { using namespace boost; namespace serialization { using namespace boost::serialization; } }
#define boost bwsl_boost
#include <bwsl/RNGUtils.hpp>
#include "common.hpp"
namespace bwslv {
struct corrupt {};
// an archive of strings
struct OutAr {
  using is_saving = std::true_type; using is_loading = std::false_type;
  std::vector<std::string> t;
  OutAr& operator&(std::string const& s) { t.push_back(s); return *this; }
  OutAr& operator<<(std::string const& s) { t.push_back(s); return *this; }
};
struct InAr {
  using is_saving = std::false_type; using is_loading = std::true_type;
  std::vector<std::string> t;
  std::size_t n = 0;
  InAr(std::vector<std::string> const& x) : t(x) {}
  InAr& operator&(std::string& s) { if (n >= t.size()) throw corrupt(); s = t[n]; n++; return *this; }
  InAr& operator>>(std::string& s) { if (n >= t.size()) throw corrupt(); s = t[n]; n++; return *this; }
};
#define ENGINE(NAME, R) \
struct C20_##NAME##trip { \
  static R impl(R a, R b) { OutAr o; boost::serialization::save(o, a, 0u); InAr i(o.t); boost::serialization::load(i, b, 0u); return b; } \
  static R spec(R a, R b) { return a; } }; \
struct C20_##NAME##serialize { \
  static R impl(R a, R b) { OutAr o; boost::serialization::serialize(o, a, 0u); InAr i(o.t); boost::serialization::serialize(i, b, 0u); return b; } \
  static R spec(R a, R b) { return a; } }; \
struct C20_##NAME##draws { \
  static bool impl(R a, R b) { OutAr o; boost::serialization::serialize(o, a, 0u); InAr i(o.t); boost::serialization::serialize(i, b, 0u); for (int k = 0; k < 3; k++) { auto x = a(); auto y = b(); if (x != y) return false; } return true; } \
  static bool spec(R a, R b) { return true; } }; \
/* one item, and saving leaves the engine alone */ \
struct C20_##NAME##item { \
  static std::size_t impl(R& a) { OutAr o; boost::serialization::serialize(o, a, 0u); return o.t.size(); } \
  static std::size_t spec(R& a) { return 1; } }; \
struct C20_##NAME##text { \
  static std::string impl(R& a) { OutAr o; boost::serialization::save(o, a, 0u); return o.t[0]; } \
  static std::string spec(R& a) { std::ostringstream s; s << a; return s.str(); } }; \
struct C20_##NAME##used { \
  static std::size_t impl(R a, R b) { OutAr o; boost::serialization::save(o, a, 0u); InAr i(o.t); boost::serialization::load(i, b, 0u); return i.n; } \
  static std::size_t spec(R a, R b) { return 1; } }; \
/* failures are loud */ \
struct C20_##NAME##writefail { \
  enum { iofail = 1 }; \
  static bool pre(R a) { return io_fails(); } \
  static bool impl(R a) { bool c = false; try { OutAr o; boost::serialization::save(o, a, 0u); } catch (...) { c = true; } return c; } \
  static bool spec(R a) { return true; } }; \
struct C20_##NAME##damaged { \
  static bool pre(std::string t, R b) { return bad_state(t); } \
  static bool impl(std::string t, R b) { InAr i(std::vector<std::string>{ t }); bool c = false; try { boost::serialization::load(i, b, 0u); } catch (...) { c = true; } return c; } \
  static bool spec(std::string t, R b) { return true; } }; \
struct C20_##NAME##damagedany { \
  static bool pre(std::string t, R b) { return bad_state(t); } \
  static bool impl(std::string t, R b) { InAr i(std::vector<std::string>{ t }); bool c = false; try { boost::serialization::serialize(i, b, 0u); } catch (...) { c = true; } return c; } \
  static bool spec(std::string t, R b) { return true; } }; \
struct C20_##NAME##sound { \
  static bool pre(std::string t, R b) { return !bad_state(t); } \
  static bool impl(std::string t, R b) { InAr i(std::vector<std::string>{ t }); bool c = false; try { boost::serialization::load(i, b, 0u); } catch (...) { c = true; } return c; } \
  static bool spec(std::string t, R b) { return false; } }; \
/* nor is half of one */ \
struct C20_##NAME##short { \
  static bool one(std::string const& t, R b) { InAr i(std::vector<std::string>{ t }); bool c = false; try { boost::serialization::load(i, b, 0u); } catch (...) { c = true; } return c; } \
  static vd impl(R b) { return vd{ one("", b) ? 1. : 0., one(" ", b) ? 1. : 0., one("1 2 3", b) ? 1. : 0., one("state", b) ? 1. : 0., one("1 2 x", b) ? 1. : 0. }; } \
  static vd spec(R b) { return vd{ 1, 1, 1, 1, 1 }; } }; \
/* a missing item is not taken for a state */ \
struct C20_##NAME##missing { \
  static bool impl(R b) { InAr i(std::vector<std::string>{}); bool c = false; try { boost::serialization::load(i, b, 0u); } catch (...) { c = true; } return c; } \
  static bool spec(R b) { return true; } };
ENGINE(m64, std::mt19937_64)
ENGINE(m32, std::mt19937)
}
