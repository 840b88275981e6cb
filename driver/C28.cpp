#include <exception>
#include "common.hpp"
#include <bwsl/EnumString.hpp>
namespace bwslv {
BWSL_DEFINE_ENUM_WITH_STRING_CONVERSIONS(Os, (Linux)(Apple)(Windows))
BWSL_DEFINE_ENUM_WITH_STRING_CONVERSIONS(One, (Only))
BWSL_DEFINE_ENUM_WITH_STRING_CONVERSIONS(Five, (A)(Ab)(ab)(a_b)(abc))
namespace other { BWSL_DEFINE_ENUM_WITH_STRING_CONVERSIONS(Os, (Windows)(Solaris)) }

#define NAMES(...) static std::string nm(int k) { const char* t[] = { __VA_ARGS__ }; return t[k]; }
#define ENUMS(E, CNT, CAP, ...) \
struct C28_##E##_tostring { NAMES(__VA_ARGS__) \
  static bool pre(int k) { return k >= 0 && k < CNT; } \
  static std::string impl(int k) { return ToString(static_cast<E>(k)); } \
  static std::string spec(int k) { return nm(k); } }; \
struct C28_##E##_unknown { \
  static bool pre(int k) { return k >= CNT && k <= CAP; } \
  static std::string impl(int k) { return ToString(static_cast<E>(k)); } \
  static std::string spec(int k) { return "[ Unknown " #E " ]"; } }; \
struct C28_##E##_fromstring { NAMES(__VA_ARGS__) \
  static bool pre(int k, int s) { return k >= 0 && k < CNT && s >= 0 && s <= CAP; } \
  static int impl(int k, int s) { E e = static_cast<E>(s); FromString(e, nm(k)); return (int)e; } \
  static int spec(int k, int s) { return k; } }; \
struct C28_##E##_trip { \
  static bool pre(int k, int s) { return k >= 0 && k < CNT && s >= 0 && s <= CAP; } \
  static int impl(int k, int s) { E e = static_cast<E>(s); FromString(e, ToString(static_cast<E>(k))); return (int)e; } \
  static int spec(int k, int s) { return k; } }; \
/* any text at all */ \
struct C28_##E##_anytext { NAMES(__VA_ARGS__) \
  static bool pre(std::string t, int s) { return s >= 0 && s <= CAP; } \
  static std::pair<int, bool> impl(std::string t, int s) { E e = static_cast<E>(s); bool x = false; try { FromString(e, t); } catch (EnumStringConversionFailed_##E const&) { x = true; } return std::make_pair((int)e, x); } \
  static std::pair<int, bool> spec(std::string t, int s) { for (int k = 0; k < CNT; k++) if (t == nm(k)) return std::make_pair(k, false); return std::make_pair(s, true); } }; \
struct C28_##E##_nothrow { NAMES(__VA_ARGS__) \
  static int impl(std::string t) { E e = static_cast<E>(0); try { FromString(e, t); } catch (std::exception const&) { return -1; } return (int)e; } \
  static int spec(std::string t) { for (int k = 0; k < CNT; k++) if (t == nm(k)) return k; return -1; } }; \
/* the message, also of a copy that outlives the original */ \
struct C28_##E##_message { NAMES(__VA_ARGS__) \
  static std::string impl(std::string t) { E e = static_cast<E>(0); std::string r = "none"; try { FromString(e, t); } catch (EnumStringConversionFailed_##E const& x) { r = x.what(); } return r; } \
  static std::string spec(std::string t) { for (int k = 0; k < CNT; k++) if (t == nm(k)) return "none"; return "Unknown correspondance of " + t + " for enum " #E; } }; \
struct C28_##E##_copy { \
  static EnumStringConversionFailed_##E dup(std::string t) { EnumStringConversionFailed_##E a(t); EnumStringConversionFailed_##E b(a); return b; } \
  static std::pair<std::string, std::string> impl(std::string t) { EnumStringConversionFailed_##E y = dup(t); return std::make_pair(std::string(y.what()), std::string(y.what())); } \
  static std::pair<std::string, std::string> spec(std::string t) { std::string m = "Unknown correspondance of " + t + " for enum " #E; return std::make_pair(m, m); } }; \
struct C28_##E##_pointer { \
  static std::string impl(std::string t, std::string u) { EnumStringConversionFailed_##E x(t); const char* p = x.what(); EnumStringConversionFailed_##E y(u); const char* q = y.what(); return std::string(p) + "|" + q; } \
  static std::string spec(std::string t, std::string u) { return "Unknown correspondance of " + t + " for enum " #E "|Unknown correspondance of " + u + " for enum " #E; } };
ENUMS(Os, 3, 3, "Linux", "Apple", "Windows")
ENUMS(One, 1, 1, "Only")
ENUMS(Five, 5, 7, "A", "Ab", "ab", "a_b", "abc")
struct C28_separate {
  static std::pair<int, std::string> impl(int) { other::Os e = other::Solaris; FromString(e, std::string("Windows")); return std::make_pair((int)e, ToString(other::Solaris)); }
  static std::pair<int, std::string> spec(int) { return std::make_pair(0, std::string("Solaris")); } };
struct C28_literal {
  static int impl(int) { Os e = Linux; FromString(e, "Windows"); return e; }
  static int spec(int) { return 2; } };
}
