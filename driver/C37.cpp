#include <bits/stdc++.h>
#include "common.hpp"
// the whole program, its helpers included, under a name of its own
#define main bwsl_dumpmt_main
namespace bwsl_dumpmt {
#include <../applications/dumpmt.cpp>
}
#undef main
namespace bwslv {
#define STR std::string
// the text is a decimal seed in the range of unsigned 64-bit integers: parse_u64 is its value
inline int dump(int ac, STR a, STR b)
{
  char* av[4] = { const_cast<char*>("dumpmt"), const_cast<char*>(a.c_str()), const_cast<char*>(b.c_str()), nullptr };
  if (ac == 1) av[1] = nullptr;
  if (ac == 2) av[2] = nullptr;
  return bwsl_dumpmt::bwsl_dumpmt_main(ac, av);
}
inline int good(STR a) { std::mt19937_64 g(parse_u64(a)); std::cout << g << std::endl; return 0; }
struct C37_seed {
  static bool pre(STR a) { return true; }
  static int impl(STR a) { return dump(2, a, "x"); }
  static int spec(STR a) { return good(a); } };
// further arguments do not matter
struct C37_extra {
  static bool pre(STR a, STR b) { return true; }
  static int impl(STR a, STR b) { return dump(3, a, b); }
  static int spec(STR a, STR b) { return good(a); } };
struct C37_noarg {
  static bool pre(STR a) { return true; }
  static bool impl(STR a) { return dump(1, a, a) != 0; }
  static bool spec(STR a) { return true; } };
// one call leaves nothing behind that the next would see
struct C37_twice {
  static bool pre(STR a, STR b) { return true; }
  static int impl(STR a, STR b) { int r = dump(2, a, b); return r + dump(2, b, a); }
  static int spec(STR a, STR b) { int r = good(a); return r + good(b); } };
}
