#include <algorithm>
#include <iterator>
#include "common.hpp"
#include <bwsl/FileUtils.hpp>
namespace bwslv {
#define STR std::string
inline bool same(STR const& p, STR const& q)
{
  if (!file_readable(p) || !file_readable(q)) return false;
  if (file_size(p) != file_size(q)) return false;
  for (std::size_t k = 0; k < file_size(p); k++)
    if (file_byte(p, k) != file_byte(q, k)) return false;
  return true;
}
// true exactly for two readable files of equal size whose bytes agree
struct C36_equal {
  static bool pre(STR p, STR q) { return true; }
  static bool impl(STR p, STR q) { return bwsl::compare_files(p, q); }
  static bool spec(STR p, STR q) { return same(p, q); } };
// a file compared with itself: true exactly if it can be opened
struct C36_self {
  static bool pre(STR p) { return true; }
  static bool impl(STR p) { return bwsl::compare_files(p, p); }
  static bool spec(STR p) { return file_readable(p); } };
struct C36_unreadable {
  static bool pre(STR p, STR q) { return !file_readable(p) || !file_readable(q); }
  static bool impl(STR p, STR q) { return bwsl::compare_files(p, q); }
  static bool spec(STR p, STR q) { return false; } };
struct C36_sizes {
  static bool pre(STR p, STR q) { return file_readable(p) && file_readable(q) && file_size(p) != file_size(q); }
  static bool impl(STR p, STR q) { return bwsl::compare_files(p, q); }
  static bool spec(STR p, STR q) { return false; } };
struct C36_empty {
  static bool pre(STR p, STR q) { return file_readable(p) && file_readable(q) && file_size(p) == 0 && file_size(q) == 0; }
  static bool impl(STR p, STR q) { return bwsl::compare_files(p, q); }
  static bool spec(STR p, STR q) { return true; } };
struct C36_symmetric {
  static bool pre(STR p, STR q) { return true; }
  static bool impl(STR p, STR q) { return bwsl::compare_files(p, q); }
  static bool spec(STR p, STR q) { return bwsl::compare_files(q, p); } };
// nothing is written and the names are left alone
struct C36_sequence {
  static bool pre(STR p, STR q) { return true; }
  static std::pair<bool, bool> impl(STR p, STR q) { bool a = bwsl::compare_files(p, q); bool b = bwsl::compare_files(p, q); return std::make_pair(a, b); }
  static std::pair<bool, bool> spec(STR p, STR q) { return std::make_pair(same(p, q), same(p, q)); } };
}
