#pragma once
#include <map>
#include <type_traits>
#include <boost/serialization/access.hpp>
#include <boost/serialization/map.hpp>
#include <boost/serialization/nvp.hpp>
#include <boost/serialization/split_member.hpp>
#include <boost/serialization/string.hpp>
#include <boost/serialization/vector.hpp>
#include <boost/serialization/version.hpp>
#include <bwsl/HistAccumulator.hpp>
#include <bwsl/MonteCarloUtils.hpp>
#include <bwsl/ObservableGroup.hpp>
#include "acc.hpp"
namespace bwslv {
struct corrupt {};
struct yes : std::true_type { static constexpr bool value = true; };
struct no : std::false_type { static constexpr bool value = false; };
template<int V> unsigned ver() { return V; }
// what an archive holds: one tagged item after the other; containers of
// accumulators are single items (their elements have obligations of their own)
struct Tape {
  std::vector<int> tag;
  vd real;
  std::vector<unsigned long> whole;
  std::vector<std::string> text;
  std::vector<std::vector<NEUM>> bins;
  std::vector<std::map<std::string, KAHAN>> group;
  std::vector<std::map<int, KAHAN>> igroup;
};
struct OutAr {
  using is_saving = yes;
  using is_loading = no;
  Tape t;
  template<class T> OutAr& operator&(T const& x) { put(x); return *this; }
  template<class T> OutAr& operator<<(T const& x) { put(x); return *this; }
  template<class T> OutAr& operator&(boost::serialization::nvp<T> const& x) { put(x.value()); return *this; }
  template<class T> OutAr& operator<<(boost::serialization::nvp<T> const& x) { put(x.value()); return *this; }
  void put(double const& x) { t.tag.push_back(1); t.real.push_back(x); }
  void put(unsigned long const& x) { t.tag.push_back(2); t.whole.push_back(x); }
  void put(long const& x) { t.tag.push_back(3); t.whole.push_back((unsigned long)x); }
  void put(bool const& x) { t.tag.push_back(4); t.whole.push_back(x ? 1 : 0); }
  void put(int const& x) { t.tag.push_back(9); t.whole.push_back((unsigned long)(long)x); }
  void put(unsigned const& x) { t.tag.push_back(10); t.whole.push_back(x); }
  void put(std::string const& x) { t.tag.push_back(5); t.text.push_back(x); }
  void put(std::vector<NEUM> const& x) { t.tag.push_back(6); t.bins.push_back(x); }
  void put(std::map<std::string, KAHAN> const& x) { t.tag.push_back(7); t.group.push_back(x); }
  void put(std::map<int, KAHAN> const& x) { t.tag.push_back(8); t.igroup.push_back(x); }
  template<class T> void put(T const& x) { boost::serialization::access::serialize(*this, const_cast<T&>(x), ver<boost::serialization::version<T>::value>()); }
};
struct InAr {
  using is_saving = no;
  using is_loading = yes;
  Tape t;
  std::size_t n = 0, r = 0, w = 0, s = 0, b = 0, g = 0, h = 0;
  InAr(Tape const& x) : t(x) {}
  template<class T> InAr& operator&(T& x) { get(x); return *this; }
  template<class T> InAr& operator>>(T& x) { get(x); return *this; }
  template<class T> InAr& operator&(boost::serialization::nvp<T> const& x) { get(x.value()); return *this; }
  template<class T> InAr& operator>>(boost::serialization::nvp<T> const& x) { get(x.value()); return *this; }
  void expect(int k) { if (n >= t.tag.size() || t.tag[n] != k) throw corrupt(); n++; }
  void get(double& x) { expect(1); x = t.real[r++]; }
  void get(unsigned long& x) { expect(2); x = t.whole[w++]; }
  void get(long& x) { expect(3); x = (long)t.whole[w++]; }
  void get(bool& x) { expect(4); x = t.whole[w++] != 0; }
  void get(int& x) { expect(9); x = (int)(long)t.whole[w++]; }
  void get(unsigned& x) { expect(10); x = (unsigned)t.whole[w++]; }
  void get(std::string& x) { expect(5); x = t.text[s++]; }
  void get(std::vector<NEUM>& x) { expect(6); x = t.bins[b++]; }
  void get(std::map<std::string, KAHAN>& x) { expect(7); x = t.group[g++]; }
  void get(std::map<int, KAHAN>& x) { expect(8); x = t.igroup[h++]; }
  template<class T> void get(T& x) { boost::serialization::access::serialize(*this, x, ver<boost::serialization::version<T>::value>()); }
};
template<class T> Tape store(T& x) { OutAr o; o & x; return o.t; }
template<class T> void restore(Tape const& t, T& x) { InAr i(t); i & x; if (i.n != t.tag.size()) throw corrupt(); }
}
