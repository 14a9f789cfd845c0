// Flat containers against the standard ones, with a comparator that carries state.
#pragma once
#include "oracle.h"
#include <algorithm>
#include <map>
#include <memory>
#include <set>
#include "arpc/container/flat_map.h"
#include "arpc/container/flat_set.h"
using oracle::one; using oracle::rng;
struct order {
  int mode = 0;
  static int key(int k, int m) { return m == 1 ? -k : m == 2 ? ((k % 7) + 7) % 7 : m == 3 ? ((k % 11) * 5) % 11 : k; }
  bool operator()(int a, int b) const { return key(a, mode) < key(b, mode); }
  bool operator()(const std::string& a, const std::string& b) const { return mode == 1 ? b < a : mode >= 2 ? a.size() % 5 < b.size() % 5 : a < b; }
};
template <typename K> K mk(int i);
template <> inline int mk<int>(int i) { return i; }
template <> inline std::string mk<std::string>(int i) { return std::string(i < 0 ? -i : i, 'a' + (i & 3)); }
inline std::string show(int i) { return std::to_string(i); }
inline std::string show(const std::string& s) { return "'" + s + "'"; }
template <typename A, typename B> std::string show(const std::pair<A, B>& p) { return show(p.first) + ":" + show(p.second); }
template <typename C> std::string showall(const C& c) { std::string s = "["; for (const auto& x : c) { typename C::value_type v(x); s += show(v) + " "; } return s + "]"; }
template <typename V> const V& keyof(const V& v) { return v; }
template <typename A, typename B> const A& keyof(const std::pair<A, B>& v) { return v.first; }
// same elements, in key order; elements with equivalent keys in any order for the multi containers
template <bool multi, typename F, typename S, typename O> void equal(const F& f, const S& s, const O& cmp, const std::string& what) {
  REQUIRE(f.size() == s.size(), what, " sizes ", f.size(), " and ", s.size(), showall(f), showall(s)); REQUIRE(f.empty() == (s.size() == 0));
  std::vector<std::string> a, b; std::vector<typename F::value_type> fv(f.begin(), f.end());
  for (std::size_t i = 1; i < fv.size(); i++) { REQUIRE(!cmp(keyof(fv[i]), keyof(fv[i - 1])), what, " not in key order", showall(f)); if (!multi) REQUIRE(cmp(keyof(fv[i - 1]), keyof(fv[i])), what, " equivalent keys", showall(f)); }
  for (auto& x : fv) a.push_back(show(x)); for (auto& x : s) { typename F::value_type v(x); b.push_back(show(v)); } if (multi) { std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); }
  REQUIRE(a == b, what, " elements ", showall(f), " expected ", showall(s));
  std::vector<typename F::value_type> rv(f.rbegin(), f.rend()); REQUIRE(rv.size() == fv.size()); for (std::size_t i = 0; i < rv.size(); i++) REQUIRE(show(rv[i]) == show(fv[fv.size() - 1 - i]), what, " reverse order"); REQUIRE(f.cend() - f.cbegin() == (std::ptrdiff_t)f.size()); if (f.size()) REQUIRE(&*f.begin() == f.data());
}
template <typename F, typename S, typename K> void lookups(F& f, S& s, const K& k, bool multi) {
  const F& cf = f; auto fi = [&](auto it) { return (std::size_t)(it - cf.begin()); }; auto si = [&](auto it) { return (std::size_t)std::distance(s.begin(), it); };
  std::size_t lo = si(s.lower_bound(k)), hi = si(s.upper_bound(k));
  REQUIRE(fi(cf.lower_bound(k)) == lo, "lower_bound ", fi(cf.lower_bound(k)), " expected ", lo); REQUIRE(fi(f.lower_bound(k)) == lo); REQUIRE(fi(cf.upper_bound(k)) == hi, "upper_bound"); REQUIRE(fi(f.upper_bound(k)) == hi);
  auto e = cf.equal_range(k); REQUIRE(fi(e.first) == lo && fi(e.second) == hi, "equal_range"); auto e2 = f.equal_range(k); REQUIRE(fi(e2.first) == lo && fi(e2.second) == hi, "equal_range");
  REQUIRE(cf.count(k) == s.count(k), "count ", cf.count(k), " expected ", s.count(k)); bool in = s.count(k) != 0;
  std::size_t a = fi(cf.find(k)), b = fi(f.find(k)); if (!in) REQUIRE(a == s.size() && b == s.size(), "find of an absent key"); else REQUIRE(a >= lo && a < hi && b >= lo && b < hi, "find ", a, " expected in [", lo, ",", hi, ")");
}
