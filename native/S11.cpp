// link:
#include "flat.h"
std::string trace;
template <typename F, typename S, bool multi, bool map, typename K> struct driver {
  using V = typename F::value_type; int mode; order cmp; F f; S s; int next = 0;
  explicit driver(int m) : mode(m), cmp{m}, f(cmp), s(cmp) {}
  V val(int i) { if constexpr (map) return V(mk<K>(i), next++); else { next++; return mk<K>(i); } }
  typename S::value_type sv(const V& v) { if constexpr (map) return {v.first, v.second}; else return v; }
  const K& key(const V& v) { if constexpr (map) return v.first; else return v; }
  std::size_t fi(typename F::const_iterator it) { return it - f.cbegin(); }
  std::size_t si(typename S::const_iterator it) { return std::distance(s.cbegin(), it); }
  // an insertion: result index must hold an element with that key, and (unique) the flag must match
  template <typename R> void put(const V& v, R r, bool has) {
    if constexpr (!multi) { auto q = s.insert(sv(v)); if constexpr (std::is_same_v<R, std::pair<typename F::iterator, bool>>) { REQUIRE(r.second == q.second, "insertion reported ", r.second); REQUIRE(fi(r.first) == si(q.first), "position ", fi(r.first), " expected ", si(q.first)); } else REQUIRE(fi(r) == si(q.first), "position ", fi(r), " expected ", si(q.first)); }
    else { s.insert(sv(v)); if constexpr (std::is_same_v<R, typename F::iterator>) { REQUIRE(fi(r) < f.size()); REQUIRE(show(*r) == show(v), "returned iterator is not at the new element"); } }
    (void)has;
  }
  int r(int n) { return (int)rng.below(n); }
  void step() {
    int span = 12; int i = r(span) - 3; V v = val(i); K k = mk<K>(i);
    switch (r(16)) {
      case 0: trace += " insert(" + show(v) + ")"; note(); { const V& c = v; put(v, f.insert(c), false); } break;
      case 1: trace += " insert(move " + show(v) + ")"; note(); { V c = v; put(v, f.insert(std::move(c)), false); } break;
      case 2: trace += " emplace(" + show(v) + ")"; note(); if constexpr (map) put(v, f.emplace(v.first, v.second), false); else put(v, f.emplace(v), false); break;
      case 3: { std::size_t h = r(f.size() + 1); trace += " emplace_hint(" + std::to_string(h) + "," + show(v) + ")"; note(); if constexpr (map) put(v, f.emplace_hint(f.cbegin() + h, v.first, v.second), false); else put(v, f.emplace_hint(f.cbegin() + h, v), false); break; }
      case 4: { std::size_t h = r(f.size() + 1); trace += " insert(hint " + std::to_string(h) + "," + show(v) + ")"; note(); if (r(2)) { const V& c = v; put(v, f.insert(f.cbegin() + h, c), false); } else { V c = v; put(v, f.insert(f.cbegin() + h, std::move(c)), false); } break; }
      case 5: { trace += " erase key " + show(k); note(); auto n = f.erase(k); auto m = s.erase(k); REQUIRE(n == m, "erase returned ", n, " expected ", m); break; }
      case 6: if (f.size()) { std::size_t p = r(f.size()); trace += " erase at " + std::to_string(p); note(); drop(p, p + 1, f.erase(f.cbegin() + p)); } break;
      case 7: if (f.size()) { std::size_t p = r(f.size() + 1), q = p + r(f.size() - p + 1); trace += " erase [" + std::to_string(p) + "," + std::to_string(q) + ")"; note(); drop(p, q, f.erase(f.cbegin() + p, f.cbegin() + q)); } break;
      case 8: { std::vector<V> vs; trace += " insert range"; for (int n = r(6); n-- > 0;) { vs.push_back(val(r(span) - 3)); trace += " " + show(vs.back()); } note(); f.insert(vs.begin(), vs.end()); for (auto& x : vs) s.insert(sv(x)); break; }
      case 9: { V a = val(r(span)), b = val(r(span)), c = a; trace += " insert{" + show(a) + "," + show(b) + "," + show(c) + "}"; note(); f.insert({a, b, c}); s.insert({sv(a), sv(b), sv(c)}); break; }
      case 10: if (r(4) == 0) { trace += " clear"; note(); f.clear(); s.clear(); } break;
      case 11: if (r(3) == 0) { V a = val(r(span)), b = val(r(span)), c = val(r(span)), d = a; trace += " = {" + show(a) + "," + show(b) + "," + show(c) + "," + show(d) + "}"; note(); f = {a, b, c, d}; s = {sv(a), sv(b), sv(c), sv(d)}; } break;
      case 12: if (r(3) == 0) { std::vector<V> vs; for (int n = r(4) ? r(12) : r(60); n-- > 0;) vs.push_back(val(r(40) - 10)); trace = " range of"; for (auto& x : vs) trace += " " + show(x); note(); F g(vs.begin(), vs.end(), cmp); S t(cmp); for (auto& x : vs) t.insert(sv(x)); f.swap(g); s.swap(t); } break;
      case 13: if constexpr (map && !multi) { trace += " [" + show(k) + "]"; note(); auto& x = r(2) ? f[k] : f[mk<K>(i)]; auto& y = s[k]; REQUIRE(x == y, "operator[] gives ", x, " expected ", y); if (r(2)) { x = y = next++; trace += "=" + std::to_string(y); } } break;
      case 14: if constexpr (map && !multi) { trace += " at " + show(k); note(); const F& cf = f; bool in = s.count(k); for (int c = 0; c < 2; c++) { int o = outcome<std::out_of_range>([&] { int x = c ? cf.at(k) : f.at(k); REQUIRE(x == s.at(k), "at gives ", x); }); REQUIRE(o == (in ? 0 : 1), "at: outcome ", o); } } break;
      default: { F g({v, val(r(span)), v, val(r(span))}, cmp); S t(cmp); trace += " init list " + showall(g); note(); REQUIRE(g.size() <= 4); for (auto it = g.begin(); it != g.end(); ++it) if (it != g.begin()) { REQUIRE(!cmp(key(*it), key(*(it - 1)))); if (!multi) REQUIRE(cmp(key(*(it - 1)), key(*it))); } }
    }
    equal<multi>(f, s, cmp, "after the last step:"); for (int q = -4; q < 12; q += 1 + r(3)) { K kk = mk<K>(q); lookups(f, s, kk, multi); }
    if (r(6) == 0) for (auto& x : std::vector<V>(f.begin(), f.end())) { lookups(f, s, key(x), multi); REQUIRE(f.count(key(x)) >= 1); }
    REQUIRE(f.key_comp().mode == mode);
  }
  void drop(std::size_t p, std::size_t q, typename F::iterator res) {   // remove from the model the very elements the flat container held there
    std::vector<std::string> gone; REQUIRE(fi(res) == p, "erase returned position ", fi(res), " expected ", p);
    if constexpr (!multi) { s.erase(std::next(s.begin(), p), std::next(s.begin(), q)); }
    else { std::multiset<std::string> left; for (auto& x : f) left.insert(show(x)); REQUIRE(f.size() == s.size() - (q - p)); for (auto it = s.begin(); it != s.end();) { V x(*it); auto w = left.find(show(x)); if (w == left.end()) { std::size_t pos = si(it); it = s.erase(it); (void)pos; } else { left.erase(w); ++it; } } REQUIRE(left.empty(), "an element not in the container appeared"); REQUIRE(s.size() == f.size()); }
  }
  void note() { one(std::string(multi ? "multi" : "unique") + (map ? " map" : " set") + " order " + std::to_string(mode) + ":" + (trace.size() > 600 ? "... " + trace.substr(trace.size() - 600) : trace)); }
};
template <typename D> void run(int mode) { trace.clear(); D d(mode); for (int n = 5 + (int)rng.below(50); n-- > 0;) d.step(); }
template <typename K> void all() {
  int m = (int)rng.below(4);
  run<driver<arpc::flat_set<K, order>, std::set<K, order>, false, false, K>>(m); run<driver<arpc::flat_multiset<K, order>, std::multiset<K, order>, true, false, K>>(m);
  run<driver<arpc::flat_map<K, int, order>, std::map<K, int, order>, false, true, K>>(m); run<driver<arpc::flat_multimap<K, int, order>, std::multimap<K, int, order>, true, true, K>>(m);
}
void moveonly() { one("flat_map<int, unique_ptr<int>>"); arpc::flat_map<int, std::unique_ptr<int>> m; for (int i = 0; i < 50; i++) { int k = (i * 37) % 50; m[k] = std::make_unique<int>(k); m.emplace(k, nullptr); } for (int i = 0; i < 50; i++) REQUIRE(*m.at(i) == i); m.erase(7); REQUIRE(m.size() == 49 && m.find(7) == m.end()); }
void selfalias() { arpc::flat_multiset<std::string> s; s.insert("bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb"); for (int i = 0; i < 40; i++) { one("inserting an element of the container itself"); const std::string& r = *(s.begin() + i / 2); s.insert(r); REQUIRE(s.size() == (std::size_t)i + 2); } REQUIRE(s.count(*s.begin()) == 41); REQUIRE(s.erase(std::string(*s.begin())) == 41); arpc::flat_map<int, int> m; for (int i = 0; i < 64; i++) m.emplace(i, i); m.erase(m.begin()->first); REQUIRE(m.size() == 63); }
int main(int c, char** a) {
  oracle::init(c, a); oracle::begin("move-only values"); moveonly(); oracle::begin("aliasing arguments"); selfalias();
  while (oracle::more(1.0)) { oracle::begin("histories, int keys"); all<int>(); oracle::begin("histories, string keys"); all<std::string>(); }
  return oracle::done();
}
