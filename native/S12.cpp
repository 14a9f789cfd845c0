// link:
#include "flat.h"
template <typename F, typename S, bool multi, bool map> struct V2 {
  using V = typename F::value_type; static V val(int i) { if constexpr (map) return V(i, (int)rng.below(1000)); else return V(i); }
  struct pair { F f; S s; int mode; };
  static void fill(pair& p, int n) { while (n-- > 0) { V v = val((int)rng.below(14) - 4); p.f.insert(v); p.s.insert(typename S::value_type(v)); } }
  static pair make() { int m = (int)rng.below(4); pair p{F(order{m}), S(order{m}), m}; fill(p, (int)rng.below(12)); return p; }
  static void check(F& f, S& s, int mode, const std::string& what) { order o{mode}; equal<multi>(f, s, o, what); REQUIRE(f.key_comp().mode == mode, what, " comparator mode ", f.key_comp().mode, " expected ", mode); for (int k = -5; k < 12; k++) { lookups(f, s, k, multi); REQUIRE(f.value_comp()(k, k + 1) == o(k, k + 1)); } }
  static void check(pair& p, const std::string& what) { check(p.f, p.s, p.mode, what); }
  static void use(F& f, S& s, int mode, const std::string& what) { pair t{F(order{mode}), S(order{mode}), mode}; for (int i = 0; i < 4; i++) { V v = val((int)rng.below(14) - 4); f.insert(v); s.insert(typename S::value_type(v)); if (rng.coin()) { int k = (int)rng.below(10); REQUIRE(f.erase(k) == s.erase(k)); } } check(f, s, mode, what + ", changed afterwards"); }
  static void run() {
    pair a = make(), b = make(); std::string d = std::string(multi ? "multi" : "unique") + (map ? " map" : " set") + " of order " + std::to_string(a.mode) + " " + showall(a.f) + " with one of order " + std::to_string(b.mode) + " " + showall(b.f); F empty;
    auto say = [&](const char* w) { one(std::string(w) + " of " + d); };
    { say("copy construction"); F c(a.f); S s(a.s); check(c, s, a.mode, "copy"); use(c, s, a.mode, "copy"); check(a, "source of the copy"); use(a.f, a.s, a.mode, "source"); check(c, s, a.mode, "copy after its source changed"); }
    { say("copy with allocator"); F c(a.f, a.f.get_allocator()); S s(a.s); check(c, s, a.mode, "copy"); use(c, s, a.mode, "copy"); check(a, "source"); }
    { say("move construction"); F c0(a.f); F c(std::move(c0)); S s(a.s); check(c, s, a.mode, "moved"); use(c, s, a.mode, "moved"); }
    { say("move with allocator"); F c0(a.f); F c(std::move(c0), a.f.get_allocator()); S s(a.s); check(c, s, a.mode, "moved"); use(c, s, a.mode, "moved"); }
    { say("copy assignment"); F c(b.f); c = a.f; S s(a.s); check(c, s, a.mode, "assigned"); use(c, s, a.mode, "assigned"); check(a, "source"); check(b, "other"); F e; e = a.f; S t(a.s); check(e, t, a.mode, "assigned to a default one"); e = F(order{b.mode}); S u{order{b.mode}}; check(e, u, b.mode, "assigned an empty one"); use(e, u, b.mode, "assigned an empty one"); }
    { say("move assignment"); F c(b.f), m(a.f); c = std::move(m); S s(a.s); check(c, s, a.mode, "move-assigned"); use(c, s, a.mode, "move-assigned"); m = b.f; S t(b.s); check(m, t, b.mode, "moved-from one assigned again"); }
    { say("self assignment"); F c(a.f); F& r = c; c = r; S s(a.s); check(c, s, a.mode, "self-assigned"); }
    { say("member swap"); F c(a.f), e(b.f); S s(a.s), t(b.s); c.swap(e); check(c, t, b.mode, "swapped"); check(e, s, a.mode, "swapped"); use(c, t, b.mode, "swapped"); use(e, s, a.mode, "swapped"); c.swap(e); check(c, s, a.mode, "swapped back"); }
    { say("std::swap"); F c(a.f), e(b.f); S s(a.s), t(b.s); using std::swap; swap(c, e); check(c, t, b.mode, "swapped"); check(e, s, a.mode, "swapped"); use(c, t, b.mode, "swapped"); use(e, s, a.mode, "swapped"); }
    { say("initializer-list assignment"); F c(a.f); S s(a.s); V x = val(3), y = val(9), z = val(1); c = {x, y, z, x}; s = {typename S::value_type(x), typename S::value_type(y), typename S::value_type(z), typename S::value_type(x)}; check(c, s, a.mode, "assigned a list"); use(c, s, a.mode, "assigned a list"); }
    { say("range construction"); std::vector<V> v; for (int i = 0; i < 30; i++) v.push_back(val((int)rng.below(40) - 9)); order o{b.mode}; F c(v.begin(), v.end(), o); S s(o); for (auto& q : v) s.insert(typename S::value_type(q)); check(c, s, b.mode, "from a range"); use(c, s, b.mode, "from a range"); }
  }
};
int main(int c, char** a) {
  oracle::init(c, a); oracle::begin("copies, moves, swaps");
  while (oracle::more(1.0)) { V2<arpc::flat_set<int, order>, std::set<int, order>, false, false>::run(); V2<arpc::flat_multiset<int, order>, std::multiset<int, order>, true, false>::run(); V2<arpc::flat_map<int, int, order>, std::map<int, int, order>, false, true>::run(); V2<arpc::flat_multimap<int, int, order>, std::multimap<int, int, order>, true, true>::run(); }
  return oracle::done();
}
