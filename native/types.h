// Independent model of the wire format: generators, equality and a reference encoder.
#pragma once
#include "oracle.h"
#include <array>
#include <chrono>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include "arpc/binary_codecs.h"
#include "arpc/container/flat_map.h"
#include "arpc/container/flat_set.h"
#include "arpc/result_holder.h"
#include "arpc/serializable.h"
#include "arpc/string_adapters.h"

namespace model {
using oracle::rng;
template <typename T> struct tag {};

enum class color : std::uint16_t { red = 1, green = 0x1234, blue = 0xffff };
enum plain : int { pa = -5, pb = 7 };
struct agg { int a; std::string b; double c; };
struct nested_agg { agg x; std::vector<std::int16_t> y; std::array<char, 3> z; };
struct one_field { std::uint64_t v; };

class simple : public arpc::serializable<simple> {
 public:
  std::uint8_t u = 0; std::string s; std::vector<std::string> v;
  ARPC_FIELDS(u, s, v);
};
class base1 : public arpc::serializable<base1> { public: std::int32_t x = 0; ARPC_FIELDS(x); };
class base2 : public arpc::serializable<base2> { public: std::string t; ARPC_FIELDS(t); };
class derived : public arpc::serializable<derived, base1, base2> {
 public: std::uint16_t y = 0; std::optional<std::string> o; ARPC_FIELDS(y, o);
};
class custom : public arpc::serializable<custom> {
 public:
  std::uint32_t p = 0; std::string q;
  ARPC_CUSTOM_SERIALIZATION_VERSION(3);
  template <typename S> void save(S& s) const { s(q); s(p); }
  template <typename S> void load(S& s) { s(q); s(p); }
};
class mixed : public arpc::serializable<mixed, base2> {
 public:
  std::int64_t f = 0; std::vector<std::uint32_t> extra;
  ARPC_FIELDS(f);
  ARPC_CUSTOM_SERIALIZATION_VERSION(1);
  template <typename S> void save(S& s) const { s(extra); }
  template <typename S> void load(S& s) { s(extra); }
};

// ---- generators: the length class is drawn so that multi-byte sizes occur
inline std::size_t gen_len(std::size_t depth) {
  switch (rng.below(depth ? 6 : 14)) {
    case 0: return 0; case 1: return 1; case 2: return 2; case 3: return 3 + rng.below(5);
    case 4: return rng.below(20); case 5: return rng.below(4);
    case 6: return 127; case 7: return 128; case 8: return 129; case 9: return 130 + rng.below(126);
    case 10: return 255 + rng.below(3); case 11: return 256 + rng.below(300); case 12: return 16383 + rng.below(3); default: return rng.below(64);
  }
}
template <typename T> T gen(std::size_t depth);
template <typename T> std::enable_if_t<std::is_integral_v<T>, T> g(tag<T>, std::size_t) {
  std::uint64_t r = rng();
  switch (rng.below(6)) { case 0: r = rng.below(3); break; case 1: r = ~rng.below(3); break; case 2: r = 1ull << rng.below(64); break; case 3: r = (1ull << rng.below(64)) - 1; break; default: break; }
  return static_cast<T>(std::is_same_v<T, bool> ? (r & 1) : r);
}
template <typename T> std::enable_if_t<std::is_floating_point_v<T>, T> g(tag<T>, std::size_t) {
  switch (rng.below(6)) { case 0: return T(0); case 1: return T(-0.0); case 2: return std::numeric_limits<T>::infinity(); case 3: return std::numeric_limits<T>::min() / 4; default: return T(std::int64_t(rng())) / T(3); }
}
template <typename T> std::enable_if_t<std::is_enum_v<T>, T> g(tag<T>, std::size_t d) { return static_cast<T>(g(tag<std::underlying_type_t<T>>{}, d)); }
inline std::string g(tag<std::string>, std::size_t d) { std::string s; std::size_t n = gen_len(d); for (std::size_t i = 0; i < n; i++) s.push_back(rng.below(4) ? char(rng()) : '\0'); return s; }
template <typename C> C gseq(std::size_t d) { C c; std::size_t n = gen_len(d); if (d == 0 && n > 3000 && sizeof(typename C::value_type) > 8) n = 300; for (std::size_t i = 0; i < n; i++) c.push_back(gen<typename C::value_type>(d + 1)); return c; }
template <typename T> std::vector<T> g(tag<std::vector<T>>, std::size_t d) { return gseq<std::vector<T>>(d); }
template <typename T> std::deque<T> g(tag<std::deque<T>>, std::size_t d) { return gseq<std::deque<T>>(d); }
template <typename T> std::list<T> g(tag<std::list<T>>, std::size_t d) { return gseq<std::list<T>>(d); }
template <typename C, typename V> C gset(std::size_t d) { C c; std::size_t n = gen_len(d); if (n > 600) n = 300; for (std::size_t i = 0; i < n; i++) c.insert(gen<V>(d + 1)); return c; }
template <typename T> std::set<T> g(tag<std::set<T>>, std::size_t d) { return gset<std::set<T>, T>(d); }
template <typename T> std::multiset<T> g(tag<std::multiset<T>>, std::size_t d) { return gset<std::multiset<T>, T>(d); }
template <typename T> std::unordered_set<T> g(tag<std::unordered_set<T>>, std::size_t d) { return gset<std::unordered_set<T>, T>(d); }
template <typename T> arpc::flat_set<T> g(tag<arpc::flat_set<T>>, std::size_t d) { return gset<arpc::flat_set<T>, T>(d); }
template <typename T> arpc::flat_multiset<T> g(tag<arpc::flat_multiset<T>>, std::size_t d) { return gset<arpc::flat_multiset<T>, T>(d); }
template <typename K, typename V> std::map<K, V> g(tag<std::map<K, V>>, std::size_t d) { return gset<std::map<K, V>, std::pair<K, V>>(d); }
template <typename K, typename V> std::multimap<K, V> g(tag<std::multimap<K, V>>, std::size_t d) { return gset<std::multimap<K, V>, std::pair<K, V>>(d); }
template <typename K, typename V> arpc::flat_map<K, V> g(tag<arpc::flat_map<K, V>>, std::size_t d) { return gset<arpc::flat_map<K, V>, std::pair<K, V>>(d); }
template <typename T> std::optional<T> g(tag<std::optional<T>>, std::size_t d) { if (rng.coin()) return std::nullopt; return gen<T>(d + 1); }
template <typename T> std::unique_ptr<T> g(tag<std::unique_ptr<T>>, std::size_t d) { if (rng.below(3) == 0) return nullptr; return std::make_unique<T>(gen<T>(d + 1)); }
template <typename A, typename B> std::pair<A, B> g(tag<std::pair<A, B>>, std::size_t d) { A a = gen<A>(d + 1); B b = gen<B>(d + 1); return {std::move(a), std::move(b)}; }
template <typename... A> std::tuple<A...> g(tag<std::tuple<A...>>, std::size_t d) { return std::tuple<A...>{gen<A>(d + 1)...}; }
template <typename T, std::size_t n> std::array<T, n> g(tag<std::array<T, n>>, std::size_t d) { std::array<T, n> a{}; for (auto& x : a) x = gen<T>(d + 1); return a; }
template <typename R, typename P> std::chrono::duration<R, P> g(tag<std::chrono::duration<R, P>>, std::size_t d) { return std::chrono::duration<R, P>(g(tag<R>{}, d)); }
template <typename C, typename D> std::chrono::time_point<C, D> g(tag<std::chrono::time_point<C, D>>, std::size_t d) { return std::chrono::time_point<C, D>(g(tag<D>{}, d)); }
inline agg g(tag<agg>, std::size_t d) { return {gen<int>(d), gen<std::string>(d + 1), gen<double>(d)}; }
inline nested_agg g(tag<nested_agg>, std::size_t d) { return {gen<agg>(d + 1), gen<std::vector<std::int16_t>>(d + 1), gen<std::array<char, 3>>(d)}; }
inline one_field g(tag<one_field>, std::size_t d) { return {gen<std::uint64_t>(d)}; }
inline simple g(tag<simple>, std::size_t d) { simple r; r.u = gen<std::uint8_t>(d); r.s = gen<std::string>(d + 1); r.v = gen<std::vector<std::string>>(d + 1); return r; }
inline base1 g(tag<base1>, std::size_t d) { base1 r; r.x = gen<std::int32_t>(d); return r; }
inline base2 g(tag<base2>, std::size_t d) { base2 r; r.t = gen<std::string>(d + 1); return r; }
inline derived g(tag<derived>, std::size_t d) { derived r; r.x = gen<std::int32_t>(d); r.t = gen<std::string>(d + 1); r.y = gen<std::uint16_t>(d); r.o = gen<std::optional<std::string>>(d + 1); return r; }
inline custom g(tag<custom>, std::size_t d) { custom r; r.p = gen<std::uint32_t>(d); r.q = gen<std::string>(d); return r; }
inline mixed g(tag<mixed>, std::size_t d) { mixed r; r.f = gen<std::int64_t>(d); r.t = gen<std::string>(d + 1); r.extra = gen<std::vector<std::uint32_t>>(d + 1); return r; }
template <typename T> T gen(std::size_t d) { return g(tag<T>{}, d); }

// ---- the wire format, written down independently of the library
struct enc {
  std::string out; bool big;
  explicit enc(bool b) : big(b) {}
  void bytes(const void* p, std::size_t n) {   // host is little endian here (checked in main)
    const char* c = static_cast<const char*>(p);
    if (big) for (std::size_t i = n; i-- > 0;) out.push_back(c[i]); else out.append(c, n);
  }
  void number(std::uint64_t v) { while (v >= 128) { out.push_back(char(v % 128 + 128)); v /= 128; } out.push_back(char(v)); }
  template <typename T> std::enable_if_t<std::is_arithmetic_v<T> || std::is_enum_v<T>> put(const T& v) { bytes(&v, sizeof v); }
  void put(const std::string& s) { number(s.size()); out += s; }
  template <typename C> void range(const C& c) { number(c.size()); for (const auto& e : c) { typename C::value_type v(e); put(v); } }
  template <typename C> void ranger(const C& c) { number(c.size()); for (const auto& e : c) put(e); }
  template <typename T> void put(const std::vector<T>& c) { ranger(c); }
  template <typename T> void put(const std::deque<T>& c) { ranger(c); }
  template <typename T> void put(const std::list<T>& c) { ranger(c); }
  template <typename T> void put(const std::set<T>& c) { ranger(c); }
  template <typename T> void put(const std::multiset<T>& c) { ranger(c); }
  template <typename T> void put(const std::unordered_set<T>& c) { ranger(c); }
  template <typename T> void put(const arpc::flat_set<T>& c) { ranger(c); }
  template <typename T> void put(const arpc::flat_multiset<T>& c) { ranger(c); }
  template <typename K, typename V> void put(const std::map<K, V>& c) { ranger(c); }
  template <typename K, typename V> void put(const std::multimap<K, V>& c) { ranger(c); }
  template <typename K, typename V> void put(const arpc::flat_map<K, V>& c) { ranger(c); }
  template <typename K, typename V> void put(const arpc::flat_multimap<K, V>& c) { ranger(c); }
  template <typename T, std::size_t n> void put(const std::array<T, n>& c) { for (auto& e : c) put(e); }
  template <typename A, typename B> void put(const std::pair<A, B>& p) { put(p.first); put(p.second); }
  template <typename... A> void put(const std::tuple<A...>& t) { std::apply([this](const A&... a) { (put(a), ...); }, t); }
  template <typename T> void put(const std::optional<T>& o) { out.push_back(o ? 1 : 0); if (o) put(*o); }
  template <typename T> void put(const std::unique_ptr<T>& o) { out.push_back(o ? 1 : 0); if (o) put(*o); }
  template <typename R, typename P> void put(const std::chrono::duration<R, P>& d) { std::int64_t t = d.count(); put(t); }
  template <typename C, typename D> void put(const std::chrono::time_point<C, D>& t) { put(t.time_since_epoch()); }
  void put(const agg& a) { put(a.a); put(a.b); put(a.c); }
  void put(const nested_agg& a) { put(a.x); put(a.y); put(a.z); }
  void put(const one_field& a) { put(a.v); }
  void put(const simple& a) { put(a.u); put(a.s); put(a.v); }
  void put(const base1& a) { put(a.x); }
  void put(const base2& a) { put(a.t); }
  void put(const derived& a) { put(a.x); put(a.t); put(a.y); put(a.o); }
  void put(const custom& a) { put(a.q); put(a.p); }
  void put(const mixed& a) { put(a.t); put(a.f); put(a.extra); }
};
template <typename T> std::string ref(const T& v, bool big) { enc e(big); e.put(v); return e.out; }
template <typename T> bool same(const T& a, const T& b) {   // equal values have equal reference encodings (iteration order handled below)
  return ref(a, false) == ref(b, false);
}
template <typename T> bool same(const std::unordered_set<T>& a, const std::unordered_set<T>& b) { return a == b; }
template <typename T> const char* name() { return __PRETTY_FUNCTION__; }

// ---- library side
template <typename T> std::string encode(const T& v, bool big) {
  std::string s; arpc::string_output_stream o(s);
  if (big) { arpc::big_endian_binary_encoder e(o); e(const_cast<T&>(v)); } else { arpc::little_endian_binary_encoder e(o); e(const_cast<T&>(v)); }
  return s;
}
// decode one value from `s` into `v`; returns bytes consumed
template <typename T> std::size_t decode(const std::string& s, T& v, bool big) {
  arpc::string_input_stream i(s);
  if (big) { arpc::big_endian_binary_decoder d(i); d(v); } else { arpc::little_endian_binary_decoder d(i); d(v); }
  return i.pos();
}
template <typename T> std::string describe(const T& v) { return std::string(name<T>()) + " whose little-endian encoding is " + oracle::hex(ref(v, false), 60); }

#define MODEL_TYPES(X) \
  X(bool) X(char) X(signed char) X(std::uint8_t) X(std::int16_t) X(std::uint16_t) X(std::int32_t) X(std::uint32_t) X(std::int64_t) X(std::uint64_t) \
  X(float) X(double) X(model::color) X(model::plain) X(wchar_t) X(char16_t) \
  X(std::string) X(std::vector<char>) X(std::vector<std::int32_t>) X(std::vector<std::uint16_t>) X(std::vector<std::string>) X(std::deque<std::int64_t>) X(std::list<std::string>) \
  X(std::vector<bool>) X(std::vector<std::vector<std::uint16_t>>) X(std::set<std::int32_t>) X(std::multiset<std::string>) X(std::unordered_set<std::int32_t>) \
  X(arpc::flat_set<std::int32_t>) X(arpc::flat_set<std::string>) X(arpc::flat_multiset<std::int16_t>) \
  X(std::map<std::int32_t COMMA std::string>) X(std::multimap<std::int16_t COMMA std::string>) X(arpc::flat_map<std::string COMMA std::int32_t>) X(arpc::flat_map<std::int32_t COMMA std::vector<std::string>>) \
  X(std::pair<std::int32_t COMMA std::string>) X(std::tuple<>) X(std::tuple<bool COMMA std::uint64_t COMMA std::string>) X(std::array<std::int32_t COMMA 4>) X(std::array<std::string COMMA 3>) \
  X(std::optional<std::int32_t>) X(std::optional<std::string>) X(std::optional<std::optional<bool>>) X(std::vector<std::optional<std::int16_t>>) \
  X(std::chrono::seconds) X(std::chrono::nanoseconds) X(std::chrono::system_clock::time_point) X(std::chrono::steady_clock::time_point) \
  X(model::agg) X(model::nested_agg) X(model::one_field) X(std::vector<model::agg>) X(model::simple) X(model::derived) X(model::custom) X(model::mixed) X(std::vector<model::derived>) \
  X(std::unique_ptr<std::int32_t>) X(std::unique_ptr<std::string>) X(std::unique_ptr<model::derived>) X(std::vector<std::unique_ptr<model::simple>>)
#define COMMA ,
}  // namespace model
