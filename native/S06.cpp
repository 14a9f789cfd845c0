#include "dyn.h"
using namespace model;
using oracle::one; using oracle::rng;
using arpc::traits::type_hash_v;
#define CLS(N, ...) struct N : public arpc::serializable<N> { __VA_ARGS__ }
CLS(cA, std::int32_t a; std::string b; ARPC_FIELDS(a, b);); CLS(cA2, std::int32_t other; std::string name; ARPC_FIELDS(other, name);); CLS(cB, std::string b; std::int32_t a; ARPC_FIELDS(b, a);); CLS(cC, std::int32_t a; std::string b; std::int32_t c; ARPC_FIELDS(a, b, c););
CLS(cD, std::int32_t a; ARPC_FIELDS(a);); CLS(cE, std::uint32_t a; ARPC_FIELDS(a);); CLS(cF, std::int64_t a; ARPC_FIELDS(a);); CLS(cG, std::array<char, 3> a; ARPC_FIELDS(a);); CLS(cH, std::array<char, 4> a; ARPC_FIELDS(a);); CLS(cI, std::string s; std::string t; ARPC_FIELDS(s, t););
struct bX : public arpc::serializable<bX, cD> {}; struct bY : public arpc::serializable<bY, cE> {}; struct bXY : public arpc::serializable<bXY, cD, cE> {}; struct bYX : public arpc::serializable<bYX, cE, cD> {}; struct bXf : public arpc::serializable<bXf, cD> { std::int32_t z; ARPC_FIELDS(z); };
struct v1 : public arpc::serializable<v1> { std::int32_t a; ARPC_FIELDS(a); ARPC_CUSTOM_SERIALIZATION_VERSION(1); template <typename S> void save(S&) const {} template <typename S> void load(S&) {} };
struct v2 : public arpc::serializable<v2> { std::int32_t a; ARPC_FIELDS(a); ARPC_CUSTOM_SERIALIZATION_VERSION(2); template <typename S> void save(S&) const {} template <typename S> void load(S&) {} };
struct rec1 : public arpc::serializable<rec1> { std::int32_t a; std::shared_ptr<rec1> n; ARPC_FIELDS(a, n); };
struct rec2 : public arpc::serializable<rec2> { std::int32_t a; std::shared_ptr<cD> n; ARPC_FIELDS(a, n); };
struct p2 { std::int32_t a; std::string b; };
enum class e8 : std::uint8_t { a }; enum class e8b : std::uint8_t { b, c }; enum class s8 : std::int8_t { a }; enum class e16 : std::uint16_t { a };
struct H { const char* name; std::uint32_t h; int cls; };
#define T(c, ...) {#__VA_ARGS__, type_hash_v<__VA_ARGS__>, c}
std::vector<H> table() {
  return {
    T(1, bool), T(2, char), T(3, signed char), T(3, std::int8_t), T(4, unsigned char), T(4, std::uint8_t), T(5, short), T(5, const std::int16_t), T(6, unsigned short), T(6, char16_t), T(7, int), T(7, const volatile std::int32_t&), T(8, unsigned), T(8, char32_t), T(9, long), T(9, long long), T(9, std::int64_t), T(10, unsigned long), T(10, unsigned long long), T(10, const std::size_t), T(11, float), T(12, double), T(13, long double), T(7, wchar_t),
    T(14, e8), T(14, e8b), T(15, s8), T(16, e16),
    T(20, std::string), T(20, std::vector<char>), T(20, std::list<char>), T(20, std::deque<char>), T(20, const std::string&), T(20, std::string_view), T(21, std::vector<int>), T(21, std::list<std::int32_t>), T(22, std::vector<unsigned>), T(23, std::vector<std::set<int>>), T(24, std::vector<std::optional<std::string>>),
    T(30, std::set<int>), T(30, std::unordered_set<int>), T(30, arpc::flat_set<int>), T(30, std::set<int, std::greater<int>>), T(31, std::multiset<int>), T(31, std::unordered_multiset<int>), T(31, arpc::flat_multiset<int>), T(32, std::set<std::string>), T(33, std::set<unsigned>),
    T(34, std::map<int, std::string>), T(34, std::unordered_map<int, std::string>), T(34, arpc::flat_map<int, std::string>), T(34, std::map<int, std::vector<char>>), T(35, std::multimap<int, std::string>), T(35, arpc::flat_multimap<int, std::string>), T(36, std::map<std::string, int>), T(37, std::map<int, int>),
    T(40, std::array<char, 3>), T(40, char[3]), T(41, std::array<char, 4>), T(42, std::array<int, 3>), T(43, std::array<std::array<int, 3>, 4>), T(45, std::array<char, 0>), T(46, std::array<char, 259>),
    T(50, std::tuple<>), T(51, std::tuple<int>), T(52, std::tuple<int, std::string>), T(52, std::pair<int, std::string>), T(52, p2), T(52, const std::pair<int, std::vector<char>>), T(53, std::pair<std::string, int>), T(54, std::tuple<int, std::string, int>), T(55, std::tuple<int, std::tuple<std::string, int>>), T(56, std::tuple<int, int>), T(57, std::tuple<int, int, int>), T(58, std::tuple<std::tuple<int, std::string>, int>),
    T(60, std::optional<int>), T(61, std::unique_ptr<int>), T(62, std::shared_ptr<int>), T(63, std::weak_ptr<int>), T(64, std::optional<unsigned>), T(65, std::shared_ptr<std::string>),
    T(70, std::chrono::duration<std::int64_t>), T(71, std::chrono::milliseconds), T(72, std::chrono::minutes), T(73, std::chrono::hours), T(74, std::chrono::nanoseconds), T(75, std::chrono::system_clock::time_point),
    T(80, cA), T(80, cA2), T(81, cB), T(82, cC), T(83, cD), T(84, cE), T(85, cF), T(86, cG), T(87, cH), T(88, cI), T(90, bX), T(91, bY), T(92, bXY), T(93, bYX), T(94, bXf), T(95, rec1), T(96, rec2), T(97, v1),
    T(100, void()), T(101, int()), T(102, void(int)), T(103, void(int) const), T(104, void(int, int)), T(105, void(unsigned)), T(106, int(std::string)), T(107, int(std::string, int)), T(108, int(int, std::string)),
  };
}
template <typename X> void verified(const X& v, bool big) {
  enc r(big); std::uint32_t h = type_hash_v<X>; r.put(h); r.put(v); one(std::string(big ? "big-endian " : "little-endian ") + "verified " + describe(v));
  std::string s; arpc::string_output_stream o(s); auto w = [&](auto& e) { e(v, arpc::verify_structure{}); }; if (big) { arpc::big_endian_binary_encoder e(o); w(e); } else { arpc::little_endian_binary_encoder e(o); w(e); }
  REQUIRE(s == r.out, "emitted ", oracle::hex(s), " expected ", oracle::hex(r.out));
  auto read = [&](const std::string& s, X& t, std::size_t& used) { arpc::string_input_stream i(s); int k = outcome<arpc::errors::data_mismatch>([&] { if (big) { arpc::big_endian_binary_decoder d(i); d(t, arpc::verify_structure{}); } else { arpc::little_endian_binary_decoder d(i); d(t, arpc::verify_structure{}); } }); used = i.pos(); return k; };
  X t = gen<X>(1); std::size_t used; REQUIRE(read(s, t, used) == 0); REQUIRE(used == s.size() && same(t, v));
  for (int k = 0; k < 6; k++) {
    std::uint32_t bad = k < 3 ? h ^ (1u << rng.below(32)) : k == 3 ? std::uint32_t(rng()) : k == 4 ? __builtin_bswap32(h) : 0; if (bad == h) continue;
    enc q(big); q.put(bad); q.put(v); X old = gen<X>(1); std::string before = ref(old, false); std::size_t u; REQUIRE(read(q.out, old, u) == 1, "stored hash ", bad, " reader's ", h); REQUIRE(ref(old, false) == before, "target changed"); REQUIRE(u == 4, "consumed ", u);
  }
}
int main(int c, char** a) {
  oracle::init(c, a);
  oracle::begin("structure hashes"); auto t = table();
  for (auto& x : t) for (auto& y : t) { one(std::string(x.name) + " and " + y.name); REQUIRE((x.h == y.h) == (x.cls == y.cls), "hashes ", x.h, " and ", y.h, x.cls == y.cls ? " should agree" : " should differ"); }
  one("custom serialization versions 1 and 2"); if (type_hash_v<v1> == type_hash_v<v2>) oracle::known("S06-custom-version", "classes that differ only in their custom-serialization version number have the same structure hash");
  one("nested wrappers (sequence, set, optional, pointer, array)");
  { int same = (type_hash_v<std::vector<std::vector<int>>> == type_hash_v<int>) + (type_hash_v<std::optional<std::optional<int>>> == type_hash_v<int>) + (type_hash_v<std::array<std::array<int, 3>, 4>> == type_hash_v<std::array<std::array<int, 4>, 3>>) + (type_hash_v<std::vector<std::optional<int>>> == type_hash_v<std::optional<std::vector<int>>>);
    if (same == 4) oracle::known("S06-nested-wrappers", "the structure hash loses the order of directly nested wrappers, and the same wrapper twice cancels out: vector<vector<int>> hashes like int, vector<optional<int>> like optional<vector<int>>, array<array<int,3>,4> like array<array<int,4>,3>");
    else REQUIRE(same == 0, "partly"); }
  oracle::begin("all single-bit hashes"); for (int b = 0; b < 32; b++) { std::uint32_t h = type_hash_v<std::int32_t> ^ (1u << b); enc e(false); e.put(h); e.put(std::int32_t(9)); std::int32_t v = 5; one("int32 with hash bit " + std::to_string(b) + " flipped"); arpc::string_input_stream i(e.out); arpc::little_endian_binary_decoder d(i); REQUIRE(outcome<arpc::errors::data_mismatch>([&] { d(v, arpc::verify_structure{}); }) == 1); REQUIRE(v == 5); }
  while (oracle::more(1.0)) { oracle::begin("verified reads and writes");
    auto r = [&](auto t) { verified(gen<typename decltype(t)::type>(rng.below(4) ? 1 : 0), rng.coin()); };
#define R(...) { struct w { using type = __VA_ARGS__; }; r(w{}); }
    R(bool) R(std::int32_t) R(std::string) R(std::vector<std::string>) R(std::map<std::int32_t, std::string>) R(std::tuple<bool, std::uint64_t, std::string>) R(std::optional<std::string>) R(derived) R(simple) R(custom) R(mixed) R(agg) R(std::array<std::int32_t, 4>) R(std::chrono::nanoseconds) R(std::set<std::int32_t>)
  }
  return oracle::done();
}
