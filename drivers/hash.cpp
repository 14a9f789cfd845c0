// Structure hashes as functions of unknown element hashes: sym<K> is a type whose hash is ghost_hash(K).
#include <array>
#include <chrono>
#include <cstdint>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#include "arpc/type_hash.h"
#include "arpc/serializable_base.h"
#include "arpc/container/flat_map.h"
#include "arpc/container/flat_set.h"
extern "C" std::uint32_t ghost_hash(int k);
template <int K> struct sym { bool operator<(const sym&) const { return false; } bool operator==(const sym&) const { return true; } };
namespace std { template <int K> struct hash<sym<K>> { size_t operator()(const sym<K>&) const { return 0; } }; }
namespace arpc::traits::detail {
template <int K, typename Seen> struct new_type_hash<sym<K>, Seen, void> { struct value_type { operator type_hash_t() const { return ghost_hash(K); } }; static inline value_type value; };
}
using arpc::traits::type_hash_v;
using s0 = sym<0>; using s1 = sym<1>; using s2 = sym<2>;
struct agg1 { s0 a; }; struct agg2 { s0 a; s1 b; }; struct agg3 { s0 a; s1 b; s2 c; };
struct f0 : arpc::serializable<f0> {};
struct f1 : arpc::serializable<f1> { s0 a; ARPC_FIELDS(a); };
struct f1b : arpc::serializable<f1b> { s0 other; ARPC_FIELDS(other); };
struct f2 : arpc::serializable<f2> { s0 a; s1 b; ARPC_FIELDS(a, b); };
struct f2r : arpc::serializable<f2r> { s0 a; s1 b; ARPC_FIELDS(b, a); };
struct f3 : arpc::serializable<f3> { s0 a; s1 b; s2 c; ARPC_FIELDS(a, b, c); };
struct b1 : arpc::serializable<b1, s0> { };
struct b1f : arpc::serializable<b1f, s0> { s1 b; ARPC_FIELDS(b); };
struct b2 : arpc::serializable<b2, s0, s1> { };
struct b2r : arpc::serializable<b2r, s1, s0> { };
struct f1v : arpc::serializable<f1v> { s0 a; ARPC_FIELDS(a); ARPC_CUSTOM_SERIALIZATION_VERSION(1); template <typename S> void save(S&) const {} template <typename S> void load(S&) {} };
struct rec0 : arpc::serializable<rec0> { s0 a; std::shared_ptr<rec0> n; ARPC_FIELDS(a, n); };
#define H(NAME, ...) extern "C" std::uint32_t h_##NAME() { return type_hash_v<__VA_ARGS__>; }
H(vec, std::vector<s0>) H(list, std::list<s0>) H(deque, std::deque<s0>) H(vec_c, const std::vector<s0>&) H(vec_v, volatile std::vector<s0>)
H(set, std::set<s0>) H(uset, std::unordered_set<s0>) H(fset, arpc::flat_set<s0>)
H(mset, std::multiset<s0>) H(umset, std::unordered_multiset<s0>) H(fmset, arpc::flat_multiset<s0>)
H(map, std::map<s0, s1>) H(umap, std::unordered_map<s0, s1>) H(fmap, arpc::flat_map<s0, s1>)
H(mmap, std::multimap<s0, s1>) H(ummap, std::unordered_multimap<s0, s1>) H(fmmap, arpc::flat_multimap<s0, s1>)
H(arr1, std::array<s0, 1>) H(arr2, std::array<s0, 2>) H(arr3, std::array<s0, 3>) H(arr255, std::array<s0, 255>) H(arr256, std::array<s0, 256>) H(arr257, std::array<s0, 257>) H(arr65538, std::array<s0, 65538>) H(carr3, s0[3])
H(opt, std::optional<s0>) H(uptr, std::unique_ptr<s0>) H(sptr, std::shared_ptr<s0>) H(wptr, std::weak_ptr<s0>)
H(tup0, std::tuple<>) H(tup1, std::tuple<s0>) H(tup2, std::tuple<s0, s1>) H(tup2r, std::tuple<s1, s0>) H(tup3, std::tuple<s0, s1, s2>) H(pair, std::pair<s0, s1>) H(pair_c, const std::pair<s0, s1>) H(pairr, std::pair<s1, s0>) H(agg2, agg2) H(agg3, agg3) H(agg1, agg1)
H(f0, f0) H(f1, f1) H(f1b, f1b) H(f2, f2) H(f2r, f2r) H(f3, f3) H(b1, b1) H(b1f, b1f) H(b2, b2) H(b2r, b2r) H(f1v, f1v) H(rec0, rec0)
H(fn0, s0()) H(fn1, s0(s1)) H(fn1c, s0(s1) const) H(fn2, s0(s1, s2)) H(fn2r, s0(s2, s1)) H(fn0c, s0() const) H(self, s0) H(self_c, const volatile s0&)
#define SC(X) X(bool) X(char) X(signed char) X(unsigned char) X(short) X(unsigned short) X(int) X(unsigned) X(long) X(unsigned long) X(long long) X(unsigned long long) X(wchar_t) X(char16_t) X(char32_t) X(float) X(double) X(long double)
enum class e8 : std::uint8_t {}; enum class e8b : std::uint8_t {}; enum class s8 : std::int8_t {}; enum class e16 : std::uint16_t {}; enum class s16 : std::int16_t {}; enum class s32 {}; enum class e32 : unsigned {}; enum class s64 : long {}; enum class e64 : unsigned long {}; enum plain { plain_a };
#define EN(X) X(e8) X(e8b) X(s8) X(e16) X(s16) X(s32) X(e32) X(s64) X(e64) X(plain)
// durations and time points by period: number, kind of it
using ns = std::chrono::nanoseconds; using us = std::chrono::microseconds; using ms = std::chrono::milliseconds; using sec = std::chrono::seconds; using mins = std::chrono::minutes; using hrs = std::chrono::hours;
#define PER(X) X(ns, 1) X(us, 2) X(ms, 3) X(sec, 4) X(mins, 5) X(hrs, 6)
extern "C" unsigned sc_count() { unsigned n = 0;
#define ONE(T) n++;
SC(ONE) EN(ONE)
#undef ONE
#define ONE(T, K) n += 2;
PER(ONE)
#undef ONE
return n; }
// for scalar number i: hash, and what it has to be a function of (kind: 0 integer, else its own)
extern "C" void sc_info(unsigned i, std::uint32_t* h, std::uint32_t* kind, std::uint32_t* size, std::uint32_t* sign) { unsigned n = 0;
#define ONE(T) if (i == n++) { *h = type_hash_v<T>; *kind = std::is_same_v<T, bool> ? 1 : std::is_same_v<T, char> ? 2 : std::is_floating_point_v<T> ? 3 : 0; *size = sizeof(T); *sign = std::is_signed_v<T>; }
SC(ONE)
#undef ONE
#define ONE(T) if (i == n++) { *h = type_hash_v<T>; *kind = 4; *size = sizeof(T); *sign = std::is_signed_v<std::underlying_type_t<T>>; }
EN(ONE)
#undef ONE
#define ONE(T, K) if (i == n++) { *h = type_hash_v<T>; *kind = 5; *size = K; *sign = 0; } if (i == n++) { *h = type_hash_v<std::chrono::time_point<std::chrono::system_clock, T>>; *kind = 6; *size = K; *sign = 0; }
PER(ONE)
}
extern "C" std::uint32_t h_leaf(std::uint8_t family, bool sign, std::size_t size) { return arpc::traits::detail::type_hash_leaf(static_cast<arpc::traits::detail::type_family>(family), sign, size); }
