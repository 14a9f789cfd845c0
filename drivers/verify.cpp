// Structure verification: values written and read with verify_structure.
#include "elems.h"
using tup = std::tuple<elem, elem, elem>; using opt = std::optional<elem>; using uptr = std::unique_ptr<elem>; using vec = std::vector<elem>; using str = std::string; using u32s = std::vector<std::uint32_t>;
using u32 = std::uint32_t; using i64 = std::int64_t; using arr = std::array<elem, 3>; using vs = arpc::verify_structure;
#define TYPES(X) X(elem) X(tup) X(agg) X(leaf) X(opt) X(vec) X(str) X(u32) X(i64) X(arr) X(bool)
#define HASH(T) extern "C" std::uint32_t d_hash_##T() { return arpc::traits::type_hash_v<T>; }
TYPES(HASH) HASH(in_map) HASH(in_seq)
#define ONE(SUF, ENC, DEC, T) extern "C" { void d_vput_##T##_##SUF(const T& v) { ghost_out o; ENC e(o); e(v, vs{}); } void d_put_##T##_##SUF(const T& v) { ghost_out o; ENC e(o); e(v); } void d_vget_##T##_##SUF(T& v) { ghost_in i; DEC d(i); d(v, vs{}); } }
#define LE1(T) ONE(le, LE, LD, T)
#define BE1(T) ONE(be, BE, BD, T)
TYPES(LE1) TYPES(BE1)
extern "C" {
void d_vget_map_le() { ghost_in i; LD d(i); in_map s; d(s, vs{}); }
void d_vget_map_be() { ghost_in i; BD d(i); in_map s; d(s, vs{}); }
void d_vget_seq_le() { ghost_in i; LD d(i); in_seq s; d(s, vs{}); }
void d_vget_seq_be() { ghost_in i; BD d(i); in_seq s; d(s, vs{}); }
void d_vput2_le(const elem& v) { ghost_out o; LE e(o); e(v, vs{}, vs{}); e(v, vs{}); }
void d_vget2_le(elem& v, elem& w) { ghost_in i; LD d(i); d(v, vs{}, vs{}); d(w, vs{}); }
void d_vput2_be(const elem& v) { ghost_out o; BE e(o); e(v, vs{}, vs{}); e(v, vs{}); }
void d_vget2_be(elem& v, elem& w) { ghost_in i; BD d(i); d(v, vs{}, vs{}); d(w, vs{}); }
}
