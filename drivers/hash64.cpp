#include <new>
#include <cstddef>
#include <cstdint>
// the verified functions are the class's own, private ones included; access control is all this changes
#define private public
#include "arpc/highway_hash.h"
#undef private
using arpc::highway_hash; using u64 = std::uint64_t;
extern "C" {
std::size_t d_v0() { return offsetof(highway_hash, v0_); }
std::size_t d_v1() { return offsetof(highway_hash, v1_); }
std::size_t d_mul0() { return offsetof(highway_hash, mul0_); }
std::size_t d_mul1() { return offsetof(highway_hash, mul1_); }
std::size_t d_packet() { return offsetof(highway_hash, packet_); }
std::size_t d_buffered() { return offsetof(highway_hash, buffered_bytes_); }
void d_update(highway_hash& h, const u64* lanes) { h.update(lanes); }
void d_update_packet(highway_hash& h, const std::uint8_t* p) { h.update_packet(p); }
void d_update_own_packet(highway_hash& h) { h.update_packet(h.packet_); }
void d_update_remainder(highway_hash& h, const std::uint8_t* p, std::size_t n) { h.update_remainder(p, n); }
void d_update_own_remainder(highway_hash& c, const highway_hash& h, std::size_t n) { c.update_remainder(h.packet_, n); }
u64 d_finalize64(highway_hash& h) { return h.finalize64(); }
void d_finalize128(highway_hash& h, u64* r) { h.finalize128(r); }
void d_finalize256(highway_hash& h, u64* r) { h.finalize256(r); }
u64 d_hash64(const std::uint8_t* p, std::size_t n, const u64* k) { return highway_hash::hash64(p, n, k); }
void d_hash128(const std::uint8_t* p, std::size_t n, const u64* k, u64* r) { highway_hash::hash128(p, n, k, r); }
void d_hash256(const std::uint8_t* p, std::size_t n, const u64* k, u64* r) { highway_hash::hash256(p, n, k, r); }
void d_construct(void* at, const u64* k) { new (at) highway_hash(k); }
void d_reset(highway_hash& h, const u64* k) { h.reset(k); }
void d_append(highway_hash& h, const std::uint8_t* p, std::size_t n) { h.append(p, n); }
u64 d_finish64(highway_hash& h) { return h.finish64(); }
void d_finish128(highway_hash& h, u64* r) { h.finish128(r); }
void d_finish256(highway_hash& h, u64* r) { h.finish256(r); }
void d_copy(void* at, const highway_hash& h) { new (at) highway_hash(h); }
void d_assign(highway_hash& to, const highway_hash& h) { to = h; }
void d_copy_append(highway_hash& h, void* at, const std::uint8_t* p, std::size_t n) { highway_hash& c = *new (at) highway_hash(h); c.append(p, n); }
std::size_t d_size() { return sizeof(highway_hash); }
}
