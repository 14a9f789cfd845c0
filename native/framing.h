// Independent COBS and HighwayHash, written from their published descriptions.
#pragma once
#include "oracle.h"
namespace refr {
using u64 = std::uint64_t;
// COBS as specified for this library: append a zero, cut into blocks that end at a zero or after 254 bytes.
inline std::string cobs(const std::string& d) {
  std::string in = d + std::string(1, '\0'), out; std::size_t i = 0;
  while (i < in.size()) { std::size_t n = 0; while (n < 254 && in[i + n] != 0) n++; out += char(n + 1); out.append(in, i, n); i += n; if (n < 254) i++; }
  return out;
}
inline bool uncobs(const std::string& e, std::string& out) {   // false: must be rejected
  if (e.empty()) return false; out.clear(); std::size_t i = 0;
  while (i < e.size()) { unsigned c = (unsigned char)e[i++]; if (c == 0) return false; if (e.size() - i < c - 1) return false; out.append(e, i, c - 1); i += c - 1; if (c != 255) out += '\0'; }
  out.pop_back(); return true;
}
struct hh {
  u64 v0[4], v1[4], m0[4], m1[4];
  static u64 rot32(u64 x) { return (x >> 32) | (x << 32); }
  explicit hh(const u64* k) {
    const u64 a[4] = {0xdbe6d5d5fe4cce2full, 0xa4093822299f31d0ull, 0x13198a2e03707344ull, 0x243f6a8885a308d3ull}, b[4] = {0x3bd39e10cb0ef593ull, 0xc0acf169b5f18a8cull, 0xbe5466cf34e90c6cull, 0x452821e638d01377ull};
    for (int i = 0; i < 4; i++) { m0[i] = a[i]; m1[i] = b[i]; v0[i] = a[i] ^ k[i]; v1[i] = b[i] ^ rot32(k[i]); }
  }
  // zipper merge as a byte shuffle of the 16 bytes (lo, hi): byte order {3,12,2,5,14,1,15,0, 11,4,10,13,9,6,8,7}
  static void zip(u64 hi, u64 lo, u64& ahi, u64& alo) {
    unsigned char b[16], r[16]; for (int i = 0; i < 8; i++) { b[i] = lo >> (8 * i); b[8 + i] = hi >> (8 * i); }
    static const int p[16] = {3, 12, 2, 5, 14, 1, 15, 0, 11, 4, 10, 13, 9, 6, 8, 7}; for (int i = 0; i < 16; i++) r[i] = b[p[i]];
    u64 x = 0, y = 0; for (int i = 0; i < 8; i++) { x |= u64(r[i]) << (8 * i); y |= u64(r[8 + i]) << (8 * i); } alo += x; ahi += y;
  }
  void update(const u64* l) {
    for (int i = 0; i < 4; i++) { v1[i] += m0[i] + l[i]; m0[i] ^= (v1[i] & 0xffffffffu) * (v0[i] >> 32); v0[i] += m1[i]; m1[i] ^= (v0[i] & 0xffffffffu) * (v1[i] >> 32); }
    zip(v1[1], v1[0], v0[1], v0[0]); zip(v1[3], v1[2], v0[3], v0[2]); zip(v0[1], v0[0], v1[1], v1[0]); zip(v0[3], v0[2], v1[3], v1[2]);
  }
  void packet(const unsigned char* p) { u64 l[4]; for (int i = 0; i < 4; i++) { l[i] = 0; for (int j = 0; j < 8; j++) l[i] |= u64(p[8 * i + j]) << (8 * j); } update(l); }
  void rest(const unsigned char* p, unsigned n) {
    for (int i = 0; i < 4; i++) { v0[i] += (u64(n) << 32) + n; std::uint32_t a = v1[i], b = v1[i] >> 32; a = (a << n) | (a >> (32 - n)); b = (b << n) | (b >> (32 - n)); v1[i] = (u64(b) << 32) | a; }
    unsigned char q[32] = {0}; unsigned whole = n & ~3u, tail = n & 3; memcpy(q, p, whole);
    if (n & 16) memcpy(q + 28, p + n - 4, 4); else if (tail) { q[16] = p[whole]; q[17] = p[whole + (tail >> 1)]; q[18] = p[n - 1]; }
    packet(q);
  }
  void perm() { u64 p[4] = {rot32(v0[2]), rot32(v0[3]), rot32(v0[0]), rot32(v0[1])}; update(p); }
  void absorb(const std::string& s) { const unsigned char* p = (const unsigned char*)s.data(); std::size_t n = s.size(); for (; n >= 32; n -= 32, p += 32) packet(p); if (n) rest(p, n); }
  static void red(u64 a3, u64 a2, u64 a1, u64 a0, u64& r1, u64& r0) { a3 &= 0x3FFFFFFFFFFFFFFFull; r1 = a1 ^ ((a3 << 1) | (a2 >> 63)) ^ ((a3 << 2) | (a2 >> 62)); r0 = a0 ^ (a2 << 1) ^ (a2 << 2); }
};
inline u64 hash64(const u64* k, const std::string& s) { hh h(k); h.absorb(s); for (int i = 0; i < 4; i++) h.perm(); return h.v0[0] + h.v1[0] + h.m0[0] + h.m1[0]; }
inline void hash128(const u64* k, const std::string& s, u64* r) { hh h(k); h.absorb(s); for (int i = 0; i < 6; i++) h.perm(); r[0] = h.v0[0] + h.m0[0] + h.v1[2] + h.m1[2]; r[1] = h.v0[1] + h.m0[1] + h.v1[3] + h.m1[3]; }
inline void hash256(const u64* k, const std::string& s, u64* r) { hh h(k); h.absorb(s); for (int i = 0; i < 10; i++) h.perm(); hh::red(h.v1[1] + h.m1[1], h.v1[0] + h.m1[0], h.v0[1] + h.m0[1], h.v0[0] + h.m0[0], r[1], r[0]); hh::red(h.v1[3] + h.m1[3], h.v1[2] + h.m1[2], h.v0[3] + h.m0[3], h.v0[2] + h.m0[2], r[3], r[2]); }
inline std::string trailer(const u64* k, const std::string& s) { u64 h = hash64(k, s); std::string t; for (int i = 0; i < 8; i++) t += char(h >> (8 * i)); return t; }
// byte strings with the interesting shapes: runs around 254/255/508 non-zero bytes, zeros, random
inline std::string bytes() {
  using oracle::rng; std::string s; std::size_t parts = rng.below(5);
  if (rng.below(4) == 0) { std::size_t n = rng.below(70); for (std::size_t i = 0; i < n; i++) s += char(rng.below(3) ? rng() : 0); return s; }
  static const std::size_t len[] = {0, 1, 2, 31, 32, 33, 253, 254, 255, 256, 507, 508, 509, 510, 762, 1016};
  while (parts-- > 0) { std::size_t n = rng.below(3) ? len[rng.below(16)] : rng.below(600); int f = rng.below(3); for (std::size_t i = 0; i < n; i++) s += f == 0 ? char(1 + i % 255) : f == 1 ? '\xff' : char(1 + rng.below(255)); for (std::size_t z = rng.below(3); z-- > 0;) s += '\0'; }
  return s;
}
}  // namespace refr
