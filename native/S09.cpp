// link: highway_hash
#include "framing.h"
#include "arpc/highway_hash.h"
using oracle::one; using oracle::rng; using oracle::hex; using refr::u64; using arpc::highway_hash;
const std::uint8_t* P(const std::string& s) { return reinterpret_cast<const std::uint8_t*>(s.data()); }
struct want { u64 a, b[2], c[4]; want(const u64* k, const std::string& s) { a = refr::hash64(k, s); refr::hash128(k, s, b); refr::hash256(k, s, c); } };
void eq(const want& w, u64 a, const u64* b, const u64* c, const char* how) { REQUIRE(a == w.a, how, " 64-bit result ", a, " expected ", w.a); for (int i = 0; i < 2; i++) REQUIRE(b[i] == w.b[i], how, " 128-bit result word ", i); for (int i = 0; i < 4; i++) REQUIRE(c[i] == w.c[i], how, " 256-bit result word ", i); }
void finish(highway_hash& h, const want& w, const char* how) { u64 b[2], c[4]; h.finish128(b); h.finish256(c); eq(w, h.finish64(), b, c, how); }
void value(const u64* k, const std::string& s) {
  one("key " + std::to_string(k[0]) + "," + std::to_string(k[1]) + "," + std::to_string(k[2]) + "," + std::to_string(k[3]) + " string " + hex(s)); want w(k, s); u64 b[2], c[4];
  std::string t = s; t.shrink_to_fit(); highway_hash::hash128(P(t), t.size(), k, b); highway_hash::hash256(P(t), t.size(), k, c); eq(w, highway_hash::hash64(P(t), t.size(), k), b, c, "static");
  highway_hash h(k); h.append(P(t), t.size()); finish(h, w, "one append");
}
void splits(const u64* k, const std::string& s) {
  highway_hash h(k); std::string d = "appends"; std::size_t i = 0; bool peek = rng.coin(); highway_hash other(k); std::size_t at = rng.below(s.size() + 1); bool saved = false; std::size_t saved_at = 0;
  while (i < s.size() || rng.below(3) == 0) { std::size_t n = rng.below(4) ? rng.below(40) : rng.below(120); if (rng.below(9) == 0) n = 32; if (rng.below(9) == 0) n = 0; n = std::min(n, s.size() - i); d += " " + std::to_string(n); std::string part = s.substr(i, n); part.shrink_to_fit(); h.append(P(part), n); i += n; if (peek) { one("key " + std::to_string(k[0]) + " string " + hex(s.substr(0, i)) + " " + d); finish(h, want(k, s.substr(0, i)), "after peeking"); } if (!saved && i >= at) { other = h; saved = true; saved_at = i; } }
  one("key " + std::to_string(k[0]) + " string " + hex(s) + " " + d); want w(k, s); finish(h, w, "split"); finish(h, w, "asked twice");
  if (saved) { std::string rest = s.substr(saved_at) + "more"; other.append(P(rest), rest.size()); finish(other, want(k, s.substr(0, saved_at) + rest), "copy continued"); finish(h, w, "original after its copy went on"); }
  const u64 k2[4] = {k[3], k[1], 9, k[0]}; h.reset(k2); finish(h, want(k2, ""), "reset, empty"); std::string q = s.substr(0, 45); h.append(P(q), q.size()); finish(h, want(k2, q), "reset");
}
int main(int c, char** a) {
  oracle::init(c, a);
  const u64 k[4] = {0x0706050403020100ull, 0x0F0E0D0C0B0A0908ull, 0x1716151413121110ull, 0x1F1E1D1C1B1A1918ull}; std::string d; for (int i = 0; i < 65; i++) d += char(i);
  oracle::begin("published vectors"); const u64 pub[] = {0x907A56DE22C26E53ull, 0x7EAB43AAC7CDDD78ull, 0xB8D0569AB0B53D62ull, 0x5C6BEFAB8A463D80ull, 0xF205A46893007EDAull, 0x2B8A1668E4A94541ull, 0xBD4CCC325BEFCA6Full, 0x4D02AE1738F59482ull};
  for (std::size_t i = 0; i < sizeof pub / sizeof *pub; i++) { one("published 64-bit vector " + std::to_string(i)); REQUIRE(refr::hash64(k, d.substr(0, i)) == pub[i], "the reference itself"); REQUIRE(highway_hash::hash64(P(d), i, k) == pub[i]); }
  oracle::begin("lengths"); for (std::size_t n = 0; n < 200; n++) { std::string s; for (std::size_t i = 0; i < n; i++) s += char(200 - i * 7); value(k, s); value(arpc::highway_hash::hash64 ? k : k, std::string(n, '\xff')); }
  oracle::begin("two appends"); for (std::size_t n = 0; n <= 70; n++) for (std::size_t m = 0; m <= 70; m++) { std::string s; for (std::size_t i = 0; i < n + m; i++) s += char(i * 11 + 3); one("appends " + std::to_string(n) + " and " + std::to_string(m)); highway_hash h(k); h.append(P(s), n); h.append(P(s) + n, m); REQUIRE(h.finish64() == refr::hash64(k, s)); }
  while (oracle::more(1.0)) { oracle::begin("random strings"); const u64 r[4] = {rng(), rng(), rng(), rng()}; std::string s = refr::bytes(); value(r, s); oracle::begin("random splits"); splits(r, s); }
  return oracle::done();
}
