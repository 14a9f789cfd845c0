// link: packet_codecs highway_hash errors
#include "framing.h"
#include "arpc/errors.h"
#include "arpc/packet_codecs.h"
using oracle::one; using oracle::rng; using oracle::hex;
struct K { refr::u64 k[4]; arpc::mac_codec codec; std::string d; explicit K(const refr::u64* x) : k{x[0], x[1], x[2], x[3]}, codec(k) {} };
std::string take(K& K_, const std::string& d) { std::string s = d; s.shrink_to_fit(); K_.codec.encode(s); return s; }
void accept(K& K_, const std::string& d) {
  one("encode " + hex(d)); std::string s = take(K_, d); std::string e = d + refr::trailer(K_.k, d); REQUIRE(s == e, "encoded ", hex(s.substr(s.size() > 24 ? s.size() - 24 : 0)), " expected end ", hex(e.substr(e.size() - 8)));
  s.shrink_to_fit(); REQUIRE(outcome<arpc::errors::data_mismatch>([&] { K_.codec.decode(s); }) == 0, "own packet rejected"); REQUIRE(s == d, "decoded ", hex(s));
}
void decode(K& K_, const std::string& d) {
  one("decode " + hex(d)); bool ok = d.size() >= 8 && d.substr(d.size() - 8) == refr::trailer(K_.k, d.substr(0, d.size() - 8)); std::string s = d; s.shrink_to_fit();
  int o = outcome<arpc::errors::data_mismatch>([&] { K_.codec.decode(s); }); REQUIRE(o == (ok ? 0 : 1), "outcome ", o, " (0 accepted, 1 data mismatch)"); if (ok) REQUIRE(s == d.substr(0, d.size() - 8));
}
int main(int c, char** a) {
  oracle::init(c, a); const refr::u64 k0[4] = {1, 2, 3, 4}; K fixed(k0); K dflt(arpc::mac_codec::default_key); dflt.codec = arpc::mac_codec();
  oracle::begin("lengths"); for (std::size_t n = 0; n < 300; n++) { std::string s; for (std::size_t i = 0; i < n; i++) s += char(i * 37 + n); accept(fixed, s); accept(dflt, s); }
  oracle::begin("short packets"); for (std::size_t n = 0; n < 8; n++) for (int b : {0, 1, 255}) decode(fixed, std::string(n, char(b)));
  oracle::begin("every bit of the trailer and of the data"); for (std::size_t n : {0, 1, 5, 31, 32, 40}) { std::string e = std::string(n, 'd'); e += refr::trailer(k0, e); for (std::size_t i = 0; i < e.size() * 8; i++) { std::string w = e; w[i / 8] ^= char(1 << (i % 8)); decode(fixed, w); } for (std::size_t i = 0; i < 8; i++) for (int b = 0; b < 256; b += 5) { std::string w = e; w[n + i] = char(b); decode(fixed, w); } decode(fixed, e); decode(fixed, e + 'x'); decode(fixed, e.substr(0, e.size() - 1)); }
  oracle::begin("another key"); for (int i = 0; i < 4; i++) for (int b = 0; b < 64; b++) { refr::u64 k[4] = {1, 2, 3, 4}; k[i] ^= 1ull << b; std::string d = "data"; decode(fixed, d + refr::trailer(k, d)); K other(k); accept(other, d); }
  while (oracle::more(1.0)) {
    oracle::begin("random packets"); refr::u64 k[4] = {rng(), rng(), rng(), rng()}; K r(k); for (int i = 0; i < 5; i++) { std::string s = refr::bytes(); accept(r, s); s += refr::trailer(k, s); switch (rng.below(4)) { case 0: s[rng.below(s.size())] = char(rng()); break; case 1: s.resize(rng.below(s.size())); break; case 2: std::swap(s[s.size() - 1 - rng.below(8)], s[s.size() - 1 - rng.below(8)]); break; default: break; } decode(r, s); accept(fixed, s); }
  }
  return oracle::done();
}
