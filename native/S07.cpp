// link: packet_codecs highway_hash errors
#include "framing.h"
#include "arpc/errors.h"
#include "arpc/packet_codecs.h"
using oracle::one; using oracle::rng; using oracle::hex;
arpc::cobs_codec shared_codec;
void encode(const std::string& d, bool fresh) {
  one("encode " + hex(d)); std::string s = d; s.shrink_to_fit(); if (fresh) { arpc::cobs_codec c; c.encode(s); } else shared_codec.encode(s);
  std::string e = refr::cobs(d); REQUIRE(s.find('\0') == std::string::npos, "zero byte in encoding"); REQUIRE(s.size() == e.size(), "length ", s.size(), " expected ", e.size()); REQUIRE(s == e, "encoded ", hex(s), " expected ", hex(e));
  s.shrink_to_fit(); if (fresh) { arpc::cobs_codec c; c.decode(s); } else shared_codec.decode(s); REQUIRE(s == d, "decoded back ", hex(s));
}
void decode(const std::string& d) {
  one("decode " + hex(d)); std::string s = d, e; s.shrink_to_fit(); bool ok = refr::uncobs(d, e); int o = outcome<arpc::errors::data_mismatch>([&] { shared_codec.decode(s); });
  REQUIRE(o == (ok ? 0 : 1), "outcome ", o, " (0 accepted, 1 data mismatch)"); if (ok) REQUIRE(s == e, "decoded ", hex(s), " expected ", hex(e));
}
int main(int c, char** a) {
  oracle::init(c, a);
  oracle::begin("every short string over {0,1,255}"); for (int n = 0; n <= 7; n++) { int t = 1; for (int i = 0; i < n; i++) t *= 3; for (int k = 0; k < t; k++) { std::string s; int q = k; for (int i = 0; i < n; i++, q /= 3) s += "\0\1\xff"[q % 3]; encode(s, true); decode(s); } }
  oracle::begin("runs"); for (std::size_t n = 0; n < 1300; n++) { encode(std::string(n, 'x'), n & 1); encode(std::string(n, '\xff') + '\0', true); encode('\0' + std::string(n, '\1'), true); if (n > 250 && n < 260) for (std::size_t m = 250; m < 260; m++) encode(std::string(n, 'a') + '\0' + std::string(m, 'b'), true); }
  oracle::begin("every byte value as data"); for (int b = 0; b < 256; b++) { encode(std::string(300, char(b)), true); decode(std::string(1, char(b)) + std::string(b, 'q')); decode(std::string(1, char(b)) + std::string(b ? b - 1 : 0, 'q')); decode(std::string(1, char(b)) + std::string(b > 1 ? b - 2 : 0, 'q')); }
  while (oracle::more(1.0)) {
    oracle::begin("random packets"); std::string s = refr::bytes(); encode(s, rng.coin());
    oracle::begin("random input to decode"); std::string e = refr::cobs(s); switch (rng.below(4)) { case 0: e.resize(rng.below(e.size() + 1)); break; case 1: e[rng.below(e.size())] = char(rng()); break; case 2: e = s; break; default: e += refr::bytes(); } decode(e);
  }
  return oracle::done();
}
