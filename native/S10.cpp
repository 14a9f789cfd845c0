// link: packet_codecs highway_hash errors io_adapters string_adapters iostream_adapters registry dynamic_base_class
#include "framing.h"
#include "arpc/packet_protocols.h"
#include "arpc/string_adapters.h"
using oracle::one; using oracle::rng; using oracle::hex;
// a stream that records flushes and hands data out in whatever pieces it is asked for
struct sink : arpc::output_stream { std::string data; std::vector<std::size_t> flushed; void write(const char* p, std::size_t n) override { data.append(p, n); } void putc(char c) override { data += c; } void flush() override { flushed.push_back(data.size()); } };
struct source : arpc::input_stream { std::string d; std::size_t pos = 0; explicit source(std::string s) : d(std::move(s)) {} std::size_t read(char* p, std::size_t n) override { n = std::min(n, d.size() - pos); memcpy(p, d.data() + pos, n); pos += n; return n; } char getc() override { if (pos >= d.size()) throw arpc::errors::eof("EOF"); return d[pos++]; } };
const auto& key = arpc::mac_codec::default_key;
std::string frame(const std::string& p) { return refr::cobs(p + refr::trailer(key, p)) + std::string(1, '\0'); }
std::string number(std::size_t v) { std::string o; while (v >= 128) { o += char(v % 128 + 128); v /= 128; } return o + char(v); }
template <typename S, typename R, typename F> void stream(S& tx, R& rx, F&& wire, std::size_t maxlen) {
  std::vector<std::string> ps; for (std::size_t n = rng.below(6); n-- > 0;) { std::string b = refr::bytes(); if (b.size() > maxlen) b.resize(maxlen); ps.push_back(b); }
  sink out; std::string expect, d; for (auto& p : ps) { d += hex(p, 40) + " "; } one("packets " + d);
  for (auto& p : ps) { std::size_t f = out.flushed.size(); tx.send(out, p); REQUIRE(out.flushed.size() > f && out.flushed.back() == out.data.size(), "send must end with a flush"); expect += wire(p); REQUIRE(out.data == expect, "stream ", hex(out.data), " expected ", hex(expect)); }
  source in(out.data); for (auto& p : ps) { std::string r = rx.receive(in); REQUIRE(r == p, "received ", hex(r)); } REQUIRE(in.pos == in.d.size()); REQUIRE(outcome<arpc::errors::eof>([&] { rx.receive(in); }) == 1);
  if (!out.data.empty()) { std::size_t cut = rng.below(out.data.size()); source part(out.data.substr(0, cut)); std::size_t k = 0, len = 0; for (; k < ps.size(); k++) { len += wire(ps[k]).size(); if (len > cut) break; REQUIRE(rx.receive(part) == ps[k]); } REQUIRE(outcome<arpc::errors::eof>([&] { rx.receive(part); }) == 1, "stream cut at ", cut, " must end with the end-of-file error"); }
}
template <typename P> void corrupted(P& rx) {
  std::string p = refr::bytes(), q = refr::bytes(), f = frame(p); std::size_t at = rng.below(f.size() - 1); std::string what; bool good = false;
  switch (rng.below(4)) { case 0: { char c = char(1 + rng.below(255)); good = c == f[at]; f[at] = c; what = "byte changed"; break; } case 1: f.erase(at, 1); what = "byte lost"; break; case 2: f.insert(at, 1, char(1 + rng.below(255))); what = "byte inserted"; break; default: f = f.substr(at + 1); what = "start lost"; }
  std::string body = f.substr(0, f.size() - 1), dec; bool ok = refr::uncobs(body, dec) && dec.size() >= 8 && dec.substr(dec.size() - 8) == refr::trailer(key, dec.substr(0, dec.size() - 8));
  one(what + " at " + std::to_string(at) + " in the frame of " + hex(p) + ", next packet " + hex(q)); source in(f + frame(q)); std::string r; int o = outcome<arpc::errors::data_mismatch>([&] { r = rx.receive(in); });
  REQUIRE(o == (ok ? 0 : 1), "outcome ", o, good ? " (unchanged)" : ""); if (ok) REQUIRE(r == dec.substr(0, dec.size() - 8)); REQUIRE(in.pos == f.size(), "reader is at ", in.pos, " instead of the start of the next frame ", f.size()); r = rx.receive(in); REQUIRE(r == q, "next packet ", hex(r));
}
template <std::size_t N> void maximum() {
  arpc::serial_line_packet_protocol<N> p; for (std::size_t n = 0; n < N + 3; n++) { std::string d(n, 'p'), f = frame(d); one("frame of " + std::to_string(f.size() - 1) + " bytes, maximum " + std::to_string(N)); source in(f); std::string r; int o = outcome<arpc::errors::out_of_range>([&] { r = p.receive(in); }); REQUIRE(o == (f.size() - 1 <= N ? 0 : 1), "outcome ", o); if (!o) REQUIRE(r == d); if (o) REQUIRE(in.pos <= N + 1, "read ", in.pos); }
}
int main(int c, char** a) {
  oracle::init(c, a); arpc::serial_line_packet_protocol<> s1, s2; arpc::protected_stream_packet_protocol<> t1, t2; arpc::protected_stream_packet_protocol<arpc::big_endian_binary_encoder, arpc::big_endian_binary_decoder> b1, b2;
  oracle::begin("maximum"); maximum<9>(); maximum<12>(); maximum<64>(); maximum<300>();
  oracle::begin("every packet length"); for (std::size_t n = 0; n < 600; n++) { one("packet of " + std::to_string(n) + " bytes"); sink o; std::string d(n, char(n * 3)); s1.send(o, d); t1.send(o, d); REQUIRE(o.data == frame(d) + number(n) + d); source i(o.data); REQUIRE(s2.receive(i) == d); REQUIRE(t2.receive(i) == d); }
  oracle::begin("empty input"); { source i(std::string(3, '\0')); one("empty frames"); for (int k = 0; k < 3; k++) REQUIRE(outcome<arpc::errors::data_mismatch>([&] { s2.receive(i); }) == 1); REQUIRE(i.pos == 3); }
  while (oracle::more(1.0)) {
    oracle::begin("serial line"); stream(s1, s2, frame, 100000); oracle::begin("protected stream"); auto w = [](const std::string& p) { return number(p.size()) + p; }; stream(t1, t2, w, 100000); stream(b1, b2, w, 100000); oracle::begin("corrupted frames"); corrupted(s2);
  }
  return oracle::done();
}
