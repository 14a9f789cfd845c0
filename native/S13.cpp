// link: io_adapters string_adapters iostream_adapters errors
#include <iostream>
#include "oracle.h"
#include "arpc/io_adapters.h"
#include "arpc/iostream_adapters.h"
#include "arpc/string_adapters.h"
using oracle::one; using oracle::rng; using oracle::hex;
namespace er = arpc::errors;
// adapters that implement only one of the two primitives, as io_adapters.h allows
struct only_read : arpc::input_stream { std::string d; std::size_t p = 0; explicit only_read(std::string s) : d(std::move(s)) {} std::size_t read(char* b, std::size_t n) override { n = std::min(n, d.size() - p); std::copy(d.begin() + p, d.begin() + p + n, b); p += n; return n; } char getc() override { return input_stream::getc(); } };
struct only_getc : arpc::input_stream { std::string d; std::size_t p = 0; bool broken = false; explicit only_getc(std::string s) : d(std::move(s)) {} std::size_t read(char* b, std::size_t n) override { return input_stream::read(b, n); } char getc() override { if (p >= d.size()) { if (broken) throw er::io_error("broken"); throw er::eof("end"); } return d[p++]; } };
struct only_write : arpc::output_stream { std::string d; void write(const char* p, std::size_t n) override { d.append(p, n); } void putc(char c) override { output_stream::putc(c); } void flush() override {} };
struct only_putc : arpc::output_stream { std::string d; void write(const char* p, std::size_t n) override { output_stream::write(p, n); } void putc(char c) override { d += c; } void flush() override {} };
std::string rnd() { std::string s; static const std::size_t l[] = {0, 1, 2, 127, 128, 255, 256, 4096, 5000}; std::size_t n = rng.coin() ? rng.below(20) : l[rng.below(9)]; for (std::size_t i = 0; i < n; i++) s += char(rng.below(5) ? rng() : (rng.coin() ? 0 : 255)); return s; }
void input(arpc::input_stream& in, const std::string& d, const char* what) {
  std::size_t pos = 0; std::string ops = std::string(what) + " over " + hex(d, 40) + ":";
  for (int k = 0; k < 14; k++) {
    std::size_t left = d.size() - pos, n = rng.below(4) == 0 ? left + rng.below(3) : rng.below(4) == 0 ? 0 : rng.below(10); std::vector<char> b(n + 1, '#');
    switch (rng.below(3)) {
      case 0: { ops += " getc"; one(ops); char c = 0; int o = outcome<er::eof>([&] { c = in.getc(); }); REQUIRE(o == (left ? 0 : 1), "outcome ", o); if (left) { REQUIRE(c == d[pos], "got ", (int)c, " expected ", (int)d[pos]); pos++; } break; }
      case 1: { ops += " read" + std::to_string(n); one(ops); std::vector<char>* h = new std::vector<char>(b); h->resize(n); std::size_t r = in.read(h->data(), n); REQUIRE(r == std::min(n, left), "delivered ", r, " expected ", std::min(n, left)); REQUIRE(std::equal(h->begin(), h->begin() + r, d.begin() + pos)); pos += r; delete h; break; }
      default: { ops += " read_fully" + std::to_string(n); one(ops); int o = outcome<er::eof>([&] { in.read_fully(b.data(), n); }); REQUIRE(o == (n <= left ? 0 : 1), "outcome ", o); if (n <= left) { REQUIRE(std::equal(b.begin(), b.begin() + n, d.begin() + pos)); pos += n; } else pos = d.size(); REQUIRE(b[n] == '#'); }
    }
  }
}
template <typename G> void output(arpc::output_stream& o, G&& target, const char* what) {
  std::string want, ops = what; for (int k = 0; k < 10; k++) { if (rng.coin()) { char c = char(rng()); ops += " putc" + std::to_string((unsigned char)c); one(ops); o.putc(c); want += c; } else { std::string s = rnd(); ops += " write" + std::to_string(s.size()); one(ops); std::string* h = new std::string(s); h->shrink_to_fit(); o.write(h->data(), h->size()); want += s; delete h; } if (rng.below(3) == 0) o.flush(); REQUIRE(target() == want, "target holds ", hex(target(), 60), " expected ", hex(want, 60)); }
}
// a stream buffer that breaks (throws inside) after some bytes, and one whose sync fails
struct bad_in : std::streambuf { std::string d; std::size_t p = 0; explicit bad_in(std::string s) : d(s) {} int_type underflow() override { if (p >= d.size()) throw 1; return traits_type::to_int_type(d[p]); } int_type uflow() override { int_type c = underflow(); p++; return c; } };
struct bad_out : std::streambuf { std::string d; std::size_t max; bool sync_bad = false; explicit bad_out(std::size_t m) : max(m) {} int_type overflow(int_type c) override { if (d.size() >= max) return traits_type::eof(); d += char(c); return c; } int sync() override { return sync_bad ? -1 : 0; } };
void broken() {
  std::string d = rnd(); d.resize(std::min<std::size_t>(d.size(), 30)); std::size_t n = rng.below(40) + 1; char b[64];
  { one("istream breaking after " + std::to_string(d.size()) + " bytes, getc"); bad_in sb(d); std::istream is(&sb); arpc::istream_input_stream in(is); for (char c : d) REQUIRE(in.getc() == c); REQUIRE(outcome<er::io_error>([&] { in.getc(); }) == 1, "getc on a broken stream"); REQUIRE(outcome<er::io_error>([&] { in.read(b, 1); }) == 1, "read on a broken stream"); REQUIRE(outcome<er::io_error>([&] { in.read_fully(b, 1); }) == 1); }
  { one("istream breaking after " + std::to_string(d.size()) + " bytes, read " + std::to_string(n)); bad_in sb(d); std::istream is(&sb); arpc::istream_input_stream in(is); int o = outcome<er::io_error>([&] { std::size_t r = in.read(b, n); REQUIRE(r == n && std::equal(b, b + n, d.begin())); }); REQUIRE(o == (n <= d.size() ? 0 : 1), "outcome ", o); }
  { one("istream that failed without reaching its end"); std::stringstream ss("abc"); ss.setstate(std::ios::failbit); arpc::istream_input_stream in(ss); REQUIRE(outcome<er::io_error>([&] { in.getc(); }) == 1); REQUIRE(outcome<er::io_error>([&] { in.read(b, 2); }) == 1); REQUIRE(outcome<er::io_error>([&] { in.read_fully(b, 2); }) == 1); }
  { one("istream at its end that then breaks"); std::stringstream ss("a"); arpc::istream_input_stream in(ss); REQUIRE(in.read(b, 3) == 1); REQUIRE(outcome<er::eof>([&] { in.getc(); }) == 1); REQUIRE(in.read(b, 3) == 0); ss.setstate(std::ios::badbit); REQUIRE(outcome<er::io_error>([&] { in.getc(); }) == 1); REQUIRE(outcome<er::io_error>([&] { in.read(b, 1); }) == 1); }
  { std::size_t m = rng.below(10), w = rng.below(12) + 1; one("ostream taking " + std::to_string(m) + " bytes, write " + std::to_string(w)); bad_out sb(m); std::ostream os(&sb); { arpc::ostream_output_stream o(os); std::string s(w, 'w'); int r = outcome<er::io_error>([&] { o.write(s.data(), s.size()); }); REQUIRE(r == (w <= m ? 0 : 1), "outcome ", r); if (w > m) { REQUIRE(outcome<er::io_error>([&] { o.putc('x'); }) == 1); REQUIRE(outcome<er::io_error>([&] { o.flush(); }) == 1); } } }
  { std::size_t m = rng.below(10); one("ostream taking " + std::to_string(m) + " bytes, putc"); bad_out sb(m); std::ostream os(&sb); arpc::ostream_output_stream o(os); for (std::size_t i = 0; i <= m; i++) { int r = outcome<er::io_error>([&] { o.putc('y'); }); REQUIRE(r == (i < m ? 0 : 1)); } REQUIRE(sb.d == std::string(m, 'y')); }
  { one("ostream whose flush fails"); bad_out sb(9); sb.sync_bad = true; std::ostream os(&sb); arpc::ostream_output_stream o(os); o.putc('z'); REQUIRE(outcome<er::io_error>([&] { o.flush(); }) == 1); }
  { one("adapter without read whose getc reports an I/O error"); only_getc g(d); g.broken = true; std::size_t k = d.size() + 1; std::vector<char> v(k); REQUIRE(outcome<er::io_error>([&] { g.read(v.data(), k); }) == 1); }
}
void positions() {
  std::string d = rnd(); one("positions in a string of " + std::to_string(d.size()) + " bytes"); for (std::size_t p : {std::size_t(0), d.size() / 2, d.size(), d.size() + 1, d.size() + 100, ~std::size_t(0)}) {
    int o = outcome<er::out_of_range>([&] { arpc::string_input_stream s(d, p); REQUIRE(s.pos() == p); if (p < d.size()) REQUIRE(s.getc() == d[p] && s.pos() == p + 1); else REQUIRE(outcome<er::eof>([&] { s.getc(); }) == 1); }); REQUIRE(o == (p <= d.size() ? 0 : 1), "construct at ", p);
    arpc::string_input_stream s(d); std::size_t at = d.size() / 3; s.pos(at); o = outcome<er::out_of_range>([&] { s.pos(p); }); REQUIRE(o == (p <= d.size() ? 0 : 1), "pos(", p, ")"); REQUIRE(s.pos() == (o ? at : p), "position after a refused one"); std::vector<char> b(d.size() + 1); std::size_t r = s.read(b.data(), b.size()); REQUIRE(r == d.size() - (o ? at : p)); REQUIRE(std::equal(b.begin(), b.begin() + r, d.begin() + (o ? at : p))); REQUIRE(s.pos() == d.size()); REQUIRE(s.read(b.data(), 1) == 0); REQUIRE(s.read(b.data(), 0) == 0); }
}
int main(int c, char** a) {
  oracle::init(c, a);
  while (oracle::more(1.0)) {
    std::string d = rnd(); oracle::begin("input"); { std::string* h = new std::string(d); h->shrink_to_fit(); arpc::string_input_stream s(*h); input(s, d, "string_input_stream"); delete h; } { std::istringstream is(d); arpc::istream_input_stream s(is); input(s, d, "istream_input_stream"); } { only_read s(d); input(s, d, "adapter with read only"); } { only_getc s(d); input(s, d, "adapter with getc only"); }
    oracle::begin("output"); { std::string t; arpc::string_output_stream o(t); output(o, [&] { return t; }, "string_output_stream"); } { std::ostringstream os; arpc::ostream_output_stream o(os); output(o, [&] { return os.str(); }, "ostream_output_stream"); } { only_write o; output(o, [&] { return o.d; }, "adapter with write only"); } { only_putc o; output(o, [&] { return o.d; }, "adapter with putc only"); }
    oracle::begin("broken streams"); broken(); oracle::begin("positions"); positions();
  }
  return oracle::done();
}
