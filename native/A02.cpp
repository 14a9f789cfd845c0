// link: channel pipe file socket awaitable context flag mutex address errors registry dynamic_base_class address_resolver future wait
#include "os.h"
#include "arpc/channel.h"
#include "arpc/context.h"
#include "arpc/errors.h"
#include "arpc/file.h"
#include "arpc/pipe.h"
#include "arpc/socket.h"
using oracle::one; using oracle::rng; using arpc::channel; namespace er = arpc::errors;
enum kind { FINE, AGAIN_, IO, END, OTHER };
static std::string what;
template <typename F> kind attempt(std::deque<os::answer> s, F&& f) {
  os::log->clear(); *os::script = std::move(s); os::armed = os::recording = true; kind k = FINE; what.clear();
  try { f(); } catch (const er::try_again&) { k = AGAIN_; } catch (const er::io_error& e) { k = IO; what = e.what(); } catch (const er::eof&) { k = END; } catch (...) { k = OTHER; }
  os::armed = os::recording = false; REQUIRE(os::script->empty(), "fewer system calls than expected"); return k;
}
static kind of(int e) { return e == EAGAIN || e == EWOULDBLOCK ? AGAIN_ : IO; }
static void failed(kind k, int e) { REQUIRE(k == of(e), "errno ", e, " gave outcome ", (int)k); if (k == IO) { std::string n = std::to_string(e); REQUIRE(what.size() >= n.size() && what.compare(what.size() - n.size(), n.size(), n) == 0, "message ", what, " does not end in the error number ", e); } }
static const int errs[] = {EAGAIN, EINTR, EBADF, EIO, EPIPE, EINVAL, ENOTCONN, ECONNRESET, ETIMEDOUT, ENOTSOCK};
static std::vector<os::call>& L() { return *os::log; }
static std::string i32(int v) { return std::string((char*)&v, 4); }
void io() {
  int fd = (int)rng.below(1000) + 3; std::size_t n = rng.coin() ? rng.below(40) : rng.below(5000); std::string data(n, 'x'); for (auto& ch : data) ch = char(rng()); std::string buf(n + 16, '\7'); std::size_t k = n ? 1 + rng.below(n) : 0; int e = errs[rng.below(10)];
  bool blocking = rng.coin(); auto pre = [&](std::deque<os::answer> s, bool out) { if (blocking) s.push_front({1, 0, std::string(1, out ? POLLOUT : POLLIN)}); return s; };
  channel c(fd); std::string d = std::string(blocking ? "blocking" : "direct") + " fd " + std::to_string(fd) + " size " + std::to_string(n) + " result " + std::to_string(k) + " errno " + std::to_string(e);
  std::size_t got = 0; auto rd = [&] { got = blocking ? c.read(&buf[8], n) : c.maybe_read(&buf[8], n); }; auto wr = [&] { got = blocking ? c.write(data.data(), n) : c.maybe_write(data.data(), n); };
  auto asks = [&](const char* name, bool out) { std::size_t z = blocking ? 1 : 0; REQUIRE(L().size() == z + 1, "system calls: ", L().size()); if (z) REQUIRE(L()[0].name == "poll" && L()[0].data.find(std::to_string(fd) + (out ? "w" : "r")) == 0, "waits for ", L()[0].data); auto& x = L()[z]; REQUIRE(x.name == name && x.fd == fd && (std::size_t)x.a == n, "calls ", x.name, " on ", x.fd, " for ", x.a); if (out) REQUIRE(x.data == data); else REQUIRE(x.p == &buf[8]); };
  one("read " + d); if (k) { REQUIRE(attempt(pre({{(long)k, 0, data}}, false), rd) == FINE); asks("read", false); REQUIRE(got == k, "returns ", got); REQUIRE(buf.compare(8, k, data, 0, k) == 0); REQUIRE(buf.substr(8 + k) == std::string(n - k + 8, '\7') && buf.substr(0, 8) == std::string(8, '\7'), "writes outside what was read"); }
  one("read at the end " + d); REQUIRE(attempt(pre({{0}}, false), rd) == END, "the end of input must throw eof"); asks("read", false);
  if (!blocking || e != EAGAIN) { one("read fails " + d); failed(attempt(pre({{-1, e}}, false), rd), e); asks("read", false); one("write fails " + d); failed(attempt(pre({{-1, e}}, true), wr), e); asks("write", true); }
  else { one("read would block " + d); REQUIRE(attempt({{1, 0, std::string(1, POLLIN)}, {-1, e}, {1, 0, std::string(1, POLLIN)}, {0}}, rd) == END, "a blocking read waits again"); one("write would block " + d); REQUIRE(attempt({{1, 0, std::string(1, POLLOUT)}, {-1, e}, {1, 0, std::string(1, POLLOUT)}, {(long)k}}, wr) == FINE && got == k, "a blocking write waits again"); }
  one("write " + d); REQUIRE(attempt(pre({{(long)k}}, true), wr) == FINE && got == k, "returns ", got); asks("write", true);
  os::armed = true; os::script->assign(1, {0}); c.release(); os::armed = false;
}
void options() {
  int fd = 3 + (int)rng.below(500); channel c(fd); bool on = rng.coin(); long s = (long)rng.below(100000); channel* r = nullptr; int e = errs[1 + rng.below(9)];
  struct opt { const char* name; int lv, o; std::string v; std::function<channel&()> f; };
  struct linger lg { on, (int)s };
  std::vector<opt> os_ = {{"keep_alive", SOL_SOCKET, SO_KEEPALIVE, i32(on), [&]() -> channel& { return c.keep_alive(on); }}, {"reuse_addr", SOL_SOCKET, SO_REUSEADDR, i32(on), [&]() -> channel& { return c.reuse_addr(on); }}, {"reuse_port", SOL_SOCKET, SO_REUSEPORT, i32(on), [&]() -> channel& { return c.reuse_port(on); }},
    {"no_delay", IPPROTO_TCP, TCP_NODELAY, i32(on), [&]() -> channel& { return c.no_delay(on); }}, {"linger", SOL_SOCKET, SO_LINGER, std::string((char*)&lg, sizeof lg), [&]() -> channel& { return c.linger(on, std::chrono::seconds(s)); }}};
  for (auto& o : os_) for (bool ok : {true, false}) {
    one(std::string(o.name) + "(" + std::to_string(on) + ") on " + std::to_string(fd) + " seconds " + std::to_string(s) + (ok ? "" : " fails with " + std::to_string(e))); kind k = attempt({{ok ? 0 : -1, e}}, [&] { r = &o.f(); }); if (ok) REQUIRE(k == FINE && r == &c); else failed(k, e);
    REQUIRE(L().size() == 1 && L()[0].name == "setsockopt" && L()[0].fd == fd, "one setsockopt"); REQUIRE(L()[0].a == o.lv && L()[0].b == o.o, "sets option ", L()[0].a, "/", L()[0].b); REQUIRE(L()[0].data.size() == o.v.size()); if (o.v.size() == 4) REQUIRE((L()[0].data != i32(0)) == on, "to the wrong value"); else REQUIRE(L()[0].data == o.v, "to the wrong value");
  }
  for (bool rd : {false, true}) for (bool wr : {false, true}) { one("shutdown " + std::to_string(rd) + std::to_string(wr)); std::deque<os::answer> a; if (rd || wr) a.push_back({0}); REQUIRE(attempt(a, [&] { r = &c.shutdown(rd, wr); }) == FINE && r == &c); REQUIRE(L().size() == a.size()); if (rd || wr) REQUIRE(L()[0].name == "shutdown" && L()[0].fd == fd && L()[0].a == (rd && wr ? SHUT_RDWR : rd ? SHUT_RD : SHUT_WR)); if (rd || wr) failed(attempt({{-1, e}}, [&] { c.shutdown(rd, wr); }), e); }
  int bl = (int)rng.below(300); one("listen " + std::to_string(bl)); REQUIRE(attempt({{0}}, [&] { c.listen(bl); }) == FINE && L()[0].name == "listen" && L()[0].a == bl && L()[0].fd == fd); failed(attempt({{-1, e}}, [&] { c.listen(bl); }), e);
  long fl = (long)rng.below(1 << 20); one("make_non_blocking(" + std::to_string(on) + ") with flags " + std::to_string(fl)); REQUIRE(attempt({{fl}, {0}}, [&] { r = &c.make_non_blocking(on); }) == FINE && r == &c); REQUIRE(L().size() == 2 && L()[0].a == F_GETFL && L()[1].a == F_SETFL && L()[0].fd == fd && L()[1].fd == fd); REQUIRE(L()[1].b == (on ? fl | O_NONBLOCK : fl & ~O_NONBLOCK), "sets flags ", L()[1].b); failed(attempt({{-1, e}}, [&] { c.make_non_blocking(on); }), e); failed(attempt({{fl}, {-1, e}}, [&] { c.make_non_blocking(on); }), e);
  c.release();
}
void addresses() {
  int fd = 3 + (int)rng.below(500); channel c(fd); int e = errs[1 + rng.below(9)]; int fam = rng.coin() ? AF_INET6 : rng.coin() ? AF_INET : AF_UNIX; std::string raw(2 + rng.below(sizeof(sockaddr_storage) - 1), 0); for (auto& x : raw) x = char(rng()); raw[0] = char(fam); raw[1] = 0;
  arpc::address a; memcpy(a.address_data(), raw.data(), raw.size()); a.address_size() = raw.size(); a.family() = (int)rng.below(40); a.socket_type() = (int)rng.below(7); a.protocol() = (int)rng.below(300); std::string d = " family " + std::to_string(fam) + " size " + std::to_string(raw.size()) + " errno " + std::to_string(e); bool v6 = fam == AF_INET6;
  one("bind" + d); std::deque<os::answer> ok = {{0}}; if (v6) ok.push_back({0}); REQUIRE(attempt(ok, [&] { c.bind(a); }) == FINE); REQUIRE(L().size() == ok.size()); if (v6) REQUIRE(L()[0].name == "setsockopt" && L()[0].a == IPPROTO_IPV6 && L()[0].b == IPV6_V6ONLY && L()[0].data == i32(1)); REQUIRE(L().back().name == "bind" && L().back().fd == fd && L().back().data == raw); failed(attempt({{-1, e}}, [&] { c.bind(a); }), e); if (v6) failed(attempt({{0}, {-1, e}}, [&] { c.bind(a); }), e);
  for (bool own : {false, true}) { one(std::string(own ? "own_addr" : "peer_addr") + d); std::unique_ptr<arpc::address> rp; int t = (int)rng.below(9), p = (int)rng.below(300); REQUIRE(attempt({{0, 0, raw}, {0, 0, i32(t)}, {0, 0, i32(p)}}, [&] { rp.reset(new arpc::address(own ? c.own_addr() : c.peer_addr())); }) == FINE, what); auto& r = *rp; REQUIRE(L()[0].name == (own ? "getsockname" : "getpeername") && L()[0].fd == fd); REQUIRE(r.family() == fam && r.address_size() == raw.size() && !memcmp(r.address_data(), raw.data(), raw.size())); for (int i : {1, 2}) { REQUIRE(L()[i].name == "getsockopt" && L()[i].fd == fd && L()[i].a == SOL_SOCKET); REQUIRE((L()[i].b == SO_TYPE ? r.socket_type() == t && i == 1 : L()[i].b == SO_PROTOCOL && r.protocol() == p && i == 2), "type or protocol"); } for (int i = 0; i < 3; i++) { std::deque<os::answer> s; for (int j = 0; j < i; j++) s.push_back({0, 0, j ? i32(t) : raw}); s.push_back({-1, e}); failed(attempt(s, [&] { own ? c.own_addr() : c.peer_addr(); }), e); } }
  for (int ce : {0, EINPROGRESS, e}) for (int se : {0, e, EAGAIN}) for (bool blocking : {false, true}) {
    one("connect gives " + std::to_string(ce) + " then " + std::to_string(se) + d); std::deque<os::answer> s = {{ce ? -1 : 0, ce}}; if (ce != e) { if (blocking) s.push_back({1, 0, std::string(1, POLLOUT)}); s.push_back({0, 0, i32(se)}); if (blocking && se == EAGAIN) { s.push_back({1, 0, std::string(1, POLLOUT)}); s.push_back({0, 0, i32(0)}); } } kind k = attempt(s, [&] { if (blocking) c.connect(a); else { auto w = c.async_connect(a); REQUIRE(w.get_fd() == fd && w.for_write()); w.get_react_fn()(); } }); REQUIRE(L()[0].name == "connect" && L()[0].fd == fd && L()[0].data == raw); if (ce == e) failed(k, e); else if (se == 0 || (blocking && se == EAGAIN)) REQUIRE(k == FINE); else failed(k, se);
    if (ce != e) REQUIRE(L().back().name == "getsockopt" && L().back().fd == fd && L().back().a == SOL_SOCKET && L().back().b == SO_ERROR);
  }
  for (bool blocking : {false, true}) { one("accept" + d); arpc::address from; std::deque<os::answer> s; if (blocking) s.push_back({1, 0, std::string(1, POLLIN)}); s.push_back({777, 0, raw}); channel x; REQUIRE(attempt(s, [&] { channel y = blocking ? c.accept(from) : c.maybe_accept(from); x.reset(y.release()); }) == FINE); REQUIRE(x.get() == 777 && from.address_size() == raw.size() && !memcmp(from.address_data(), raw.data(), raw.size())); x.release(); s.back() = {-1, e}; failed(attempt(s, [&] { if (blocking) c.accept(); else c.maybe_accept(); }), e); REQUIRE(L().back().name == "accept" && L().back().fd == fd && L().back().p == nullptr); }
  int t = (int)rng.below(7); one("socket" + d); REQUIRE(attempt({{778}}, [&] { channel y = rng.coin() ? arpc::socket(a) : arpc::socket(a.family(), a.socket_type(), a.protocol()); REQUIRE(y.get() == 778); y.release(); }) == FINE && L()[0].fd == a.family() && L()[0].a == a.socket_type() && L()[0].b == a.protocol()); failed(attempt({{-1, e}}, [&] { arpc::socket(a); }), e);
  static const int modes[] = {O_RDONLY, O_WRONLY | O_CREAT | O_TRUNC, O_WRONLY | O_CREAT | O_APPEND, O_RDWR, O_RDWR | O_CREAT | O_TRUNC, O_RDWR | O_CREAT | O_APPEND};
  for (int m = 0; m < 6; m++) { one("file in mode " + std::to_string(m)); REQUIRE(attempt({{779}}, [&] { channel y = arpc::file("some/path", arpc::open_mode(m)); REQUIRE(y.get() == 779); y.release(); }) == FINE); REQUIRE(L()[0].name == "open" && L()[0].a == modes[m] && L()[0].data == "some/path", "opened with flags ", L()[0].a); if (modes[m] & O_CREAT) REQUIRE(L()[0].b == 0666, "a created file gets permissions ", L()[0].b); failed(attempt({{-1, e}}, [&] { arpc::file("x", arpc::open_mode(m)); }), e); }
  c.release();
}
int main(int c, char** a) {
  oracle::init(c, a); os::start(); arpc::context::current();
  while (oracle::more(1.0)) { oracle::begin("reading and writing"); for (int i = 0; i < 20; i++) io(); oracle::begin("options"); options(); oracle::begin("addresses"); addresses(); }
  return oracle::done();
}
