// link: channel pipe file socket awaitable context flag mutex address errors registry dynamic_base_class address_resolver future wait
#include "os.h"
#include <sys/un.h>
#include "arpc/channel.h"
#include "arpc/context.h"
#include "arpc/errors.h"
#include "arpc/file.h"
#include "arpc/pipe.h"
#include "arpc/socket.h"
using oracle::one; using oracle::rng; using arpc::channel;
static std::map<int, int> dummy;
struct model { std::vector<std::unique_ptr<channel>> c; std::vector<int> fd; std::set<int> loose; };   // what each channel holds; descriptors released from all of them
static void raw_close(int f) { syscall(SYS_close, f); }
static void check(model& m, const std::set<int>& base, const std::string&) {
  std::set<int> want = base; for (int f : m.fd) if (f >= 0) { REQUIRE(want.insert(f).second, "two channels hold descriptor ", f); } for (int f : m.loose) want.insert(f);
  for (std::size_t i = 0; i < m.c.size(); i++) { int g = m.c[i]->get(); REQUIRE((m.fd[i] < 0 && g < 0) || g == m.fd[i], "channel ", i, " holds ", g, " instead of ", m.fd[i]); REQUIRE(static_cast<bool>(*m.c[i]) == (m.fd[i] >= 0)); REQUIRE(**m.c[i] == g); }
  for (int f = 0; f < 128; f++) REQUIRE(os::is_open(f) == (want.count(f) > 0), "descriptor ", f, want.count(f) ? " was closed although it is held" : " is open although nothing holds it");
}
static std::set<int> snapshot() { std::set<int> s; for (int f = 0; f < 128; f++) if (os::is_open(f)) s.insert(f); return s; }
void random_ops() {
  auto base = snapshot(); std::string tr; os::recording = true;
  {
    model m; auto add = [&](channel&& c, int fd) { m.c.push_back(std::make_unique<channel>(std::move(c))); m.fd.push_back(fd); };
    auto fresh = [&] { int f = (int)syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDWR, 0); return f; };
    for (int k = 0; k < 14; k++) {
      std::size_t n = m.c.size(), i = rng.below(n), j = rng.below(n); int w = n ? (int)rng.below(15) : (int)rng.below(3); tr += " " + std::to_string(w) + "/" + std::to_string(i) + "/" + std::to_string(j); one(tr);
      switch (w) {
        case 0: { int f = fresh(); m.c.push_back(std::make_unique<channel>(f)); m.fd.push_back(f); break; }
        case 1: m.c.push_back(std::make_unique<channel>()); m.fd.push_back(-1); break;
        case 2: { channel p[2]; int o[2] = {-1, -1}; if (rng.coin()) { o[0] = fresh(); p[0].reset(o[0]); } arpc::pipe(p); for (auto& x : p) { int f = x.get(); add(std::move(x), f); } break; }
        case 3: { channel t(std::move(*m.c[i])); REQUIRE(!*m.c[i]); int f = m.fd[i]; m.fd[i] = -1; add(std::move(t), f); break; }
        case 4: m.c[i]->swap(*m.c[j]); std::swap(m.fd[i], m.fd[j]); break;
        case 5: { *m.c[i] = std::move(*m.c[j]); if (i != j) { m.fd[i] = m.fd[j]; m.fd[j] = -1; } break; }
        case 6: { int f = m.c[i]->release(); REQUIRE(f == m.fd[i] || (f < 0 && m.fd[i] < 0)); m.fd[i] = -1; if (f >= 0) m.loose.insert(f); break; }
        case 7: m.c[i]->reset(); m.fd[i] = -1; break;
        case 8: { int f = fresh(); m.c[i]->reset(f); m.fd[i] = f; break; }
        case 9: m.c[i]->close(); m.fd[i] = -1; break;
        case 10: { try { channel d(m.c[i]->dup()); REQUIRE(m.fd[i] >= 0); int f = d.get(); REQUIRE(f >= 0 && f != m.fd[i]); add(std::move(d), f); } catch (const arpc::errors::io_error&) { REQUIRE(m.fd[i] < 0); } break; }
        case 11: m.c.erase(m.c.begin() + i); m.fd.erase(m.fd.begin() + i); break;
        case 12: { channel c(arpc::file("data", arpc::open_mode(1 + rng.below(5) % 2))); int f = c.get(); add(std::move(c), f); break; }
        case 13: { try { channel c(arpc::file("no/such/file")); REQUIRE(false, "opening a missing file must fail"); } catch (const arpc::errors::io_error&) {} break; }
        default: { sockaddr_un u{}; u.sun_family = AF_UNIX; u.sun_path[0] = 0; snprintf(u.sun_path + 1, 60, "verif-a01-%d-%llu", (int)getpid(), (unsigned long long)rng()); arpc::address a; memcpy(a.address_data(), &u, sizeof u); a.address_size() = sizeof u; a.family() = AF_UNIX; a.socket_type() = SOCK_STREAM;
          channel s(arpc::socket(a)); s.bind(a).listen(); channel cl(arpc::socket(AF_UNIX, SOCK_STREAM, 0)); cl.connect(a); bool from = rng.coin(); arpc::address peer; channel x(from ? s.accept(peer) : s.accept()); channel y; s.make_non_blocking(); try { y = s.maybe_accept(); REQUIRE(false); } catch (const arpc::errors::try_again&) {} int f[3] = {s.get(), cl.get(), x.get()}; add(std::move(s), f[0]); add(std::move(cl), f[1]); add(std::move(x), f[2]); }
      }
      os::recording = false; check(m, base, tr); os::recording = true;
    }
    os::recording = false; for (int f : m.loose) raw_close(f); m.loose.clear(); os::recording = true; m.c.clear(); m.fd.clear(); os::recording = false; check(m, base, tr);
  }
}
void failures() {   // a call that fails leaves nothing open, one that succeeds gives exactly its descriptor
  for (int e : {EMFILE, EINVAL, EAGAIN, ECONNABORTED, ENOMEM}) for (int what = 0; what < 6; what++) for (bool ok : {false, true}) {
    one("scripted call " + std::to_string(what) + (ok ? " succeeds" : " fails with " + std::to_string(e))); os::log->clear(); os::script->clear(); channel pr[2] = {channel(51), channel(52)};
    { channel c(40), r; arpc::address a; os::armed = os::recording = true; os::script->push_back({ok ? what == 4 ? 0 : 41 : -1, e, what == 4 ? std::string("\x35\x36") : std::string(20, '\x01')}); bool threw = false;
      if (what == 4 && ok) { os::script->push_back({0}); os::script->push_back({0}); }
      try { switch (what) { case 0: r = c.dup(); break; case 1: r = c.maybe_accept(); break; case 2: r = c.maybe_accept(a); break; case 3: r = arpc::socket(1, 2, 3); break; case 4: arpc::pipe(pr); break; default: r = arpc::file("x"); } } catch (const arpc::errors::base_error&) { threw = true; }
      os::armed = os::recording = false; REQUIRE(threw == !ok); if (what != 4) REQUIRE(r.get() == (ok ? 41 : -1)); else { REQUIRE(pr[0].get() == (ok ? 53 : 51) && pr[1].get() == (ok ? 54 : 52)); } REQUIRE(c.get() == 40); std::set<int> closed; for (auto& x : *os::log) if (x.name == "close") REQUIRE(closed.insert(x.fd).second, "closed twice: ", x.fd); REQUIRE(closed == (what == 4 && ok ? std::set<int>{51, 52} : std::set<int>{}), "closed ", closed.size(), " descriptors"); REQUIRE(os::script->empty());
      os::armed = os::recording = true; os::log->clear(); os::script->assign(ok && what != 4 ? 2 : 1, {0}); }
    std::multiset<int> got; for (auto& x : *os::log) if (x.name == "close") got.insert(x.fd); REQUIRE(got == (ok && what != 4 ? std::multiset<int>{40, 41} : std::multiset<int>{40}), "destruction closed ", got.size()); os::armed = os::recording = false; pr[0].release(); pr[1].release();
  }
}
int main(int c, char** a) {
  oracle::init(c, a); os::start(); arpc::context::current();
  oracle::begin("failing calls"); failures();
  while (oracle::more(1.0)) { oracle::begin("random histories"); random_ops(); }
  return oracle::done();
}
