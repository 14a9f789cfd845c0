// link: channel pipe file socket awaitable context flag mutex address errors registry dynamic_base_class address_resolver future wait
#include <poll.h>
#include <sys/resource.h>
#include <atomic>
#include <thread>
#include "oracle.h"
#include "arpc/context.h"
#include "arpc/errors.h"
#include "arpc/flag.h"
#include "arpc/mutex.h"
#include "arpc/select.h"
using oracle::one; using oracle::rng; namespace er = arpc::errors;
template <typename A> bool ready(A a) { pollfd f{a.get_fd(), short(a.for_write() ? POLLOUT : POLLIN), 0}; return poll(&f, 1, 0) == 1; }
enum kind { FINE, AGAIN_, CANCELLED, OTHER };
template <typename F> kind attempt(F&& f) { try { f(); return FINE; } catch (const er::try_again&) { return AGAIN_; } catch (const er::cancelled&) { return CANCELLED; } catch (...) { return OTHER; } }
// what is run here has no descriptors left
template <typename F> kind starved(F&& f) { rlimit o, l; getrlimit(RLIMIT_NOFILE, &o); l = o; l.rlim_cur = 0; setrlimit(RLIMIT_NOFILE, &l); kind k = attempt(f); setrlimit(RLIMIT_NOFILE, &o); return k; }
void flags() {
  arpc::flag f; bool set = false; std::string h = "flag:"; arpc::context gone(arpc::context::top(), false); gone.cancel();
  for (int i = 0, n = (int)rng.below(20); i <= n; i++) {
    REQUIRE(f.is_set() == set && bool(f) == set, "set ", f.is_set(), " instead of ", set); REQUIRE(ready(f.async_wait()) == set, "ready ", !set, " instead of ", set); auto w = f.async_wait(); REQUIRE(attempt([&] { w.get_react_fn()(); }) == (set ? FINE : AGAIN_)); REQUIRE(f.is_set() == set && ready(f.async_wait()) == set, "waiting changes the flag");
    if (set) REQUIRE(attempt([&] { f.wait(); }) == FINE);
    int op = (int)rng.below(5); kind k; bool next = op < 2 || op == 4; h += op < 2 ? " set" : op < 4 ? " reset" : " set(cancelled)"; one(h);
    k = attempt([&] { auto go = [&] { next ? f.set() : f.reset(); }; if (op == 4 || (op == 3 && rng.coin())) { arpc::context c(gone); go(); } else go(); }); REQUIRE(k == FINE, "fails with ", (int)k); set = next;
  }
  one("wait in a cancelled context"); f.set(); REQUIRE(attempt([&] { arpc::context c(gone); f.wait(); }) == CANCELLED); REQUIRE(f.is_set());
}
void mutexes() {
  arpc::mutex m; bool held = false; std::string h = "mutex:"; arpc::context gone(arpc::context::top(), false); gone.cancel();
  for (int i = 0, n = (int)rng.below(20); i <= n; i++) {
    REQUIRE(ready(m.can_lock()) == !held, "ready while ", held ? "held" : "free"); int op = (int)rng.below(6); bool ok;
    if (held && op < 3) { h += " unlock"; one(h); kind k = op == 0 ? starved([&] { m.unlock(); }) : attempt([&] { if (op == 1) { arpc::context c(gone); m.unlock(); } else m.unlock(); }); REQUIRE(k == FINE, "unlocking fails with ", (int)k); held = false; continue; }
    if (op == 3 && !held) { h += " lock"; one(h); REQUIRE(attempt([&] { m.lock(); }) == FINE); held = true; continue; }
    if (op == 4) { h += " lock(cancelled)"; one(h); REQUIRE(attempt([&] { arpc::context c(gone); m.lock(); }) == CANCELLED); continue; }
    h += op == 5 ? " maybe_lock" : " try_lock"; one(h); if (op == 5) { kind k = attempt([&] { m.maybe_lock(); }); REQUIRE(k == (held ? AGAIN_ : FINE)); ok = k == FINE; } else { ok = m.try_lock(); } REQUIRE(ok == !held, "taken ", ok, " while ", held ? "held" : "free"); held = true;
  }
}
void threads() {
  int T = 2 + (int)rng.below(3), N = 30; one("threads: " + std::to_string(T) + " lock and unlock " + std::to_string(N) + " times"); arpc::mutex m; long shared = 0; std::atomic<int> in{0}; std::vector<std::thread> t;
  for (int k = 0; k < T; k++) t.emplace_back([&] { for (int i = 0; i < N; i++) { m.lock(); REQUIRE(in.fetch_add(1) == 0, "two owners at a time"); long v = shared; std::this_thread::yield(); shared = v + 1; in--; m.unlock(); } });
  for (auto& x : t) x.join(); REQUIRE(shared == long(T) * N); REQUIRE(m.try_lock());
  one("threads: waiters of a flag"); arpc::flag f; std::atomic<int> woken{0}; t.clear(); for (int k = 0; k < T; k++) t.emplace_back([&] { f.wait(); woken++; }); std::this_thread::sleep_for(std::chrono::milliseconds(2)); REQUIRE(woken == 0, "woken before it is set"); f.set(); for (auto& x : t) x.join(); REQUIRE(woken == T && f.is_set());
}
int main(int c, char** a) {
  oracle::init(c, a); arpc::context::current();
  while (oracle::more(1.0)) { oracle::begin("flags"); for (int i = 0; i < 20; i++) flags(); oracle::begin("mutexes"); for (int i = 0; i < 20; i++) mutexes(); oracle::begin("threads"); threads(); }
  return oracle::done();
}
