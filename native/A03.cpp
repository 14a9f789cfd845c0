// link: channel pipe file socket awaitable context flag mutex address errors registry dynamic_base_class address_resolver future wait
#include <poll.h>
#include <deque>
#include <memory>
#include <thread>
#include "oracle.h"
#include "arpc/context.h"
#include "arpc/errors.h"
#include "arpc/queue.h"
#include "arpc/semaphore.h"
using oracle::one; using oracle::rng; namespace er = arpc::errors;
static bool ready(const arpc::awaitable<void>& a) { pollfd f{a.get_fd(), short(a.for_write() ? POLLOUT : POLLIN), 0}; return poll(&f, 1, 0) == 1; }
template <typename A> bool ready_(A a) { return ready(a); }
enum kind { FINE, AGAIN_, CANCELLED, OTHER };
template <typename F> kind attempt(F&& f) { try { f(); return FINE; } catch (const er::try_again&) { return AGAIN_; } catch (const er::cancelled&) { return CANCELLED; } catch (...) { return OTHER; } }
template <typename Q> void truth(Q& q, std::size_t n, std::size_t cap) {
  REQUIRE(q.size() == n, "size ", q.size(), " instead of ", n); REQUIRE(q.empty() == (n == 0), "empty ", q.empty(), " at size ", n); REQUIRE(q.full() == (n == cap), "full ", q.full(), " at size ", n); REQUIRE(q.capacity() == cap && q.max_size() == cap);
  REQUIRE(ready_(q.can_get()) == (n > 0), "ready for get at size ", n); REQUIRE(ready_(q.can_put()) == (n < cap), "ready for put at size ", n);
}
struct item { std::shared_ptr<int> p; bool bad = false; item() {} item(int v) : p(new int(v)) {} item(const item& o) : p(o.p), bad(o.bad) { if (bad) throw 7; } item(item&& o) : p(std::move(o.p)), bad(o.bad) { if (bad) throw 7; } item& operator=(item&&) = default; item& operator=(const item&) = default; };
void history() {
  std::size_t cap = rng.below(5); if (rng.below(8) == 0) cap = 100; arpc::queue<item> q(cap); std::deque<int> m; std::string h = "capacity " + std::to_string(cap) + ":"; arpc::context gone(arpc::context::top(), false); gone.cancel();
  truth(q, 0, cap);
  for (int i = 0, n = 1 + (int)rng.below(30); i < n; i++) {
    int v = (int)rng.below(1000), op = (int)rng.below(10); kind k; int got = -1; bool full = m.size() == cap, empty = m.empty();
    auto put = [&](auto f, const char* nm) { h += std::string(" ") + nm + "(" + std::to_string(v) + ")"; one(h); k = attempt(f); };
    if (op == 0) { put([&] { q.maybe_put(item(v)); }, "maybe_put"); REQUIRE(k == (full ? AGAIN_ : FINE)); if (!full) m.push_back(v); }
    else if (op == 1) { item x(v); put([&] { q.maybe_put(x); }, "maybe_put copy"); REQUIRE(k == (full ? AGAIN_ : FINE)); REQUIRE(x.p && *x.p == v, "the original is kept"); if (!full) m.push_back(v); }
    else if (op == 2) { put([&] { auto w = q.async_put(item(v)); if (ready_(q.can_put())) w.get_react_fn()(); else throw er::try_again(""); }, "async_put"); REQUIRE(k == (full ? AGAIN_ : FINE)); if (!full) m.push_back(v); }
    else if (op == 3 && !full) { put([&] { q.put(item(v)); }, "put"); REQUIRE(k == FINE); m.push_back(v); }
    else if (op == 4) { item x(v); x.bad = true; put([&] { q.maybe_put(x); }, "maybe_put that cannot be copied"); REQUIRE(k == (full ? AGAIN_ : OTHER)); }
    else if (op == 5) { put([&] { arpc::context c(gone); q.put(item(v)); }, "put in a cancelled context"); REQUIRE(k == CANCELLED); }
    else if (op == 6) { put([&] { arpc::context c(gone); got = *q.get().p; }, "get in a cancelled context"); REQUIRE(k == CANCELLED); }
    else if (op == 7) { put([&] { arpc::context c(gone); q.maybe_put(item(v)); }, "maybe_put in a cancelled context"); REQUIRE(k == (full ? AGAIN_ : FINE)); if (!full) m.push_back(v); }
    else if (op == 8 || empty) { put([&] { got = *q.maybe_get().p; }, "maybe_get"); REQUIRE(k == (empty ? AGAIN_ : FINE)); if (!empty) { REQUIRE(got == m.front(), "got ", got, " instead of ", m.front()); m.pop_front(); } }
    else { put([&] { if (rng.coin()) got = *q.get().p; else { auto w = q.async_get(); got = *w.get_react_fn()().p; } }, "get"); REQUIRE(k == FINE); REQUIRE(got == m.front(), "got ", got, " instead of ", m.front()); m.pop_front(); }
    truth(q, m.size(), cap);
  }
}
void counting() {
  std::size_t cap = rng.below(4), n = 0; arpc::semaphore s(cap); std::string h = "semaphore " + std::to_string(cap) + ":"; truth(s, 0, cap);
  for (int i = 0; i < 12; i++) { bool put = rng.coin(), may = put ? n < cap : n > 0, block = may && rng.coin(); h += put ? " put" : " get"; one(h); kind k = attempt([&] { if (block) put ? s.put() : s.get(); else put ? s.maybe_put() : s.maybe_get(); }); REQUIRE(k == (may ? FINE : AGAIN_)); if (may) n += put ? 1 : -1; truth(s, n, cap); }
}
void threads() {
  std::size_t cap = 1 + rng.below(3); int P = 1 + (int)rng.below(3), C = 1 + (int)rng.below(3), N = 6 * C; one("threads: capacity " + std::to_string(cap) + ", " + std::to_string(P) + " put " + std::to_string(N) + " each, " + std::to_string(C) + " get");
  arpc::queue<int> q(cap); std::vector<std::thread> t; std::vector<std::vector<int>> got(C);
  for (int p = 0; p < P; p++) t.emplace_back([&, p] { for (int i = 0; i < N; i++) q.put(p * 1000 + i); });
  for (int c = 0; c < C; c++) t.emplace_back([&, c] { for (int i = 0; i < P * N / C; i++) got[c].push_back(q.get()); });
  for (auto& x : t) x.join();
  std::multiset<int> all; for (auto& g : got) { std::vector<int> last(P, -1); for (int v : g) { all.insert(v); REQUIRE(v % 1000 > last[v / 1000], "out of order"); last[v / 1000] = v % 1000; } } REQUIRE(all.size() == std::size_t(P * N) && std::set<int>(all.begin(), all.end()).size() == all.size(), "each element once"); truth(q, 0, cap);
}
int main(int c, char** a) {
  oracle::init(c, a); arpc::context::current();
  while (oracle::more(1.0)) { oracle::begin("histories"); for (int i = 0; i < 20; i++) history(); oracle::begin("semaphores"); for (int i = 0; i < 10; i++) counting(); oracle::begin("threads"); threads(); }
  return oracle::done();
}
