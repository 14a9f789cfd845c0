// link: channel pipe file socket awaitable context flag mutex address errors registry dynamic_base_class address_resolver future wait
#include <poll.h>
#include <atomic>
#include <map>
#include <memory>
#include <thread>
#include "oracle.h"
#include "arpc/context.h"
#include "arpc/errors.h"
#include "arpc/select.h"
using oracle::one; using oracle::rng; namespace er = arpc::errors; using arpc::context; using clk = std::chrono::system_clock;
struct alpha : arpc::dynamic<alpha> { int x = 0; }; struct beta : arpc::dynamic<beta> { int x = 0; };
template <> std::string_view arpc::detail::dynamic_class_descriptor<alpha>::class_name = "alpha"; template <> std::string_view arpc::detail::dynamic_class_descriptor<beta>::class_name = "beta";
using when_t = std::optional<context::time_point>;
struct node { std::unique_ptr<context> c; int parent; bool shield, cancelled, live; when_t when; std::map<int, int> data; };
enum kind { READY, CANCELLED, DEADLINE, OTHER };
template <typename F> kind attempt(F&& f) { try { f(); return READY; } catch (const er::cancelled&) { return CANCELLED; } catch (const er::deadline_exceeded&) { return DEADLINE; } catch (...) { return OTHER; } }
template <typename A> bool ready(A a) { pollfd f{a.get_fd(), short(a.for_write() ? POLLOUT : POLLIN), 0}; return poll(&f, 1, 0) == 1; }
void trees() {
  std::vector<node> n; std::string h = "tree:"; auto base = std::chrono::time_point_cast<context::duration>(clk::now());
  auto down = [&](int i, auto& self) -> void { n[i].cancelled = true; for (size_t j = 0; j < n.size(); j++) if (n[j].live && n[j].parent == i && !n[j].shield) self((int)j, self); };
  auto has_kids = [&](int i) { for (auto& m : n) if (m.live && m.parent == i) return true; return false; };
  auto pick = [&]() -> int { std::vector<int> l; for (size_t i = 0; i < n.size(); i++) if (n[i].live) l.push_back((int)i); return l.empty() ? -1 : l[rng.below(l.size())]; };
  for (int step = 0, steps = (int)rng.below(40); step < steps; step++) {
    int op = (int)rng.below(12), i = pick(); std::string at = std::to_string(i);
    if (i < 0 || op < 4) {
      bool sh = i >= 0 && rng.below(3) == 0; h += " new" + std::to_string(n.size()) + (sh ? "(shielded from " : "(below ") + at + ")"; one(h); context& p = i < 0 ? context::top() : *n[i].c; node m; m.c = std::make_unique<context>(p, false, sh); m.parent = i; m.shield = sh; m.live = true; m.cancelled = !sh && i >= 0 && n[i].cancelled; if (i >= 0) { m.when = n[i].when; m.data = n[i].data; } n.push_back(std::move(m));
    } else if (op == 4) { h += " cancel" + at; one(h); n[i].c->cancel(); down(i, down);
    } else if (op == 5) { auto t = base + std::chrono::milliseconds(rng.below(7) * 1000000 - 2000000); h += " deadline" + at + "=" + std::to_string((t - base).count()); one(h); n[i].c->set_deadline(t); if (!n[i].when || t < *n[i].when) n[i].when = t;
    } else if (op == 6) { int a = (int)rng.below(100), b = (int)rng.below(100); alpha x; x.x = a; beta y; y.x = b; int w = (int)rng.below(3); h += " set" + at; one(h); if (w == 0) n[i].c->set(x); else if (w == 1) n[i].c->set(std::move(y)); else n[i].c->set(x, y); if (w != 1) n[i].data[0] = a; if (w != 0) n[i].data[1] = b;
    } else if (op == 7) { int w = (int)rng.below(4); h += " reset" + at; one(h); if (w == 0) n[i].c->reset<alpha>(); else if (w == 1) n[i].c->reset<beta>(); else if (w == 2) n[i].c->reset<beta, alpha>(); else n[i].c->reset_all(); if (w != 1) n[i].data.erase(0); if (w != 0) n[i].data.erase(1);
    } else if (op == 8 && !has_kids(i)) { h += " drop" + at; one(h); n[i].c.reset(); n[i].live = false;
    } else if (op == 9) {
      h += " current" + at; one(h); context& before = context::current(); { context a(*n[i].c); REQUIRE(&context::current() == &a, "a context is not current"); bool was = a.is_cancelled(); REQUIRE(was == n[i].cancelled); { context b; REQUIRE(&context::current() == &b && b.is_cancelled() == was); { arpc::shield s; REQUIRE(!s.is_cancelled(), "a shield is cancelled"); b.cancel(); REQUIRE(!s.is_cancelled(), "a shield is cancelled"); } REQUIRE(&context::current() == &b && a.is_cancelled() == was, "a parent is cancelled"); } REQUIRE(&context::current() == &a && a.is_cancelled() == was, "a parent is cancelled by its child"); } REQUIRE(&context::current() == &before);
    } else if (op == 10) {
      h += " await" + at; one(h); context& c = *n[i].c; bool late = n[i].when && *n[i].when <= clk::now(); REQUIRE(ready(c.wait_cancelled()) == n[i].cancelled, "readiness of the cancellation"); auto w = c.wait_deadline(); REQUIRE(w.get_fd() < 0); REQUIRE((w.timeout().count() == 0) == late, "the deadline has", late ? "" : " not", " passed, but a wait takes ", w.timeout().count()); if (n[i].when && !late) { auto left = (*n[i].when - clk::now()).count() / 1000000; REQUIRE(w.timeout().count() <= left + 1 && w.timeout().count() >= left - 1000); } if (!n[i].when) REQUIRE(w.timeout().count() < 0);
      if (n[i].cancelled || late) { context a(c); kind k = attempt([] { arpc::select(arpc::never()); }); REQUIRE(k == CANCELLED && n[i].cancelled || k == DEADLINE && late, "waiting fails with ", (int)k); }
    }
    for (size_t j = 0; j < n.size(); j++) if (n[j].live) {
      context& c = *n[j].c; REQUIRE(c.is_cancelled() == n[j].cancelled, "context ", j, " is", n[j].cancelled ? " not" : "", " cancelled"); REQUIRE(c.deadline() == n[j].when, "deadline of context ", j); auto left = c.deadline_left(); REQUIRE(bool(left) == bool(n[j].when)); if (left) { auto l = std::chrono::duration_cast<std::chrono::milliseconds>(*n[j].when - clk::now()).count(); REQUIRE(left->count() >= l - 1 && left->count() <= l + 1000, "time left of context ", j); }
      REQUIRE(c.get<alpha>().x == (n[j].data.count(0) ? n[j].data[0] : 0), "data of context ", j); REQUIRE(c.get<beta>().x == (n[j].data.count(1) ? n[j].data[1] : 0), "data of context ", j);
    }
  }
  while (!n.empty()) { if (!has_kids((int)n.size() - 1)) n.pop_back(); else break; }
  REQUIRE(!context::top().is_cancelled(), "the top context is cancelled");
}
void threads() {
  one("threads: children of a context that is cancelled meanwhile, and destroyed"); int T = 2 + (int)rng.below(3); std::atomic<int> up{0}, gone{0}; std::vector<std::thread> t;
  { auto p = std::make_unique<context>(context::top(), false); alpha x; p->set(x); std::atomic<bool> go{false}; context* q = p.get();
    for (int k = 0; k < T; k++) t.emplace_back([&, k] { context c(*q, true); up++; for (int i = 0; i < 20; i++) { context d(*q, false); REQUIRE(!c.is_cancelled() || q->is_cancelled() || go); if (k == 0) { alpha y; y.x = i; q->set(y); q->set_deadline(std::chrono::time_point_cast<context::duration>(clk::now()) + std::chrono::hours(100 - i)); } (void)q->get<beta>(); (void)q->deadline(); } REQUIRE(attempt([] { arpc::select(arpc::never()); }) == CANCELLED); REQUIRE(c.is_cancelled()); gone++; });
    while (up < T) std::this_thread::yield(); std::this_thread::sleep_for(std::chrono::microseconds(rng.below(300))); if (rng.coin()) { go = true; p->cancel(); } go = true; p.reset(); REQUIRE(gone == T, "a context goes before its children"); }
  for (auto& x : t) x.join();
}
int main(int c, char** a) {
  oracle::init(c, a); context::current();
  while (oracle::more(1.0)) { oracle::begin("trees"); for (int i = 0; i < 20; i++) trees(); oracle::begin("threads"); threads(); }
  return oracle::done();
}
