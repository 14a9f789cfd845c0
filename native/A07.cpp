// link: channel pipe file socket awaitable context flag mutex address errors registry dynamic_base_class address_resolver future wait
#include "os.h"
#include "arpc/context.h"
#include "arpc/errors.h"
#include "arpc/select.h"
using oracle::one; using oracle::rng; using arpc::awaitable; using std::chrono::milliseconds; namespace er = arpc::errors;
enum act { VALUE, AGAIN_, THROW };
// one awaitable: a descriptor or a time, and what its action does each time it is run
struct wanted { int fd = -1; bool out = false; long ms = -1; bool poll = false; std::vector<act> acts; int ran = 0; std::vector<int> turns; std::string text() const { return fd >= 0 ? std::to_string(fd) + (out ? "w" : "r") : (poll ? "every " : "after ") + std::to_string(ms); } };
static int turn;   // which poll answered last
static int run(wanted& w, int v) { act a = w.acts[w.ran % w.acts.size()]; w.ran++; w.turns.push_back(turn); if (a == AGAIN_) throw er::try_again("again"); if (a == THROW) throw er::not_found(std::to_string(v)); return v; }
static awaitable<int> make_int(wanted& w, int v) { auto f = [&w, v] { return run(w, v); }; if (w.fd >= 0) return awaitable<void>(w.fd, w.out).then(f); return awaitable<void>(milliseconds(w.ms), w.poll).then(f); }
static awaitable<void> make_void(wanted& w, int v) { auto f = [&w, v] { run(w, v); }; if (w.fd >= 0) return awaitable<void>(w.fd, w.out).then(f); return awaitable<void>(milliseconds(w.ms), w.poll).then(f); }
struct seen { bool has = false; bool threw = false; int v = 0; };
template <typename H> seen look(H& h) { seen o; o.has = h.has_value(); if (o.has) try { if constexpr (std::is_same_v<decltype(*h), void>) *h; else o.v = *h; } catch (const er::not_found& e) { o.threw = true; o.v = std::stoi(e.what()); } return o; }
static wanted some(std::set<int>& used) { wanted w; if (rng.below(3)) { do w.fd = 100 + (int)rng.below(50); while (!used.insert(w.fd).second); w.out = rng.coin(); } else { w.ms = (long)rng.below(4) * 1000; w.poll = rng.below(3) == 0; } for (int i = 0, n = 1 + (int)rng.below(3); i < n; i++) w.acts.push_back(act(rng.below(4) == 3 ? 0 : rng.below(3))); w.acts.push_back(VALUE); return w; }
static std::vector<std::vector<short>>* revents; static std::vector<int>* timeouts; static std::vector<std::string>* asked;
void selecting(bool list) {
  std::set<int> used; std::vector<wanted> w; int n = list ? (int)rng.below(4) + 1 : 2; for (int i = 0; i < n; i++) w.push_back(some(used)); wanted solo = some(used); if (list) w.push_back(solo); bool has_fd = false, has_ms = false, allpoll = true; long mn = -1, mn_fixed = -1; for (auto& x : w) { has_fd |= x.fd >= 0; if (x.ms >= 0) { has_ms = true; allpoll &= x.poll; mn = mn < 0 ? x.ms : std::min(mn, x.ms); if (!x.poll) mn_fixed = mn_fixed < 0 ? x.ms : std::min(mn_fixed, x.ms); } }
  // the script: polls answered until some action gives a result
  std::string h = list ? "select list" : "select"; for (auto& x : w) h += " " + x.text(); os::script->clear(); os::log->clear(); std::vector<std::vector<bool>> ready; std::vector<std::size_t> idx(w.size(), 0); bool done = false, error = false; int e = 0; std::string rest(2, 0);
  while (!done && !error) {
    std::vector<bool> r(w.size(), false); std::string rev; bool timed = has_ms && (!has_fd || rng.below(3) == 0);
    if (rng.below(12) == 0) { error = true; e = rng.coin() ? EAGAIN : EBADF; os::script->push_back({-1, e}); h += " poll fails with " + std::to_string(e); break; }
    // times: ready are those not longer than the shortest, and with a polling one the shortest also the other polling ones
    if (timed) { bool by_poll = mn >= 0 && (mn_fixed < 0 || mn < mn_fixed); for (std::size_t i = 0; i < w.size(); i++) r[i] = w[i].ms >= 0 && (w[i].ms <= mn || (by_poll && w[i].poll)); os::script->push_back({0, 0, std::string(w.size() + 2, 0)}); h += " | time passes"; }
    else if (has_fd) { bool any = false; for (std::size_t i = 0; i < w.size(); i++) { short v = w[i].fd >= 0 && rng.coin() ? (rng.coin() ? (w[i].out ? POLLOUT : POLLIN) : rng.coin() ? POLLHUP : POLLERR) : 0; rev += char(v); r[i] = v != 0; any |= r[i]; } if (!any) for (std::size_t i = 0; i < w.size() && !any; i++) if (w[i].fd >= 0) { rev[i] = POLLIN; r[i] = any = true; } long cnt = 0; for (bool b : r) cnt += b; os::script->push_back({cnt, 0, rev + rest}); h += " | ready:"; for (std::size_t i = 0; i < w.size(); i++) if (r[i]) h += " " + w[i].text(); }
    // two polling or a polling and a fixed time with the same shortest are left open: ties decide by the first
    for (std::size_t i = 0; i < w.size(); i++) if (r[i]) { act a = w[i].acts[idx[i] % w[i].acts.size()]; idx[i]++; if (a != AGAIN_) done = true; }
    ready.push_back(r); if (ready.size() > 30) done = true;
  }
  if (ready.size() > 30) { os::script->clear(); return; }
  // a polling time that has waited for a while may be shorter later, and equal shortest times of both kinds are a tie: only clear cases are judged
  bool clear = true; for (auto& x : w) if (x.poll) for (auto& y : w) if (!y.poll && y.ms == x.ms) clear = false; if (!clear) { os::script->clear(); return; }
  one(h); turn = 0; os::armed = os::recording = true; std::vector<seen> out(w.size()); int failed = 0;
  try {
    if (!list) { auto [a, b] = arpc::select(make_int(w[0], 10), make_void(w[1], 11)); os::armed = os::recording = false; out[0] = look(a); out[1] = look(b); }
    else { std::vector<awaitable<int>> v; for (int i = 0; i < n; i++) v.push_back(make_int(w[i], 10 + i)); auto [a, b] = arpc::select(std::move(v), make_void(w[n], 10 + n)); os::armed = os::recording = false; REQUIRE(a.size() == std::size_t(n)); for (int i = 0; i < n; i++) out[i] = look(a[i]); out[n] = look(b); }
  } catch (const er::try_again&) { failed = 1; } catch (const er::io_error&) { failed = 2; }
  os::armed = os::recording = false; REQUIRE(os::script->empty(), "returns too early"); std::size_t p = 0;
  for (auto& c : *os::log) if (c.name == "poll") { p++; std::string want; for (auto& x : w) if (x.fd >= 0) want += (want.empty() ? "" : " ") + x.text(); REQUIRE(c.data.compare(0, want.size(), want) == 0, "waits for ", c.data, " instead of ", want); REQUIRE(has_ms ? c.a >= 0 && c.a <= mn : c.a < 0, "waits ", c.a, " ms"); if (has_ms && (mn_fixed >= 0 && mn == mn_fixed)) REQUIRE(c.a == mn || !allpoll, "waits ", c.a, " ms instead of ", mn); }
  REQUIRE(p == ready.size() + error, "polls ", p, " times");
  if (error) { REQUIRE(failed == (e == EAGAIN ? 1 : 2), "seen ", failed); return; } REQUIRE(!failed, "fails with ", failed);
  for (std::size_t i = 0; i < w.size(); i++) { int times = 0; for (auto& r : ready) times += r[i]; REQUIRE(w[i].ran == times, "runs the action of ", w[i].text(), " ", w[i].ran, " times instead of ", times); bool last = ready.back()[i]; act a = times ? w[i].acts[(times - 1) % w[i].acts.size()] : AGAIN_; REQUIRE(out[i].has == (last && a != AGAIN_), "result of ", w[i].text()); if (out[i].has) { REQUIRE(out[i].threw == (a == THROW)); if (out[i].threw || i < std::size_t(list ? n : 1)) REQUIRE(out[i].v == int(10 + i), "wrong result"); } }
}
void giving_up() {
  int p[2]; REQUIRE(pipe(p) == 0); bool w = rng.coin(), cancel = rng.coin(); int ran = 0; one(std::string("ready to ") + (w ? "write" : "read") + (cancel ? " when cancelled" : " when expired")); if (!w) REQUIRE(write(p[1], "x", 1) == 1);
  try { arpc::context c; if (cancel) c.cancel(); else c.set_timeout(milliseconds(0)); auto [r] = cancel ? arpc::select(awaitable<void>(w ? p[1] : p[0], w).then([&] { ran++; })) : arpc::select(awaitable<void>(p[0] + (w ? 0 : 0), false).then([&] { ran++; })); if (cancel) oracle::fail("does not give up"); (void)r; } catch (const er::cancelled&) { REQUIRE(cancel); REQUIRE(ran == 0, "an action was run"); } catch (const er::deadline_exceeded&) { REQUIRE(!cancel); REQUIRE(ran == 0, "an action was run"); }
  close(p[0]); close(p[1]);
}
int main(int c, char** a) {
  oracle::init(c, a); os::start(); arpc::context::current();
  while (oracle::more(1.0)) { oracle::begin("selecting"); for (int i = 0; i < 50; i++) selecting(rng.coin()); oracle::begin("giving up"); for (int i = 0; i < 10; i++) giving_up(); }
  return oracle::done();
}
