// select (A07): every combination of descriptors and timeouts, any readiness, any outcome of the actions.
#include <utility>
#include <vector>
#include "ghost.h"
#include "arpc/select.h"
using arpc::awaitable; using arpc::result_holder; using std::chrono::milliseconds;
extern "C" {
int ghost_act_int(int k);
void ghost_act(int k);
}
using R2 = std::tuple<result_holder<int>, result_holder<void>>; using R1 = std::tuple<result_holder<int>>;
static auto on_fd(int fd, bool w) { return awaitable<void>(fd, w); }
static auto on_time(long ms, bool p) { return awaitable<void>(milliseconds(ms), p); }
extern "C" {
void sel_f(void* out, int f, bool w) { new (out) R1(arpc::select(on_fd(f, w).then([] { return ghost_act_int(0); }))); }
void sel_t(void* out, long ms, bool p) { new (out) R1(arpc::select(on_time(ms, p).then([] { return ghost_act_int(0); }))); }
void sel_ff(void* out, int f, bool w, int g, bool v) { new (out) R2(arpc::select(on_fd(f, w).then([] { return ghost_act_int(0); }), on_fd(g, v).then([] { ghost_act(1); }))); }
void sel_ft(void* out, int f, bool w, long ms, bool p) { new (out) R2(arpc::select(on_fd(f, w).then([] { return ghost_act_int(0); }), on_time(ms, p).then([] { ghost_act(1); }))); }
void sel_tf(void* out, long ms, bool p, int f, bool w) { new (out) R2(arpc::select(on_time(ms, p).then([] { return ghost_act_int(0); }), on_fd(f, w).then([] { ghost_act(1); }))); }
void sel_tt(void* out, long ms, bool p, long ns, bool q) { new (out) R2(arpc::select(on_time(ms, p).then([] { return ghost_act_int(0); }), on_time(ns, q).then([] { ghost_act(1); }))); }
// the context's awaitables
void sel_cancel(void* out, int f) { new (out) awaitable<void>(on_fd(f, false).then([] { ghost_act(2); })); }
void sel_deadline(void* out, long ms) { new (out) awaitable<void>(on_time(ms, false).then([] { ghost_act(3); })); }
void sel_never(void* out) { new (out) awaitable<void>(arpc::never()); }
// what came out
bool r1_has(R1* r) { return std::get<0>(*r).has_value(); } int r1_get(R1* r) { return *std::get<0>(*r); }
bool r2_has0(R2* r) { return std::get<0>(*r).has_value(); } int r2_get0(R2* r) { return *std::get<0>(*r); }
bool r2_has1(R2* r) { return std::get<1>(*r).has_value(); } void r2_get1(R2* r) { *std::get<1>(*r); }
std::size_t r1_sizeof() { return sizeof(R1); } std::size_t r2_sizeof() { return sizeof(R2); }
}
