// Queues and semaphores (A03): each entry is one operation of the public interface.
#include <utility>
#include "ghost.h"
#include "arpc/queue.h"
#include "arpc/semaphore.h"
using arpc::awaitable; using arpc::flag;
using Q = arpc::queue<int>; using S = arpc::semaphore;
extern "C" {
void ghost_ready();
void ghost_wait(void* f);
#define REACT(A) auto w = A; *fd = w.get_fd(); *out = w.for_write(); *ms = w.timeout().count(); ghost_ready()
#define BOTH(X, T) \
  std::size_t X##_sizeof() { return sizeof(T); } \
  void X##_new(void* p, std::size_t n) { new (p) T(n); } \
  void X##_drop(T* q) { q->~T(); } \
  std::size_t X##_size(const T* q) { return q->size(); } \
  std::size_t X##_max_size(const T* q) { return q->max_size(); } \
  std::size_t X##_capacity(const T* q) { return q->capacity(); } \
  bool X##_empty(const T* q) { return q->empty(); } \
  bool X##_full(const T* q) { return q->full(); } \
  void X##_can_get(T* q, int* fd, bool* out, long* ms) { REACT(q->can_get()); w.get_react_fn()(); } \
  void X##_can_put(T* q, int* fd, bool* out, long* ms) { REACT(q->can_put()); w.get_react_fn()(); }
BOTH(q, Q) BOTH(s, S)
void q_new0(void* p) { new (p) Q; }
void q_maybe_put(Q* q, const int* v) { q->maybe_put(*v); }
void q_maybe_put_move(Q* q, int* v) { q->maybe_put(std::move(*v)); }
int q_maybe_get(Q* q) { return q->maybe_get(); }
void q_put(Q* q, const int* v) { q->put(*v); }
int q_get(Q* q) { return q->get(); }
void q_async_put(Q* q, const int* v, int* fd, bool* out, long* ms) { REACT(q->async_put(*v)); w.get_react_fn()(); }
int q_async_get(Q* q, int* fd, bool* out, long* ms) { REACT(q->async_get()); return w.get_react_fn()(); }
void s_maybe_put(S* q) { q->maybe_put(); }
void s_maybe_get(S* q) { q->maybe_get(); }
void s_put(S* q) { q->put(); }
void s_get(S* q) { q->get(); }
void s_async_put(S* q, int* fd, bool* out, long* ms) { REACT(q->async_put()); w.get_react_fn()(); }
void s_async_get(S* q, int* fd, bool* out, long* ms) { REACT(q->async_get()); w.get_react_fn()(); }
// the contract of flag::async_wait: ready when the flag is set, and then only looks at it
void g_async_wait(void* p, flag* f) { new (p) awaitable<void>(awaitable<void>(7).then([f] { ghost_wait(f); })); }
// the contract of select on one awaitable is stated over this: its action run once, when its descriptor is ready
void g_one(void* p, awaitable<void>* a) { pollfd fd{0, 0, 1}; new (p) std::tuple<arpc::result_holder<void>>(arpc::detail::make_one_select_result(*a, fd, false, std::chrono::milliseconds(-1), false)); }
bool g_done(std::tuple<arpc::result_holder<void>>* r) { return std::get<0>(*r).has_value(); }
void g_one_int(void* p, awaitable<int>* a) { pollfd fd{0, 0, 1}; new (p) std::tuple<arpc::result_holder<int>>(arpc::detail::make_one_select_result(*a, fd, false, std::chrono::milliseconds(-1), false)); }
bool g_done_int(std::tuple<arpc::result_holder<int>>* r) { return std::get<0>(*r).has_value(); }
// representation
std::size_t* rep_size(S* q) { return &q->size_; }
}
