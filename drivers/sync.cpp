// Flags and mutexes (A04): each entry is one operation of the public interface.
#include <utility>
#include "ghost.h"
#include "arpc/flag.h"
#include "arpc/mutex.h"
#include "arpc/select.h"
using arpc::awaitable; using arpc::flag; using arpc::mutex;
extern "C" {
void ghost_ready();
std::size_t f_sizeof() { return sizeof(flag); } std::size_t m_sizeof() { return sizeof(mutex); }
void f_new(void* p) { new (p) flag; }
void f_drop(flag* f) { f->~flag(); }
void f_set(flag* f) { f->set(); }
void f_reset(flag* f) { f->reset(); }
bool f_is_set(const flag* f) { return f->is_set(); }
bool f_bool(const flag* f) { return static_cast<bool>(*f); }
void f_wait(flag* f) { f->wait(); }
#define REACT(A) auto w = A; *fd = w.get_fd(); *out = w.for_write(); *ms = w.timeout().count(); ghost_ready()
void f_async_wait(flag* f, int* fd, bool* out, long* ms) { REACT(f->async_wait()); w.get_react_fn()(); }
void m_new(void* p) { new (p) mutex; }
void m_drop(mutex* m) { m->~mutex(); }
void m_lock(mutex* m) { m->lock(); }
void m_maybe_lock(mutex* m) { m->maybe_lock(); }
bool m_try_lock(mutex* m) { return m->try_lock(); }
void m_unlock(mutex* m) { m->unlock(); }
void m_can_lock(mutex* m, int* fd, bool* out, long* ms) { REACT(m->can_lock()); w.get_react_fn()(); }
void m_async_lock(mutex* m, int* fd, bool* out, long* ms) { REACT(m->async_lock()); w.get_react_fn()(); }
// the contract of select on one awaitable is stated over this: its action run once, when its descriptor is ready
void s_one(void* p, awaitable<void>* a) { pollfd fd{0, 0, 1}; new (p) std::tuple<arpc::result_holder<void>>(arpc::detail::make_one_select_result(*a, fd, false, std::chrono::milliseconds(-1), false)); }
bool s_done(std::tuple<arpc::result_holder<void>>* r) { return std::get<0>(*r).has_value(); }
// representation
bool* rep_set(flag* f) { return &f->set_; }
}
