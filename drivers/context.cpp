// Contexts (A06): each entry is one operation of the public interface, on a context built by its own constructors.
#include <utility>
#include "ghost.h"
#include "arpc/context.h"
using arpc::awaitable; using arpc::context; using arpc::flag; using arpc::shield;
struct one : arpc::dynamic<one> { int x = 0; };
struct two : arpc::dynamic<two> { int x = 0; };
template <> std::string_view arpc::detail::dynamic_class_descriptor<one>::class_name = "one";
template <> std::string_view arpc::detail::dynamic_class_descriptor<two>::class_name = "two";
using clk = std::chrono::system_clock;
using kids_t = decltype(context::children_); using data_t = decltype(context::data_); using when_t = std::optional<context::time_point>;
extern "C" {
void ghost_ready();
void ghost_wait(void* f);
std::size_t k_sizeof() { return sizeof(context); } std::size_t k_shield_sizeof() { return sizeof(shield); }
void k_root(void* p) { new (p) context(context::root{}); }
void k_new(void* p, context* c, bool cur, bool sh) { new (p) context(*c, cur, sh); }
void k_new0(void* p) { new (p) context; }
void k_shield(void* p) { new (p) shield; }
void k_drop(context* c) { c->~context(); }
void k_cancel(context* c) { c->cancel(); }
bool k_is_cancelled(const context* c) { return c->is_cancelled(); }
bool k_deadline(const context* c, long* out) { auto d = c->deadline(); if (d) *out = d->time_since_epoch().count(); return bool(d); }
bool k_deadline_left(const context* c, long* out) { auto d = c->deadline_left(); if (d) *out = d->count(); return bool(d); }
void k_set_deadline(context* c, long t) { c->set_deadline(context::time_point(context::duration(t))); }
void k_set_timeout(context* c, long t) { c->set_timeout(context::duration(t)); }
context* k_current() { return &context::current(); }
context* k_top() { return &context::top(); }
#define REACT(A) auto w = A; *fd = w.get_fd(); *out = w.for_write(); *ms = w.timeout().count(); *poll = w.for_polling(); ghost_ready()
void k_wait_cancelled(context* c, int* fd, bool* out, long* ms, bool* poll) { REACT(c->wait_cancelled()); w.get_react_fn()(); }
void k_wait_deadline(context* c, int* fd, bool* out, long* ms, bool* poll) { REACT(c->wait_deadline()); w.get_react_fn()(); }
void k_set(context* c, int x) { one o; o.x = x; c->set(o); }
void k_set_move(context* c, int x) { one o; o.x = x; c->set(std::move(o)); }
void k_set_both(context* c, int x, int y) { one o; o.x = x; two t; t.x = y; c->set(o, t); }
void k_reset(context* c) { c->reset<one>(); }
void k_reset_both(context* c) { c->reset<one, two>(); }
void k_reset_all(context* c) { c->reset_all(); }
void k_set_data(context* c, int x, int y) { std::vector<std::shared_ptr<arpc::dynamic_base_class>> v; auto a = std::make_shared<one>(); a->x = x; auto b = std::make_shared<two>(); b->x = y; v.push_back(a); v.push_back(b); c->set_data(std::move(v)); }
// how many, and which
long k_data(const context* c, const arpc::dynamic_base_class** out) { auto v = c->data(); long n = 0; for (auto& p : v) if (n < 2) out[n++] = p.get(); return v.size() == std::size_t(n) ? n : -1; }
int k_get(const context* c) { return c->get<one>().x; }
// the contract of flag::async_wait: ready when the flag is set, and then only looks at it
void g_async_wait(void* p, flag* f) { new (p) awaitable<void>(awaitable<void>(7).then([f] { ghost_wait(f); })); }
// a value some thread may have stored
void g_one(void* p, int x) { one o; o.x = x; new (p) std::shared_ptr<const arpc::dynamic_base_class>(std::make_shared<const one>(o)); }
void g_two(void* p, int x) { two o; o.x = x; new (p) std::shared_ptr<const arpc::dynamic_base_class>(std::make_shared<const two>(o)); }
int g_x1(const std::shared_ptr<const arpc::dynamic_base_class>* p) { return static_cast<const one&>(**p).x; }
int g_x2(const std::shared_ptr<const arpc::dynamic_base_class>* p) { return static_cast<const two&>(**p).x; }
// representation
context** rep_current() { return &context::current_; }
when_t* rep_when(context* c) { return &c->deadline_; }
std::mutex* rep_data_mu(context* c) { return &c->data_mu_; } std::mutex* rep_kids_mu(context* c) { return &c->children_mu_; }
std::condition_variable* rep_cv(context* c) { return &c->child_detached_; }
kids_t* rep_kids(context* c) { return &c->children_; } data_t* rep_data(context* c) { return &c->data_; } flag* rep_flag(context* c) { return &c->cancelled_; }
void rep_set_when(context* c, bool b, long t) { if (b) c->deadline_ = context::time_point(context::duration(t)); else c->deadline_.reset(); }
bool rep_get_when(const context* c, long* t) { if (c->deadline_) *t = c->deadline_->time_since_epoch().count(); return bool(c->deadline_); }
}
