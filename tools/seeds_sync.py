"""Planted bugs in the half of the library that needs function2 (channels, queues, flags, mutexes, select)."""
LINK = "channel pipe file socket address errors registry flag mutex context awaitable dynamic_base_class address_resolver executor future wait"
H = r'''
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <atomic>
#include <thread>
#include <fcntl.h>
#include <unistd.h>
#include <poll.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include "arpc/channel.h"
#include "arpc/pipe.h"
#include "arpc/file.h"
#include "arpc/socket.h"
#include "arpc/flag.h"
#include "arpc/mutex.h"
#include "arpc/queue.h"
#include "arpc/select.h"
#include "arpc/context.h"
#define CHECK(...) do { if (!(__VA_ARGS__)) { fprintf(stderr, "failed: %s (line %d)\n", #__VA_ARGS__, __LINE__); _exit(1); } } while (0)
static bool is_open(int fd) { return fcntl(fd, F_GETFD) >= 0; }
static bool readable(int fd) { pollfd p{fd, POLLIN, 0}; return poll(&p, 1, 0) == 1; }
template <typename A> bool done(A&& a) { auto [r, t] = arpc::select(std::forward<A>(a), arpc::timeout(std::chrono::milliseconds(20))); return bool(r); }
'''
SEEDS = []
def seed(id, needs, breaks, edits, main, pre=""):
    SEEDS.append(dict(id=id, needs=needs, breaks=breaks, edits=edits, demo=H + pre + "int main() { alarm(60);\n" + main + "\n  return 0; }\n", link=LINK, dep=["function2/function2.hpp"], flags='-O1 -I"$here"'))
seed("A01_assign_swap", "the moved-from channel is still alive when the old descriptor has to be closed", "reassigning a channel does not close the descriptor it owned: the source keeps it", [("channel.cpp", "  channel tmp;\n  tmp.swap(fd);\n  swap(tmp);\n  return *this;", "  if (this != &fd) swap(fd);\n  return *this;")],
  r'''int p[2]; CHECK(!pipe(p)); arpc::channel a(p[0]), b(p[1]); a = std::move(b); CHECK(a.get() == p[1]); CHECK(!is_open(p[0])); CHECK(b.get() == -1);''')
seed("A01_zero_leaks", "descriptor 0", "descriptor 0 is taken for no descriptor: it is not closed", [("channel.cpp", "  if (fd_ >= 0) {\n    ::close", "  if (fd_ > 0) {\n    ::close")],
  r'''int p[2]; CHECK(!pipe(p)); close(0); int z = ::dup(p[0]); CHECK(z == 0); { arpc::channel c(z); } CHECK(!is_open(0));''')
seed("A01_pipe_forgets", "pipe() called with channels that already own something", "the descriptor the second channel owned is never closed", [("pipe.cpp", "  fds[1].reset(fd[1]);", "  fds[1].release();\n  fds[1].reset(fd[1]);")],
  r'''arpc::channel c[2]; arpc::pipe(c); int a = ::dup(c[0].get()), b = ::dup(c[1].get()); c[0].reset(a); c[1].reset(b); arpc::pipe(c); if (c[0].get() != a && c[1].get() != a) CHECK(!is_open(a)); int n = 0; for (int i = 3; i < 64; i++) n += is_open(i); CHECK(n == 2);''')
seed("A01_accept_fd", "a connection accepted with its address while the address does not fit", "the accepted descriptor is lost when the peer's address is longer than the room given", [("channel.cpp", "  channel c(::accept(fd_, addr.address_data(), &addr.address_size()));\n  if (!c) throw_io_error(\"Accept error\");\n  return c;", "  const auto room = addr.address_size();\n  int fd = ::accept(fd_, addr.address_data(), &addr.address_size());\n  if (fd < 0) throw_io_error(\"Accept error\");\n  if (addr.address_size() > room)\n    throw errors::out_of_range(\"Address was truncated\");\n  return channel(fd);")],
  r'''arpc::address a; a.address_size() = 4; try { arpc::channel l(7); arpc::channel c = l.maybe_accept(a); l.release(); c.release(); CHECK(c.get() == -1); } catch (const arpc::errors::base_error&) { CHECK(closed); }''', r'''static bool closed = false;
extern "C" int accept(int, sockaddr* s, socklen_t* l) { *l = 16; return 1000; }
extern "C" int close(int fd) { if (fd == 1000) { closed = true; return 0; } return fd == 7 ? 0 : (int)syscall(SYS_close, fd); }
''')
seed("A02_blocking_toggles", "make_non_blocking(false) on a descriptor that blocks already", "making a blocking descriptor blocking makes it non-blocking", [("channel.cpp", "(flags & ~O_NONBLOCK)", "(flags ^ O_NONBLOCK)")],
  r'''arpc::channel c[2]; arpc::pipe(c); c[0].make_non_blocking(false); CHECK(!(fcntl(c[0].get(), F_GETFL) & O_NONBLOCK)); c[0].make_non_blocking(); c[0].make_non_blocking(); CHECK(fcntl(c[0].get(), F_GETFL) & O_NONBLOCK);''')
seed("A02_append_plus", "a file opened for reading and appending that someone else makes longer", "a file opened in the reading and appending mode overwrites its content", [("file.cpp", "      O_RDWR | O_CREAT | O_APPEND,    // APPEND\n", "      O_RDWR | O_CREAT,               // APPEND\n")],
  r'''char d[] = "demo-XXXXXX"; CHECK(mkdtemp(d)); std::string f = std::string(d) + "/f"; { auto a = arpc::file(f, arpc::open_mode::WRITE); CHECK(a.maybe_write("12345", 5) == 5); } { auto a = arpc::file(f, arpc::open_mode::APPEND_PLUS); CHECK(a.maybe_write("67", 2) == 2); } struct stat s; CHECK(!stat(f.c_str(), &s)); unlink(f.c_str()); rmdir(d); CHECK(s.st_size == 7);''')
seed("A02_late_refusal", "a connection attempt that fails after connect() has returned", "a connection that the system reports as failed once it is decided is taken for connected", [("channel.cpp", "    if (err) throw_io_error(\"Connection error\", err);", "    if (err) throw_io_error(\"Connection error\");")],
  r'''int p[2]; CHECK(!socketpair(AF_UNIX, SOCK_STREAM, 0, p)); arpc::channel c(p[0]); arpc::address a; bool threw = false; try { auto w = c.async_connect(a); errno = EINPROGRESS; w.get_react_fn()(); } catch (const arpc::errors::base_error&) { threw = true; } CHECK(threw);''', r'''#include <cerrno>
extern "C" int connect(int, const sockaddr*, socklen_t) { return 0; }
extern "C" int getsockopt(int, int, int, void* v, socklen_t*) noexcept { int e = ECONNREFUSED; memcpy(v, &e, sizeof e); return 0; }
''')
seed("A02_eof_once", "an empty read on a channel at its end", "the end of input is reported as an empty read instead of the eof error when it comes with a would-be retry", [("channel.cpp", "  if (num == 0) throw errors::eof(\"End of channel\");\n  return static_cast<std::size_t>(num);\n}\n\nawaitable<std::size_t> channel::async_read", "  if (num == 0 && len > 1) throw errors::eof(\"End of channel\");\n  return static_cast<std::size_t>(num);\n}\n\nawaitable<std::size_t> channel::async_read")],
  r'''arpc::channel c[2]; arpc::pipe(c); c[1].close(); bool eof = false; char x; try { c[0].maybe_read(&x, 1); } catch (const arpc::errors::eof&) { eof = true; } CHECK(eof);''')
seed("A03_get_flags", "a queue of capacity two or more that was full before a get", "after a get from a full queue that leaves elements, the queue is not ready for put", [("queue.h", "    result = std::move(data_.front());\n    data_.pop();\n    update_flags();", "    result = std::move(data_.front());\n    data_.pop();\n    if (data_.empty()) update_flags();")],
  r'''arpc::queue<int> q(3); for (int i = 0; i < 3; i++) q.maybe_put(i); CHECK(q.maybe_get() == 0); CHECK(q.size() == 2); CHECK(done(q.can_put())); CHECK(done(q.can_get()));''')
seed("A03_failed_get", "a get that fails on an empty signal queue", "a failed get changes the count: the queue then has 2^64-1 elements", [("queue.h", "    if (size_ == 0) throw errors::try_again(\"Queue is empty\");\n    size_--;", "    if (size_-- == 0) throw errors::try_again(\"Queue is empty\");")],
  r'''arpc::queue<void> q(3); bool again = false; try { q.maybe_get(); } catch (const arpc::errors::try_again&) { again = true; } CHECK(again); CHECK(q.size() == 0); CHECK(q.empty());''')
seed("A03_put_before_check", "a put on a full queue", "a put on a full queue fails but leaves its element in the queue, which then exceeds its capacity", [("queue.h", "    if (data_.size() == max_size_) throw errors::try_again(\"Queue is full\");\n    data_.push(std::forward<U>(u));\n    update_flags();", "    data_.push(std::forward<U>(u));\n    if (data_.size() > max_size_) throw errors::try_again(\"Queue is full\");\n    update_flags();")],
  r'''arpc::queue<int> q(2); q.maybe_put(1); q.maybe_put(2); bool again = false; try { q.maybe_put(3); } catch (const arpc::errors::try_again&) { again = true; } CHECK(again); CHECK(q.size() == 2); q.maybe_get(); q.maybe_get(); CHECK(q.empty());''')
seed("A03_no_room", "a queue of capacity zero", "a queue without room claims to be ready for put", [("queue.h", "    if (data_.size() == max_size_) {\n      can_put_.reset();", "    if (max_size_ && data_.size() == max_size_) {\n      can_put_.reset();")],
  r'''arpc::queue<int> q(0); CHECK(!done(q.can_put())); CHECK(!done(q.can_get())); CHECK(q.full());''')
seed("A04_check_outside", "two threads set the flag at the same time", "the state is looked at before taking the lock: two setters both write, and the flag stays ready after it is reset", [("flag.cpp", "  std::scoped_lock lock(mu_);\n  if (!set_) {\n    pipe_[1].maybe_write(\"*\", 1);\n    set_ = true;\n  }", "  if (set_) return;\n  std::scoped_lock lock(mu_);\n  pipe_[1].maybe_write(\"*\", 1);\n  set_ = true;")],
  r'''arpc::flag f; slow = true; std::thread a([&] { f.set(); }), b([&] { usleep(100000); f.set(); }); a.join(); b.join(); slow = false; CHECK(f.is_set()); f.reset(); auto w = f.async_wait(); CHECK(!readable(w.get_fd()));''', r'''static std::atomic<bool> slow{false};
extern "C" ssize_t write(int fd, const void* p, size_t n) { if (slow) usleep(400000); return syscall(SYS_write, fd, p, n); }
''')
seed("A04_stale_wake", "the flag is reset between a waiter's wake-up and its look at the flag", "a waiter is told the flag is set although it was reset again", [("flag.cpp", "  return pipe_[0].can_read().then([this]() {\n    if (!is_set()) {\n      throw errors::try_again(\"Flag not yet set\");\n    }\n  });", "  return pipe_[0].can_read();")],
  r'''arpc::flag f; auto w = f.async_wait(); f.set(); CHECK(readable(w.get_fd())); f.reset(); bool again = false; try { w.get_react_fn()(); } catch (const arpc::errors::try_again&) { again = true; } CHECK(again);''')
seed("A04_cancelled_unlock", "the owner unlocks in a context that was cancelled", "unlocking fails in a cancelled context and the mutex stays held", [("mutex.cpp", "void mutex::unlock() {\n  pipe_[1].maybe_write(\"*\", 1);", "void mutex::unlock() {\n  pipe_[1].write(\"*\", 1);")],
  r'''arpc::mutex m; m.lock(); { arpc::context c; c.cancel(); bool threw = false; try { m.unlock(); } catch (const arpc::errors::base_error&) { threw = true; } CHECK(!threw); } CHECK(m.try_lock());''')
seed("A04_lock_keeps_free", "two contenders for a free mutex", "waiting for the mutex does not take it: two owners", [("mutex.cpp", "  return can_lock().then([this]() { maybe_lock(); });", "  return can_lock().then([this]() { if (!try_lock()) return; });")],
  r'''arpc::mutex m; auto a = m.async_lock(), b = m.async_lock(); int got = 0; for (auto* w : {&a, &b}) try { w->get_react_fn()(); got++; } catch (const arpc::errors::try_again&) {} CHECK(got == 1);''')
seed("A07_hangup", "a peer that hangs up without data", "a descriptor of which only the hang-up is reported is not taken for ready: select spins for ever", [("select.h", "    active = (fd.revents != 0);", "    active = (fd.revents & (POLLIN | POLLOUT)) != 0;")],
  r'''alarm(10); int p[2]; CHECK(!pipe(p)); close(p[1]); auto [r, t] = arpc::select(arpc::awaitable<void>(p[0]), arpc::timeout(std::chrono::milliseconds(300))); CHECK(bool(r)); CHECK(!bool(t));''')
seed("A07_list_first", "a list of awaitables of which not the first is ready", "all of a list are judged by the first one's readiness", [("select.h", "make_one_select_result(a, *fd++, was_timeout, min_timeout, min_timeout_is_polling));", "make_one_select_result(a, *fd, was_timeout, min_timeout, min_timeout_is_polling));")],
  r'''alarm(10); int p[2], q[2]; CHECK(!pipe(p) && !pipe(q)); CHECK(write(q[1], "x", 1) == 1); std::vector<arpc::awaitable<void>> v; v.emplace_back(p[0]); v.emplace_back(q[0]); auto [l, t] = arpc::select(std::move(v), arpc::timeout(std::chrono::milliseconds(300))); CHECK(l.size() == 2 && !l[0] && bool(l[1]));''')
seed("A07_late_timeout", "several timeouts that differ", "every timeout is reported when the shortest has passed", [("select.h", "              (a.timeout() <= min_timeout || (min_timeout_is_polling && a.for_polling())));", "              (a.timeout() >= min_timeout || (min_timeout_is_polling && a.for_polling())));")],
  r'''auto [a, b] = arpc::select(arpc::timeout(std::chrono::milliseconds(10)), arpc::timeout(std::chrono::milliseconds(100000))); CHECK(bool(a)); CHECK(!bool(b));''')
seed("A07_direction", "an awaitable for writing with an added continuation", "an awaitable that was given a continuation waits for reading instead of writing", [("awaitable.h", "        for_write_(old.for_write_),\n", "")],
  r'''arpc::channel c[2]; arpc::pipe(c); auto w = c[1].can_write().then([]() {}); CHECK(w.for_write()); CHECK(done(std::move(w)));''')
seed("A07_cancel_after_action", "the context is cancelled while a descriptor is ready as well", "the action of a ready awaitable runs, and its result is lost, although the context was cancelled", [("select.h", "    auto res(detail::make_select_result(a, fds.data(), pres == 0, min_timeout,\n                                        min_timeout_is_polling,\n                                        mpt::make_index_sequence<n - 2>{}));\n\n", ""),
  ("select.h", "    // Give up before running any action, as its result would be lost.\n", "    auto res(detail::make_select_result(a, fds.data(), pres == 0, min_timeout,\n                                        min_timeout_is_polling,\n                                        mpt::make_index_sequence<n - 2>{}));\n\n")],
  r'''int p[2]; CHECK(!pipe(p)); CHECK(write(p[1], "x", 1) == 1); int ran = 0; arpc::context c; c.cancel(); try { auto [r] = arpc::select(arpc::awaitable<void>(p[0]).then([&] { ran++; })); } catch (const arpc::errors::cancelled&) {} CHECK(ran == 0);''')

CPRE = r'''
using arpc::context; using clk = std::chrono::system_clock; namespace er = arpc::errors;
struct alpha : arpc::dynamic<alpha> { int x = 0; };
template <> std::string_view arpc::detail::dynamic_class_descriptor<alpha>::class_name = "alpha";
static context::time_point in(int s) { return std::chrono::time_point_cast<context::duration>(clk::now()) + std::chrono::seconds(s); }
'''
seed("A06_late_child", "the first child made below a context after that was cancelled", "a context made below a cancelled one that has no other children is not cancelled", [("context.cpp", "  children_.insert(child);\n  if (cancelled_) {", "  const bool first = children_.empty();\n  children_.insert(child);\n  if (cancelled_ && !first) {")],
  r'''context p(context::top(), false); p.cancel(); context c(p, false); context d(p, false); CHECK(d.is_cancelled()); CHECK(c.is_cancelled());''', CPRE)
seed("A06_shield_bare", "a shield in a context with a deadline", "a shielded context does not keep its parent's deadline", [("context.cpp", "    deadline_ = parent_->deadline_;", "    if (!shield) deadline_ = parent_->deadline_;")],
  r'''context p(context::top(), true); p.set_deadline(in(100)); arpc::shield s; CHECK(s.deadline() == p.deadline());''', CPRE)
seed("A06_extend", "a deadline that passed already is replaced by a later one", "a deadline that has passed can be put off", [("context.cpp", "  if (!deadline_ || *deadline_ > when) {", "  if (!deadline_ || *deadline_ > when ||\n      *deadline_ < std::chrono::system_clock::now()) {")],
  r'''context p(context::top(), false); auto past = in(-10); p.set_deadline(past); p.set_deadline(in(100)); CHECK(p.deadline() == past);''', CPRE)
seed("A06_restore", "a current context made below one that is not current", "the end of a context leaves its parent current instead of the one that was before", [("context.cpp", "  if (set_current_) current_ = previous_;", "  if (set_current_) current_ = parent_ ? parent_ : previous_;")],
  r'''context p(context::top(), false); context q(context::top(), true); { context c(p, true); CHECK(&context::current() == &c); } CHECK(&context::current() == &q);''', CPRE)
seed("A06_in_place", "data set again after a child has inherited it", "setting data that is set already changes the object that children and parents share", [("context.h", "    data_[t.portable_class_name()] =\n        std::make_shared<const std::decay_t<T>>(std::forward<T>(t));", "    auto& p = data_[t.portable_class_name()];\n    if (p) {\n      const_cast<std::decay_t<T>&>(\n          static_cast<const std::decay_t<T>&>(*p)) = std::forward<T>(t);\n    } else {\n      p = std::make_shared<const std::decay_t<T>>(std::forward<T>(t));\n    }")],
  r'''context p(context::top(), false); alpha a; a.x = 1; p.set(a); context c(p, false); a.x = 2; c.set(a); CHECK(c.get<alpha>().x == 2); CHECK(p.get<alpha>().x == 1);''', CPRE)
seed("A06_cancel_stops", "several children of which one is cancelled already", "cancelling stops at the first child that is cancelled already", [("context.cpp", "  for (auto* child : children_) {\n    child->cancel();", "  for (auto* child : children_) {\n    if (child->is_cancelled()) break;\n    child->cancel();")],
  r'''context p(context::top(), false); context a(p, false), b(p, false), c(p, false); b.cancel(); p.cancel(); CHECK(a.is_cancelled() && b.is_cancelled() && c.is_cancelled());''', CPRE)
seed("A06_leaves_early", "a context destroyed while another thread still has children of it", "the end of a context waits for one child only, not for all", [("context.cpp", "  child_detached_.wait(lock, [this]() { return children_.empty(); });", "  const auto before = children_.size();\n  child_detached_.wait(lock, [&]() {\n    return children_.empty() || children_.size() < before;\n  });")],
  r'''alarm(20); std::atomic<int> up{0}; std::atomic<bool> slow{false}; auto* p = new context(context::top(), false); auto run = [&](int ms) { context c(*p, true); up++; try { auto [r] = arpc::select(arpc::never()); (void)r; } catch (const er::cancelled&) { } std::this_thread::sleep_for(std::chrono::milliseconds(ms)); if (ms > 200) slow = true; };
  std::thread a(run, 1), b(run, 500); while (up < 2) std::this_thread::yield(); void* mem = p; p->~context(); CHECK(slow); a.join(); b.join(); operator delete(mem);''', CPRE)
seed("A06_unlocked_deadline", "two threads bring the deadline of one context forward at the same time", "the deadline is compared and replaced in two steps: the later of two wins", [("context.cpp", "  std::scoped_lock lock(data_mu_);\n  if (!deadline_ || *deadline_ > when) {\n    deadline_ = when;", "  if (const auto now = deadline(); !now || *now > when) {\n    std::scoped_lock lock(data_mu_);\n    deadline_ = when;")],
  r'''for (int round = 0; round < 20000; round++) { context p(context::top(), false); auto x = in(100), y = in(200); std::atomic<int> go{0}; std::thread t([&] { go++; while (go < 2); p.set_deadline(y); }); go++; while (go < 2); p.set_deadline(x); t.join(); CHECK(p.deadline() == x); }''', CPRE)
