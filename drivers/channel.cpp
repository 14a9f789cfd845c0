// Channels, pipes, files and sockets (A01, A02): each entry is one operation of the public interface.
#include <string>
#include <utility>
#include "ghost.h"
#include "arpc/channel.h"
#include "arpc/file.h"
#include "arpc/pipe.h"
namespace arpc { channel socket(int family, int type, int protocol); channel socket(const address& addr); }
using arpc::channel; using arpc::address;
extern "C" {
std::size_t c_sizeof() { return sizeof(channel); }
void c_new(void* p) { new (p) channel; }
void c_of(void* p, int fd) { new (p) channel(fd); }
void c_move(void* p, channel* c) { new (p) channel(std::move(*c)); }
void c_drop(channel* c) { c->~channel(); }
void c_swap(channel* a, channel* b) { a->swap(*b); }
channel* c_assign(channel* a, channel* b) { return &(*a = std::move(*b)); }
int c_release(channel* c) { return c->release(); }
int c_get(const channel* c) { return c->get(); }
int c_deref(const channel* c) { return **c; }
bool c_bool(const channel* c) { return static_cast<bool>(*c); }
void c_reset(channel* c, int fd) { c->reset(fd); }
void c_reset0(channel* c) { c->reset(); }
void c_close(channel* c) { c->close(); }
void c_dup(void* p, const channel* c) { new (p) channel(c->dup()); }
void c_accept(void* p, channel* c) { new (p) channel(c->maybe_accept()); }
void c_accept_from(void* p, channel* c, address* a) { new (p) channel(c->maybe_accept(*a)); }
void c_pipe(channel* c) { arpc::pipe(c); }
void c_file(void* p, const std::string* path, int mode) { new (p) channel(arpc::file(*path, static_cast<arpc::open_mode>(mode))); }
void c_socket(void* p, int f, int t, int r) { new (p) channel(arpc::socket(f, t, r)); }
void c_socket_for(void* p, const address* a) { new (p) channel(arpc::socket(*a)); }
std::size_t c_read(channel* c, void* b, std::size_t n) { return c->maybe_read(b, n); }
std::size_t c_write(channel* c, const void* b, std::size_t n) { return c->maybe_write(b, n); }
channel* c_non_blocking(channel* c, bool b) { return &c->make_non_blocking(b); }
channel* c_flush(channel* c) { return &c->flush(); }
channel* c_shutdown(channel* c, bool r, bool w) { return &c->shutdown(r, w); }
channel* c_bind(channel* c, const address* a) { return &c->bind(*a); }
channel* c_listen(channel* c, int n) { return &c->listen(n); }
channel* c_keep_alive(channel* c, bool b) { return &c->keep_alive(b); }
channel* c_reuse_addr(channel* c, bool b) { return &c->reuse_addr(b); }
channel* c_reuse_port(channel* c, bool b) { return &c->reuse_port(b); }
channel* c_no_delay(channel* c, bool b) { return &c->no_delay(b); }
channel* c_linger(channel* c, bool b, long s) { return &c->linger(b, std::chrono::seconds(s)); }
void c_own_addr(void* p, const channel* c) { new (p) address(c->own_addr()); }
void c_peer_addr(void* p, const channel* c) { new (p) address(c->peer_addr()); }
// the awaitables: what is waited for, then what happens when it is ready
#define REACT(A) auto w = A; *fd = w.get_fd(); *out = w.for_write(); *ms = w.timeout().count(); ghost_ready()
void ghost_ready();
void c_can_read(channel* c, int* fd, bool* out, long* ms) { REACT(c->can_read()); w.get_react_fn()(); }
void c_can_write(channel* c, int* fd, bool* out, long* ms) { REACT(c->can_write()); w.get_react_fn()(); }
std::size_t c_async_read(channel* c, void* b, std::size_t n, int* fd, bool* out, long* ms) { REACT(c->async_read(b, n)); return w.get_react_fn()(); }
std::size_t c_async_write(channel* c, const void* b, std::size_t n, int* fd, bool* out, long* ms) { REACT(c->async_write(b, n)); return w.get_react_fn()(); }
void c_async_connect(channel* c, const address* a, int* fd, bool* out, long* ms) { REACT(c->async_connect(*a)); w.get_react_fn()(); }
void c_async_accept(void* p, channel* c, int* fd, bool* out, long* ms) { REACT(c->async_accept()); new (p) channel(w.get_react_fn()()); }
void c_async_accept_from(void* p, channel* c, address* a, int* fd, bool* out, long* ms) { REACT(c->async_accept(*a)); new (p) channel(w.get_react_fn()()); }
// addresses
void* a_wdata(address* a) { return a->address_data(); } unsigned* a_wsize(address* a) { return &a->address_size(); } std::size_t a_sizeof() { return sizeof(address); } void a_make(void* p) { new (p) address(); } std::size_t a_storage() { return sizeof(struct sockaddr_storage); }
int* a_wfamily(address* a) { return &a->family(); } int* a_wtype(address* a) { return &a->socket_type(); } int* a_wprotocol(address* a) { return &a->protocol(); }
int a_family(const address* a) { return a->family(); } int a_type(const address* a) { return a->socket_type(); } int a_protocol(const address* a) { return a->protocol(); } unsigned a_size(const address* a) { return a->address_size(); } const void* a_data(const address* a) { return a->address_data(); } void a_drop(address* a) { a->~address(); }
}
