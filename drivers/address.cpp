// Addresses, address lists and endpoints; address_resolver is the library's friend, standing in for the resolver (not built here).
#include <cstddef>
#include <new>
#include <utility>
#include "arpc/address.h"
namespace arpc {
class address_resolver {
 public:
  static void list(void* p, addrinfo* r) { new (p) address_list(r); }
  static const std::string* name(const endpoint* e) { return &e->name_; }
  static const std::string* service(const endpoint* e) { return &e->service_; }
  static bool passive(const endpoint* e) { return e->passive_; }
  static int family(const endpoint* e) { return e->family_; }
  static int type(const endpoint* e) { return e->sock_type_; }
};
}
using R = arpc::address_resolver; using arpc::address; using arpc::address_list; using arpc::endpoint;
extern "C" {
std::size_t a_sizeof() { return sizeof(address); }
std::size_t a_storage() { return sizeof(struct sockaddr_storage); }
void a_make(void* p) { new (p) address(); }
void a_copy(void* p, const address* a) { new (p) address(*a); }
void a_move(void* p, address* a) { new (p) address(std::move(*a)); }
void a_drop(address* a) { a->~address(); }
int a_family(const address* a) { return a->family(); }
int a_type(const address* a) { return a->socket_type(); }
int a_protocol(const address* a) { return a->protocol(); }
unsigned a_size(const address* a) { return a->address_size(); }
const void* a_data(const address* a) { return a->address_data(); }
int* a_wfamily(address* a) { return &a->family(); }
int* a_wtype(address* a) { return &a->socket_type(); }
int* a_wprotocol(address* a) { return &a->protocol(); }
unsigned* a_wsize(address* a) { return &a->address_size(); }
void* a_wdata(address* a) { return a->address_data(); }
std::size_t n_sizeof() { return sizeof(addrinfo); }
void n_node(addrinfo* n, int f, int t, int p, unsigned l, sockaddr* a, addrinfo* next) { n->ai_flags = 0; n->ai_family = f; n->ai_socktype = t; n->ai_protocol = p; n->ai_addrlen = l; n->ai_addr = a; n->ai_canonname = nullptr; n->ai_next = next; }
std::size_t n_next_offset() { return offsetof(addrinfo, ai_next); }
std::size_t l_sizeof() { return sizeof(address_list); }
void l_make(void* p, addrinfo* r) { R::list(p, r); }
void l_drop(address_list* l) { l->~address_list(); }
void l_move(void* p, address_list* l) { new (p) address_list(std::move(*l)); }
void l_assign(address_list* a, address_list* b) { *a = std::move(*b); }
std::size_t l_size(const address_list* l) { return l->size(); }
bool l_empty(const address_list* l) { return l->empty(); }
const address* l_begin(address_list* l) { return l->begin().operator->(); }
const address* l_cbegin(const address_list* l) { return l->begin().operator->(); }
const address* l_ccbegin(const address_list* l) { return l->cbegin().operator->(); }
const address* l_end(address_list* l) { return l->end().operator->(); }
const address* l_cend(const address_list* l) { return l->end().operator->(); }
const address* l_ccend(const address_list* l) { return l->cend().operator->(); }
// one pass over the list: ghost_visit sees every element
void ghost_visit(const address* a);
void l_each(address_list* l) { for (auto& a : *l) ghost_visit(&a); }
void l_ceach(const address_list* l) { for (auto& a : *l) ghost_visit(&a); }
void l_post(address_list* l) { for (auto it = l->begin(); it != l->end(); it++) ghost_visit(&*it); }
void l_cpost(const address_list* l) { for (auto it = l->cbegin(); it != l->cend(); it++) ghost_visit(it.operator->()); }
// steps: the two copies of an iterator after one of them was stepped
void i_pre(address_list* l, const address** o) { auto a = l->begin(), b = a; auto& r = ++a; o[0] = a.operator->(); o[1] = b.operator->(); o[2] = r.operator->(); }
void i_post(address_list* l, const address** o) { auto a = l->begin(), b = a; auto r = a++; o[0] = a.operator->(); o[1] = b.operator->(); o[2] = r.operator->(); }
void i_cpre(const address_list* l, const address** o) { auto a = l->begin(), b = a; auto& r = ++a; o[0] = a.operator->(); o[1] = b.operator->(); o[2] = r.operator->(); }
void i_cpost(const address_list* l, const address** o) { auto a = l->begin(), b = a; auto r = a++; o[0] = a.operator->(); o[1] = b.operator->(); o[2] = r.operator->(); }
void i_swap(address_list* l, const address** o) { auto a = l->begin(), b = l->end(); a.swap(b); o[0] = a.operator->(); o[1] = b.operator->(); swap(a, b); o[2] = a.operator->(); o[3] = b.operator->(); }
void i_cswap(const address_list* l, const address** o) { auto a = l->begin(), b = l->end(); a.swap(b); o[0] = a.operator->(); o[1] = b.operator->(); swap(a, b); o[2] = a.operator->(); o[3] = b.operator->(); }
void i_convert(address_list* l, const address** o) { address_list::const_iterator a = l->begin(), b, c = l->end(); o[0] = a.operator->(); o[1] = b.operator->(); o[2] = c.operator->(); o[3] = &*l->begin(); }
bool i_eq(address_list* l, bool c) { auto a = l->begin(), b = l->end(); address_list::const_iterator x = a, y = b; return c ? x == y : a == b; }
bool i_ne(address_list* l, bool c) { auto a = l->begin(), b = l->end(); address_list::const_iterator x = a, y = b; return c ? x != y : a != b; }
std::size_t e_sizeof() { return sizeof(endpoint); }
void e_make(void* p) { new (p) endpoint(); }
void e_copy(void* p, const endpoint* e) { new (p) endpoint(*e); }
const void* e_name(endpoint* e, const std::string* s) { return &e->name(*s); }
const void* e_service(endpoint* e, const std::string* s) { return &e->service(*s); }
const void* e_port(endpoint* e, int p) { return &e->port(p); }
const void* e_passive(endpoint* e) { return &e->passive(); }
const void* e_active(endpoint* e) { return &e->active(); }
const void* e_stream(endpoint* e) { return &e->stream(); }
const void* e_datagram(endpoint* e) { return &e->datagram(); }
const void* e_ip(endpoint* e) { return &e->ip(); }
const void* e_ipv4(endpoint* e) { return &e->ipv4(); }
const void* e_ipv6(endpoint* e) { return &e->ipv6(); }
const void* g_name(const endpoint* e) { return R::name(e); }
const void* g_service(const endpoint* e) { return R::service(e); }
bool g_passive(const endpoint* e) { return R::passive(e); }
int g_family(const endpoint* e) { return R::family(e); }
int g_type(const endpoint* e) { return R::type(e); }
int k_unspec() { return AF_UNSPEC; } int k_ipv4() { return AF_INET; } int k_ipv6() { return AF_INET6; } int k_stream() { return SOCK_STREAM; } int k_datagram() { return SOCK_DGRAM; }
}
