// link: address errors
#include "oracle.h"
#include <cstddef>
#include <map>
#include <netinet/in.h>
#include "arpc/address.h"
using oracle::one; using oracle::rng;
static std::map<void*, int> live;   // addrinfo lists handed to an address_list
static long freed = 0;
extern "C" void freeaddrinfo(struct addrinfo* r) noexcept { freed++; REQUIRE(live.count(r) == 1, "freeaddrinfo of something that is not an unreleased list"); live.erase(r); while (r) { auto* n = r->ai_next; free(r->ai_addr); free(r); r = n; } }
static long blocks = 0; static bool counting = false;   // live sockaddr_storage-sized blocks made with operator new
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, std::size_t), void (*)(const volatile void*));
static std::set<const volatile void*>* storage; static bool inside = false;
static void on_malloc(const volatile void* p, std::size_t n) { if (counting && !inside && n == sizeof(sockaddr_storage)) { inside = true; storage->insert(p); inside = false; } }
static void on_free(const volatile void* p) { if (counting && !inside && p) { inside = true; storage->erase(p); inside = false; } }
namespace arpc {
class address_resolver {   // the library's friend, standing in for the resolver (which is not built here)
 public:
  static address_list list(addrinfo* r) { return address_list(r); }
  struct view { std::string name, service; bool passive; int family, type; };
  static view look(const endpoint& e) { return {e.name_, e.service_, e.passive_, e.family_, e.sock_type_}; }
};
}
using R = arpc::address_resolver; using arpc::address; using arpc::address_list; using arpc::endpoint;
struct M { int family, type, proto; std::string bytes; };
addrinfo* build(int n, std::vector<M>& ms) { addrinfo* head = nullptr; addrinfo** at = &head; for (int i = 0; i < n; i++) { std::size_t len = rng.coin() ? sizeof(sockaddr_in) : rng.coin() ? sizeof(sockaddr_in6) : 1 + rng.below(sizeof(sockaddr_storage)); auto* a = (addrinfo*)calloc(1, sizeof(addrinfo)); a->ai_addr = (sockaddr*)malloc(len); for (std::size_t k = 0; k < len; k++) ((char*)a->ai_addr)[k] = char(rng()); a->ai_addrlen = len; a->ai_family = (int)rng.below(30); a->ai_socktype = (int)rng.below(5); a->ai_protocol = (int)rng.below(20); ms.push_back({a->ai_family, a->ai_socktype, a->ai_protocol, std::string((char*)a->ai_addr, len)}); *at = a; at = &a->ai_next; } if (head) live[head] = 1; return head; }
void same(const address& a, const M& m, const char* what) { REQUIRE(a.family() == m.family, what, " family"); REQUIRE(a.socket_type() == m.type, what, " type"); REQUIRE(a.protocol() == m.proto, what, " protocol"); REQUIRE(a.address_size() == m.bytes.size(), what, " size ", a.address_size(), " expected ", m.bytes.size()); REQUIRE(m.bytes.empty() || memcmp(a.address_data(), m.bytes.data(), m.bytes.size()) == 0, what, " bytes"); address& w = const_cast<address&>(a); REQUIRE(w.family() == m.family && w.socket_type() == m.type && w.protocol() == m.proto && w.address_size() == m.bytes.size() && w.address_data() == a.address_data()); }
void change(address& a, M& m) { a.family() = m.family = (int)rng.below(40); a.socket_type() = m.type = (int)rng.below(9); a.protocol() = m.proto = (int)rng.below(9); std::size_t n = m.bytes.size(); if (rng.coin() && n) n = 1 + rng.below(n); a.address_size() = n; m.bytes.resize(n); for (std::size_t i = 0; i < n; i++) ((char*)a.address_data())[i] = m.bytes[i] = char(rng()); }
void lists() {
  std::vector<M> ms; int n = (int)rng.below(7); long before = freed; one("address list of " + std::to_string(n)); std::size_t outstanding = live.size(); inside = true;
  {
    address_list l = R::list(build(n, ms)); const address_list& cl = l; REQUIRE(l.size() == (std::size_t)n, "size ", l.size()); REQUIRE(l.empty() == (n == 0)); int i = 0; for (auto& a : l) same(a, ms.at(i++), "element"); REQUIRE(i == n); i = 0; for (const auto& a : cl) same(a, ms.at(i++), "const element"); REQUIRE(i == n); i = 0; for (auto it = cl.cbegin(); it != cl.cend(); it++) { same(*it, ms.at(i), "->"); REQUIRE(it->family() == ms[i].family); i++; } REQUIRE(i == n);
    if (n) { auto it = l.begin(); auto old = it++; REQUIRE(old == l.begin() && it != old); address_list::const_iterator c = old; REQUIRE(c == cl.begin()); auto p = ++c; REQUIRE(p == c && (n == 1) == (c == cl.end())); swap(it, old); REQUIRE(it == l.begin()); it.swap(old); REQUIRE(old == l.begin()); address_list::const_iterator x = cl.begin(), y = cl.end(); swap(x, y); REQUIRE(y == cl.begin() && x == cl.end()); x.swap(y); REQUIRE(x == cl.begin()); auto q = x++; REQUIRE(q == cl.begin()); }
    if (n) { address copy(*std::next(l.begin(), rng.below(n))); (void)copy; }
    address_list m(std::move(l)); REQUIRE(m.size() == (std::size_t)n); REQUIRE(l.empty() && l.size() == 0); std::vector<M> ms2; { address_list o = R::list(build(2, ms2)); o = std::move(m); REQUIRE(o.size() == (std::size_t)n); i = 0; for (auto& a : o) same(a, ms.at(i++), "moved"); } REQUIRE(live.size() == outstanding, "unreleased lists ", live.size() - outstanding);
  }
  REQUIRE(freed == before + (n ? 2 : 1), "lists released ", freed - before); inside = false;
}
void addresses() {
  std::vector<M> ms; storage->clear(); counting = true; std::string tr = "addresses:";
  {
    inside = true; address_list l = R::list(build(3, ms)); std::vector<std::unique_ptr<address>> as; std::vector<M> m; as.reserve(64); m.reserve(64); inside = false;
    auto put = [&](address* a, M x) { inside = true; as.emplace_back(a); m.push_back(x); inside = false; };
    for (int k = 0; k < 10; k++) {
      inside = true; int w = as.empty() ? (int)rng.below(2) : (int)rng.below(7); std::size_t i = as.empty() ? 0 : rng.below(as.size()); tr += " " + std::to_string(w) + "/" + std::to_string(i); one(tr); M src = w == 1 ? ms[k % 3] : as.empty() ? M{} : m[i]; inside = false;
      if (w == 0) { auto* a = new address(); inside = true; M x{a->family(), a->socket_type(), a->protocol(), std::string()}; REQUIRE(a->address_size() == sizeof(sockaddr_storage) && a->family() == 0); x.bytes.assign((char*)a->address_data(), a->address_size()); inside = false; put(a, x); }
      else if (w == 1) { auto it = l.begin(); for (int q = 0; q < k % 3; q++) ++it; put(new address(*it), src); }
      else if (w == 2 && as[i]->address_data()) put(new address(*as[i]), src);
      else if (w == 3 && as[i]->address_data()) { put(new address(std::move(*as[i])), src); inside = true; REQUIRE(as[i]->address_data() != as.back()->address_data(), "moved-from address still shares the bytes"); as.erase(as.begin() + i); m.erase(m.begin() + i); inside = false; }
      else if (w == 4 && as[i]->address_data()) { inside = true; change(*as[i], m[i]); inside = false; }
      else if (w == 5) { inside = true; auto p = std::move(as[i]); as.erase(as.begin() + i); m.erase(m.begin() + i); inside = false; p.reset(); }
      inside = true; for (std::size_t q = 0; q < as.size(); q++) { same(*as[q], m[q], "address"); for (std::size_t z = 0; z < q; z++) REQUIRE(as[q]->address_data() != as[z]->address_data(), "two addresses share their bytes"); } REQUIRE(storage->size() == as.size(), "socket addresses allocated and not released: ", storage->size(), " for ", as.size(), " address objects"); inside = false;
    }
    inside = true; int q = 0; for (auto& a : l) same(a, ms[q++], "list element after copies changed"); inside = false;
  }
  REQUIRE(storage->empty(), "socket addresses never released: ", storage->size()); counting = false; storage->clear();
}
void endpoints() {
  endpoint e; R::view v{"", "", false, AF_UNSPEC, SOCK_STREAM}; std::string tr = "endpoint";
  for (int k = 0; k < 15; k++) { endpoint* r = nullptr; int p = (int)rng.below(70000); std::string s = "n" + std::to_string(rng.below(50)); switch (rng.below(10)) { case 0: tr += ".name(" + s + ")"; r = &e.name(s); v.name = s; break; case 1: tr += ".service(" + s + ")"; r = &e.service(s); v.service = s; break; case 2: tr += ".port(" + std::to_string(p) + ")"; r = &e.port(p); v.service = std::to_string(p); break; case 3: tr += ".passive()"; r = &e.passive(); v.passive = true; break; case 4: tr += ".active()"; r = &e.active(); v.passive = false; break; case 5: tr += ".stream()"; r = &e.stream(); v.type = SOCK_STREAM; break; case 6: tr += ".datagram()"; r = &e.datagram(); v.type = SOCK_DGRAM; break; case 7: tr += ".ip()"; r = &e.ip(); v.family = AF_UNSPEC; break; case 8: tr += ".ipv4()"; r = &e.ipv4(); v.family = AF_INET; break; default: tr += ".ipv6()"; r = &e.ipv6(); v.family = AF_INET6; }
    one(tr); REQUIRE(r == &e, "must return the endpoint itself"); auto g = R::look(e); REQUIRE(g.name == v.name && g.service == v.service && g.passive == v.passive && g.family == v.family && g.type == v.type, "holds ", g.name, g.service, g.passive, g.family, g.type); endpoint c(e); auto h = R::look(c); REQUIRE(h.name == v.name && h.family == v.family); }
}
void text() { for (int p : {0, 1, 80, 65535}) { address a; auto* s = reinterpret_cast<sockaddr_in*>(a.address_data()); s->sin_family = AF_INET; s->sin_port = htons(p); s->sin_addr.s_addr = htonl(0x7f000001 + p % 7); a.family() = AF_INET; a.address_size() = sizeof *s; one("IPv4 text, port " + std::to_string(p)); REQUIRE(a.as_string() == "127.0.0." + std::to_string(1 + p % 7) + ":" + std::to_string(p), a.as_string()); address b; auto* t = reinterpret_cast<sockaddr_in6*>(b.address_data()); t->sin6_family = AF_INET6; t->sin6_port = htons(p); t->sin6_addr.s6_addr[15] = 1; b.address_size() = sizeof *t; one("IPv6 text, port " + std::to_string(p)); REQUIRE(b.as_string() == "[::1]:" + std::to_string(p), b.as_string()); } }
int main(int c, char** a) {
  oracle::init(c, a); storage = new std::set<const volatile void*>; __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
  oracle::begin("text"); text();
  while (oracle::more(1.0)) { oracle::begin("address lists"); lists(); oracle::begin("addresses"); addresses(); oracle::begin("endpoints"); endpoints(); }
  return oracle::done();
}
