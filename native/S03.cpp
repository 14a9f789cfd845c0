#include "dyn.h"
using namespace model;
using oracle::one; using oracle::rng;
// Partition check: a[i],a[j] same object <=> b[i],b[j] same object.
template <typename P> void same_sharing(const std::vector<P>& a, const std::vector<P>& b, const char* what) {
  REQUIRE(a.size() == b.size());
  for (std::size_t i = 0; i < a.size(); i++) {
    REQUIRE(!a[i] == !b[i], what, " null-ness of pointer ", i);
    for (std::size_t j = 0; j < i; j++) REQUIRE((a[i] == a[j]) == (b[i] == b[j]), what, " sharing of pointers ", j, " and ", i);
  }
}
void vectors() {
  bool big = rng.coin(); std::size_t n = rng.below(12), m = 1 + rng.below(5);
  if (rng.below(60) == 0) { n = 400; m = 300; }
  std::vector<std::shared_ptr<std::int32_t>> pool, a, b; std::string d;
  for (std::size_t i = 0; i < m; i++) pool.push_back(std::make_shared<std::int32_t>(i % 3));   // equal contents, distinct objects
  for (std::size_t i = 0; i < n; i++) { std::size_t k = rng.below(m + 1); a.push_back(k == m ? nullptr : pool[k]); d += (k == m ? std::string("-") : std::to_string(k)) + ","; }
  if (n > 300) { for (std::size_t i = 0; i < m; i++) a.push_back(pool[i]); for (std::size_t i = 0; i < m; i++) a.push_back(pool[m - 1 - i]); }
  one(std::string(big ? "big" : "little") + " shared_ptr<int> objects " + d);
  std::set<std::int32_t*> uniq; std::size_t expect = 0;
  { enc e(big); e.number(a.size()); std::map<std::int32_t*, std::size_t> ids; for (auto& p : a) { if (!p) e.number(0); else if (ids.count(p.get())) e.number(ids[p.get()]); else { std::size_t k = ids.size() + 1; ids[p.get()] = k; e.number(k); e.put(*p); } } expect = e.out.size();
    std::string s = wire(big, [&](auto& E_) { E_(a); }, [&](auto& D_) { D_(b); });
    REQUIRE(s == e.out, "each object must be written once: wrote ", oracle::hex(s), " expected ", oracle::hex(e.out)); }
  same_sharing(a, b, "shared_ptr<int>");
  for (std::size_t i = 0; i < a.size(); i++) if (a[i]) REQUIRE(*a[i] == *b[i], i);
  // the same over several top-level calls on one encoder/decoder, with weak pointers mixed in
  std::vector<std::shared_ptr<std::int32_t>> c; std::vector<std::shared_ptr<std::int32_t>> hold;
  wire(big, [&](auto& E_) { for (std::size_t i = 0; i < a.size(); i++) if (i % 3 == 1) { std::weak_ptr<std::int32_t> w = a[i]; E_(w); } else E_(a[i]); for (auto& p : a) E_(p); },
       [&](auto& D_) { for (std::size_t i = 0; i < a.size(); i++) if (i % 3 == 1) { std::weak_ptr<std::int32_t> w; D_(w); c.push_back(w.lock()); } else { std::shared_ptr<std::int32_t> p = rng.coin() ? nullptr : std::make_shared<std::int32_t>(77); D_(p); c.push_back(p); } for (std::size_t i = 0; i < a.size(); i++) { std::shared_ptr<std::int32_t> p; D_(p); hold.push_back(p); } });
  for (std::size_t i = 0; i < a.size(); i++) if (i % 3 != 1 || c[i]) REQUIRE(c[i] == hold[i], i);
  same_sharing(a, hold, "separate calls");
}
void graph() {
  bool big = rng.coin(); std::size_t n = 1 + rng.below(8);
  std::vector<std::shared_ptr<node>> ns; for (std::size_t i = 0; i < n; i++) { ns.push_back(std::make_shared<node>()); ns[i]->v = i * 3 - 4; }
  std::string d = "graph of " + std::to_string(n) + " nodes:";
  auto pick = [&](const char* l, std::size_t i) -> std::shared_ptr<node> { std::size_t k = rng.below(n + 1); d += " " + std::to_string(i) + l + (k == n ? std::string("-") : std::to_string(k)); return k == n ? nullptr : ns[k]; };
  for (std::size_t i = 0; i < n; i++) { ns[i]->next = pick(".next=", i); ns[i]->back = pick(".back=", i); for (std::size_t k = rng.below(4); k-- > 0;) ns[i]->kids.push_back(pick(".kid=", i)); }
  one(d);
  std::vector<std::shared_ptr<node>> a = ns, b;
  wire(big, [&](auto& E_) { E_(a); }, [&](auto& D_) { D_(b); });
  same_sharing(a, b, "nodes");
  std::map<node*, node*> iso; for (std::size_t i = 0; i < n; i++) { REQUIRE(b[i]->v == a[i]->v); iso[a[i].get()] = b[i].get(); }
  auto at = [&](node* p) { return p ? iso[p] : nullptr; };
  for (std::size_t i = 0; i < n; i++) {
    REQUIRE(b[i]->next.get() == at(a[i]->next.get()), "next of ", i); REQUIRE(b[i]->back.lock().get() == at(a[i]->back.lock().get()), "back of ", i);
    REQUIRE(b[i]->kids.size() == a[i]->kids.size()); for (std::size_t k = 0; k < a[i]->kids.size(); k++) REQUIRE(b[i]->kids[k].get() == at(a[i]->kids[k].get()), "kid of ", i);
  }
  for (auto* v : {&a, &b}) for (auto& p : *v) { p->next.reset(); p->kids.clear(); }
}
std::shared_ptr<shape> mk() { switch (rng.below(4)) { case 0: { auto p = std::make_shared<circle>(); p->r = 1.5; p->n = "c"; return p; } case 1: return std::make_shared<square>(); case 2: { auto p = std::make_shared<multi>(); p->px = 5; p->m = 3; return p; } default: return std::make_shared<ring>(); } }
void dynamics() {
  bool big = rng.coin(); std::size_t m = 1 + rng.below(4), n = rng.below(10); std::vector<std::shared_ptr<shape>> pool, a, b; std::string d = "dynamic objects:";
  for (std::size_t i = 0; i < m; i++) { pool.push_back(mk()); pool.back()->id = i; d += std::string(" ") + pool.back()->kind(); } d += " pointers:";
  for (std::size_t i = 0; i < n; i++) { std::size_t k = rng.below(m + 1); a.push_back(k == m ? nullptr : pool[k]); d += " " + (k == m ? std::string("-") : std::to_string(k)); }
  one(d);
  wire(big, [&](auto& E_) { E_(a); }, [&](auto& D_) { D_(b); });
  same_sharing(a, b, "dynamic");
  for (std::size_t i = 0; i < n; i++) if (a[i]) { REQUIRE(a[i]->id == b[i]->id); REQUIRE(std::string(a[i]->kind()) == b[i]->kind()); }
}
void bases() {   // one object through pointers of different classes, each order
  for (int order = 0; order < 6; order++) for (bool big : {false, true}) {
    one("one multi object through shared_ptr<multi>, <circle>, <shape>, <dynamic_base_class>, order " + std::to_string(order));
    auto m = std::make_shared<multi>(); m->px = 1; m->id = 2; m->n = "n"; m->m = 4; std::shared_ptr<circle> c = m; std::shared_ptr<shape> s = m; std::shared_ptr<arpc::dynamic_base_class> y = m;
    std::shared_ptr<multi> m2; std::shared_ptr<circle> c2; std::shared_ptr<shape> s2; std::shared_ptr<arpc::dynamic_base_class> y2;
    auto go = [order](auto& x, auto& m, auto& c, auto& s, auto& y) { switch (order) { case 0: x(m); x(c); x(s); x(y); break; case 1: x(y); x(s); x(c); x(m); break; case 2: x(c); x(m); x(y); x(s); break; case 3: x(s); x(m); x(c); x(y); break; case 4: x(m); x(m); x(y); x(c); x(s); break; default: x(s); x(c); x(y); x(y); x(m); } };
    wire(big, [&](auto& E_) { go(E_, m, c, s, y); }, [&](auto& D_) { go(D_, m2, c2, s2, y2); });
    REQUIRE(c2.get() == m2.get() && s2.get() == m2.get() && y2.get() == m2.get(), "pointers must refer to one object"); REQUIRE(m2->px == 1 && m2->id == 2 && m2->n == "n" && m2->m == 4);
  }
}
template <typename T> int rejects(const std::string& s, bool big = false) { std::vector<T> v; return outcome<arpc::errors::data_mismatch>([&] { decode(s, v, big); }); }
void bad() {
  auto num = [](std::initializer_list<int> l) { std::string s; for (int x : l) s += char(x); return s; };
  for (int first = 2; first < 128; first++) { one("first object number " + std::to_string(first)); REQUIRE(rejects<std::shared_ptr<std::uint8_t>>(num({1, first, 9})) == 1); }
  for (int x = 0; x < 128; x++) { one("object numbers 1,2," + std::to_string(x)); int o = rejects<std::shared_ptr<std::uint8_t>>(num({3, 1, 9, 2, 9, x, 5})); REQUIRE(o == (x > 3 ? 1 : 0), o); }
  {
    one("int and double pointers sharing object number 1"); std::pair<std::shared_ptr<std::int32_t>, std::shared_ptr<float>> p; std::string s = num({1, 0, 0, 0, 0, 1}); REQUIRE(outcome<arpc::errors::data_mismatch>([&] { decode(s, p, false); }) == 1);
  }
  {
    one("int32 and uint32 pointers sharing object number 1"); std::pair<std::shared_ptr<std::int32_t>, std::shared_ptr<std::uint32_t>> p; std::string s = num({1, 0, 0, 0, 0, 1}); REQUIRE(outcome<arpc::errors::data_mismatch>([&] { decode(s, p, false); }) == 1);
  }
  {
    one("a dynamic and a plain object sharing a number"); auto c = std::make_shared<circle>(); std::string s = encode(c, false) + std::string("\1", 1); std::pair<std::shared_ptr<shape>, std::shared_ptr<std::int32_t>> p; REQUIRE(outcome<arpc::errors::data_mismatch>([&] { decode(s, p, false); }) == 1);
    one("a plain and a dynamic object sharing a number"); std::string t = num({1, 0, 0, 0, 0, 1}); std::pair<std::shared_ptr<std::int32_t>, std::shared_ptr<shape>> q; REQUIRE(outcome<arpc::errors::data_mismatch>([&] { decode(t, q, false); }) == 1);
  }
  {
    one("a circle referenced through a pointer to square"); auto c = std::make_shared<circle>(); std::string s = encode(c, false) + std::string("\1", 1); std::pair<std::shared_ptr<shape>, std::shared_ptr<square>> p; REQUIRE(outcome<arpc::errors::data_mismatch>([&] { decode(s, p, false); }) == 1);
    one("a ring referenced through a pointer to circle"); auto r = std::make_shared<ring>(); s = encode(r, false) + std::string("\1", 1); std::pair<std::shared_ptr<shape>, std::shared_ptr<circle>> q; decode(s, q, false); REQUIRE(q.first.get() == q.second.get());
  }
  {
    one("reference to an object whose creation failed"); std::string s = num({1, 0, 1, 'x', 0, 0, 0, 0, 1}); arpc::string_input_stream i(s); arpc::little_endian_binary_decoder d(i); std::shared_ptr<shape> p, q;
    REQUIRE(outcome<arpc::errors::not_found>([&] { d(p); }) == 1); REQUIRE(outcome<arpc::errors::data_mismatch>([&] { d(q); }) == 1);
  }
}
void known() {
  {   // S03-freed-address
    std::string s; arpc::string_output_stream o(s); arpc::little_endian_binary_encoder e(o); alignas(8) static std::int32_t slot; struct nodel { void operator()(std::int32_t*) {} };
    one("two objects living one after the other at one address"); slot = 1; { std::shared_ptr<std::int32_t> p(&slot, nodel{}); e(p); } slot = 2; { std::shared_ptr<std::int32_t> p(&slot, nodel{}); e(p); }
    arpc::string_input_stream i(s); arpc::little_endian_binary_decoder d(i); std::shared_ptr<std::int32_t> a, b; d(a); d(b);
    if (a == b || *b != 2) oracle::known("S03-freed-address", "an object allocated at the address of one that was encoded before and freed is written as a reference to the freed one");
  }
  {
    struct two { std::int32_t a, b; }; one("shared pointers to a struct and, aliasing, to its first member");
    auto p = std::make_shared<two>(); p->a = 1; p->b = 2; std::shared_ptr<std::int32_t> q(p, &p->a); std::string s; arpc::string_output_stream o(s); arpc::little_endian_binary_encoder e(o); e(p); e(q);
    arpc::string_input_stream i(s); arpc::little_endian_binary_decoder d(i); std::shared_ptr<two> p2; std::shared_ptr<std::int32_t> q2; d(p2);
    if (outcome<arpc::errors::data_mismatch>([&] { d(q2); }) == 1) oracle::known("S03-first-member", "a pointer to an object's first member is written as a reference to the object, which the decoder rejects");
    else REQUIRE(q2 && *q2 == 1);
  }
}
int main(int c, char** a) {
  oracle::init(c, a);
  oracle::begin("malformed references"); bad();
  oracle::begin("base classes"); bases();
  oracle::begin("expired and null"); { one("expired weak pointer"); std::weak_ptr<std::int32_t> w; { auto p = std::make_shared<std::int32_t>(1); w = p; } std::string s = encode(w, false); REQUIRE(s == std::string(1, '\0')); auto keep = std::make_shared<std::int32_t>(4); std::weak_ptr<std::int32_t> r = keep; decode(s, r, false); REQUIRE(r.expired()); }
  oracle::begin("self cycle"); { auto n = std::make_shared<node>(); n->next = n; n->back = n; one("node pointing to itself"); std::shared_ptr<node> r; wire(false, [&](auto& e) { e(n); }, [&](auto& d) { d(r); }); REQUIRE(r->next == r && r->back.lock() == r); n->next.reset(); r->next.reset(); }
  oracle::begin("many objects");
  for (bool big : {false, true}) {
    const std::size_t n = 66500; std::vector<std::shared_ptr<std::int32_t>> a, b; for (std::size_t i = 0; i < n; i++) a.push_back(std::make_shared<std::int32_t>(i));
    for (std::size_t i : {0, 1, 126, 127, 128, 254, 255, 256, 16382, 16383, 16384, 32767, 32768, 65533, 65534, 65535, 65536, 66499}) a.push_back(a[i]);
    one("66500 distinct objects, then second references to some of them"); wire(big, [&](auto& e) { e(a); }, [&](auto& d) { d(b); });
    REQUIRE(b.size() == a.size()); std::map<std::int32_t*, std::int32_t*> f, g;
    for (std::size_t i = 0; i < a.size(); i++) { REQUIRE(b[i] && *b[i] == *a[i], "object ", i); auto* x = a[i].get(); auto* y = b[i].get(); REQUIRE(f.emplace(x, y).first->second == y && g.emplace(y, x).first->second == x, "sharing of pointer ", i); }
  }
  oracle::begin("known"); known();
  while (oracle::more(1.0)) { oracle::begin("vectors"); vectors(); oracle::begin("graphs"); graph(); oracle::begin("dynamic"); dynamics(); }
  return oracle::done();
}
