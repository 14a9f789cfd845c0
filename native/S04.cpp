#include "dyn.h"
using namespace model;
using oracle::one; using oracle::rng;
using arpc::traits::type_hash_v;
struct tag_t { const char* name; std::uint32_t hash; };
std::map<std::string, std::uint32_t> hashes() { return {{"shape", type_hash_v<shape>}, {"circle", type_hash_v<circle>}, {"square", type_hash_v<square>}, {"ring", type_hash_v<ring>}, {"a::group", type_hash_v<group>}, {"other", type_hash_v<other>}, {"multi", type_hash_v<multi>}}; }
// independent encoder for one object's contents
void body(enc& e, const shape& s);
struct ids { std::map<std::string, std::size_t> cls; std::map<const shape*, std::size_t> obj; };
void contents(enc& e, ids& k, const shape& s);
void objref(enc& e, ids& k, const shape& s) {
  std::string n(s.portable_class_name()); auto it = k.cls.find(n);
  if (it == k.cls.end()) { std::size_t id = k.cls.size(); k.cls[n] = id; e.number(id); e.put(n); std::uint32_t h = hashes()[n]; e.put(h); } else e.number(it->second);
  contents(e, k, s);
}
void shref(enc& e, ids& k, const std::shared_ptr<shape>& p) {
  if (!p) { e.number(0); return; }
  auto it = k.obj.find(p.get()); if (it != k.obj.end()) { e.number(it->second); return; }
  std::size_t id = k.obj.size() + 1; k.obj[p.get()] = id; e.number(id); objref(e, k, *p);
}
void contents(enc& e, ids& k, const shape& s) {
  std::string n = s.kind();
  if (n == "shape") e.put(s.id);
  else if (n == "circle") { auto& c = static_cast<const circle&>(s); e.put(s.id); e.put(c.r); e.put(c.n); }
  else if (n == "square") { e.put(s.id); e.put(static_cast<const square&>(s).side); }
  else if (n == "ring") { auto& c = static_cast<const ring&>(s); e.put(s.id); e.put(c.r); e.put(c.n); e.put(c.inner); }
  else if (n == "multi") { auto& c = static_cast<const multi&>(s); e.put(c.px); e.put(s.id); e.put(c.r); e.put(c.n); e.put(c.m); }
  else { auto& g = static_cast<const group&>(s); e.put(s.id); e.number(g.members.size()); for (auto& m : g.members) shref(e, k, m); e.out.push_back(g.own ? 1 : 0); if (g.own) objref(e, k, *g.own); shref(e, k, g.ref.lock()); }
}
template <typename P> P make(int depth) {
  using T = typename P::element_type; P r; auto hold = [&](auto* p) { r.reset(p); return p; };
  switch (rng.below(depth > 2 ? 5 : 7)) {
    case 0: hold(new shape); break;
    case 1: { auto p = hold(new circle); p->r = gen<double>(1); p->n = gen<std::string>(1); break; }
    case 2: { auto p = hold(new square); p->side = gen<std::int16_t>(1); break; }
    case 3: { auto p = hold(new ring); p->r = 3; p->inner = gen<double>(1); p->n = gen<std::string>(1); break; }
    case 4: { auto p = hold(new multi); p->px = gen<std::int32_t>(0); p->n = "m"; p->m = gen<std::uint8_t>(1); break; }
    default: { auto g = hold(new group); for (std::size_t i = rng.below(5); i-- > 0;) g->members.push_back(rng.below(5) ? make<std::shared_ptr<shape>>(depth + 1) : nullptr); if (!g->members.empty() && rng.coin()) { g->members.push_back(g->members[0]); g->ref = g->members[0]; } if (rng.coin()) g->own = make<std::unique_ptr<shape>>(depth + 1); }
  }
  r->id = gen<std::int32_t>(1); (void)sizeof(T); return r;
}
void same_obj(const shape& a, const shape& b) {
  REQUIRE(std::string(a.kind()) == b.kind(), "class of decoded object"); REQUIRE(a.portable_class_name() == b.portable_class_name());
  enc x(false), y(false); ids i, j; contents(x, i, a); contents(y, j, b); REQUIRE(x.out == y.out, "contents differ: ", oracle::hex(x.out), " vs ", oracle::hex(y.out));
}
void random_objects() {
  bool big = rng.coin(); std::vector<std::shared_ptr<shape>> a; std::vector<std::unique_ptr<shape>> u, u2; for (std::size_t i = 1 + rng.below(5); i-- > 0;) { a.push_back(make<std::shared_ptr<shape>>(0)); u.push_back(make<std::unique_ptr<shape>>(1)); }
  enc e(big); ids k; for (auto& p : a) shref(e, k, p); for (auto& p : u) { e.out.push_back(1); objref(e, k, *p); }
  one("objects whose encoding is " + oracle::hex(e.out));
  std::vector<std::shared_ptr<shape>> b;
  std::string s = wire(big, [&](auto& E_) { for (auto& p : a) E_(p); for (auto& p : u) E_(p); }, [&](auto& D_) { for (auto& p : a) { (void)p; std::shared_ptr<shape> r = make<std::shared_ptr<shape>>(3); D_(r); b.push_back(r); } for (auto& p : u) { (void)p; std::unique_ptr<shape> r = make<std::unique_ptr<shape>>(3); D_(r); u2.push_back(std::move(r)); } });
  REQUIRE(s == e.out, "stream is ", oracle::hex(s), " expected ", oracle::hex(e.out));
  for (std::size_t i = 0; i < a.size(); i++) same_obj(*a[i], *b[i]); for (std::size_t i = 0; i < u.size(); i++) same_obj(*u[i], *u2[i]);
}
template <typename P> struct target { static const char* name() { return __PRETTY_FUNCTION__; } };
// 0 ok, 1 data_mismatch, 2 another error
template <typename P> int dec(const std::string& s, P& p, bool big) { return outcome<arpc::errors::data_mismatch>([&] { decode(s, p, big); }); }
template <typename T> void into(const std::string& cls, std::set<std::string> allowed, bool big) {
  std::uint32_t h = hashes()[cls];
  for (int unique = 0; unique < 2; unique++) {
    enc e(big); e.number(unique ? 1 : 1); e.number(0); e.put(cls); e.put(h); for (int i = 0; i < 200; i++) e.out.push_back(0);
    one("class " + cls + " into " + (unique ? "unique" : "shared") + " pointer to " + target<T>::name());
    std::shared_ptr<T> s; std::unique_ptr<T> u; int o = unique ? dec(e.out, u, big) : dec(e.out, s, big);
    REQUIRE(o == (allowed.count(cls) ? 0 : 1), "outcome ", o); T* p = unique ? u.get() : s.get();
    REQUIRE(!p == !allowed.count(cls)); if (p) REQUIRE(std::string(p->portable_class_name()) == cls);
  }
}
void rejections(bool big) {
  auto hs = hashes();
  for (auto& [cls, h] : hs) {
    into<arpc::dynamic_base_class>(cls, {"shape", "circle", "square", "ring", "a::group", "other", "multi"}, big);
    into<shape>(cls, {"shape", "circle", "square", "ring", "a::group", "multi"}, big); into<circle>(cls, {"circle", "ring", "multi"}, big); into<square>(cls, {"square"}, big); into<ring>(cls, {"ring"}, big); into<other>(cls, {"other"}, big); into<multi>(cls, {"multi"}, big); into<group>(cls, {"a::group"}, big);
    for (int bit = 0; bit < 33; bit++) {
      std::uint32_t w = bit < 32 ? h ^ (1u << bit) : 0; if (w == h) continue; one("class " + cls + " with structure hash " + std::to_string(w) + " instead of " + std::to_string(h));
      enc e(big); e.number(1); e.number(0); e.put(cls); e.put(w); for (int i = 0; i < 200; i++) e.out.push_back(0); std::shared_ptr<arpc::dynamic_base_class> p; REQUIRE(dec(e.out, p, big) == 1); REQUIRE(!p);
    }
    for (std::string nm : {cls + "x", cls.substr(1), cls.substr(0, cls.size() - 1), std::string(), cls + std::string(1, '\0'), std::string("unregistered"), std::string(1, '\0') + cls, std::string("zzz")}) {
      if (hs.count(nm)) continue; enc e(big); e.number(1); e.number(0); e.put(nm); e.put(h); for (int i = 0; i < 200; i++) e.out.push_back(0); one("unregistered class name " + oracle::hex(nm));
      for (int unique = 0; unique < 2; unique++) { std::shared_ptr<arpc::dynamic_base_class> p; std::unique_ptr<arpc::dynamic_base_class> u; REQUIRE(unique ? dec(e.out, u, big) != 0 : dec(e.out, p, big) != 0); REQUIRE(!p && !u); }
    }
  }
  for (int id = 1; id < 128; id++) { enc e(big); e.number(1); e.number(id); e.put(std::string("circle")); e.put(hs["circle"]); for (int i = 0; i < 200; i++) e.out.push_back(0); std::shared_ptr<shape> p; one("first class number " + std::to_string(id)); REQUIRE(dec(e.out, p, big) == 1); REQUIRE(!p); }
  for (int id = 0; id < 20; id++) {   // second object refers to class number id after class 0 was assigned
    enc e(big); e.number(2); e.number(1); e.number(0); e.put(std::string("square")); e.put(hs["square"]); e.put(std::int32_t(5)); e.put(std::int16_t(6)); e.number(2); e.number(id); if (id == 1) { e.put(std::string("shape")); e.put(hs["shape"]); } e.put(std::int32_t(7)); e.put(std::int16_t(8));
    std::vector<std::shared_ptr<shape>> v; one("second class number " + std::to_string(id)); int o = dec(e.out, v, big); REQUIRE(o == (id < 2 ? 0 : 1), o); if (o == 0) REQUIRE(v[1]->portable_class_name() == (id ? "shape" : "square") && v[1]->id == 7);
    std::vector<std::shared_ptr<circle>> w; if (id == 0) REQUIRE(dec(e.out, w, big) == 1);
  }
  { one("class known from one pointer type, then referenced through an incompatible pointer type");
    enc e(big); e.number(1); e.number(0); e.put(std::string("square")); e.put(hs["square"]); e.put(std::int32_t(5)); e.put(std::int16_t(6)); e.number(2); e.number(0); for (int i = 0; i < 100; i++) e.out.push_back(0);
    std::pair<std::shared_ptr<shape>, std::shared_ptr<circle>> p; REQUIRE(dec(e.out, p, big) == 1); REQUIRE(!p.second); std::pair<std::shared_ptr<shape>, std::unique_ptr<other>> q; std::string t = e.out; REQUIRE(dec(t, q, big) == 1); REQUIRE(!q.second); }
}
// all classes become known through base pointers, in a random order; one of them is then met through a pointer to T
template <typename T> void revisit(std::set<std::string> allowed, bool big) {
  auto hs = hashes(); std::vector<std::string> order; for (auto& [c, h] : hs) order.push_back(c); for (std::size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[rng.below(i)]);
  for (std::size_t k = 0; k < order.size(); k++) for (int unique = 0; unique < 2; unique++) {
    enc e(big); ids n; std::size_t first = 0; std::string d;
    std::vector<std::shared_ptr<arpc::dynamic_base_class>> objs;
    for (auto& c : order) { d += c + " "; objs.emplace_back(static_cast<arpc::dynamic_base_class*>(arpc::registry::dynamic_object_factory::get()[c].factory_function())); }
    std::string s = big ? std::string() : std::string(); arpc::string_output_stream o(s);
    auto enc_all = [&](auto& E_) { for (auto& p : objs) E_(p); first = s.size(); auto again = std::shared_ptr<arpc::dynamic_base_class>(static_cast<arpc::dynamic_base_class*>(arpc::registry::dynamic_object_factory::get()[order[k]].factory_function())); if (unique) { std::unique_ptr<arpc::dynamic_base_class> u(static_cast<arpc::dynamic_base_class*>(arpc::registry::dynamic_object_factory::get()[order[k]].factory_function())); E_(u); } else E_(again); objs.push_back(again); };
    if (big) { arpc::big_endian_binary_encoder E_(o); enc_all(E_); } else { arpc::little_endian_binary_encoder E_(o); enc_all(E_); }
    one("classes " + d + "seen, then " + order[k] + " through a " + (unique ? "unique" : "shared") + " pointer to " + target<T>::name());
    arpc::string_input_stream i(s); std::shared_ptr<T> sp; std::unique_ptr<T> up; int out = 0;
    auto dec_all = [&](auto& D_) { for (std::size_t j = 0; j < order.size(); j++) { std::shared_ptr<arpc::dynamic_base_class> b; D_(b); REQUIRE(b && b->portable_class_name() == order[j]); } out = outcome<arpc::errors::data_mismatch>([&] { if (unique) D_(up); else D_(sp); }); };
    if (big) { arpc::big_endian_binary_decoder D_(i); dec_all(D_); } else { arpc::little_endian_binary_decoder D_(i); dec_all(D_); }
    T* p = unique ? up.get() : sp.get();
    REQUIRE(out == (allowed.count(order[k]) ? 0 : 1), "outcome ", out); REQUIRE(!p == !allowed.count(order[k])); if (p) REQUIRE(std::string(p->portable_class_name()) == order[k]);
    (void)first; (void)e; (void)n;
  }
}
void revisits(bool big) { revisit<shape>({"shape", "circle", "square", "ring", "a::group", "multi"}, big); revisit<circle>({"circle", "ring", "multi"}, big); revisit<square>({"square"}, big); revisit<ring>({"ring"}, big); revisit<other>({"other"}, big); revisit<multi>({"multi"}, big); revisit<group>({"a::group"}, big); }
void many() {
  one("300 objects of the same class, and names written once"); std::vector<std::shared_ptr<shape>> v, r; for (int i = 0; i < 300; i++) { if (i % 2) v.push_back(std::make_shared<square>()); else v.push_back(std::make_shared<ring>()); v.back()->id = i; }
  std::string s = encode(v, false); auto count = [&](const std::string& n) { std::size_t c = 0, p = 0; while ((p = s.find(n, p)) != std::string::npos) { c++; p++; } return c; };
  REQUIRE(count("square") == 1 && count("ring") == 1); decode(s, r, false); for (int i = 0; i < 300; i++) { REQUIRE(std::string(r[i]->kind()) == (i % 2 ? "square" : "ring") && r[i]->id == i); }
}
int main(int c, char** a) {
  oracle::init(c, a); oracle::begin("rejections"); rejections(false); rejections(true); oracle::begin("many"); many(); oracle::begin("revisits"); for (int k = 0; k < 3; k++) { revisits(false); revisits(true); }
  while (oracle::more(1.0)) { oracle::begin("random objects"); random_objects(); }
  return oracle::done();
}
