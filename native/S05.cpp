#include "dyn.h"
#include <new>
#include <fcntl.h>
#include <sys/wait.h>
// Allocations beyond 64 MB fail the way they would on a machine without that memory.
void* operator new(std::size_t n) { if (n > (64u << 20)) throw std::bad_alloc(); void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return n > (64u << 20) ? nullptr : malloc(n ? n : 1); }
void* operator new[](std::size_t n) { return operator new(n); }
void* operator new[](std::size_t n, const std::nothrow_t& t) noexcept { return operator new(n, t); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete[](void* p, std::size_t) noexcept { free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { free(p); }
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, std::size_t) noexcept { free(p); }
// hostile input may decode into a cycle of shared pointers, which nobody can be asked to break: no leak check here
extern "C" const char* __asan_default_options() { return "detect_leaks=0"; }
using namespace model;
using oracle::one; using oracle::rng;
struct r_eof {}; struct r_bad {}; struct r_any {};   // r_any: the announced size cannot be provided; any exception will do
// independent decoder: what a byte string means
struct dref {
  const std::string& s; bool big; std::size_t pos = 0;
  void bytes(void* p, std::size_t n) { if (s.size() - pos < n) throw r_eof(); char* c = (char*)p; for (std::size_t i = 0; i < n; i++) c[big ? n - 1 - i : i] = s[pos + i]; pos += n; }
  std::uint64_t number() { std::uint64_t v = 0; for (int i = 0;; i++) { if (pos >= s.size()) throw r_eof(); unsigned char c = s[pos++]; unsigned d = c & 127; if (i > 9 || (i == 9 && d > 1)) throw r_bad(); v |= std::uint64_t(d) << (7 * i); if (!(c & 128)) return v; } }
  std::uint64_t size() { return number(); }
  template <typename T> std::enable_if_t<std::is_arithmetic_v<T> || std::is_enum_v<T>> get(T& v) { if constexpr (std::is_same_v<T, bool>) { std::uint8_t o; bytes(&o, 1); if (o > 1) throw r_bad(); v = o; } else bytes(&v, sizeof v); }
  template <typename C> void block(C& c, std::size_t w) { std::uint64_t n = size(); if (n > (s.size() - pos) / w) { if (n > (1u << 16)) throw r_any(); throw r_eof(); } c.resize(n); for (auto& x : c) get(x); }
  void get(std::string& c) { block(c, 1); }
  template <typename T> void get(std::vector<T>& c) { if constexpr ((std::is_arithmetic_v<T> || std::is_enum_v<T>) && !std::is_same_v<T, bool>) block(c, sizeof(T)); else items<T>(c, true); }
  template <typename T, typename C> void items(C& c, bool reserves) { std::uint64_t n = size(); c.clear(); if (reserves && n > (1u << 16)) throw r_any(); while (n-- > 0) { T v{}; get(v); c.insert(c.end(), std::move(v)); } }
  template <typename T> void get(std::deque<T>& c) { items<T>(c, false); }
  template <typename T> void get(std::list<T>& c) { items<T>(c, false); }
  template <typename T, typename C> void keyed(C& c) { std::uint64_t n = size(); c.clear(); if (n > (1u << 16)) throw r_any(); while (n-- > 0) { T v{}; get(v); c.insert(std::move(v)); } }
  template <typename T> void get(std::set<T>& c) { keyed<T>(c); }
  template <typename T> void get(std::multiset<T>& c) { keyed<T>(c); }
  template <typename T> void get(std::unordered_set<T>& c) { keyed<T>(c); }
  template <typename T> void get(arpc::flat_set<T>& c) { std::set<T> q; keyed<T>(q); c.clear(); for (auto& x : q) c.insert(x); }
  template <typename T> void get(arpc::flat_multiset<T>& c) { std::multiset<T> q; keyed<T>(q); c.clear(); for (auto& x : q) c.insert(x); }
  template <typename K, typename V> void get(std::map<K, V>& c) { keyed<std::pair<K, V>>(c); }
  template <typename K, typename V> void get(std::multimap<K, V>& c) { keyed<std::pair<K, V>>(c); }
  template <typename K, typename V> void get(arpc::flat_map<K, V>& c) { std::map<K, V> q; keyed<std::pair<K, V>>(q); c.clear(); for (auto& x : q) c.insert(std::pair<K, V>(x)); }
  template <typename T, std::size_t n> void get(std::array<T, n>& c) { for (auto& x : c) get(x); }
  template <typename A, typename B> void get(std::pair<A, B>& p) { get(p.first); get(p.second); }
  template <typename... A> void get(std::tuple<A...>& t) { std::apply([this](A&... a) { (get(a), ...); }, t); }
  template <typename T> void get(std::optional<T>& o) { bool b; get(b); if (b) get(o.emplace()); else o.reset(); }
  template <typename T> void get(std::unique_ptr<T>& o) { bool b; get(b); if (b) { o = std::make_unique<T>(); get(*o); } else o.reset(); }
  template <typename R, typename P> void get(std::chrono::duration<R, P>& d) { std::int64_t t; get(t); d = std::chrono::duration<R, P>(t); }
  template <typename C, typename D> void get(std::chrono::time_point<C, D>& t) { D d; get(d); t = std::chrono::time_point<C, D>(d); }
  void get(agg& a) { get(a.a); get(a.b); get(a.c); }
  void get(nested_agg& a) { get(a.x); get(a.y); get(a.z); }
  void get(one_field& a) { get(a.v); }
  void get(simple& a) { get(a.u); get(a.s); get(a.v); }
  void get(base1& a) { get(a.x); }
  void get(base2& a) { get(a.t); }
  void get(derived& a) { get(a.x); get(a.t); get(a.y); get(a.o); }
  void get(custom& a) { get(a.q); get(a.p); }
  void get(mixed& a) { get(a.t); get(a.f); get(a.extra); }
};
// 0 ok 1 eof 2 mismatch 3 other exception
template <typename F> int kind(F&& f) { try { f(); return 0; } catch (const arpc::errors::eof&) { return 1; } catch (const arpc::errors::data_mismatch&) { return 2; } catch (...) { return 3; } }
template <typename T> void check(const std::string& s, bool big) {
  one(std::string(big ? "big-endian " : "little-endian ") + name<T>() + " from bytes " + oracle::hex(s, 60));
  T want{}, got = T(); int w; std::size_t used = 0; dref d{s, big};
  try { d.get(want); w = 0; } catch (r_eof) { w = 1; } catch (r_bad) { w = 2; } catch (r_any) { w = 3; }
  // the input sits at the end of an exact-size heap block, so reads past its end are seen
  std::string* copy = new std::string(s); copy->shrink_to_fit();
  int g = kind([&] { used = decode(*copy, got, big); }); delete copy;
  if (w == 3) { REQUIRE(g != 0, "accepted"); return; }
  REQUIRE(g == w, "outcome ", g, " expected ", w, " (0 accepted, 1 end of file, 2 data mismatch, 3 other exception)");
  if (w == 0) { REQUIRE(used == d.pos, "consumed ", used, " expected ", d.pos); REQUIRE(same(want, got)); }
}
std::string mutate(std::string s) {
  for (std::size_t k = 1 + rng.below(3); k-- > 0;) switch (rng.below(6)) {
    case 0: if (!s.empty()) s.resize(rng.below(s.size() + 1)); break;
    case 1: if (!s.empty()) s[rng.below(s.size())] = char(rng()); break;
    case 2: if (!s.empty()) s[rng.below(s.size())] ^= char(1u << rng.below(8)); break;
    case 3: s.insert(rng.below(s.size() + 1), 1, char(rng())); break;
    case 4: if (!s.empty()) s.erase(rng.below(s.size()), 1); break;
    default: if (!s.empty()) s[0] = char(rng.below(2) ? 0xff : 0x80);
  }
  return s;
}
template <typename T> void random_input() {
  bool big = rng.coin(); std::string s;
  if (rng.below(3) == 0) { for (std::size_t n = rng.below(24); n-- > 0;) s += char(rng.below(3) ? rng() : rng.below(4)); }
  else s = mutate(ref(gen<T>(rng.below(6) ? 1 : 0), big));
  check<T>(s, big);
}
template <typename T> void truncations() { T v = gen<T>(1); bool big = rng.coin(); std::string s = ref(v, big); for (std::size_t n = 0; n < s.size() && n < 200; n++) check<T>(s.substr(0, n), big); check<T>(s + "!", big); }
template <typename T> void short_inputs() { check<T>("", false); for (int a = 0; a < 256; a++) { check<T>(std::string(1, char(a)), false); for (int b : {0, 1, 2, 127, 128, 129, 255}) check<T>(std::string{char(a), char(b)}, true); } }
// sharing and polymorphic types: success or an exception, never a memory error
template <typename T> void wild(const std::string& s) {
  for (bool big : {false, true}) { one(std::string(name<T>()) + " from bytes " + oracle::hex(s, 100)); T v; std::string* copy = new std::string(s); copy->shrink_to_fit();
    { arpc::string_input_stream i(*copy); auto go = [&](auto& d) { for (int k = 0; k < 3; k++) { int o = kind([&] { d(v); }); (void)o; } }; if (big) { arpc::big_endian_binary_decoder d(i); go(d); } else { arpc::little_endian_binary_decoder d(i); go(d); } REQUIRE(i.pos() <= copy->size()); }
    delete copy; }
}
void numbers() {
  auto vec = [](const std::string& s) { check<std::vector<std::uint8_t>>(s, false); check<std::vector<std::string>>(s, true); check<std::set<std::int32_t>>(s, false); check<std::list<std::string>>(s, false); check<arpc::flat_set<std::string>>(s, true); };
  for (int k = 0; k <= 12; k++) for (int last = 0; last < 256; last++) { vec(std::string(k, '\x80') + char(last)); vec(std::string(k, '\xff') + char(last)); vec(std::string(k, '\x80') + char(last) + std::string(40, '\1')); }
}
void nesting() {   // a chain of a million nested objects, decoded in a child process
  one("1000000 nested objects"); std::string s; for (std::uint32_t k = 1; k <= 1000000; k++) { enc e(false); e.number(k); e.put(std::int32_t(k)); s += e.out; }
  fflush(stdout); pid_t p = fork();
  if (p == 0) { int n = open("/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2); signal(SIGSEGV, SIG_DFL); std::shared_ptr<node> v; kind([&] { decode(s, v, false); }); _exit(0); }
  int st = 0; waitpid(p, &st, 0); if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) oracle::known("S05-nesting-depth", "input nesting a million objects exhausts the stack: decoding recurses without limit");
}
int main(int c, char** a) {
  oracle::init(c, a); oracle::begin("nesting depth"); nesting();
  oracle::begin("sizes and numbers"); numbers();
  oracle::begin("short inputs");
#define X(T) short_inputs<T>();
  MODEL_TYPES(X)
#undef X
  while (oracle::more(1.0)) {
    oracle::begin("random and mutated input");
#define X(T) for (int k = 0; k < 8; k++) random_input<T>(); truncations<T>();
    MODEL_TYPES(X)
#undef X
    oracle::begin("shared and polymorphic");
    for (int k = 0; k < 200; k++) {
      std::string s;
      if (rng.coin()) { for (std::size_t n = rng.below(40); n-- > 0;) s += char(rng.below(3) ? rng.below(6) : rng()); }
      else {
        std::vector<std::shared_ptr<shape>> v; auto g = std::make_shared<group>(); auto m = std::make_shared<multi>(); g->members = {m, std::make_shared<square>(), m, nullptr}; g->ref = m; g->own = std::make_unique<ring>(); v = {g, m, std::make_shared<circle>()}; s = mutate(encode(v, rng.coin()));
      }
      wild<std::vector<std::shared_ptr<shape>>>(s); wild<std::shared_ptr<node>>(s); wild<std::vector<std::shared_ptr<std::int32_t>>>(s); wild<std::pair<std::unique_ptr<shape>, std::shared_ptr<circle>>>(s); wild<std::tuple<std::shared_ptr<shape>, std::shared_ptr<square>, std::weak_ptr<arpc::dynamic_base_class>>>(s);
      wild<arpc::result_holder<std::string>>(s); wild<std::pair<std::shared_ptr<node>, std::shared_ptr<std::string>>>(s);
    }
  }
  return oracle::done();
}
