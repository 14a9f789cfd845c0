#include "oracle.h"
#include "types.h"
#include "arpc/result_holder.h"
using oracle::one; using oracle::rng; using arpc::result_holder; namespace er = arpc::errors; using model::gen;
// model: what a holder holds
template <typename T> struct M { bool val = false, exc = false; T v{}; std::string cls, msg; };
struct plain_error : std::runtime_error { using runtime_error::runtime_error; };
std::exception_ptr make_exc(std::string& cls, std::string& msg) { msg = "m" + std::to_string(rng.below(100)); switch (rng.below(5)) { case 0: cls = "eof"; return std::make_exception_ptr(er::eof(msg)); case 1: cls = "cancelled"; return std::make_exception_ptr(er::cancelled(msg)); case 2: cls = "invalid_state"; msg = "stored " + msg; return std::make_exception_ptr(er::invalid_state(msg)); case 3: cls = "std"; return std::make_exception_ptr(plain_error(msg)); default: cls = "unavailable"; return std::make_exception_ptr(er::unavailable(msg)); } }
template <typename F> std::string access(F&& f, std::string& msg) { try { f(); return ""; } catch (const er::base_error& e) { msg = e.what(); return std::string(e.portable_error_class_name()); } catch (const std::exception& e) { msg = e.what(); return "std"; } catch (...) { return "?"; } }
// content as the wire shows it: the value if any, then whether there is an exception, its class and its message
std::string wire(std::string val, bool exc, const std::string& cls, const std::string& msg, bool big) { val += char(exc); if (exc) val += model::encode(cls == "std" ? std::string() : cls, big) + model::encode(msg, big); return val; }
template <typename T> void check(result_holder<T>& h, const M<T>& m, const char* what) {
  bool full = m.val || m.exc; REQUIRE(bool(h) == full, what, " tests ", bool(h)); REQUIRE(h.has_value() == full, what); const result_holder<T>& ch = h; std::string cls = m.exc ? m.cls : m.val ? "" : "invalid_state";
  auto acc = [&](const char* how, auto&& f) { std::string msg; T got{}; std::string k = access([&] { got = f(); }, msg); REQUIRE(k == cls, what, " ", how, " threw ", k, " expected ", cls); if (m.exc) REQUIRE(msg == m.msg, what, how, msg); if (k.empty()) REQUIRE(got == m.v, what, " ", how, " gave a wrong value"); };
  acc("*", [&] { return *h; }); acc("const *", [&] { return *ch; }); acc("value", [&] { return h.value(); }); acc("const value", [&] { return ch.value(); }); acc("->", [&] { return *h.operator->(); }); acc("const ->", [&] { return *ch.operator->(); });
  acc("const&& *", [&] { return *std::move(ch); }); acc("const&& value", [&] { return std::move(ch).value(); }); { bool big = rng.coin(); std::optional<T> v; if (m.val) v = m.v; REQUIRE(model::encode(ch, big) == wire(model::encode(v, big), m.exc, m.cls, m.msg, big), what, " encodes other content"); } T d = gen<T>(1); { std::string msg; T got{}; std::string k = access([&] { got = ch.value_or(d); }, msg); REQUIRE(k == (m.exc ? m.cls : ""), what, " value_or threw ", k); if (k.empty()) REQUIRE(got == (m.val ? m.v : d), what, " value_or"); }
}
template <typename T> void consume(const M<T>& m, result_holder<T>& h, int how) {   // rvalue access, on a holder that is then dropped
  std::string cls = m.exc ? m.cls : m.val ? "" : "invalid_state", msg; T got{}, d = gen<T>(1); std::string k = access([&] { got = how == 0 ? *std::move(h) : how == 1 ? std::move(h).value() : std::move(h).value_or(d); }, msg); if (how == 2 && !m.exc) cls = ""; REQUIRE(k == cls, "rvalue access ", how, " threw ", k); if (k.empty()) REQUIRE(got == (m.val ? m.v : d), "rvalue access ", how);
}
template <typename T> result_holder<T> coded(result_holder<T>& h, M<T>& m, bool big) {
  result_holder<T> r; int old = rng.below(3); if (old == 1) r.set_value(gen<T>(1)); if (old == 2) r.set_exception(std::make_exception_ptr(er::out_of_range("old"))); std::string s = model::encode(h, big); std::size_t n = model::decode(s + "zz", r, big); REQUIRE(n == s.size(), "consumed ", n, " of ", s.size());
  if (m.exc && m.cls == "std") m.cls = "unknown_error"; return r;
}
template <typename T> void history() {
  result_holder<T> a, b; M<T> ma, mb; std::string tr = model::name<T>();
  for (int k = 0; k < 12; k++) {
    switch (rng.below(10)) {
      case 0: { T v = gen<T>(1); tr += " a.set_value"; one(tr); const T& c = v; a.set_value(c); ma.val = true; ma.v = v; REQUIRE(v == ma.v); break; }
      case 1: { T v = gen<T>(1), w = v; tr += " b.set_value(move)"; one(tr); b.set_value(std::move(w)); mb.val = true; mb.v = v; break; }
      case 2: tr += " a.set_exception"; one(tr); a.set_exception(make_exc(ma.cls, ma.msg)); ma.exc = true; break;
      case 3: tr += " b.set_exception"; one(tr); b.set_exception(make_exc(mb.cls, mb.msg)); mb.exc = true; break;
      case 4: tr += " a.reset"; one(tr); a.reset(); ma = {}; break;
      case 5: tr += " a.swap(b)"; one(tr); a.swap(b); std::swap(ma, mb); break;
      case 6: tr += " swap(a,b)"; one(tr); swap(a, b); std::swap(ma, mb); break;
      case 7: tr += " a=move(b)"; one(tr); a = std::move(b); ma = mb; b.reset(); mb = {}; break;
      case 8: { tr += " b=T(move(a))"; one(tr); result_holder<T> c(std::move(a)); check(c, ma, "moved"); b = std::move(c); mb = ma; a.reset(); ma = {}; break; }
      default: { tr += " a=decode(encode(a))"; one(tr); auto r = coded(a, ma, rng.coin()); a = std::move(r); }
    }
    check(a, ma, "a"); check(b, mb, "b");
  }
  tr += " consumed"; one(tr); consume(ma, a, (int)rng.below(3)); consume(mb, b, (int)rng.below(3));
  { T v = gen<T>(1), w = v; one("construction from a value"); result_holder<T> h(std::move(w)); M<T> m; m.val = true; m.v = v; check(h, m, "constructed"); std::string cls, msg; auto e = make_exc(cls, msg); one("construction from an exception"); result_holder<T> x(e); M<T> mx; mx.exc = true; mx.cls = cls; mx.msg = msg; check(x, mx, "constructed from an exception"); }
}
void vcheck(result_holder<void>& h, bool val, bool exc, const std::string& c, const std::string& m) {
  const auto& ch = h; REQUIRE(bool(h) == (val || exc)); REQUIRE(h.has_value() == (val || exc)); std::string cls = exc ? c : val ? "" : "invalid_state"; auto acc = [&](auto&& f, const char* how) { std::string msg, k = access(f, msg); REQUIRE(k == cls, "void ", how, " threw ", k, " expected ", cls); if (exc) REQUIRE(msg == m); };
  acc([&] { *h; }, "*"); acc([&] { *ch; }, "const *"); acc([&] { h.value(); }, "value"); acc([&] { ch.value(); }, "const value"); acc([&] { *std::move(ch); }, "const&& *"); acc([&] { std::move(ch).value(); }, "const&& value"); acc([&] { *std::move(h); }, "&& *"); acc([&] { std::move(h).value(); }, "&& value"); { bool big = rng.coin(); REQUIRE(model::encode(ch, big) == wire(std::string(1, char(val)), exc, c, m, big), "void holder encodes other content"); } std::string msg, k = access([&] { ch.value_or(); }, msg); REQUIRE(k == (exc ? c : ""), "void value_or threw ", k); k = access([&] { std::move(h).value_or(); }, msg); REQUIRE(k == (exc ? c : ""));
}
void void_history() {
  result_holder<void> a, b; bool v[2] = {0, 0}, e[2] = {0, 0}; std::string c[2], m[2], tr = "void"; auto clr = [&](int i) { v[i] = e[i] = false; };
  for (int k = 0; k < 12; k++) { switch (rng.below(8)) { case 0: tr += " a.set"; one(tr); a.set_value(); v[0] = true; break; case 1: tr += " b.set"; one(tr); b.set_value(); v[1] = true; break; case 2: tr += " a.exc"; one(tr); a.set_exception(make_exc(c[0], m[0])); e[0] = true; break; case 3: tr += " b.exc"; one(tr); b.set_exception(make_exc(c[1], m[1])); e[1] = true; break; case 4: tr += " a.reset"; one(tr); a.reset(); clr(0); break; case 5: tr += " swap"; one(tr); if (k & 1) a.swap(b); else swap(a, b); std::swap(v[0], v[1]); std::swap(e[0], e[1]); std::swap(c[0], c[1]); std::swap(m[0], m[1]); break; case 6: tr += " a=move(b)"; one(tr); a = std::move(b); v[0] = v[1]; e[0] = e[1]; c[0] = c[1]; m[0] = m[1]; b.reset(); clr(1); break;
      default: { tr += " coded"; one(tr); bool big = rng.coin(); std::string s = model::encode(a, big); result_holder<void> r; if (rng.coin()) r.set_value(); if (rng.coin()) r.set_exception(std::make_exception_ptr(er::eof("old"))); std::size_t n = model::decode(s + "z", r, big); REQUIRE(n == s.size()); a = std::move(r); if (e[0] && c[0] == "std") c[0] = "unknown_error"; } } vcheck(a, v[0], e[0], c[0], m[0]); vcheck(b, v[1], e[1], c[1], m[1]); }
}
int main(int c, char** a) {
  oracle::init(c, a); oracle::begin("move-only"); { one("unique_ptr values"); result_holder<std::unique_ptr<int>> h(std::make_unique<int>(4)); REQUIRE(**h == 4); auto p = *std::move(h); REQUIRE(*p == 4); result_holder<std::unique_ptr<int>> g; g.set_value(std::make_unique<int>(5)); result_holder<std::unique_ptr<int>> f(std::move(g)); REQUIRE(**f == 5); }
  while (oracle::more(1.0)) { oracle::begin("histories"); history<int>(); history<std::string>(); history<std::vector<std::string>>(); oracle::begin("void histories"); void_history(); }
  return oracle::done();
}
