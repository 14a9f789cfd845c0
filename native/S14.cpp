// link: errors
#include "oracle.h"
#include <cerrno>
#include <map>
#include "arpc/errors.h"
using oracle::one; using oracle::rng; using oracle::hex; namespace er = arpc::errors;
struct seen { std::string cls; std::string what; };
#define CLASSES(X) X(unknown_error) X(cancelled) X(data_mismatch) X(deadline_exceeded) X(eof) X(internal_error) X(invalid_argument) X(invalid_state) X(io_error) X(not_implemented) X(not_found) X(out_of_range) X(shutting_down) X(unavailable) X(try_again)
// which class exactly was thrown (no library code involved in telling)
template <typename F> seen catching(F&& f) {
  try { f(); return {"(nothing)", ""}; }
#define X(N) catch (const er::N& e) { return {#N, e.what()}; }
  CLASSES(X)
#undef X
  catch (const std::exception& e) { return {"std::exception", e.what()}; } catch (...) { return {"...", ""}; }
}
std::string text() { std::string s; std::size_t l = rng.below(30); if (rng.below(6) == 0) l = rng.below(8) == 0 ? rng.below(70000) : rng.below(1200); for (std::size_t n = l; n-- > 0;) s += char(1 + rng.below(255)); return s; }
template <typename E> void cls(const char* name) {
  std::string m = text(); one(std::string(name) + " with message " + hex(m)); E e(m.c_str()); REQUIRE(e.portable_error_class_name() == name, "name ", e.portable_error_class_name()); const er::base_error& b = e; REQUIRE(b.portable_error_class_name() == name); REQUIRE(std::string(b.what()) == m);
  std::string copy(name); copy.shrink_to_fit(); seen s = catching([&] { arpc::error_factory::get().throw_error(copy, m.c_str()); }); REQUIRE(s.cls == name, "thrown class ", s.cls); REQUIRE(s.what == m, "message ", s.what);
  auto [t, w] = arpc::error_factory::analyze_exception(std::make_exception_ptr(e)); REQUIRE(t == name && w == m, "analysed as ", t, " ", w);
  s = catching([&] { arpc::throw_with_code<E>(m, 42); }); REQUIRE(s.cls == name && s.what == m + ": 42"); errno = 17; s = catching([&] { arpc::throw_with_errno<E>(m); }); REQUIRE(s.cls == name && s.what == m + ": 17", s.what);
}
class mine : public er::base_error { public: using base_error::base_error; private: std::string_view portable_error_class_name_internal() const override { return "my own"; } };
struct dyn_err : std::runtime_error { using runtime_error::runtime_error; };
int main(int c, char** a) {
  oracle::init(c, a); std::set<std::string> names;
#define X(N) names.insert(#N);
  CLASSES(X)
#undef X
  oracle::begin("every error number"); for (int code = -5; code < 200; code++) { std::string m = text(); one("system error " + std::to_string(code)); bool quiet = code == EINPROGRESS || code == EALREADY || code == EISCONN, again = code == EAGAIN || code == EWOULDBLOCK;
    for (int how = 0; how < 2; how++) { seen s = catching([&] { if (how) { errno = code; arpc::throw_io_error(m); } else arpc::throw_io_error(m, code); }); if (quiet) REQUIRE(s.cls == "(nothing)", s.cls); else if (again) REQUIRE(s.cls == "try_again", s.cls); else { REQUIRE(s.cls == "io_error", s.cls); REQUIRE(s.what == m + ": " + std::to_string(code), s.what); } } }
  oracle::begin("other exceptions");
  { one("null exception pointer"); auto [t, w] = arpc::error_factory::analyze_exception(nullptr); REQUIRE(t.empty() && w.empty()); }
  { one("std::runtime_error"); auto [t, w] = arpc::error_factory::analyze_exception(std::make_exception_ptr(dyn_err("abc"))); REQUIRE(t.empty() && w == "abc", t, w); }
  { one("thrown int and string"); auto [t, w] = arpc::error_factory::analyze_exception(std::make_exception_ptr(5)); REQUIRE(t.empty() && w.empty()); auto [t2, w2] = arpc::error_factory::analyze_exception(std::make_exception_ptr(std::string("q"))); REQUIRE(t2.empty() && w2.empty()); }
  { one("an error class of the user's own"); auto [t, w] = arpc::error_factory::analyze_exception(std::make_exception_ptr(mine("m"))); REQUIRE(t == "my own" && w == "m"); }
  oracle::begin("registering"); { one("duplicate registration of eof"); seen s = catching([] { arpc::error_factory::get().register_error_class<er::cancelled>("eof"); }); REQUIRE(s.cls == "invalid_state", s.cls); s = catching([] { arpc::error_factory::get().throw_error("eof", "x"); }); REQUIRE(s.cls == "eof"); static std::string own = "extra"; arpc::error_factory::get().register_error_class<er::not_found>(own); std::string key = "extra"; s = catching([&] { arpc::error_factory::get().throw_error(key, "y"); }); REQUIRE(s.cls == "not_found" && s.what == "y"); }
  while (oracle::more(1.0)) {
    oracle::begin("classes");
#define X(N) cls<er::N>(#N);
    CLASSES(X)
#undef X
    oracle::begin("unknown names"); std::string n = rng.coin() ? text() : *std::next(names.begin(), rng.below(names.size())); if (rng.coin()) n += char(rng()); if (!n.empty() && rng.coin()) n.erase(rng.below(n.size()), 1); if (n != "extra") { std::string m = text(); one("name " + hex(n)); seen s = catching([&] { arpc::error_factory::get().throw_error(n, m.c_str()); }); REQUIRE(s.cls == (names.count(n) ? n : "unknown_error") && s.what == m, s.cls); }
  }
  return oracle::done();
}
