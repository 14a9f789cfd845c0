// Error classes (S14).  The registrations that run at start are the library's own.
#include <exception>
#include <stdexcept>
#include <string>
#include <string_view>
#include "ghost.h"
#include "arpc/errors.h"
namespace er = arpc::errors; using arpc::error_factory;
struct mine : er::base_error { using base_error::base_error; private: std::string_view portable_error_class_name_internal() const override { return "my own"; } };
struct stdish : std::exception { const char* text; stdish(const char* t) : text(t) {} const char* what() const noexcept override { return text; } };
struct foreign { int x; };
#define CLASSES(X) X(unknown_error) X(cancelled) X(data_mismatch) X(deadline_exceeded) X(eof) X(internal_error) X(invalid_argument) X(invalid_state) X(io_error) X(not_implemented) X(not_found) X(out_of_range) X(shutting_down) X(unavailable) X(try_again)
extern "C" {
error_factory* d_get() { return &error_factory::get(); } std::size_t d_size_of() { return sizeof(error_factory); } void d_make(void* p) { new (p) error_factory; }
void d_throw(error_factory& f, std::string_view n, const char* what) { f.throw_error(n, what); }
void d_register(error_factory& f, std::string_view n, std::string_view* out) { *out = f.register_error_class<mine>(n); }
#define X(N) void d_make_##N(std::exception_ptr* p, const char* what) { new (p) std::exception_ptr(std::make_exception_ptr(er::N(what))); } \
  void d_name_##N(std::string_view* out, const char* what) { er::N e(what); const er::base_error& b = e; *out = b.portable_error_class_name(); } \
  void d_code_##N(const std::string& m, int c) { arpc::throw_with_code<er::N>(m, c); } void d_errno_##N(const std::string& m) { arpc::throw_with_errno<er::N>(m); }
CLASSES(X)
#undef X
void d_make_mine(std::exception_ptr* p, const char* what) { new (p) std::exception_ptr(std::make_exception_ptr(mine(what))); }
void d_make_stdish(std::exception_ptr* p, const char* what) { new (p) std::exception_ptr(std::make_exception_ptr(stdish(what))); }
void d_make_foreign(std::exception_ptr* p, const char* what) { new (p) std::exception_ptr(std::make_exception_ptr(foreign{1})); }
void d_make_null(std::exception_ptr* p, const char* what) { new (p) std::exception_ptr; }
void d_call(error_factory::error_function_type f, const char* what) { f(what); }
void d_analyze(const std::exception_ptr& p, std::pair<std::string, std::string>* out) { new (out) std::pair<std::string, std::string>(error_factory::analyze_exception(p)); }
std::string* d_first(std::pair<std::string, std::string>* p) { return &p->first; } std::string* d_second(std::pair<std::string, std::string>* p) { return &p->second; }
std::size_t d_pair_size() { return sizeof(std::pair<std::string, std::string>); }
void d_io_code(const std::string& m, int c) { arpc::throw_io_error(m, c); } void d_io_errno(const std::string& m) { arpc::throw_io_error(m); }
}
