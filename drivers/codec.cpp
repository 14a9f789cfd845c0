#include <array>
#include <chrono>
#include <memory>
#include <optional>
#include <tuple>
#include <utility>
#include <vector>
#include "ghost.h"
#include "arpc/binary_codecs.h"
using LE = arpc::little_endian_binary_encoder; using LD = arpc::little_endian_binary_decoder;
using BE = arpc::big_endian_binary_encoder; using BD = arpc::big_endian_binary_decoder;
// ---- sizes: containers without elements show the dynamic size alone
struct sized { std::size_t n; using value_type = char; const char* begin() const { return nullptr; } const char* end() const { return nullptr; } std::size_t size() const { return n; } };
struct probe_done {};
struct sized_in {  // hands out the announced size
  std::size_t* got; using value_type = char; using size_type = std::size_t;
  char* begin() { return nullptr; } const char* begin() const { return nullptr; } char* data() { return nullptr; } const char* data() const { return nullptr; } std::size_t size() const { return 0; }
  void resize(std::size_t l) { *got = l; throw probe_done(); } void reserve(std::size_t) {}
};
extern "C" {
void d_put_size(std::size_t n) { ghost_out o; LE e(o); sized s{n}; e(static_cast<const sized&>(s)); }
void d_put_size_be(std::size_t n) { ghost_out o; BE e(o); sized s{n}; e(static_cast<const sized&>(s)); }
void d_get_size(std::size_t* g) { ghost_in i; LD d(i); sized_in s{g}; d(s); }
void d_get_size_be(std::size_t* g) { ghost_in i; BD d(i); sized_in s{g}; d(s); }
}
// ---- scalars
enum class en : std::uint16_t { a };
enum ei : int { b };
#define SCALAR(N, T) extern "C" { \
void d_put_##N##_le(const T* v) { ghost_out o; LE e(o); e(*v); } \
void d_put_##N##_be(const T* v) { ghost_out o; BE e(o); e(*v); } \
void d_get_##N##_le(T* v) { ghost_in i; LD d(i); d(*v); } \
void d_get_##N##_be(T* v) { ghost_in i; BD d(i); d(*v); } }
SCALAR(u8, std::uint8_t) SCALAR(i8, std::int8_t) SCALAR(c, char) SCALAR(u16, std::uint16_t) SCALAR(i16, std::int16_t)
SCALAR(u32, std::uint32_t) SCALAR(i32, std::int32_t) SCALAR(u64, std::uint64_t) SCALAR(i64, std::int64_t)
SCALAR(f, float) SCALAR(d, double) SCALAR(en, en) SCALAR(ei, ei) SCALAR(wc, wchar_t) SCALAR(b, bool)
using secs = std::chrono::duration<int, std::ratio<1>>; using nanos = std::chrono::nanoseconds; using tpt = std::chrono::time_point<std::chrono::steady_clock, std::chrono::microseconds>;
SCALAR(secs, secs) SCALAR(nanos, nanos) SCALAR(tp, tpt)
