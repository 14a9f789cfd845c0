// Result holders (S15) over a value whose copies, moves, births and deaths are visible.
#include <exception>
#include <string>
#include <utility>
#include "ghost.h"
#include "arpc/binary_codecs.h"
#include "arpc/result_holder.h"
using LE = arpc::little_endian_binary_encoder; using LD = arpc::little_endian_binary_decoder;
using BE = arpc::big_endian_binary_encoder; using BD = arpc::big_endian_binary_decoder;
extern "C" { void ghost_put_elem(const void* coder, long id); long ghost_get_elem(const void* coder); void ghost_born(const void*); void ghost_died(const void*); void ghost_alive(const void*); }
struct val {
  long id = 0;
  val() { ghost_born(this); } val(long i) : id(i) { ghost_born(this); }
  val(const val& o) { ghost_alive(&o); id = o.id; ghost_born(this); } val(val&& o) noexcept { ghost_alive(&o); id = o.id; o.id = -1; ghost_born(this); }
  val& operator=(const val& o) { ghost_alive(this); ghost_alive(&o); id = o.id; return *this; } val& operator=(val&& o) noexcept { ghost_alive(this); ghost_alive(&o); long t = o.id; o.id = -1; id = t; return *this; }
  ~val() { ghost_died(this); }
  static constexpr std::uint32_t custom_serialization_version = 1;
  template <typename S> void save(S& s) const { ghost_put_elem(&s, id); }
  template <typename S> void load(S& s) { id = ghost_get_elem(&s); }
};
using V = arpc::result_holder<val>; using N = arpc::result_holder<void>; using E = std::exception_ptr;
#define BOTH(H, S) \
  std::size_t d_size_##S() { return sizeof(H); } void d_new_##S(H* h) { new (h) H; } void d_die_##S(H* h) { h->~H(); } \
  void d_new_exc_##S(H* h, const E& e) { new (h) H(e); } void d_new_move_##S(H* h, H& o) { new (h) H(std::move(o)); } void d_assign_##S(H& h, H& o) { h = std::move(o); } \
  void d_set_exc_##S(H& h, const E& e) { h.set_exception(e); } void d_swap_##S(H& h, H& o) { h.swap(o); } void d_fswap_##S(H& h, H& o) { using std::swap; swap(h, o); } void d_reset_##S(H& h) { h.reset(); } \
  bool d_bool_##S(const H& h) { return bool(h); } bool d_has_##S(const H& h) { return h.has_value(); } \
  void d_save_le_##S(const H& h) { ghost_out o; LE e(o); e(h); } void d_save_be_##S(const H& h) { ghost_out o; BE e(o); e(h); } \
  void d_load_le_##S(H& h) { ghost_in i; LD d(i); d(h); } void d_load_be_##S(H& h) { ghost_in i; BD d(i); d(h); }
extern "C" {
BOTH(V, v) BOTH(N, n)
void d_new_val_v(V* h, long id) { new (h) V(val(id)); } void d_set_copy_v(V& h, long id) { const val x(id); h.set_value(x); } void d_set_move_v(V& h, long id) { val x(id); h.set_value(std::move(x)); }
void d_set_n(N& h) { h.set_value(); }
long d_star_v(V& h) { return (*h).id; } long d_cstar_v(const V& h) { return (*h).id; } long d_value_v(V& h) { return h.value().id; } long d_cvalue_v(const V& h) { return h.value().id; }
long d_arrow_v(V& h) { return h->id; } long d_carrow_v(const V& h) { return h->id; }
long d_rstar_v(V& h) { val x = *std::move(h); return x.id; } long d_crstar_v(const V& h) { val x = *std::move(h); return x.id; } long d_rvalue_v(V& h) { val x = std::move(h).value(); return x.id; } long d_crvalue_v(const V& h) { val x = std::move(h).value(); return x.id; }
long d_or_v(const V& h, long d) { val x = h.value_or(val(d)); return x.id; } long d_ror_v(V& h, long d) { val x = std::move(h).value_or(val(d)); return x.id; }
void d_star_n(N& h) { *h; } void d_cstar_n(const N& h) { *h; } void d_value_n(N& h) { h.value(); } void d_cvalue_n(const N& h) { h.value(); }
void d_rstar_n(N& h) { *std::move(h); } void d_crstar_n(const N& h) { *std::move(h); } void d_rvalue_n(N& h) { std::move(h).value(); } void d_crvalue_n(const N& h) { std::move(h).value(); }
void d_or_n(const N& h) { h.value_or(); } void d_ror_n(N& h) { std::move(h).value_or(); }
}
