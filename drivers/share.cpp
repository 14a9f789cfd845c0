// Sharing and polymorphism (S03, S04): what the codecs do with pointers, over abstract contents of the objects pointed to.
#include <algorithm>
#include <array>
#include <chrono>
#include <cstddef>
#include <cstdint>
#include <deque>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>
#include "ghost.h"
#define private public      // access to the layout of the decoder's table of classes; the code is the same
#include "arpc/binary_codecs.h"
#undef private
#include "arpc/serializable_base.h"
using LE = arpc::little_endian_binary_encoder; using LD = arpc::little_endian_binary_decoder;
using BE = arpc::big_endian_binary_encoder; using BD = arpc::big_endian_binary_decoder;
namespace reg = arpc::registry; using base = arpc::dynamic_base_class;
extern "C" { void ghost_put_obj(const void* coder, const void* obj); void ghost_get_obj(const void* coder, void* obj); }
#define CONTENT ARPC_CUSTOM_SERIALIZATION_VERSION(1); \
  template <typename S> void save(S& s) const { ghost_put_obj(&s, this); } template <typename S> void load(S& s) { ghost_get_obj(&s, this); }
// plain classes, and dynamic ones: sub's dynamic_base_class is not at the start of the object
struct item { long a = 0; CONTENT };
struct other { long b = 0; CONTENT };
struct poly { long x = 0; virtual ~poly() {} };
struct b0 : arpc::dynamic<b0> { long a = 0; CONTENT };
struct sub : poly, arpc::dynamic<sub, b0> { long c = 0; CONTENT };
template <typename C> ghost_out& out() { static ghost_out o; return o; }
template <typename C> ghost_in& in() { static ghost_in i; return i; }
template <typename T> using subs = reg::dynamic_subclass_registry<T>;
#define ONE(SUF, ENC, DEC, T) \
void d_put_##T##_##SUF(ENC& e, const std::shared_ptr<T>& p) { e(p); } void d_wput_##T##_##SUF(ENC& e, const std::weak_ptr<T>& p) { e(p); } void d_uput_##T##_##SUF(ENC& e, const std::unique_ptr<T>& p) { e(p); } \
void d_get_##T##_##SUF(DEC& d, std::shared_ptr<T>& p) { d(p); } void d_wget_##T##_##SUF(DEC& d, std::weak_ptr<T>& p) { d(p); } void d_uget_##T##_##SUF(DEC& d, std::unique_ptr<T>& p) { d(p); }
#define CODER(SUF, ENC, DEC) \
std::size_t d_size_enc_##SUF() { return sizeof(ENC); } std::size_t d_size_dec_##SUF() { return sizeof(DEC); } \
void d_make_enc_##SUF(void* p) { new (p) ENC(out<ENC>()); } void d_make_dec_##SUF(void* p) { new (p) DEC(in<DEC>()); } \
std::size_t d_at_name_##SUF() { return offsetof(DEC::seen_class_info, class_name); } std::size_t d_at_new_##SUF() { return offsetof(DEC::seen_class_info, factory_function); } std::size_t d_at_dec_##SUF() { return offsetof(DEC::seen_class_info, decoder_function); } \
std::size_t d_at_size_##SUF() { return sizeof(DEC::seen_class_info); } \
std::size_t d_at_ptr_##SUF() { return offsetof(DEC::shared_object_info, ptr); } std::size_t d_at_tid_##SUF() { return offsetof(DEC::shared_object_info, type_id); } std::size_t d_at_osize_##SUF() { return sizeof(DEC::shared_object_info); } \
std::size_t d_at_cid_##SUF() { return offsetof(ENC::seen_class_info, class_id); } std::size_t d_at_enc_##SUF() { return offsetof(ENC::seen_class_info, encoder_function); } \
reg::dynamic_encoder_registry<ENC>* d_ereg_##SUF() { return &reg::dynamic_encoder_registry<ENC>::get(); } reg::dynamic_decoder_registry<DEC>* d_dreg_##SUF() { return &reg::dynamic_decoder_registry<DEC>::get(); } \
std::size_t d_size_of_ereg_##SUF() { return sizeof(reg::dynamic_encoder_registry<ENC>); } std::size_t d_size_of_dreg_##SUF() { return sizeof(reg::dynamic_decoder_registry<DEC>); } \
ONE(SUF, ENC, DEC, item) ONE(SUF, ENC, DEC, other) ONE(SUF, ENC, DEC, b0) ONE(SUF, ENC, DEC, sub)
extern "C" {
CODER(le, LE, LD)
CODER(be, BE, BD)
reg::dynamic_object_factory* d_fac() { return &reg::dynamic_object_factory::get(); } std::size_t d_size_of_fac() { return sizeof(reg::dynamic_object_factory); }
subs<b0>* d_subs_b0() { return &subs<b0>::get(); } subs<sub>* d_subs_sub() { return &subs<sub>::get(); } std::size_t d_size_of_subs() { return sizeof(subs<b0>); }
const void* d_tid_item() { return reg::get_type_id<item>(); } const void* d_tid_other() { return reg::get_type_id<other>(); }
const void* d_tid_b0() { return reg::get_type_id<b0>(); } const void* d_tid_sub() { return reg::get_type_id<sub>(); }
base* d_base_b0(b0* p) { return p; } base* d_base_sub(sub* p) { return p; } b0* d_up_sub(sub* p) { return p; }
}
