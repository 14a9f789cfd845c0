// Registries (S17) and the error factory (S14); registrations that run at start are those of the library and of the classes here.
#include <memory>
#include <string>
#include <string_view>
#include "ghost.h"
#include "arpc/binary_codecs.h"
#include "arpc/errors.h"
#include "arpc/registry.h"
#include "arpc/serializable.h"
namespace reg = arpc::registry;
struct b0 : arpc::dynamic<b0> { int a = 0; ARPC_FIELDS(a); virtual int kind() const { return 10; } };
struct b1 : arpc::dynamic<b1, b0> { int s = 0; ARPC_FIELDS(s); int kind() const override { return 11; } };
struct b2 : arpc::dynamic<b2, b0> { int d = 0; ARPC_FIELDS(d); int kind() const override { return 12; } };
struct b3 : arpc::dynamic<b3, b1> { int v = 0; ARPC_FIELDS(v); int kind() const override { return 13; } };
ARPC_REGISTER(b0); ARPC_REGISTER(b1); ARPC_REGISTER_WITH_NAME("own::b2", b2); ARPC_REGISTER(b3);
// a codec of our own, to see registrations with any coder
struct enc { template <typename T> void operator()(const T&) {} };
struct dec { template <typename T> void operator()(T&) {} };
using ereg = reg::dynamic_encoder_registry<enc>; using dreg = reg::dynamic_decoder_registry<dec>; using fac = reg::dynamic_object_factory;
using encs = arpc::mpt::pack<enc>; using decs = arpc::mpt::pack<dec>;
using base = arpc::dynamic_base_class; template <typename T> using subs = reg::dynamic_subclass_registry<T>;
extern "C" {
std::size_t d_size_of_ereg() { return sizeof(ereg); } std::size_t d_size_of_dreg() { return sizeof(dreg); } std::size_t d_size_of_fac() { return sizeof(fac); }
void d_make_ereg(void* p) { new (p) ereg; } void d_make_dreg(void* p) { new (p) dreg; } void d_make_fac(void* p) { new (p) fac; }
void d_ereg_index(const ereg& r, std::string_view n, void** out) { *out = (void*)r[n].encoder_function; }
void d_dreg_index(const dreg& r, std::string_view n, void** out) { *out = (void*)r[n].decoder_function; }
void d_fac_index(const fac& r, std::string_view n, void** out, std::uint32_t* h) { auto i = r[n]; *out = (void*)i.factory_function; *h = i.type_hash; }
void d_ereg_register(ereg& r, std::string_view n) { r.register_class<b1>(n); }
void d_dreg_register(dreg& r, std::string_view n) { r.register_class<b1>(n); }
void d_fac_register_b1(std::string_view n, fac& r, std::string_view* out) { *out = r.register_class<b1, encs, decs>(n); }
void d_fac_register_b3(std::string_view n, fac& r, std::string_view* out) { *out = r.register_class<b3, encs, decs>(n); }
subs<b0>* d_subs_get_b0() { return &subs<b0>::get(); } subs<b1>* d_subs_get_b1() { return &subs<b1>::get(); } subs<b2>* d_subs_get_b2() { return &subs<b2>::get(); } subs<b3>* d_subs_get_b3() { return &subs<b3>::get(); }
std::size_t d_size_of_subs() { return sizeof(subs<b0>); }
bool d_subs_is_b0(subs<b0>& s, std::string_view n) { return s.is_subclass(n); }
bool d_compat_b0(b0* p) { return reg::check_dynamic_compatibility<b0>(static_cast<base*>(p)); } bool d_compat_b1(b0* p) { return reg::check_dynamic_compatibility<b1>(static_cast<base*>(p)); }
bool d_compat_b2(b0* p) { return reg::check_dynamic_compatibility<b2>(static_cast<base*>(p)); } bool d_compat_b3(b0* p) { return reg::check_dynamic_compatibility<b3>(static_cast<base*>(p)); }
int d_kind(base* p) { return static_cast<b0*>(p)->kind(); }
b0* d_new_b0() { return new b0; } b0* d_new_b1() { return new b1; } b0* d_new_b2() { return new b2; } b0* d_new_b3() { return new b3; }
base* d_as_base(b0* p) { return p; }
void d_name_of(b0* p, std::string_view* out) { *out = p->portable_class_name(); }
void d_class_name_b0(std::string_view* out) { *out = arpc::portable_class_name<b0>(); } void d_class_name_b1(std::string_view* out) { *out = arpc::portable_class_name<b1>(); }
void d_class_name_b2(std::string_view* out) { *out = arpc::portable_class_name<b2>(); } void d_class_name_b3(std::string_view* out) { *out = arpc::portable_class_name<b3>(); }
std::uint32_t d_hash_b0() { return arpc::traits::type_hash_v<b0>; } std::uint32_t d_hash_b1() { return arpc::traits::type_hash_v<b1>; }
std::uint32_t d_hash_b2() { return arpc::traits::type_hash_v<b2>; } std::uint32_t d_hash_b3() { return arpc::traits::type_hash_v<b3>; }
base* d_create(fac::factory_function_type f) { return f(); }
void d_encode(ereg::encoder_function_type f, enc& e, const base& o) { f(e, o); } void d_decode(dreg::decoder_function_type f, dec& d, base& o) { f(d, o); }
fac* d_fac_get() { return &fac::get(); } ereg* d_ereg_get() { return &ereg::get(); } dreg* d_dreg_get() { return &dreg::get(); }
}
