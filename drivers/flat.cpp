// Flat containers over abstract keys ordered by an abstract strict weak order that the comparator object selects.
#include <cstddef>
#include <initializer_list>
#include <new>
#include <utility>
#include "arpc/container/flat_map.h"
#include "arpc/container/flat_set.h"
extern "C" bool ghost_less(int which, long a, long b);
struct key { long id; };
struct val { long v = 0; };
struct order { int m = 0; bool operator()(const key& a, const key& b) const { return ghost_less(m, a.id, b.id); } };
using set = arpc::flat_set<key, order>; using mset = arpc::flat_multiset<key, order>;
using map = arpc::flat_map<key, val, order>; using mmap = arpc::flat_multimap<key, val, order>;
template <typename F, typename R> long place(F* f, const R& r, bool* flag) {
  if constexpr (std::is_same_v<R, std::pair<typename F::iterator, bool>>) { *flag = r.second; return r.first - f->begin(); } else { *flag = true; return r - f->begin(); }
}
#define ALL(S, F) extern "C" { \
std::size_t d_size_of_##S() { return sizeof(F); } \
void d_make_##S(void* p, int m) { new (p) F(order{m}); } \
long d_lower_##S(F* f, const key* k) { return f->lower_bound(*k) - f->begin(); } \
long d_clower_##S(const F* f, const key* k) { return f->lower_bound(*k) - f->begin(); } \
long d_upper_##S(F* f, const key* k) { return f->upper_bound(*k) - f->begin(); } \
long d_cupper_##S(const F* f, const key* k) { return f->upper_bound(*k) - f->begin(); } \
void d_range_##S(F* f, const key* k, long* a, long* b) { auto r = f->equal_range(*k); *a = r.first - f->begin(); *b = r.second - f->begin(); } \
void d_crange_##S(const F* f, const key* k, long* a, long* b) { auto r = f->equal_range(*k); *a = r.first - f->begin(); *b = r.second - f->begin(); } \
long d_find_##S(F* f, const key* k) { return f->find(*k) - f->begin(); } \
long d_cfind_##S(const F* f, const key* k) { return f->find(*k) - f->begin(); } \
std::size_t d_count_##S(const F* f, const key* k) { return f->count(*k); } \
std::size_t d_size_##S(const F* f) { return f->size(); } \
bool d_empty_##S(const F* f) { return f->empty(); } \
long d_insert_##S(F* f, const F::value_type* v, bool* fl) { return place(f, f->insert(*v), fl); } \
long d_insertm_##S(F* f, F::value_type* v, bool* fl) { return place(f, f->insert(std::move(*v)), fl); } \
long d_inserth_##S(F* f, long h, const F::value_type* v, bool* fl) { *fl = true; return f->insert(f->cbegin() + h, *v) - f->begin(); } \
long d_inserthm_##S(F* f, long h, F::value_type* v, bool* fl) { *fl = true; return f->insert(f->cbegin() + h, std::move(*v)) - f->begin(); } \
long d_emplace_##S(F* f, const F::value_type* v, bool* fl) { return place(f, f->emplace(*v), fl); } \
long d_emplaceh_##S(F* f, long h, const F::value_type* v, bool* fl) { *fl = true; return f->emplace_hint(f->cbegin() + h, *v) - f->begin(); } \
long d_erase_at_##S(F* f, long i) { return f->erase(f->cbegin() + i) - f->begin(); } \
long d_erase_range_##S(F* f, long i, long j) { return f->erase(f->cbegin() + i, f->cbegin() + j) - f->begin(); } \
std::size_t d_erase_key_##S(F* f, const key* k) { return f->erase(*k); } \
void d_clear_##S(F* f) { f->clear(); } \
void d_insert_all_##S(F* f, const F::value_type* p, std::size_t n) { f->insert(p, p + n); } \
void d_insert_list_##S(F* f, std::initializer_list<F::value_type> l) { f->insert(l); } \
void d_from_range_##S(void* p, int m, const F::value_type* b, std::size_t n) { new (p) F(b, b + n, order{m}); } \
void d_from_list_##S(void* p, int m, std::initializer_list<F::value_type> l) { new (p) F(l, order{m}); } \
void d_assign_list_##S(F* f, std::initializer_list<F::value_type> l) { *f = l; } \
void d_copy_##S(void* p, const F* f) { new (p) F(*f); } \
void d_copya_##S(void* p, const F* f) { new (p) F(*f, f->get_allocator()); } \
void d_move_##S(void* p, F* f) { new (p) F(std::move(*f)); } \
void d_movea_##S(void* p, F* f) { new (p) F(std::move(*f), f->get_allocator()); } \
void d_assign_##S(F* f, const F* g) { *f = *g; } \
void d_massign_##S(F* f, F* g) { *f = std::move(*g); } \
void d_swap_##S(F* f, F* g) { f->swap(*g); } \
void d_sswap_##S(F* f, F* g) { using std::swap; swap(*f, *g); } \
int d_order_##S(const F* f) { return f->key_comp().m; } \
}
ALL(set, set) ALL(mset, mset) ALL(map, map) ALL(mmap, mmap)
#define MAPS(S, F) extern "C" { \
long d_emplace2_##S(F* f, const key* k, const val* v, bool* fl) { return place(f, f->emplace(*k, *v), fl); } \
long d_emplaceh2_##S(F* f, long h, const key* k, const val* v, bool* fl) { *fl = true; return f->emplace_hint(f->cbegin() + h, *k, *v) - f->begin(); } \
}
MAPS(map, map) MAPS(mmap, mmap)
extern "C" {
long d_index_map(map* f, const key* k, long nv) { val& v = (*f)[*k]; long old = v.v; v.v = nv; return old; }
long d_indexm_map(map* f, key* k, long nv) { val& v = (*f)[std::move(*k)]; long old = v.v; v.v = nv; return old; }
long d_at_map(map* f, const key* k, long nv) { val& v = f->at(*k); long old = v.v; v.v = nv; return old; }
long d_cat_map(const map* f, const key* k) { return f->at(*k).v; }
}
