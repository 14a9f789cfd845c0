// Abstract elements (one element is one symbol of the stream), containers that record what they are told, and composites of them.
#pragma once
#include <array>
#include <optional>
#include <string>
#include <string_view>
#include <tuple>
#include <utility>
#include <vector>
#include <memory>
#include "ghost.h"
#include "arpc/binary_codecs.h"
#include "arpc/packet_protocols.h"
#include "arpc/serializable_base.h"
using LE = arpc::little_endian_binary_encoder; using LD = arpc::little_endian_binary_decoder;
using BE = arpc::big_endian_binary_encoder; using BD = arpc::big_endian_binary_decoder;
extern "C" {
void ghost_put_elem(const void* coder, long id);
long ghost_get_elem(const void* coder);
void ghost_seq_clear(const void* seq);
void ghost_seq_add(const void* seq, long a, long b);
void ghost_seq_reserve(const void* seq, std::size_t n);
}
struct elem {
  long id = 0;
  static constexpr std::uint32_t custom_serialization_version = 1;
  template <typename S> void save(S& s) const { ghost_put_elem(&s, id); }
  template <typename S> void load(S& s) { id = ghost_get_elem(&s); }
};
// an iterable of elements that is not contiguous for the library
template <typename T> struct out_seq {
  const T* p; std::size_t n; using value_type = T; using size_type = std::size_t;
  struct iter { const T* q; const T& operator*() const { return *q; } iter& operator++() { ++q; return *this; } bool operator!=(const iter& o) const { return q != o.q; } };
  iter begin() const { return {p}; } iter end() const { return {p + n}; } std::size_t size() const { return n; }
};
template <typename T> struct in_base {
  struct iter { T* q; T& operator*() const { return *q; } iter& operator++() { ++q; return *this; } bool operator!=(const iter& o) const { return q != o.q; } };
  using value_type = T; using size_type = std::size_t;
  iter begin() { return {nullptr}; } iter end() { return {nullptr}; } iter begin() const { return {nullptr}; } iter end() const { return {nullptr}; }
  std::size_t size() const { return 0; } void clear() { ghost_seq_clear(this); }
};
inline long key_of(const elem& e) { return e.id; }
struct in_seq : in_base<elem> { void push_back(elem&& e) { ghost_seq_add(this, e.id, 0); } void push_back(const elem& e) { ghost_seq_add(this, e.id, 0); } };
struct in_seq_reserving : in_seq { void reserve(std::size_t n) { ghost_seq_reserve(this, n); } };
struct in_set : in_base<elem> { using key_type = elem; void insert(elem&& e) { ghost_seq_add(this, e.id, 0); } void insert(const elem& e) { ghost_seq_add(this, e.id, 0); } };
using pair_type = std::pair<const elem, elem>;
struct in_map : in_base<pair_type> { using key_type = elem; template <typename P> void insert(P&& p) { ghost_seq_add(this, p.first.id, p.second.id); } };
struct agg { elem a; elem b; elem c; };
// a class with two bases, two fields and custom data: six symbols
struct base1 : arpc::serializable<base1> { elem p; ARPC_FIELDS(p); };
struct base2 : arpc::serializable<base2> { elem q; ARPC_FIELDS(q); };
struct rec : arpc::serializable<rec, base1, base2> { elem x, y; ARPC_FIELDS(x, y); };
struct leaf : arpc::serializable<leaf, rec> {
  elem w, z; ARPC_FIELDS(w);
  ARPC_CUSTOM_SERIALIZATION_VERSION(3);
  template <typename S> void save(S& s) const { s(z); }
  template <typename S> void load(S& s) { s(z); }
};
