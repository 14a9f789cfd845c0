H = r'''
#include <cstdio>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <list>
#include <memory>
#include <cstring>
#include <sstream>
#include "arpc/binary_codecs.h"
#include "arpc/string_adapters.h"
#include "arpc/iostream_adapters.h"
#include "arpc/packet_protocols.h"
#include "arpc/packet_codecs.h"
#include "arpc/highway_hash.h"
#include "arpc/errors.h"
#include "arpc/result_holder.h"
#include "arpc/serializable.h"
#include "arpc/container/flat_map.h"
#include "arpc/container/flat_set.h"
using namespace arpc;
#define CHECK(c) do { if (!(c)) { std::printf("line %d: %s\n", __LINE__, #c); return 1; } } while (0)
template <typename T> std::string enc(const T& t) { std::string s; string_output_stream o(s); little_endian_binary_encoder e(o); e(t); return s; }
'''
SEEDS = []
def S(id, edits, demo, needs, breaks, **k): SEEDS.append(dict(id=id, edits=edits, demo=H + demo, needs=needs, breaks=breaks, **k))

S("S01_set_not_cleared", [("binary_codecs.h", "    sequence.clear();\n    maybe_reserve(sequence, l);\n    while (l-- > 0) {\n      traits::writable_value_type_t<typename T::value_type> v;\n      (*this)(v);\n      sequence.insert", "    maybe_reserve(sequence, l);\n    while (l-- > 0) {\n      traits::writable_value_type_t<typename T::value_type> v;\n      (*this)(v);\n      sequence.insert")],
 r'''int main() { std::set<int> a{1, 2, 3}, b{7}; std::string s = enc(a); string_input_stream i(s); little_endian_binary_decoder d(i); d(b); CHECK(b == a);
 std::map<std::string, int> m{{"x", 1}}, n{{"x", 2}}; s = enc(m); string_input_stream j(s); little_endian_binary_decoder e(j); e(n); CHECK(n == m); }''',
 "decoding a set or map into an object that already holds elements", "the decoded container keeps what it held before, so it differs from the encoded value")
S("S01_chunked_reverse", [("binary_codecs.h", "    in_.read_fully(reinterpret_cast<char*>(p), l * sizeof(T));\n    for (std::size_t i = 0; i < l; i++, p++) {\n      char* bp = reinterpret_cast<char*>(p);\n      std::reverse(bp, bp + sizeof(T));\n    }",
 "    // Read and reverse in chunks that stay in the cache.\n    constexpr std::size_t chunk = 256;\n    for (std::size_t i = 0; i < l; i += chunk) {\n      const std::size_t n = std::min(chunk, l - i);\n      in_.read_fully(reinterpret_cast<char*>(p + i), n * sizeof(T));\n      for (T* q = p; q < p + n; q++) {\n        char* bp = reinterpret_cast<char*>(q);\n        std::reverse(bp, bp + sizeof(T));\n      }\n    }")],
 r'''int main() { for (std::size_t n : {0, 1, 200, 256, 257, 513}) { std::vector<std::uint32_t> v, w; for (std::size_t k = 0; k < n; k++) v.push_back(k * 2654435761u); std::string s; string_output_stream o(s); big_endian_binary_encoder e(o); e(v); string_input_stream i(s); big_endian_binary_decoder d(i); d(w); CHECK(w == v); } }''',
 "a vector of more than 256 multi-byte scalars in the foreign byte order", "elements after the first chunk are not byte-reversed, and the first chunk is reversed again")
S("S02_short_view_size", [("binary_codecs.h", "    std::size_t l = s.size();\n    write_variant(l);\n    write_block(s.data(), l);", "    const std::uint16_t l = s.size();\n    write_variant(l);\n    write_block(s.data(), l);")],
 r'''int main() { for (std::size_t n : {std::size_t(0), std::size_t(300), std::size_t(65535), std::size_t(65536), std::size_t(70000)}) { std::string t(n, 'x'), s; string_output_stream o(s); little_endian_binary_encoder e(o); e(std::string_view(t)); CHECK(s == enc(t)); } }''',
 "a string view of 65536 or more characters", "the size and the content of long string views are truncated")
S("S02_optional_presence", [("binary_codecs.h", "    bool present(o);\n    (*this)(present);\n    if (present) {\n      (*this)(o.value());\n    }", "    const std::size_t present = o ? sizeof(*o) : 0;\n    (*this)(static_cast<std::uint8_t>(present ? (present | 1) & 0x01 : 0));\n    if (static_cast<std::uint8_t>(present)) {\n      (*this)(o.value());\n    }")],
 r'''int main() { std::optional<std::array<char, 256>> o; o.emplace(); o->fill('a'); std::string s = enc(o); CHECK(s == std::string(1, 1) + std::string(256, 'a')); std::optional<int> p(5); CHECK(enc(p) == std::string("\x01\x05\0\0\0", 5)); }''',
 "an optional whose element type takes a multiple of 256 bytes", "the optional is written as present but its content is left out")
S("S05_partial_read_accepted", [("io_adapters.cpp", "  std::size_t r = read(p, l);\n  if (r < l) {\n    throw", "  std::size_t r = read(p, l);\n  if (r == 0 && l > 0) {\n    throw")],
 r'''int main() { std::uint64_t v = 0; std::string s("\1\2\3", 3); string_input_stream i(s); little_endian_binary_decoder d(i); bool t = false; try { d(v); } catch (const errors::eof&) { t = true; } CHECK(t); }''',
 "input that ends inside a scalar or block", "a truncated value is accepted")
S("S05_class_id_gap", [("binary_codecs.h", "    if (class_id > class_info_vector_.size()) {", "    if (class_id > class_info_vector_.size() + 1) {")],
 r'''struct Node : public dynamic<Node> { int v = 0; ARPC_FIELDS(v); };
ARPC_REGISTER(Node);
int main() { std::unique_ptr<Node> p; std::string s("\1\1", 2); string_input_stream i(s); little_endian_binary_decoder d(i); bool t = false; try { d(p); } catch (const errors::data_mismatch&) { t = true; } CHECK(t); }''',
 "a class number one past the next one to be assigned", "the decoder uses a class entry that does not exist (out of bounds)")
S("S08_xor_compare", [("packet_codecs.cpp", "  for (std::size_t i = 0; i < sizeof(std::uint64_t); i++) {\n    if (*ptr++ != (hash & 0xff)) {\n      throw errors::data_mismatch(\"Hash mismatch in MAC decode\");\n    }\n    hash >>= 8;\n  }", "  // Compare in constant time.\n  std::uint8_t difference = 0;\n  for (std::size_t i = 0; i < sizeof(std::uint64_t); i++) {\n    difference ^= *ptr++ ^ (hash & 0xff);\n    hash >>= 8;\n  }\n  if (difference) {\n    throw errors::data_mismatch(\"Hash mismatch in MAC decode\");\n  }")],
 r'''int main() { mac_codec m; std::string s = "payload"; m.encode(s); s[s.size() - 1] ^= 0x40; s[s.size() - 5] ^= 0x40; bool t = false; try { m.decode(s); } catch (const errors::data_mismatch&) { t = true; } CHECK(t); }''',
 "a trailer in which two bytes differ from the hash in the same bits", "a packet with a wrong hash is accepted")
S("S08_stale_pointer", [("packet_codecs.cpp", "  std::size_t original_size = data.size();\n\n  // Add space for the hash.\n  data.reserve(original_size + sizeof(std::uint64_t));\n\n  // Get the hash; append it.\n  std::uint64_t hash = highway_hash::hash64(\n      reinterpret_cast<const std::uint8_t*>(data.data()), original_size, key_);", "  std::size_t original_size = data.size();\n  const auto* bytes = reinterpret_cast<const std::uint8_t*>(data.data());\n\n  // Add space for the hash.\n  data.reserve(original_size + sizeof(std::uint64_t));\n\n  // Get the hash; append it.\n  std::uint64_t hash = highway_hash::hash64(bytes, original_size, key_);")],
 r'''int main() { for (int n : {0, 5, 40, 300}) { std::string p(n, 'q'), s(p); s.shrink_to_fit(); mac_codec m; m.encode(s); mac_codec k; k.decode(s); CHECK(s == p); } }''',
 "a packet whose buffer is too small for the eight appended bytes", "the hash is computed over freed memory")
S("S10_leftover_after_error", [("packet_protocols.h", "    std::string packet;\n    while (char c = in.getc()) {", "    std::string& packet = buffer_;\n    while (char c = in.getc()) {"), ("packet_protocols.h", "    cobs_.decode(packet);\n    mac_.decode(packet);\n    return packet;", "    cobs_.decode(packet);\n    mac_.decode(packet);\n    return std::exchange(buffer_, std::string());"), ("packet_protocols.h", "  cobs_codec cobs_;\n", "  cobs_codec cobs_;\n  std::string buffer_;\n")],
 r'''int main() { serial_line_packet_protocol<> p, q; std::string s, r; { string_output_stream o(s); p.send(o, "first"); } s[2] ^= 1; { string_output_stream o(s); p.send(o, "second"); } string_input_stream i(s); bool t = false; try { q.receive(i); } catch (const errors::data_mismatch&) { t = true; } CHECK(t); r = q.receive(i); CHECK(r == "second"); }''',
 "a frame that is rejected, followed by a good frame on the same receiver", "what was read of the bad frame is kept and spoils the next packet")
S("S10_flush_before_end", [("packet_protocols.h", "    out.putc('\\0');\n    out.flush();", "    out.flush();\n    out.putc('\\0');")],
 r'''struct buffered : output_stream { std::string pending, sent; void write(const char* p, std::size_t n) override { pending.append(p, n); } void putc(char c) override { pending += c; } void flush() override { sent += pending; pending.clear(); } };
int main() { buffered o; serial_line_packet_protocol<> p; p.send(o, "hello"); CHECK(o.pending.empty()); string_input_stream i(o.sent); CHECK(p.receive(i) == "hello"); }''',
 "an output stream that buffers until it is flushed", "the end of the frame stays unflushed after send")
S("S13_failed_seek", [("string_adapters.cpp", "  if (new_pos > is_.size()) {\n    throw errors::out_of_range(\"Positioning past end of string\");\n  }\n  pos_ = new_pos;", "  pos_ = new_pos;\n  if (pos_ > is_.size()) {\n    throw errors::out_of_range(\"Positioning past end of string\");\n  }")],
 r'''int main() { std::string s = "abc"; string_input_stream i(s); CHECK(i.getc() == 'a'); try { i.pos(10); } catch (const errors::out_of_range&) {} CHECK(i.pos() == 1); CHECK(i.getc() == 'b'); }''',
 "a refused repositioning followed by more reads", "the stream is left positioned outside the string")
S("S07_overhead", [("packet_codecs.cpp", "original_size / 254;", "original_size / 255;")],
 r'''int main() { for (int n : {253, 254, 255, 508, 509, 510, 762}) { std::string p(n, 'z'), s(p); cobs_codec c; c.encode(s); CHECK(s.find('\0') == s.npos); c.decode(s); CHECK(s == p); } }''',
 "packets with full runs whose length is a multiple of 254 but fewer than 255 times the runs", "the encoder works beyond the end of the packet")
S("S07_signed_count", [("packet_codecs.cpp", "    std::size_t count = static_cast<std::uint8_t>(*src++) - 1;", "    std::size_t count = static_cast<std::uint8_t>(*src++ - 1);")],
 r'''int main() { cobs_codec c; std::string z(1, '\0'); bool t = false; try { std::string s = z + std::string(255, 'a'); c.decode(s); } catch (const errors::data_mismatch&) { t = true; } std::string p(600, 'k'), s(p); c.encode(s); c.decode(s); CHECK(s == p); CHECK(t); }''',
 "a zero count byte followed by at least 255 bytes", "a frame with a zero byte is decoded instead of rejected")
S("S09_remainder_alias", [("highway_hash.cpp", "  auto copy = *this;\n  if (buffered_bytes_) {\n    copy.update_remainder(packet_, buffered_bytes_);\n  }\n  copy.finalize128(hash);", "  auto copy = *this;\n  if (buffered_bytes_) {\n    copy.update_remainder(copy.packet_, copy.buffered_bytes_);\n  }\n  copy.finalize128(hash);")],
 r'''int main() { std::uint64_t k[4] = {1, 2, 3, 4}, a[2], b[2]; for (int n = 0; n < 100; n++) { std::string s(n, 'h'); auto* p = reinterpret_cast<const std::uint8_t*>(s.data()); highway_hash::hash128(p, n, k, a); highway_hash h(k); h.append(p, n); h.finish128(b); CHECK(!std::memcmp(a, b, 16)); } }''',
 "a 128-bit result asked of an incremental hash with a partial packet buffered", "the buffered bytes are overwritten before they are hashed")
S("S09_append_exact", [("highway_hash.cpp", "  while (num >= 32) {", "  while (num > 32) {")],
 r'''int main() { std::uint64_t k[4] = {1, 2, 3, 4}; for (int n = 0; n < 100; n++) for (int c : {0, 3, 32}) { std::string s(n, 'h'); auto* p = reinterpret_cast<const std::uint8_t*>(s.data()); highway_hash h(k); int f = std::min(c, n); h.append(p, f); h.append(p + f, n - f); CHECK(h.finish64() == highway_hash::hash64(p, n, k)); } }''',
 "appended data that ends exactly at a packet boundary", "a full packet is kept as if it were a remainder")
S("S15_stale_exception", [("result_holder.h", "    d(value_);\n    bool has_exception;\n    exception_ = nullptr;\n    d(has_exception);", "    d(value_);\n    bool has_exception;\n    d(has_exception);")],
 r'''int main() { result_holder<int> a(5), b(std::make_exception_ptr(errors::eof("x"))); std::string s = enc(a); string_input_stream i(s); little_endian_binary_decoder d(i); d(b); CHECK(bool(b)); CHECK(*b == 5); }''',
 "decoding a value into a holder that held an exception", "the old exception is still thrown")
S("S16_short_copy", [("address.cpp", "  memcpy(ai_addr, other.ai_addr, ai_addrlen);", "  memcpy(ai_addr, other.ai_addr, sizeof(*ai_addr));")],
 r'''#include "arpc/address.h"
#include <netinet/in.h>
int main() { address a; sockaddr_in6 s{}; s.sin6_family = AF_INET6; s.sin6_port = htons(80); std::memset(&s.sin6_addr, 0xab, 16); s.sin6_scope_id = 7; std::memcpy(a.address_data(), &s, sizeof s); a.address_size() = sizeof s; a.family() = AF_INET6; address b(a); CHECK(!std::memcmp(b.address_data(), &s, sizeof s)); }''',
 "a copied address longer than a plain sockaddr (IPv6, Unix)", "the tail of the address is not copied", link="address errors")

S("S03_shared_id_reuse", [("binary_codecs.h", "      std::size_t next_object_id = shared_object_map_.size();\n      it = shared_object_map_.emplace(address, next_object_id).first;", "      std::size_t next_object_id = std::min<std::size_t>(shared_object_map_.size(), 0xffff);\n      it = shared_object_map_.emplace(address, next_object_id).first;")],
 """int main() { std::vector<std::shared_ptr<int>> v, w; for (int k = 0; k < 65540; k++) v.push_back(std::make_shared<int>(k)); std::string s = enc(v); string_input_stream i(s); little_endian_binary_decoder d(i); d(w); CHECK(w.size() == v.size()); for (std::size_t k = 0; k < v.size(); k++) CHECK(*w[k] == *v[k]); }""",
 "more than 65535 shared objects given to one encoder", "distinct objects get the same number", flags="-O1")
S("S03_register_late", [("binary_codecs.h", "    ptr.reset(new typename P::element_type());\n    o(ptr);\n    (*this)(*ptr);", "    ptr.reset(new typename P::element_type());\n    (*this)(*ptr);\n    o(ptr);")],
 """struct N : public serializable<N> { int v = 0; std::weak_ptr<N> self; ARPC_FIELDS(v, self); };
int main() { auto a = std::make_shared<N>(); a->v = 4; a->self = a; std::string s = enc(a); std::shared_ptr<N> b; string_input_stream i(s); little_endian_binary_decoder d(i); d(b); CHECK(b && b->v == 4 && b->self.lock() == b); }""",
 "an object that refers to itself through a shared or weak pointer", "cycles are rejected instead of reproduced")
S("S04_subclass_reversed_check", [("binary_codecs.h", "    if (!registry::dynamic_subclass_registry<T>::get().is_subclass(\n            info.class_name))\n      throw", "    if (class_id + 1 == class_info_vector_.size() &&\n        !registry::dynamic_subclass_registry<T>::get().is_subclass(\n            info.class_name))\n      throw")],
 """struct A : public dynamic<A> { int v = 0; ARPC_FIELDS(v); }; struct B : public dynamic<B> { std::string t; ARPC_FIELDS(t); };
ARPC_REGISTER(A); ARPC_REGISTER(B);
int main() { std::string s; { string_output_stream o(s); little_endian_binary_encoder e(o); auto a = std::make_unique<A>(); auto b = std::make_unique<B>(); e(a); e(b); e(a); } string_input_stream i(s); little_endian_binary_decoder d(i); std::unique_ptr<A> p; std::unique_ptr<B> q, r; d(p); d(q); bool t = false; try { d(r); } catch (const errors::data_mismatch&) { t = true; } CHECK(t); }""",
 "an object of a class seen earlier in the stream (but not the last new one) decoded through a pointer to an unrelated class", "the object is cast to a class it is not derived from")
S("S04_type_hash_skipped", [("binary_codecs.h", "      if (type_hash != class_info.type_hash) {", "      if (type_hash && type_hash != class_info.type_hash) {")],
 """struct A : public dynamic<A> { int v = 0; ARPC_FIELDS(v); };
ARPC_REGISTER(A);
int main() { std::unique_ptr<A> p; std::string s("\\1\\0\\1A\\0\\0\\0\\0\\5\\0\\0\\0", 12); string_input_stream i(s); little_endian_binary_decoder d(i); bool t = false; try { d(p); } catch (const errors::data_mismatch&) { t = true; } CHECK(t); }""",
 "a class announced with the structure hash zero", "a wrong structure hash is accepted")
S("S06_enum_sign", [("type_hash.h", "      return type_hash_leaf(type_family::ENUM,\n                            std::is_signed_v<std::underlying_type_t<T>>,", "      return type_hash_leaf(type_family::ENUM, std::is_signed_v<T>,")],
 """enum class P : std::int8_t { X }; enum class Q : std::uint8_t { Y };
int main() { CHECK(traits::type_hash_v<P> != traits::type_hash_v<Q>); }""",
 "enums that differ only in the signedness of their underlying type", "enums of different signedness get the same hash")
S("S06_verify_after", [("binary_codecs.h", "    if (type_hash != traits::type_hash_v<T>) {\n      throw errors::data_mismatch(\"Wrong type hash in verified read\");\n    }\n    (*this)(o, tags...);", "    (*this)(o, tags...);\n    if (type_hash != traits::type_hash_v<T>) {\n      throw errors::data_mismatch(\"Wrong type hash in verified read\");\n    }")],
 """int main() { std::string s("\\0\\0\\0\\0\\7\\0\\0\\0", 8); int v = 3; string_input_stream i(s); little_endian_binary_decoder d(i); bool t = false; try { d(v, verify_structure()); } catch (const errors::data_mismatch&) { t = true; } CHECK(t); CHECK(v == 3); }""",
 "a wrong structure hash followed by enough bytes", "the target is changed before the mismatch is reported")
S("S11_hint_insert", [("container/detail/flat_tree.h", "  iterator insert(const_iterator hint, const value_type& value) {\n    if constexpr (!multiple_allowed) {", "  iterator insert(const_iterator hint, const value_type& value) {\n    if (hint == end() && !empty() && !comp_(value, *(end() - 1))) {\n      // Appending.\n      return underlying_container::insert(end(), value);\n    }\n    if constexpr (!multiple_allowed) {")],
 """int main() { flat_set<int> s{1, 5}; int v = 5; s.insert(s.end(), v); CHECK(s.size() == 2); v = 6; s.insert(s.end(), v); CHECK(s.size() == 3); v = 2; s.insert(s.end(), v); CHECK(s.size() == 4 && s.count(2) == 1); }""",
 "inserting the greatest key again with an end hint", "a unique container holds two equivalent keys")
S("S14_message_cut", [("errors.h", "  error_function_type f = [](const char* what) { throw T(what); };", "  error_function_type f = [](const char* what) {\n    char buffer[256];\n    std::snprintf(buffer, sizeof(buffer), \"%s\", what);\n    throw T(buffer);\n  };"), ("errors.h", "#include <cerrno>\n", "#include <cerrno>\n#include <cstdio>\n")],
 """int main() { for (int n : {0, 10, 255, 256, 1000}) { std::string m(n, 'm'); try { error_factory::get().throw_error(errors::detail::error_class_descriptor<errors::eof>::error_class_name, m.c_str()); } catch (const errors::eof& e) { CHECK(m == e.what()); } } }""",
 "a message of 256 or more characters", "the message is cut when the error is thrown by name")
S("S14_errno_alias", [("errors.cpp", "  if (code == EAGAIN || code == EWOULDBLOCK) {", "  if (code == EAGAIN || code == EINTR) {")],
 """#include <cerrno>
int main() { bool t = false; try { throw_io_error("x", EINTR); } catch (const errors::try_again&) { t = true; } catch (const errors::io_error&) {} CHECK(!t); }""",
 "a system call interrupted by a signal", "an interrupted call is reported as would-block")
S("S15_void_swap", [("result_holder.h", "  void swap(result_holder<value_type>& other) noexcept {\n    std::swap(value_, other.value_);\n    exception_.swap(other.exception_);\n  }", "  void swap(result_holder<value_type>& other) noexcept {\n    const bool value = value_ && !exception_;\n    value_ = other.value_ && !other.exception_;\n    other.value_ = value;\n    exception_.swap(other.exception_);\n  }")],
 """int main() { result_holder<void> a, b; a.set_value(); a.set_exception(std::make_exception_ptr(errors::eof("x"))); a.swap(b); std::string s, u; result_holder<void> c; c.set_value(); c.set_exception(std::make_exception_ptr(errors::eof("x"))); CHECK(enc(b) == enc(c)); CHECK(!a); }""",
 "a holder given first a value and then an exception, swapped", "the value part of the content is lost in the swap")
S("S17_prefix_lookup", [("registry.cpp", "  const auto it = factory_function_map_.find(class_name);", "  const auto it = factory_function_map_.find(class_name.substr(0, 63));")],
 """struct A : public dynamic<A> { int v = 0; ARPC_FIELDS(v); };
static const std::string name63 = std::string(63, 'n');
ARPC_REGISTER_WITH_NAME(name63, A);
int main() { bool t = false; try { registry::dynamic_object_factory::get()[name63 + "z"]; } catch (const errors::not_found&) { t = true; } CHECK(t); CHECK(registry::dynamic_object_factory::get()[name63].factory_function); }""",
 "class names longer than 63 characters that share their first 63", "a name that was never registered is found")
S("S13_count_lost", [("io_adapters.cpp", "      auto c = getc();\n      r++;\n      *p++ = c;\n    } catch (const errors::eof&) {\n      break;\n    }", "      auto c = getc();\n      r++;\n      *p++ = c;\n    } catch (const errors::eof&) {\n      if (r == 0) throw;\n      break;\n    }")],
 """struct src : input_stream { std::string s; std::size_t k = 0; std::size_t read(char* p, std::size_t l) override { return input_stream::read(p, l); } char getc() override { if (k >= s.size()) throw errors::eof("EOF"); return s[k++]; } };
int main() { src i; i.s = "ab"; char b[4]; CHECK(i.read(b, 4) == 2); CHECK(i.read(b, 4) == 0); }""",
 "a read at the very end of a stream that only implements getc", "read throws instead of returning zero")
