From aa616bdeeb68d11f3c34341f112fd05b7382ef9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:26 +0000
Subject: [PATCH 01/26] fix: read base-128 numbers in the little-endian order
 they are written in

read_variant() assembled the seven-bit groups most significant first, so no
size, object number or class number of 128 or more was read back as written.
Numbers that do not fit std::size_t are now rejected instead of silently
dropping their high bits.
---
 src/arpc/binary_codecs.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/arpc/binary_codecs.h b/src/arpc/binary_codecs.h
index 3fd1c52..d1b0aec 100644
--- a/src/arpc/binary_codecs.h
+++ b/src/arpc/binary_codecs.h
@@ -26,6 +26,7 @@
 #include <cstddef>
 #include <cstdint>
 #include <iterator>
+#include <limits>
 #include <memory>
 #include <optional>
 #include <string>
@@ -593,14 +594,18 @@ class binary_decoder {
   //
   // For convenience, this is always represented in little endian format.
   std::size_t read_variant() {
+    constexpr unsigned bits = std::numeric_limits<std::size_t>::digits;
     std::size_t l = 0;
     uint8_t o;
-    do {
+    for (unsigned shift = 0;; shift += 7) {
       (*this)(o);
-      l <<= 7;
-      l |= (static_cast<std::size_t>(o) & 0x7f);
-    } while ((o & 0x80) != 0);
-    return l;
+      const std::size_t chunk = static_cast<std::size_t>(o) & 0x7f;
+      if (shift >= bits || ((chunk << shift) >> shift) != chunk) {
+        throw errors::data_mismatch("Number too large in stream");
+      }
+      l |= chunk << shift;
+      if ((o & 0x80) == 0) return l;
+    }
   }
 
   template <typename P, typename O>
-- 
2.43.0


From f62246f549733ff55509a46b926ca88ebdaa9fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:26 +0000
Subject: [PATCH 02/26] fix: reject empty packets in COBS decode

An empty packet has no trailing zero to drop, so the final resize asked for
-1 bytes and threw std::length_error instead of data_mismatch.
---
 src/arpc/packet_codecs.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/arpc/packet_codecs.cpp b/src/arpc/packet_codecs.cpp
index cf108c5..8cad1c4 100644
--- a/src/arpc/packet_codecs.cpp
+++ b/src/arpc/packet_codecs.cpp
@@ -119,6 +119,9 @@ void cobs_codec::encode(std::string& data) {
 }
 
 void cobs_codec::decode(std::string& data) {
+  if (data.empty()) {
+    throw errors::data_mismatch("Empty COBS-encoded data");
+  }
   auto src = data.begin();
   auto dst = data.begin();
   while (src < data.end()) {
-- 
2.43.0


From 67ef53ad689776b100ce709fc96e31137b66f4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:29 +0000
Subject: [PATCH 03/26] fix: decode std::array as a sequence, not also as an
 aggregate

std::array matched both the fixed-size sequence and the bindable aggregate
overloads, so decoding into one did not compile.
---
 src/arpc/binary_codecs.h | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/arpc/binary_codecs.h b/src/arpc/binary_codecs.h
index d1b0aec..3786c52 100644
--- a/src/arpc/binary_codecs.h
+++ b/src/arpc/binary_codecs.h
@@ -102,10 +102,11 @@ class binary_encoder {
 
   // Tuples, pairs and bindable aggregates.
   template <typename T>
-  std::enable_if_t<
-      (mpt::is_tuple_v<T> ||
-       traits::is_bindable_aggregate_v<T>)&&!traits::can_be_serialized_v<T>,
-      void>
+  std::enable_if_t<(mpt::is_tuple_v<T> ||
+                    traits::is_bindable_aggregate_v<T>)&&!traits::
+                           can_be_serialized_v<T> &&
+                       !traits::is_const_iterable_v<T>,
+                   void>
   operator()(T& t) {
     mpt::for_each(mpt::as_tuple(t), tuple_element_saver(), *this);
   }
@@ -466,10 +467,11 @@ class binary_decoder {
 
   // Tuples, pairs and bindable aggregates.
   template <typename T>
-  std::enable_if_t<
-      (mpt::is_tuple_v<T> ||
-       traits::is_bindable_aggregate_v<T>)&&!traits::can_be_serialized_v<T>,
-      void>
+  std::enable_if_t<(mpt::is_tuple_v<T> ||
+                    traits::is_bindable_aggregate_v<T>)&&!traits::
+                           can_be_serialized_v<T> &&
+                       !traits::is_const_iterable_v<T>,
+                   void>
   operator()(T& t) {
     mpt::for_each(mpt::as_tuple(t), tuple_element_loader(), *this);
   }
-- 
2.43.0


From 16c82dc098529b1ddd2ccaf173e8979ee2717793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:55 +0000
Subject: [PATCH 04/26] fix: reject flags other than 0 and 1 when decoding a
 bool

Reading an arbitrary byte straight into a bool object is undefined
behaviour; such input is malformed and now throws data_mismatch.
---
 src/arpc/binary_codecs.h | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/arpc/binary_codecs.h b/src/arpc/binary_codecs.h
index 3786c52..34bedcd 100644
--- a/src/arpc/binary_codecs.h
+++ b/src/arpc/binary_codecs.h
@@ -393,6 +393,16 @@ class binary_decoder {
     (*this)(o, tags...);
   }
 
+  // Flags; only 0 and 1 stand for a bool.
+  void operator()(bool& v) {
+    std::uint8_t o;
+    (*this)(o);
+    if (o > 1) {
+      throw errors::data_mismatch("Wrong flag value in stream");
+    }
+    v = (o != 0);
+  }
+
   // Serializable scalar.
   template <typename T>
   std::enable_if_t<traits::is_bit_transferrable_scalar_v<T>, void> operator()(
@@ -741,14 +751,19 @@ class binary_decoder {
   // contiguous
   // memory.
   template <typename T>
-  std::enable_if_t<traits::is_bit_transferrable_scalar_v<T>, void>
+  std::enable_if_t<
+      traits::is_bit_transferrable_scalar_v<T> && !std::is_same_v<T, bool>,
+      void>
   read_sequence(T* p, std::size_t l) {
     read_block(p, l);
   }
 
-  // For non-trivial objects, call the whole serialization machinery.
+  // For non-trivial objects (and flags, which need checking), call the whole
+  // serialization machinery.
   template <typename T>
-  std::enable_if_t<!traits::is_bit_transferrable_scalar_v<T>, void>
+  std::enable_if_t<
+      !traits::is_bit_transferrable_scalar_v<T> || std::is_same_v<T, bool>,
+      void>
   read_sequence(T* p, std::size_t l) {
     while (l-- > 0) {
       (*this)(*p++);
-- 
2.43.0


From 5f5bd9c71854fc4c513aeb312291f7c41f1735a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:22 +0000
Subject: [PATCH 05/26] fix: carry the comparator along when flat containers
 are copied, moved or swapped

The copy and move constructors default-constructed the comparator and the
assignments and swap left it behind, so with a stateful comparator later
lookups and insertions used the wrong order.
---
 src/arpc/container/detail/flat_tree.h | 30 ++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/arpc/container/detail/flat_tree.h b/src/arpc/container/detail/flat_tree.h
index e49787e..2560c53 100644
--- a/src/arpc/container/detail/flat_tree.h
+++ b/src/arpc/container/detail/flat_tree.h
@@ -162,15 +162,24 @@ class flat_tree : protected std::vector<Value, Allocator> {
   using underlying_container::data;
 
   // swap.
-  void swap(flat_tree& other) { underlying_container::swap(other); }
+  void swap(flat_tree& other) {
+    using std::swap;
+    underlying_container::swap(other);
+    swap(comp_, other.comp_);
+    swap(eq_, other.eq_);
+  }
 
   // Assignment.
   flat_tree& operator=(const flat_tree& other) {
     underlying_container::operator=(other);
+    comp_ = other.comp_;
+    eq_ = other.eq_;
     return *this;
   }
   flat_tree& operator=(flat_tree&& other) {
     underlying_container::operator=(std::forward<flat_tree>(other));
+    comp_ = other.comp_;
+    eq_ = other.eq_;
     return *this;
   }
   flat_tree& operator=(std::initializer_list<value_type> ilist) {
@@ -197,16 +206,23 @@ class flat_tree : protected std::vector<Value, Allocator> {
     }
   }
   flat_tree(const flat_tree& other)
-      : underlying_container(static_cast<const underlying_container&>(other)) {}
+      : underlying_container(static_cast<const underlying_container&>(other)),
+        comp_(other.comp_),
+        eq_(other.eq_) {}
   flat_tree(const flat_tree& other, const Allocator& alloc)
       : underlying_container(static_cast<const underlying_container&>(other),
-                             alloc) {}
+                             alloc),
+        comp_(other.comp_),
+        eq_(other.eq_) {}
   flat_tree(flat_tree&& other)
-      : underlying_container(static_cast<const underlying_container&&>(other)) {
-  }
+      : underlying_container(static_cast<underlying_container&&>(other)),
+        comp_(other.comp_),
+        eq_(other.eq_) {}
   flat_tree(flat_tree&& other, const Allocator& alloc)
-      : underlying_container(static_cast<const underlying_container&&>(other),
-                             alloc) {}
+      : underlying_container(static_cast<underlying_container&&>(other),
+                             alloc),
+        comp_(other.comp_),
+        eq_(other.eq_) {}
   flat_tree(std::initializer_list<value_type> init,
             const Compare& comp = Compare(),
             const Allocator& alloc = Allocator())
-- 
2.43.0


From be341bfb004299aba9dc1c4c4f0fb513bbdcf667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:22 +0000
Subject: [PATCH 06/26] fix: make emplace_hint compile for unique flat
 containers

insert() without a hint returns a pair there, not an iterator.
---
 src/arpc/container/detail/flat_tree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arpc/container/detail/flat_tree.h b/src/arpc/container/detail/flat_tree.h
index 2560c53..0e1b3ac 100644
--- a/src/arpc/container/detail/flat_tree.h
+++ b/src/arpc/container/detail/flat_tree.h
@@ -313,7 +313,7 @@ class flat_tree : protected std::vector<Value, Allocator> {
   }
   template <class... Args>
   iterator emplace_hint(const_iterator hint, Args&&... args) {
-    return insert(std::move(value_type(std::forward<Args>(args)...)));
+    return insert(hint, std::move(value_type(std::forward<Args>(args)...)));
   }
 
   // erase
-- 
2.43.0


From 7758713129d972316cc526236fed5f05bd37c3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:22 +0000
Subject: [PATCH 07/26] fix: delete socket addresses as the type they were
 allocated as

address allocates a sockaddr_storage, so deleting it as the smaller sockaddr
is undefined and passes the wrong size to sized deallocation.
---
 src/arpc/address.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arpc/address.cpp b/src/arpc/address.cpp
index 16aebb0..10289b3 100644
--- a/src/arpc/address.cpp
+++ b/src/arpc/address.cpp
@@ -108,7 +108,7 @@ address::address(address&& other)
 
 address::~address() {
   assert(ai_next == this);
-  delete ai_addr;
+  delete reinterpret_cast<struct sockaddr_storage*>(ai_addr);
 }
 
 int& address::family() { return ai_family; }
-- 
2.43.0


From 0f84050f5e3d0423e29cd4ea0f15a3f9b8dc4ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:11 +0000
Subject: [PATCH 08/26] fix: identify shared dynamic objects by their common
 base class

---
 src/arpc/binary_codecs.h | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/arpc/binary_codecs.h b/src/arpc/binary_codecs.h
index 34bedcd..334dd51 100644
--- a/src/arpc/binary_codecs.h
+++ b/src/arpc/binary_codecs.h
@@ -162,11 +162,12 @@ class binary_encoder {
       return;
     }
 
-    auto it = shared_object_map_.find(p.get());
+    const void* address = object_address(p.get());
+    auto it = shared_object_map_.find(address);
     bool first_time = false;
     if (it == shared_object_map_.end()) {
       std::size_t next_object_id = shared_object_map_.size();
-      it = shared_object_map_.emplace(p.get(), next_object_id).first;
+      it = shared_object_map_.emplace(address, next_object_id).first;
       first_time = true;
     }
     write_variant(it->second);
@@ -189,6 +190,17 @@ class binary_encoder {
         encoder_function;
   };
 
+  // The address that identifies an object, whatever base class it is pointed
+  // to through.
+  template <typename T>
+  static const void* object_address(const T* p) {
+    if constexpr (is_dynamic_v<T>) {
+      return static_cast<const ::arpc::dynamic_base_class*>(p);
+    } else {
+      return p;
+    }
+  }
+
   // Save potentially short integers in a compact form.
   //
   // Use the highest bit in each byte to determine whether more bytes come
@@ -360,7 +372,13 @@ class binary_decoder {
     explicit update_pointer(std::shared_ptr<void>& ptr) : ptr_(ptr) {}
     template <typename T>
     void operator()(const std::shared_ptr<T>& ptr) {
-      ptr_ = ptr;
+      // Dynamic objects are kept by their common base class, so that they can
+      // be checked and cast whatever class they were first pointed to through.
+      if constexpr (is_dynamic_v<T>) {
+        ptr_ = std::static_pointer_cast<::arpc::dynamic_base_class>(ptr);
+      } else {
+        ptr_ = ptr;
+      }
     }
 
    private:
@@ -578,7 +596,13 @@ class binary_decoder {
         throw errors::data_mismatch("Data shared among incompatible pointers");
       }
       // Cast the object reference we already had.
-      p = std::static_pointer_cast<T>(object_info.ptr);
+      if constexpr (is_dynamic_v<T>) {
+        p = std::static_pointer_cast<T>(
+            std::static_pointer_cast<::arpc::dynamic_base_class>(
+                object_info.ptr));
+      } else {
+        p = std::static_pointer_cast<T>(object_info.ptr);
+      }
     }
   }
 
-- 
2.43.0


From b524c9422031889a8e4826d8ed6f34337f4a7003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:11 +0000
Subject: [PATCH 09/26] fix: reject references to shared objects that could not
 be created

---
 src/arpc/binary_codecs.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/arpc/binary_codecs.h b/src/arpc/binary_codecs.h
index 334dd51..652baef 100644
--- a/src/arpc/binary_codecs.h
+++ b/src/arpc/binary_codecs.h
@@ -588,8 +588,10 @@ class binary_decoder {
       // Deserialize the object the first time.
       load_object_reference(p, update_pointer(object_info.ptr));
     } else {
-      // Check for type compatibility.
-      if (object_info.type_id != registry::get_type_id<T>() ||
+      // Check for type compatibility, and that there is an object at all (there
+      // is none if creating it failed).
+      if (!object_info.ptr ||
+          object_info.type_id != registry::get_type_id<T>() ||
           !registry::check_dynamic_compatibility<T>(object_info.ptr.get())) {
         // We recorded an incompatible type when we saw this object before,
         // or the object's dynamic type can't be stored in this pointer.
-- 
2.43.0


From 68d2bcfe2b2e499db1af83d3fc85b0ae70d75fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:11 +0000
Subject: [PATCH 10/26] fix: report broken iostreams as I/O errors in read and
 flush

---
 src/arpc/iostream_adapters.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/arpc/iostream_adapters.cpp b/src/arpc/iostream_adapters.cpp
index 726d932..ea8e8de 100644
--- a/src/arpc/iostream_adapters.cpp
+++ b/src/arpc/iostream_adapters.cpp
@@ -28,7 +28,9 @@ istream_input_stream::istream_input_stream(std::istream& is) : is_(is) {}
 
 std::size_t istream_input_stream::read(char* p, std::size_t l) {
   is_.read(p, l);
-  if (is_.bad()) throw errors::io_error("Bad input stream");
+  if (is_.bad() || (is_.fail() && !is_.eof())) {
+    throw errors::io_error("Bad input stream");
+  }
   return static_cast<std::size_t>(is_.gcount());
 }
 
@@ -37,13 +39,13 @@ char istream_input_stream::getc() {
   if (is_.get(c)) {
     return c;
   }
-  if (is_.eof()) throw errors::eof("EOF");
+  if (is_.eof() && !is_.bad()) throw errors::eof("EOF");
   throw errors::io_error("Bad input stream");
 }
 
 ostream_output_stream::ostream_output_stream(std::ostream& os) : os_(os) {}
 
-ostream_output_stream::~ostream_output_stream() { flush(); }
+ostream_output_stream::~ostream_output_stream() { os_.flush(); }
 
 void ostream_output_stream::write(const char* p, std::size_t l) {
   if (!os_.write(p, l)) throw errors::io_error("Bad output stream");
@@ -53,6 +55,8 @@ void ostream_output_stream::putc(char c) {
   if (!os_.put(c)) throw errors::io_error("Bad output stream");
 }
 
-void ostream_output_stream::flush() { os_.flush(); }
+void ostream_output_stream::flush() {
+  if (!os_.flush()) throw errors::io_error("Bad output stream");
+}
 
 }  // namespace arpc
-- 
2.43.0


From 218a71571295ce5d1c5946c1e40acc4cd95a0696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:01 +0000
Subject: [PATCH 11/26] fix: look up received class names in full, up to and
 beyond zero bytes

---
 src/arpc/binary_codecs.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/arpc/binary_codecs.h b/src/arpc/binary_codecs.h
index 652baef..1c8eb8d 100644
--- a/src/arpc/binary_codecs.h
+++ b/src/arpc/binary_codecs.h
@@ -669,9 +669,9 @@ class binary_decoder {
       (*this)(type_hash);
       registry::dynamic_object_factory::info class_info;
       typename registry::dynamic_decoder_registry<MyClass>::info decoder_info;
-      class_info = registry::dynamic_object_factory::get()[class_name.c_str()];
+      class_info = registry::dynamic_object_factory::get()[class_name];
       decoder_info = registry::dynamic_decoder_registry<
-          MyClass>::get()[class_name.c_str()];
+          MyClass>::get()[class_name];
       if (type_hash != class_info.type_hash) {
         throw errors::data_mismatch("Wrong type hash in dynamic class");
       }
@@ -685,7 +685,7 @@ class binary_decoder {
 
     // Check that the subclass is compatible (slow).
     if (!registry::dynamic_subclass_registry<T>::get().is_subclass(
-            info.class_name.c_str()))
+            info.class_name))
       throw errors::data_mismatch(
           "The class that was read is not a subclass of pointed-to type");
 
-- 
2.43.0


From cbc4f8b41720e4181a79dc16848eb7a6b82c34d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:15 +0000
Subject: [PATCH 12/26] fix: keep the order of a flat container assigned from
 an initializer list

---
 src/arpc/container/flat_map.h | 8 ++++++--
 src/arpc/container/flat_set.h | 6 ++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/arpc/container/flat_map.h b/src/arpc/container/flat_map.h
index 06a7624..3f92e41 100644
--- a/src/arpc/container/flat_map.h
+++ b/src/arpc/container/flat_map.h
@@ -45,9 +45,11 @@ class flat_map : public detail::flat_tree<Key, false, std::pair<Key, T>,
                                    Allocator>::underlying_container;
   using mapped_type = T;
 
-  // Inherit constructors.
+  // Inherit constructors and assignment from an initializer list.
   using detail::flat_tree<Key, false, std::pair<Key, T>, Compare,
                           Allocator>::flat_tree;
+  using detail::flat_tree<Key, false, std::pair<Key, T>, Compare,
+                          Allocator>::operator=;
 
   // operator []
   T& operator[](const Key& key) {
@@ -98,9 +100,11 @@ class flat_multimap : public detail::flat_tree<Key, true, std::pair<Key, T>,
  public:
   using mapped_type = T;
 
-  // Inherit constructors.
+  // Inherit constructors and assignment from an initializer list.
   using detail::flat_tree<Key, true, std::pair<Key, T>, Compare,
                           Allocator>::flat_tree;
+  using detail::flat_tree<Key, true, std::pair<Key, T>, Compare,
+                          Allocator>::operator=;
 };
 
 }  // namespace arpc
diff --git a/src/arpc/container/flat_set.h b/src/arpc/container/flat_set.h
index 59b9cae..afc4e6a 100644
--- a/src/arpc/container/flat_set.h
+++ b/src/arpc/container/flat_set.h
@@ -39,8 +39,9 @@ template <typename Key, typename Compare = std::less<Key>,
           typename Allocator = std::allocator<Key> >
 class flat_set : public detail::flat_tree<Key, false, Key, Compare, Allocator> {
  public:
-  // Inherit constructors.
+  // Inherit constructors and assignment from an initializer list.
   using detail::flat_tree<Key, false, Key, Compare, Allocator>::flat_tree;
+  using detail::flat_tree<Key, false, Key, Compare, Allocator>::operator=;
 };
 
 /// \brief `std::vector`-backed replacement for `std::multiset`.
@@ -55,8 +56,9 @@ template <typename Key, typename Compare = std::less<Key>,
 class flat_multiset
     : public detail::flat_tree<Key, true, Key, Compare, Allocator> {
  public:
-  // Inherit constructors.
+  // Inherit constructors and assignment from an initializer list.
   using detail::flat_tree<Key, true, Key, Compare, Allocator>::flat_tree;
+  using detail::flat_tree<Key, true, Key, Compare, Allocator>::operator=;
 };
 
 }  // namespace arpc
-- 
2.43.0


From ccab0c40b3e6dd8c7c109a44f0c2a56bb1808d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:15 +0000
Subject: [PATCH 13/26] fix: keep the first of equivalent elements when
 building unique flat containers

---
 src/arpc/container/detail/flat_tree.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/arpc/container/detail/flat_tree.h b/src/arpc/container/detail/flat_tree.h
index 0e1b3ac..744d9a9 100644
--- a/src/arpc/container/detail/flat_tree.h
+++ b/src/arpc/container/detail/flat_tree.h
@@ -184,7 +184,7 @@ class flat_tree : protected std::vector<Value, Allocator> {
   }
   flat_tree& operator=(std::initializer_list<value_type> ilist) {
     underlying_container::operator=(ilist);
-    std::sort(begin(), end(), comp_);
+    std::stable_sort(begin(), end(), comp_);
     if constexpr (!multiple_allowed) {
       this->erase(std::unique(begin(), end(), eq_), end());
     }
@@ -200,7 +200,7 @@ class flat_tree : protected std::vector<Value, Allocator> {
   flat_tree(InputIt first, InputIt last, const Compare& comp = Compare(),
             const Allocator& alloc = Allocator())
       : underlying_container(first, last, alloc), comp_(comp), eq_(comp) {
-    std::sort(begin(), end(), comp_);
+    std::stable_sort(begin(), end(), comp_);
     if constexpr (!multiple_allowed) {
       this->erase(std::unique(begin(), end(), eq_), end());
     }
@@ -227,7 +227,7 @@ class flat_tree : protected std::vector<Value, Allocator> {
             const Compare& comp = Compare(),
             const Allocator& alloc = Allocator())
       : underlying_container(init, alloc), comp_(comp), eq_(comp) {
-    std::sort(begin(), end(), comp_);
+    std::stable_sort(begin(), end(), comp_);
     if constexpr (!multiple_allowed) {
       this->erase(std::unique(begin(), end(), eq_), end());
     }
-- 
2.43.0


From 8306df68dfed78834c2905308f6af92edab65354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:44 +0000
Subject: [PATCH 14/26] fix: include <algorithm> where awaitable.h uses
 std::max

---
 src/arpc/awaitable.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/arpc/awaitable.h b/src/arpc/awaitable.h
index 1871208..e037fe6 100644
--- a/src/arpc/awaitable.h
+++ b/src/arpc/awaitable.h
@@ -22,6 +22,7 @@
 #ifndef ARPC_AWAITABLE_H_
 #define ARPC_AWAITABLE_H_
 
+#include <algorithm>
 #include <chrono>
 #include <type_traits>
 #include <utility>
-- 
2.43.0


From bfc2a04eb675a9174210e0f8edcd998213282438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:44 +0000
Subject: [PATCH 15/26] fix: let as_tuple return rvalue tuples, which did not
 compile

---
 src/arpc/mpt.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arpc/mpt.h b/src/arpc/mpt.h
index ab703c1..4ca7173 100644
--- a/src/arpc/mpt.h
+++ b/src/arpc/mpt.h
@@ -465,11 +465,11 @@ constexpr decltype(auto) as_tuple(std::tuple<T...>& t) {
 }
 template <typename... T>
 constexpr decltype(auto) as_tuple(const std::tuple<T...>&& t) {
-  return t;
+  return std::move(t);
 }
 template <typename... T>
 constexpr decltype(auto) as_tuple(std::tuple<T...>&& t) {
-  return t;
+  return std::move(t);
 }
 
 /// \brief Convert a a pair value into a tuple value.
-- 
2.43.0


From 7baae8a43c88f3730d4246dd113de0cafd432eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:44 +0000
Subject: [PATCH 16/26] fix: let select compile: sizes of its inputs as types'
 constants

---
 src/arpc/select.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/arpc/select.h b/src/arpc/select.h
index 6c9209f..c6a62bd 100644
--- a/src/arpc/select.h
+++ b/src/arpc/select.h
@@ -94,6 +94,7 @@ template <typename T>
 struct select_input_helper<awaitable<T>> {
   using result_type = result_holder<T>;
   static constexpr bool has_static_size = true;
+  static constexpr std::size_t static_size = 1;
   static constexpr std::size_t size(const awaitable<T>&) { return 1; }
   static result_type make_result(awaitable<T>& a, const pollfd* fd, bool was_timeout,
                                  std::chrono::milliseconds min_timeout,
@@ -199,12 +200,12 @@ constexpr std::size_t pollfds_index(const std::tuple<Args...>& awaitables) {
 }
 
 template <typename... Args>
-constexpr bool select_inputs_have_static_size(const std::tuple<Args...>& awaitables) {
+constexpr bool select_inputs_have_static_size() {
   return (... && select_input<Args>::has_static_size);
 }
 
 template <typename... Args>
-constexpr std::size_t select_inputs_static_size(const std::tuple<Args...>& awaitables) {
+constexpr std::size_t select_inputs_static_size() {
   return (0 + ... + select_input<Args>::static_size);
 }
 template <typename... Args, std::size_t... ints>
@@ -226,8 +227,8 @@ void make_select_pollfds_helper(const std::tuple<Args...>& awaitables, pollfd* f
 
 template <typename... Args>
 auto make_select_pollfds(const std::tuple<Args...>& awaitables) {
-  if constexpr (select_inputs_have_static_size(awaitables)) {
-    constexpr std::size_t size = pollfds_index<sizeof...(Args)>(awaitables);
+  if constexpr (select_inputs_have_static_size<Args...>()) {
+    constexpr std::size_t size = select_inputs_static_size<Args...>();
     std::array<pollfd, size> res;
     make_select_pollfds_helper(awaitables, res.data(), mpt::make_index_sequence<sizeof...(Args)>{});
     return res;
-- 
2.43.0


From 82aa5f64b8f63c30890978294b58a99a3b99c04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:44 +0000
Subject: [PATCH 17/26] fix: set SO_LINGER, not SO_REUSEPORT, in
 channel::linger

---
 src/arpc/channel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arpc/channel.cpp b/src/arpc/channel.cpp
index 429b324..05f51d3 100644
--- a/src/arpc/channel.cpp
+++ b/src/arpc/channel.cpp
@@ -252,7 +252,7 @@ channel& channel::linger(bool do_linger, std::chrono::seconds linger_time) {
   struct linger value {
     do_linger, static_cast<int>(linger_time / std::chrono::seconds(1))
   };
-  if (::setsockopt(fd_, SOL_SOCKET, SO_REUSEPORT, &value, sizeof(value)))
+  if (::setsockopt(fd_, SOL_SOCKET, SO_LINGER, &value, sizeof(value)))
     throw_io_error("Error setting linger");
   return *this;
 }
-- 
2.43.0


From 6f004a759a2759a61a9720323cd728b7dad13678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:44 +0000
Subject: [PATCH 18/26] fix: give files that file() creates permissions

---
 src/arpc/file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arpc/file.cpp b/src/arpc/file.cpp
index 2c73c23..a50af12 100644
--- a/src/arpc/file.cpp
+++ b/src/arpc/file.cpp
@@ -37,7 +37,7 @@ channel file(const std::string& path, open_mode mode) {
       O_RDWR | O_CREAT | O_APPEND,    // APPEND
   };
   channel res(
-      ::open(path.c_str(), posix_modes[static_cast<std::size_t>(mode)]));
+      ::open(path.c_str(), posix_modes[static_cast<std::size_t>(mode)], 0666));
   if (!res) throw_io_error("Error opening file");
   return res;
 }
-- 
2.43.0


From 6fbdf407b9c54887d97856354f3f7b1091d6f810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:44 +0000
Subject: [PATCH 19/26] fix: queue::empty returned whether the queue was not
 empty

---
 src/arpc/queue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arpc/queue.h b/src/arpc/queue.h
index d9bfa59..b976658 100644
--- a/src/arpc/queue.h
+++ b/src/arpc/queue.h
@@ -50,7 +50,7 @@ class queue {
   size_type capacity() const { return max_size_; }
   bool empty() const {
     std::scoped_lock lock(mu_);
-    return data_.empty() == 0;
+    return data_.empty();
   }
   bool full() const {
     std::scoped_lock lock(mu_);
-- 
2.43.0


From 06b303e3d1d2be237a9b76757c10c6cebae75208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:44 +0000
Subject: [PATCH 20/26] fix: set and reset flags without waiting, as a
 cancelled context broke the flag

---
 src/arpc/flag.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arpc/flag.cpp b/src/arpc/flag.cpp
index e675b80..60ae2be 100644
--- a/src/arpc/flag.cpp
+++ b/src/arpc/flag.cpp
@@ -35,7 +35,7 @@ flag::flag() {
 void flag::set() {
   std::scoped_lock lock(mu_);
   if (!set_) {
-    pipe_[1].write("*", 1);
+    pipe_[1].maybe_write("*", 1);
     set_ = true;
   }
 }
@@ -44,7 +44,7 @@ void flag::reset() {
   std::scoped_lock lock(mu_);
   if (set_) {
     char c;
-    pipe_[0].read(&c, 1);
+    pipe_[0].maybe_read(&c, 1);
     set_ = false;
   }
 }
-- 
2.43.0


From 5ca0432b3678960aafd5b4918006e0c83fbbc3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:44 +0000
Subject: [PATCH 21/26] fix: unlock a mutex without making a context, which can
 fail and leave it locked

---
 src/arpc/mutex.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/arpc/mutex.cpp b/src/arpc/mutex.cpp
index f807d12..0840e85 100644
--- a/src/arpc/mutex.cpp
+++ b/src/arpc/mutex.cpp
@@ -22,7 +22,6 @@
 #include "arpc/mutex.h"
 #include <unistd.h>
 #include <utility>
-#include "arpc/context.h"
 #include "arpc/errors.h"
 #include "arpc/pipe.h"
 #include "arpc/select.h"
@@ -33,7 +32,7 @@ mutex::mutex() {
   pipe(pipe_);
   pipe_[0].make_non_blocking();
   pipe_[1].make_non_blocking();
-  pipe_[1].write("*", 1);
+  pipe_[1].maybe_write("*", 1);
 }
 
 void mutex::lock() {
@@ -56,8 +55,7 @@ bool mutex::try_lock() {
 }
 
 void mutex::unlock() {
-  shield shield;
-  pipe_[1].write("*", 1);
+  pipe_[1].maybe_write("*", 1);
 }
 
 awaitable<void> mutex::can_lock() { return pipe_[0].can_read(); }
-- 
2.43.0


From 4c345011e7b778173cacc386cfe01ac6ec9fed8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:44 +0000
Subject: [PATCH 22/26] fix: notify a detached child's parent while it is
 certain to exist

---
 src/arpc/context.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/arpc/context.cpp b/src/arpc/context.cpp
index c79ec83..3e74791 100644
--- a/src/arpc/context.cpp
+++ b/src/arpc/context.cpp
@@ -78,10 +78,8 @@ void context::add_child(context* child) {
 }
 
 void context::remove_child(context* child) {
-  {
-    std::scoped_lock lock(children_mu_);
-    children_.erase(child);
-  }
+  std::scoped_lock lock(children_mu_);
+  children_.erase(child);
   child_detached_.notify_one();
 }
 
-- 
2.43.0


From f81f35190b0edf8e0419ef306b71c030a6b1c04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:44 +0000
Subject: [PATCH 23/26] fix: give up in select before running actions whose
 results would be lost

---
 src/arpc/select.h | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/src/arpc/select.h b/src/arpc/select.h
index c6a62bd..2eaa9a2 100644
--- a/src/arpc/select.h
+++ b/src/arpc/select.h
@@ -209,11 +209,12 @@ constexpr std::size_t select_inputs_static_size() {
   return (0 + ... + select_input<Args>::static_size);
 }
 template <typename... Args, std::size_t... ints>
-std::tuple<typename select_input<Args>::result_type...> make_select_result(
-    std::tuple<Args...>& awaitables, const pollfd* pollfds, bool was_timeout,
-    std::chrono::milliseconds min_timeout, bool min_timeout_is_polling,
-    mpt::index_sequence<ints...>) {
-  return {std::move(select_input<Args>::make_result(
+std::tuple<typename select_input<
+    mpt::element_type_t<ints, std::tuple<Args...>>>::result_type...>
+make_select_result(std::tuple<Args...>& awaitables, const pollfd* pollfds, bool was_timeout,
+                   std::chrono::milliseconds min_timeout, bool min_timeout_is_polling,
+                   mpt::index_sequence<ints...>) {
+  return {std::move(select_input<mpt::element_type_t<ints, std::tuple<Args...>>>::make_result(
       mpt::at<ints>(awaitables), pollfds + pollfds_index<ints>(awaitables), was_timeout,
       min_timeout, min_timeout_is_polling))...};
 }
@@ -276,22 +277,27 @@ template <typename... Args>
     int pres = poll(fds.data(), fds.size(), min_timeout / std::chrono::milliseconds(1));
     if (pres < 0) throw_io_error("Error in select");
 
+    // Give up before running any action, as its result would be lost.
+    const pollfd* context_fds = fds.data() + detail::pollfds_index<n - 2>(a);
+    auto cancelled(detail::make_one_select_result(mpt::at<n - 2>(a), context_fds[0], pres == 0,
+                                                  min_timeout, min_timeout_is_polling));
+    if (cancelled) {
+      *cancelled;
+    }
+    auto deadline_exceeded(detail::make_one_select_result(
+        mpt::at<n - 1>(a), context_fds[1], pres == 0, min_timeout, min_timeout_is_polling));
+    if (deadline_exceeded) {
+      *deadline_exceeded;
+    }
+
     auto res(detail::make_select_result(a, fds.data(), pres == 0, min_timeout,
-                                        min_timeout_is_polling, mpt::make_index_sequence<n>{}));
+                                        min_timeout_is_polling,
+                                        mpt::make_index_sequence<n - 2>{}));
 
     bool active = mpt::accumulate(false, res, [](bool so_far, const auto& val) {
       return so_far || detail::select_output<decltype(val)>::is_active(val);
     });
-    if (active) {
-      auto [cancelled, deadline_exceeded] = mpt::range<n - 2, n>(res);
-      if (cancelled) {
-        *cancelled;
-      }
-      if (deadline_exceeded) {
-        *deadline_exceeded;
-      }
-      return mpt::range<0, n - 2>(std::move(res));
-    }
+    if (active) return res;
 
     auto now = std::chrono::steady_clock::now();
     elapsed += std::chrono::duration_cast<std::chrono::milliseconds>(now - last);
-- 
2.43.0


From b2f6cee342f3e03b5a10eeb4143d32396aac1ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:14 +0000
Subject: [PATCH 24/26] fix: read and replace a context's data under its lock

---
 src/arpc/context.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/arpc/context.cpp b/src/arpc/context.cpp
index 3e74791..984c079 100644
--- a/src/arpc/context.cpp
+++ b/src/arpc/context.cpp
@@ -43,6 +43,7 @@ context::context(context& parent, bool set_current, bool shield)
     if (!shield) {
       parent_->add_child(this);
     }
+    std::scoped_lock lock(parent_->data_mu_);
     deadline_ = parent_->deadline_;
     data_ = parent_->data_;
   }
@@ -143,9 +144,9 @@ void context::reset_all() {
 
 std::vector<std::shared_ptr<const dynamic_base_class>> context::data() const {
   std::vector<std::shared_ptr<const dynamic_base_class>> res;
-  res.reserve(data_.size());
   {
     std::scoped_lock lock(data_mu_);
+    res.reserve(data_.size());
     for (auto it : data_) {
       res.push_back(it.second);
     }
@@ -155,6 +156,7 @@ std::vector<std::shared_ptr<const dynamic_base_class>> context::data() const {
 
 void context::set_data(
     std::vector<std::shared_ptr<dynamic_base_class>>&& new_data) {
+  std::scoped_lock lock(data_mu_);
   data_.clear();
   for (auto it : new_data) {
     data_[it->portable_class_name()] =
-- 
2.43.0


From de8de949d51f10f27e2c025462cee67417ee3c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:00 +0000
Subject: [PATCH 25/26] fix: setting a promise from a result makes its future
 ready

---
 src/arpc/future.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/arpc/future.h b/src/arpc/future.h
index 0849b69..b27d535 100644
--- a/src/arpc/future.h
+++ b/src/arpc/future.h
@@ -75,7 +75,11 @@ class future_state : public future_state_base {
     set_.set();
   }
 
-  void set(result_holder<value_type>&& result) { result_ = std::move(result); }
+  void set(result_holder<value_type>&& result) {
+    std::scoped_lock lock(mu_);
+    result_ = std::move(result);
+    set_.set();
+  }
 
   value_type maybe_get() {
     std::scoped_lock lock(mu_);
@@ -107,7 +111,11 @@ class future_state<void> : public future_state_base {
     set_.set();
   }
 
-  void set(result_holder<value_type>&& result) { result_ = std::move(result); }
+  void set(result_holder<value_type>&& result) {
+    std::scoped_lock lock(mu_);
+    result_ = std::move(result);
+    set_.set();
+  }
 
   void maybe_get() {
     std::scoped_lock lock(mu_);
-- 
2.43.0


From 86ff09ce8ce2df0628819c79e3e6336568884179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:12 +0000
Subject: [PATCH 26/26] fix: assigning over a promise that is not set breaks it

---
 src/arpc/future.h | 46 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 32 insertions(+), 14 deletions(-)

diff --git a/src/arpc/future.h b/src/arpc/future.h
index b27d535..93d0ff8 100644
--- a/src/arpc/future.h
+++ b/src/arpc/future.h
@@ -316,7 +316,14 @@ class promise {
   using value_type = T;
 
   promise(promise<value_type>&&) = default;
-  promise<value_type>& operator=(promise<value_type>&&) = default;
+  promise<value_type>& operator=(promise<value_type>&& other) {
+    if (this != &other) {
+      abandon();
+      state_ = std::move(other.state_);
+      future_ = std::move(other.future_);
+    }
+    return *this;
+  }
 
   promise()
       : state_(
@@ -324,12 +331,7 @@ class promise {
             [](detail::future_state_base* state) { state->release_writer(); }),
         future_(state_.get()) {}
 
-  ~promise() {
-    if (state_) {
-      state()->set_exception(
-          std::make_exception_ptr(errors::invalid_state("Broken promise")));
-    }
-  }
+  ~promise() { abandon(); }
 
   future<value_type> get_future() { return std::move(future_); }
 
@@ -354,6 +356,13 @@ class promise {
     return std::move(state_);
   }
 
+  void abandon() {
+    if (state_) {
+      state()->set_exception(
+          std::make_exception_ptr(errors::invalid_state("Broken promise")));
+    }
+  }
+
   pointer_type state_;
   future<value_type> future_;
 };
@@ -364,7 +373,14 @@ class promise<void> {
   using value_type = void;
 
   promise(promise<value_type>&&) = default;
-  promise<value_type>& operator=(promise<value_type>&&) = default;
+  promise<value_type>& operator=(promise<value_type>&& other) {
+    if (this != &other) {
+      abandon();
+      state_ = std::move(other.state_);
+      future_ = std::move(other.future_);
+    }
+    return *this;
+  }
 
   promise()
       : state_(
@@ -372,12 +388,7 @@ class promise<void> {
             [](detail::future_state_base* state) { state->release_writer(); }),
         future_(state_.get()) {}
 
-  ~promise() {
-    if (state_) {
-      state()->set_exception(
-          std::make_exception_ptr(errors::invalid_state("Broken promise")));
-    }
-  }
+  ~promise() { abandon(); }
 
   future<value_type> get_future() { return std::move(future_); }
 
@@ -395,6 +406,13 @@ class promise<void> {
     return std::move(state_);
   }
 
+  void abandon() {
+    if (state_) {
+      state()->set_exception(
+          std::make_exception_ptr(errors::invalid_state("Broken promise")));
+    }
+  }
+
   pointer_type state_;
   future<value_type> future_;
 };
-- 
2.43.0

