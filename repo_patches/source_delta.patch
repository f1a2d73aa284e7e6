From a1787424f159b70a18c1e08325de34c6372610ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:08 +0000
Subject: [PATCH 01/45] fix: mpt::as_tuple on rvalue tuples/pairs returned an
 lvalue as rvalue reference

as_tuple(std::tuple&&) and friends are ill-formed when instantiated (an
rvalue reference cannot bind to the named parameter), so mpt::element_type
could not be used on tuple and pair types.
---
 src/arpc/mpt.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/arpc/mpt.h b/src/arpc/mpt.h
index ab703c1..362945c 100644
--- a/src/arpc/mpt.h
+++ b/src/arpc/mpt.h
@@ -465,11 +465,11 @@ constexpr decltype(auto) as_tuple(std::tuple<T...>& t) {
 }
 template <typename... T>
 constexpr decltype(auto) as_tuple(const std::tuple<T...>&& t) {
-  return t;
+  return std::move(t);
 }
 template <typename... T>
 constexpr decltype(auto) as_tuple(std::tuple<T...>&& t) {
-  return t;
+  return std::move(t);
 }
 
 /// \brief Convert a a pair value into a tuple value.
@@ -486,11 +486,11 @@ constexpr decltype(auto) as_tuple(std::pair<U, V>& t) {
 }
 template <typename U, typename V>
 constexpr decltype(auto) as_tuple(const std::pair<U, V>&& t) {
-  return t;
+  return std::move(t);
 }
 template <typename U, typename V>
 constexpr decltype(auto) as_tuple(std::pair<U, V>&& t) {
-  return t;
+  return std::move(t);
 }
 
 /// \brief Convert a tuple value into a `pack` value.
-- 
2.43.0


From 1f8a34aa2fdd975fbba95bef350ff81011c86d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:08 +0000
Subject: [PATCH 02/45] fix: select() used a function parameter in constant
 expressions

The static-size branch asked for the number of pollfds through the function
parameter, which is not a constant expression, so no use of select() compiles.
Ask the types instead.
---
 src/arpc/select.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/arpc/select.h b/src/arpc/select.h
index 6c9209f..c6a62bd 100644
--- a/src/arpc/select.h
+++ b/src/arpc/select.h
@@ -94,6 +94,7 @@ template <typename T>
 struct select_input_helper<awaitable<T>> {
   using result_type = result_holder<T>;
   static constexpr bool has_static_size = true;
+  static constexpr std::size_t static_size = 1;
   static constexpr std::size_t size(const awaitable<T>&) { return 1; }
   static result_type make_result(awaitable<T>& a, const pollfd* fd, bool was_timeout,
                                  std::chrono::milliseconds min_timeout,
@@ -199,12 +200,12 @@ constexpr std::size_t pollfds_index(const std::tuple<Args...>& awaitables) {
 }
 
 template <typename... Args>
-constexpr bool select_inputs_have_static_size(const std::tuple<Args...>& awaitables) {
+constexpr bool select_inputs_have_static_size() {
   return (... && select_input<Args>::has_static_size);
 }
 
 template <typename... Args>
-constexpr std::size_t select_inputs_static_size(const std::tuple<Args...>& awaitables) {
+constexpr std::size_t select_inputs_static_size() {
   return (0 + ... + select_input<Args>::static_size);
 }
 template <typename... Args, std::size_t... ints>
@@ -226,8 +227,8 @@ void make_select_pollfds_helper(const std::tuple<Args...>& awaitables, pollfd* f
 
 template <typename... Args>
 auto make_select_pollfds(const std::tuple<Args...>& awaitables) {
-  if constexpr (select_inputs_have_static_size(awaitables)) {
-    constexpr std::size_t size = pollfds_index<sizeof...(Args)>(awaitables);
+  if constexpr (select_inputs_have_static_size<Args...>()) {
+    constexpr std::size_t size = select_inputs_static_size<Args...>();
     std::array<pollfd, size> res;
     make_select_pollfds_helper(awaitables, res.data(), mpt::make_index_sequence<sizeof...(Args)>{});
     return res;
-- 
2.43.0


From e36e60f32aeeab14c5c2c108504b0cce0527c68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:14 +0000
Subject: [PATCH 03/45] fix: decode variable-length integers in the order they
 are encoded

write_variant emits the least significant 7-bit group first, as its comment
says, but read_variant accumulated the groups most significant first, so any
size, object id or class id above 127 was read back as another number. Reject
encodings that do not fit in size_t.
---
 src/arpc/binary_codecs.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/arpc/binary_codecs.h b/src/arpc/binary_codecs.h
index 3fd1c52..07a64a9 100644
--- a/src/arpc/binary_codecs.h
+++ b/src/arpc/binary_codecs.h
@@ -26,6 +26,7 @@
 #include <cstddef>
 #include <cstdint>
 #include <iterator>
+#include <limits>
 #include <memory>
 #include <optional>
 #include <string>
@@ -594,11 +595,17 @@ class binary_decoder {
   // For convenience, this is always represented in little endian format.
   std::size_t read_variant() {
     std::size_t l = 0;
+    int shift = 0;
     uint8_t o;
     do {
       (*this)(o);
-      l <<= 7;
-      l |= (static_cast<std::size_t>(o) & 0x7f);
+      const std::size_t bits = static_cast<std::size_t>(o) & 0x7f;
+      if (shift >= std::numeric_limits<std::size_t>::digits ||
+          ((bits << shift) >> shift) != bits) {
+        throw errors::data_mismatch("Variable-length integer out of range");
+      }
+      l |= bits << shift;
+      shift += 7;
     } while ((o & 0x80) != 0);
     return l;
   }
-- 
2.43.0


From f7324a814abaccc48682826009b3703acc3dcb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:03 +0000
Subject: [PATCH 04/45] fix: decoding a std::array was ambiguous between the
 iterable and aggregate overloads

---
 src/arpc/binary_codecs.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/arpc/binary_codecs.h b/src/arpc/binary_codecs.h
index 07a64a9..0fda410 100644
--- a/src/arpc/binary_codecs.h
+++ b/src/arpc/binary_codecs.h
@@ -104,7 +104,8 @@ class binary_encoder {
   template <typename T>
   std::enable_if_t<
       (mpt::is_tuple_v<T> ||
-       traits::is_bindable_aggregate_v<T>)&&!traits::can_be_serialized_v<T>,
+       traits::is_bindable_aggregate_v<T>)&&!traits::can_be_serialized_v<T> &&
+          !traits::is_const_iterable_v<T>,
       void>
   operator()(T& t) {
     mpt::for_each(mpt::as_tuple(t), tuple_element_saver(), *this);
@@ -468,7 +469,8 @@ class binary_decoder {
   template <typename T>
   std::enable_if_t<
       (mpt::is_tuple_v<T> ||
-       traits::is_bindable_aggregate_v<T>)&&!traits::can_be_serialized_v<T>,
+       traits::is_bindable_aggregate_v<T>)&&!traits::can_be_serialized_v<T> &&
+          !traits::is_const_iterable_v<T>,
       void>
   operator()(T& t) {
     mpt::for_each(mpt::as_tuple(t), tuple_element_loader(), *this);
-- 
2.43.0


From 82ba86b4fa54ae48e2aa0e44ec73ad5e35fa1557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:24 +0000
Subject: [PATCH 05/45] fix: COBS decoding of empty packets and of packets
 ending in a full group

---
 src/arpc/packet_codecs.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/arpc/packet_codecs.cpp b/src/arpc/packet_codecs.cpp
index cf108c5..c2e1375 100644
--- a/src/arpc/packet_codecs.cpp
+++ b/src/arpc/packet_codecs.cpp
@@ -119,8 +119,13 @@ void cobs_codec::encode(std::string& data) {
 }
 
 void cobs_codec::decode(std::string& data) {
+  if (data.empty()) {
+    throw errors::data_mismatch("Empty COBS-encoded data");
+  }
   auto src = data.begin();
   auto dst = data.begin();
+  // Whether the last group stands for a trailing zero, to be removed.
+  bool trailing_zero = false;
   while (src < data.end()) {
     std::size_t count = static_cast<std::uint8_t>(*src++) - 1;
     for (std::size_t i = 0; i < count; i++) {
@@ -129,10 +134,11 @@ void cobs_codec::decode(std::string& data) {
       }
       *dst++ = *src++;
     }
-    if (count < 254) {
+    trailing_zero = count < 254;
+    if (trailing_zero) {
       *dst++ = '\0';
     }
   }
-  data.resize((dst - data.begin()) - 1);
+  data.resize((dst - data.begin()) - (trailing_zero ? 1 : 0));
 }
 }  // namespace arpc
-- 
2.43.0


From c7dad9e42b245b1f9346d4065e737b7f3ea0b5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:10 +0000
Subject: [PATCH 06/45] fix: ostream_output_stream::flush reported success when
 the flush failed

---
 src/arpc/iostream_adapters.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/arpc/iostream_adapters.cpp b/src/arpc/iostream_adapters.cpp
index 726d932..3b86d45 100644
--- a/src/arpc/iostream_adapters.cpp
+++ b/src/arpc/iostream_adapters.cpp
@@ -43,7 +43,13 @@ char istream_input_stream::getc() {
 
 ostream_output_stream::ostream_output_stream(std::ostream& os) : os_(os) {}
 
-ostream_output_stream::~ostream_output_stream() { flush(); }
+ostream_output_stream::~ostream_output_stream() {
+  // Failures can only be reported by an explicit flush().
+  try {
+    os_.flush();
+  } catch (...) {
+  }
+}
 
 void ostream_output_stream::write(const char* p, std::size_t l) {
   if (!os_.write(p, l)) throw errors::io_error("Bad output stream");
@@ -53,6 +59,8 @@ void ostream_output_stream::putc(char c) {
   if (!os_.put(c)) throw errors::io_error("Bad output stream");
 }
 
-void ostream_output_stream::flush() { os_.flush(); }
+void ostream_output_stream::flush() {
+  if (!os_.flush()) throw errors::io_error("Bad output stream");
+}
 
 }  // namespace arpc
-- 
2.43.0


From aa71603b6b9de35427550ddbc208f7ccc0605275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:52 +0000
Subject: [PATCH 07/45] fix: sharing a decoded dynamic object whose dynamic
 base is not its first part

---
 src/arpc/binary_codecs.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/arpc/binary_codecs.h b/src/arpc/binary_codecs.h
index 0fda410..cd4423c 100644
--- a/src/arpc/binary_codecs.h
+++ b/src/arpc/binary_codecs.h
@@ -355,12 +355,19 @@ class binary_encoder {
 template <typename MyClass, bool reverse_bytes>
 class binary_decoder {
  private:
+  // Dynamic objects are recorded by their `dynamic_base_class` part, as that's
+  // the only one that all of the pointer types that can share them have in
+  // common.
+  template <typename T>
+  using recorded_type_t =
+      std::conditional_t<is_dynamic_v<T>, ::arpc::dynamic_base_class, T>;
+
   class update_pointer {
    public:
     explicit update_pointer(std::shared_ptr<void>& ptr) : ptr_(ptr) {}
     template <typename T>
     void operator()(const std::shared_ptr<T>& ptr) {
-      ptr_ = ptr;
+      ptr_ = std::shared_ptr<recorded_type_t<T>>(ptr);
     }
 
    private:
@@ -568,7 +575,8 @@ class binary_decoder {
         throw errors::data_mismatch("Data shared among incompatible pointers");
       }
       // Cast the object reference we already had.
-      p = std::static_pointer_cast<T>(object_info.ptr);
+      p = std::static_pointer_cast<T>(
+          std::static_pointer_cast<recorded_type_t<T>>(object_info.ptr));
     }
   }
 
-- 
2.43.0


From e61ff4f0c6c4820149761c99929e8c75a6e70d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:31 +0000
Subject: [PATCH 08/45] fix: flat containers lost their comparator when copied,
 moved, assigned or swapped

---
 src/arpc/container/detail/flat_tree.h | 29 ++++++++++++++++++++-------
 src/arpc/container/flat_map.h         |  6 ++++++
 src/arpc/container/flat_set.h         |  4 ++++
 3 files changed, 32 insertions(+), 7 deletions(-)

diff --git a/src/arpc/container/detail/flat_tree.h b/src/arpc/container/detail/flat_tree.h
index e49787e..b200f98 100644
--- a/src/arpc/container/detail/flat_tree.h
+++ b/src/arpc/container/detail/flat_tree.h
@@ -162,15 +162,24 @@ class flat_tree : protected std::vector<Value, Allocator> {
   using underlying_container::data;
 
   // swap.
-  void swap(flat_tree& other) { underlying_container::swap(other); }
+  void swap(flat_tree& other) {
+    using std::swap;
+    underlying_container::swap(other);
+    swap(comp_, other.comp_);
+    swap(eq_, other.eq_);
+  }
 
   // Assignment.
   flat_tree& operator=(const flat_tree& other) {
     underlying_container::operator=(other);
+    comp_ = other.comp_;
+    eq_ = other.eq_;
     return *this;
   }
   flat_tree& operator=(flat_tree&& other) {
     underlying_container::operator=(std::forward<flat_tree>(other));
+    comp_ = other.comp_;
+    eq_ = other.eq_;
     return *this;
   }
   flat_tree& operator=(std::initializer_list<value_type> ilist) {
@@ -197,16 +206,22 @@ class flat_tree : protected std::vector<Value, Allocator> {
     }
   }
   flat_tree(const flat_tree& other)
-      : underlying_container(static_cast<const underlying_container&>(other)) {}
+      : underlying_container(static_cast<const underlying_container&>(other)),
+        comp_(other.comp_),
+        eq_(other.eq_) {}
   flat_tree(const flat_tree& other, const Allocator& alloc)
       : underlying_container(static_cast<const underlying_container&>(other),
-                             alloc) {}
+                             alloc),
+        comp_(other.comp_),
+        eq_(other.eq_) {}
   flat_tree(flat_tree&& other)
-      : underlying_container(static_cast<const underlying_container&&>(other)) {
-  }
+      : underlying_container(static_cast<underlying_container&&>(other)),
+        comp_(other.comp_),
+        eq_(other.eq_) {}
   flat_tree(flat_tree&& other, const Allocator& alloc)
-      : underlying_container(static_cast<const underlying_container&&>(other),
-                             alloc) {}
+      : underlying_container(static_cast<underlying_container&&>(other), alloc),
+        comp_(other.comp_),
+        eq_(other.eq_) {}
   flat_tree(std::initializer_list<value_type> init,
             const Compare& comp = Compare(),
             const Allocator& alloc = Allocator())
diff --git a/src/arpc/container/flat_map.h b/src/arpc/container/flat_map.h
index 06a7624..5c314ea 100644
--- a/src/arpc/container/flat_map.h
+++ b/src/arpc/container/flat_map.h
@@ -48,6 +48,9 @@ class flat_map : public detail::flat_tree<Key, false, std::pair<Key, T>,
   // Inherit constructors.
   using detail::flat_tree<Key, false, std::pair<Key, T>, Compare,
                           Allocator>::flat_tree;
+  // Initializer list assignment keeps the comparator.
+  using detail::flat_tree<Key, false, std::pair<Key, T>, Compare,
+                          Allocator>::operator=;
 
   // operator []
   T& operator[](const Key& key) {
@@ -101,6 +104,9 @@ class flat_multimap : public detail::flat_tree<Key, true, std::pair<Key, T>,
   // Inherit constructors.
   using detail::flat_tree<Key, true, std::pair<Key, T>, Compare,
                           Allocator>::flat_tree;
+  // Initializer list assignment keeps the comparator.
+  using detail::flat_tree<Key, true, std::pair<Key, T>, Compare,
+                          Allocator>::operator=;
 };
 
 }  // namespace arpc
diff --git a/src/arpc/container/flat_set.h b/src/arpc/container/flat_set.h
index 59b9cae..529b139 100644
--- a/src/arpc/container/flat_set.h
+++ b/src/arpc/container/flat_set.h
@@ -41,6 +41,8 @@ class flat_set : public detail::flat_tree<Key, false, Key, Compare, Allocator> {
  public:
   // Inherit constructors.
   using detail::flat_tree<Key, false, Key, Compare, Allocator>::flat_tree;
+  // Initializer list assignment keeps the comparator.
+  using detail::flat_tree<Key, false, Key, Compare, Allocator>::operator=;
 };
 
 /// \brief `std::vector`-backed replacement for `std::multiset`.
@@ -57,6 +59,8 @@ class flat_multiset
  public:
   // Inherit constructors.
   using detail::flat_tree<Key, true, Key, Compare, Allocator>::flat_tree;
+  // Initializer list assignment keeps the comparator.
+  using detail::flat_tree<Key, true, Key, Compare, Allocator>::operator=;
 };
 
 }  // namespace arpc
-- 
2.43.0


From f7ec44dea89055a7a75f617bfdb3ab7f68e23a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:44 +0000
Subject: [PATCH 09/45] fix: unique flat containers kept an arbitrary one of
 the equal elements of a range

---
 src/arpc/container/detail/flat_tree.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/arpc/container/detail/flat_tree.h b/src/arpc/container/detail/flat_tree.h
index b200f98..d7f9765 100644
--- a/src/arpc/container/detail/flat_tree.h
+++ b/src/arpc/container/detail/flat_tree.h
@@ -184,7 +184,7 @@ class flat_tree : protected std::vector<Value, Allocator> {
   }
   flat_tree& operator=(std::initializer_list<value_type> ilist) {
     underlying_container::operator=(ilist);
-    std::sort(begin(), end(), comp_);
+    std::stable_sort(begin(), end(), comp_);
     if constexpr (!multiple_allowed) {
       this->erase(std::unique(begin(), end(), eq_), end());
     }
@@ -200,7 +200,7 @@ class flat_tree : protected std::vector<Value, Allocator> {
   flat_tree(InputIt first, InputIt last, const Compare& comp = Compare(),
             const Allocator& alloc = Allocator())
       : underlying_container(first, last, alloc), comp_(comp), eq_(comp) {
-    std::sort(begin(), end(), comp_);
+    std::stable_sort(begin(), end(), comp_);
     if constexpr (!multiple_allowed) {
       this->erase(std::unique(begin(), end(), eq_), end());
     }
@@ -226,7 +226,7 @@ class flat_tree : protected std::vector<Value, Allocator> {
             const Compare& comp = Compare(),
             const Allocator& alloc = Allocator())
       : underlying_container(init, alloc), comp_(comp), eq_(comp) {
-    std::sort(begin(), end(), comp_);
+    std::stable_sort(begin(), end(), comp_);
     if constexpr (!multiple_allowed) {
       this->erase(std::unique(begin(), end(), eq_), end());
     }
-- 
2.43.0


From 5669fd1677f51336240e9c9fcd1484b8281cceed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:58 +0000
Subject: [PATCH 10/45] fix: emplace_hint did not compile for unique flat
 containers

---
 src/arpc/container/detail/flat_tree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arpc/container/detail/flat_tree.h b/src/arpc/container/detail/flat_tree.h
index d7f9765..9a06197 100644
--- a/src/arpc/container/detail/flat_tree.h
+++ b/src/arpc/container/detail/flat_tree.h
@@ -312,7 +312,7 @@ class flat_tree : protected std::vector<Value, Allocator> {
   }
   template <class... Args>
   iterator emplace_hint(const_iterator hint, Args&&... args) {
-    return insert(std::move(value_type(std::forward<Args>(args)...)));
+    return insert(hint, value_type(std::forward<Args>(args)...));
   }
 
   // erase
-- 
2.43.0


From 70742052809b03bde812b8e2634a33d742d18bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:09 +0000
Subject: [PATCH 11/45] fix: flat containers could be swapped with an unsorted
 std::vector

---
 src/arpc/container/detail/flat_tree.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/arpc/container/detail/flat_tree.h b/src/arpc/container/detail/flat_tree.h
index 9a06197..39f6bd7 100644
--- a/src/arpc/container/detail/flat_tree.h
+++ b/src/arpc/container/detail/flat_tree.h
@@ -157,7 +157,6 @@ class flat_tree : protected std::vector<Value, Allocator> {
   using underlying_container::size;
 
   using underlying_container::clear;
-  using underlying_container::swap;
 
   using underlying_container::data;
 
-- 
2.43.0


From acdbe38adb2e8e459a04ed41a76636fb4a359466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:12 +0000
Subject: [PATCH 12/45] fix: types that contain themselves through a container
 had no type hash

---
 src/arpc/type_hash.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/arpc/type_hash.h b/src/arpc/type_hash.h
index dc9a67a..da4b6c2 100644
--- a/src/arpc/type_hash.h
+++ b/src/arpc/type_hash.h
@@ -145,22 +145,23 @@ struct new_type_hash {
       return type_hash_add(
           type_hash_leaf(detail::type_family::MAP,
                          is_multi_key_associative_v<T>, 0),
-          type_hash_v<writable_value_type_t<typename T::value_type>>);
+          type_hash_v<writable_value_type_t<typename T::value_type>, Seen>);
     } else if constexpr (is_set_v<T>) {
       return type_hash_add(
           type_hash_leaf(detail::type_family::SET,
                          is_multi_key_associative_v<T>, 0),
-          type_hash_v<writable_value_type_t<typename T::value_type>>);
+          type_hash_v<writable_value_type_t<typename T::value_type>, Seen>);
     } else if constexpr (is_const_iterable_v<T>) {
       if constexpr (has_static_size_v<T>) {
         return type_hash_add(
             type_hash_leaf(detail::type_family::ARRAY, false, static_size_v<T>),
             type_hash_v<typename std::iterator_traits<decltype(
-                std::begin(std::declval<T&>()))>::value_type>);
+                            std::begin(std::declval<T&>()))>::value_type,
+                        Seen>);
       } else {
         return type_hash_add(
             type_hash_leaf(detail::type_family::SEQUENCE, false, 0),
-            type_hash_v<writable_value_type_t<typename T::value_type>>);
+            type_hash_v<writable_value_type_t<typename T::value_type>, Seen>);
       }
     } else if constexpr (can_be_serialized_v<T>) {
       return type_hash_add(
@@ -179,7 +180,7 @@ struct new_type_hash {
                          get_custom_serialization_version_v<T>));
     } else if constexpr (is_bindable_aggregate_v<T>) {
       // Hash as a tuple.
-      return type_hash_v<decltype(mpt::as_tuple(std::declval<T>()))>;
+      return type_hash_v<decltype(mpt::as_tuple(std::declval<T>())), Seen>;
     } else {
       return unknown_hash<T>();
     }
-- 
2.43.0


From 7c4c50090908c936d8e922acd3c407585b182600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:55 +0000
Subject: [PATCH 13/45] fix: classes with a custom-serialized base could not be
 serialized

---
 src/arpc/serializable_base.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/arpc/serializable_base.h b/src/arpc/serializable_base.h
index 891318d..ec733c2 100644
--- a/src/arpc/serializable_base.h
+++ b/src/arpc/serializable_base.h
@@ -58,6 +58,7 @@ struct serializable_mixin<false, OwnType, Bases...> : Bases... {
   void save(S& s) const = delete;
   template <typename S>
   void load(S& s) = delete;
+  using custom_serialization_version = void;
   using field_descriptors = mpt::pack<>;
 };
 
-- 
2.43.0


From 144ebf836ae8bba13ef439b5aebdbb1caad03d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:29 +0000
Subject: [PATCH 14/45] fix: sequences with negative integers could not be
 joined

---
 src/arpc/mpt.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/arpc/mpt.h b/src/arpc/mpt.h
index 362945c..6823d5a 100644
--- a/src/arpc/mpt.h
+++ b/src/arpc/mpt.h
@@ -172,7 +172,9 @@ struct join_integer_sequences;
 template <typename T, T... is, T... js, bool adjust_values>
 struct join_integer_sequences<integer_sequence<T, is...>, integer_sequence<T, js...>,
                               adjust_values> {
-  using type = integer_sequence<T, is..., ((adjust_values ? sizeof...(is) : 0) + js)...>;
+  using type =
+      integer_sequence<T, is...,
+                       static_cast<T>(static_cast<T>(adjust_values ? sizeof...(is) : 0) + js)...>;
 };
 
 template <typename T, std::size_t n>
-- 
2.43.0


From 3244c278de30f44b5b78e61e7a54271cbf510e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:29 +0000
Subject: [PATCH 15/45] fix: cat of lvalue value packs or integer sequences did
 not compile

---
 src/arpc/mpt.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arpc/mpt.h b/src/arpc/mpt.h
index 6823d5a..50d5364 100644
--- a/src/arpc/mpt.h
+++ b/src/arpc/mpt.h
@@ -948,9 +948,9 @@ constexpr auto cat(Args&&... args) {
   } else if constexpr (detail::all_packs<Args...>) {
     return as_pack(std::tuple_cat(as_tuple(std::forward<Args>(args))...));
   } else if constexpr (detail::all_value_packs<Args...>) {
-    return typename detail::value_pack_cat_helper<Args...>::type{};
+    return typename detail::value_pack_cat_helper<traits::remove_cvref_t<Args>...>::type{};
   } else if constexpr (detail::all_integer_sequences<Args...>) {
-    return typename detail::integer_sequence_cat_helper<Args...>::type{};
+    return typename detail::integer_sequence_cat_helper<traits::remove_cvref_t<Args>...>::type{};
   }
 }
 
-- 
2.43.0


From 8cb86366ac85ce2beebe3418c55ea9c903c0023f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:40 +0000
Subject: [PATCH 16/45] fix: ARPC_ENUM did not compile

---
 src/arpc/enum.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arpc/enum.h b/src/arpc/enum.h
index db42cb9..aa43cb4 100644
--- a/src/arpc/enum.h
+++ b/src/arpc/enum.h
@@ -65,7 +65,7 @@ struct enum_names {
     ARPC_FOREACH(ARPC_ENUM_ENTRY_IN_BODY, ARPC_ENUM_ENTRY_SEP, __VA_ARGS__)  \
   };                                                                         \
   template <>                                                                \
-  const std::size_t::arpc::enum_names<NAME>::size =                          \
+  const std::size_t arpc::enum_names<NAME>::size =                           \
       ARPC_ARG_COUNT(__VA_ARGS__);                                           \
   template <>                                                                \
   const char* ::arpc::enum_names<NAME>::unknown_name = UNKNOWN_NAME;         \
-- 
2.43.0


From 37941236cc65d25328f6ba8e02fdd15fc42aa45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:12 +0000
Subject: [PATCH 17/45] fix: address storage was released as another type than
 it was allocated as

---
 src/arpc/address.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arpc/address.cpp b/src/arpc/address.cpp
index 16aebb0..10289b3 100644
--- a/src/arpc/address.cpp
+++ b/src/arpc/address.cpp
@@ -108,7 +108,7 @@ address::address(address&& other)
 
 address::~address() {
   assert(ai_next == this);
-  delete ai_addr;
+  delete reinterpret_cast<struct sockaddr_storage*>(ai_addr);
 }
 
 int& address::family() { return ai_family; }
-- 
2.43.0


From c68f60a50335b9765760bdff701417d94b04fbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:51 +0000
Subject: [PATCH 18/45] fix: result_holder moved out of lvalue arguments

---
 src/arpc/result_holder.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arpc/result_holder.h b/src/arpc/result_holder.h
index 7da2c6d..274103c 100644
--- a/src/arpc/result_holder.h
+++ b/src/arpc/result_holder.h
@@ -76,7 +76,7 @@ class result_holder : public serializable<result_holder<T>> {
   explicit result_holder(std::exception_ptr exception)
       : exception_(exception) {}
   template <typename U>
-  explicit result_holder(U&& u) : value_(std::move(u)) {}
+  explicit result_holder(U&& u) : value_(std::forward<U>(u)) {}
 
   template <typename U>
   void set_value(U&& u) {
-- 
2.43.0


From 9f8f8c614f7d9de35e254f847a3a0b3f87acadb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:39 +0000
Subject: [PATCH 19/45] fix: linger set the port reuse option instead of the
 linger option

---
 src/arpc/channel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arpc/channel.cpp b/src/arpc/channel.cpp
index 429b324..05f51d3 100644
--- a/src/arpc/channel.cpp
+++ b/src/arpc/channel.cpp
@@ -252,7 +252,7 @@ channel& channel::linger(bool do_linger, std::chrono::seconds linger_time) {
   struct linger value {
     do_linger, static_cast<int>(linger_time / std::chrono::seconds(1))
   };
-  if (::setsockopt(fd_, SOL_SOCKET, SO_REUSEPORT, &value, sizeof(value)))
+  if (::setsockopt(fd_, SOL_SOCKET, SO_LINGER, &value, sizeof(value)))
     throw_io_error("Error setting linger");
   return *this;
 }
-- 
2.43.0


From d98e2f957116ff37260df405130222dd74ca6653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:39 +0000
Subject: [PATCH 20/45] fix: files were created without permission bits

---
 src/arpc/file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arpc/file.cpp b/src/arpc/file.cpp
index 2c73c23..a50af12 100644
--- a/src/arpc/file.cpp
+++ b/src/arpc/file.cpp
@@ -37,7 +37,7 @@ channel file(const std::string& path, open_mode mode) {
       O_RDWR | O_CREAT | O_APPEND,    // APPEND
   };
   channel res(
-      ::open(path.c_str(), posix_modes[static_cast<std::size_t>(mode)]));
+      ::open(path.c_str(), posix_modes[static_cast<std::size_t>(mode)], 0666));
   if (!res) throw_io_error("Error opening file");
   return res;
 }
-- 
2.43.0


From f6b02856f79acd33c31e49dfcc6c19d550d12023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:39 +0000
Subject: [PATCH 21/45] fix: a queue reported empty exactly when it was not

---
 src/arpc/queue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arpc/queue.h b/src/arpc/queue.h
index d9bfa59..b976658 100644
--- a/src/arpc/queue.h
+++ b/src/arpc/queue.h
@@ -50,7 +50,7 @@ class queue {
   size_type capacity() const { return max_size_; }
   bool empty() const {
     std::scoped_lock lock(mu_);
-    return data_.empty() == 0;
+    return data_.empty();
   }
   bool full() const {
     std::scoped_lock lock(mu_);
-- 
2.43.0


From f725ff5dffc62f61b63e2c7a349c54e7c64ee5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:39 +0000
Subject: [PATCH 22/45] fix: a promise set from a result holder never became
 ready

---
 src/arpc/future.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/arpc/future.h b/src/arpc/future.h
index 0849b69..b27d535 100644
--- a/src/arpc/future.h
+++ b/src/arpc/future.h
@@ -75,7 +75,11 @@ class future_state : public future_state_base {
     set_.set();
   }
 
-  void set(result_holder<value_type>&& result) { result_ = std::move(result); }
+  void set(result_holder<value_type>&& result) {
+    std::scoped_lock lock(mu_);
+    result_ = std::move(result);
+    set_.set();
+  }
 
   value_type maybe_get() {
     std::scoped_lock lock(mu_);
@@ -107,7 +111,11 @@ class future_state<void> : public future_state_base {
     set_.set();
   }
 
-  void set(result_holder<value_type>&& result) { result_ = std::move(result); }
+  void set(result_holder<value_type>&& result) {
+    std::scoped_lock lock(mu_);
+    result_ = std::move(result);
+    set_.set();
+  }
 
   void maybe_get() {
     std::scoped_lock lock(mu_);
-- 
2.43.0


From fe21682d91be5e58faf3736da572159f9d5b3162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:39 +0000
Subject: [PATCH 23/45] fix: setting a flag or creating a mutex could be cut
 short by cancellation

---
 src/arpc/flag.cpp  | 4 ++--
 src/arpc/mutex.cpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/arpc/flag.cpp b/src/arpc/flag.cpp
index e675b80..60ae2be 100644
--- a/src/arpc/flag.cpp
+++ b/src/arpc/flag.cpp
@@ -35,7 +35,7 @@ flag::flag() {
 void flag::set() {
   std::scoped_lock lock(mu_);
   if (!set_) {
-    pipe_[1].write("*", 1);
+    pipe_[1].maybe_write("*", 1);
     set_ = true;
   }
 }
@@ -44,7 +44,7 @@ void flag::reset() {
   std::scoped_lock lock(mu_);
   if (set_) {
     char c;
-    pipe_[0].read(&c, 1);
+    pipe_[0].maybe_read(&c, 1);
     set_ = false;
   }
 }
diff --git a/src/arpc/mutex.cpp b/src/arpc/mutex.cpp
index f807d12..cf36500 100644
--- a/src/arpc/mutex.cpp
+++ b/src/arpc/mutex.cpp
@@ -33,7 +33,7 @@ mutex::mutex() {
   pipe(pipe_);
   pipe_[0].make_non_blocking();
   pipe_[1].make_non_blocking();
-  pipe_[1].write("*", 1);
+  pipe_[1].maybe_write("*", 1);
 }
 
 void mutex::lock() {
-- 
2.43.0


From 067ebf992f35ce810928bc8d8dacdfbb759be428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:39 +0000
Subject: [PATCH 24/45] fix: the outcome of a connection attempt was used
 without checking it was read

---
 src/arpc/channel.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/arpc/channel.cpp b/src/arpc/channel.cpp
index 05f51d3..ac822d1 100644
--- a/src/arpc/channel.cpp
+++ b/src/arpc/channel.cpp
@@ -153,7 +153,8 @@ awaitable<void> channel::async_connect(const address& addr) {
   return can_write().then(std::move([this]() {
     int err;
     socklen_t err_size = sizeof(err);
-    ::getsockopt(fd_, SOL_SOCKET, SO_ERROR, &err, &err_size);
+    if (::getsockopt(fd_, SOL_SOCKET, SO_ERROR, &err, &err_size))
+      throw_io_error("Can't get connection result");
     if (err) throw_io_error("Connection error", err);
   }));
 }
-- 
2.43.0


From a5f1fe6a69c0853753e5a4d3e4aa993a17c32b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:12 +0000
Subject: [PATCH 25/45] fix: usage_lock raced on its pointer and notified after
 a waiter could be gone

---
 src/arpc/usage_lock.h | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/arpc/usage_lock.h b/src/arpc/usage_lock.h
index 333d069..459ad93 100644
--- a/src/arpc/usage_lock.h
+++ b/src/arpc/usage_lock.h
@@ -26,6 +26,7 @@
 #include <memory>
 #include <mutex>
 #include <string_view>
+#include <utility>
 #include "arpc/errors.h"
 
 namespace arpc {
@@ -45,35 +46,45 @@ class usage_lock {
 
   void arm(T* ptr) {
     std::scoped_lock arm_drop_lock(arm_drop_mu_);
-    ptr_.reset(ptr, [this](T*) {
-      {
-        std::scoped_lock lock(mu_);
-        done_ = true;
-      }
+    std::shared_ptr<T> new_ptr(ptr, [this](T*) {
+      std::scoped_lock lock(mu_);
+      done_ = true;
       done_cond_.notify_all();
     });
+    release();
     std::scoped_lock lock(mu_);
+    ptr_ = std::move(new_ptr);
     done_ = false;
   }
 
   void drop() {
     std::scoped_lock arm_drop_lock(arm_drop_mu_);
-    ptr_.reset();
+    release();
     std::unique_lock lock(mu_);
     done_cond_.wait(lock, [this]() { return done_; });
   }
 
   auto get() {
-    auto res = ptr_;
+    auto res = get_or_null();
     if (!res) {
       throw E(message_);
     }
     return res;
   }
 
-  auto get_or_null() { return ptr_; }
+  auto get_or_null() {
+    std::scoped_lock lock(mu_);
+    return ptr_;
+  }
 
  private:
+  // The deleter takes the lock, so the reference can't be dropped holding it.
+  void release() {
+    std::shared_ptr<T> old_ptr;
+    std::scoped_lock lock(mu_);
+    old_ptr.swap(ptr_);
+  }
+
   const char* const message_;
   std::shared_ptr<T> ptr_;
   std::mutex mu_, arm_drop_mu_;
-- 
2.43.0


From aa581ad31216f92778b8aed111f55b7bc06df9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:12 +0000
Subject: [PATCH 26/45] fix: dropping a re-armed usage_lock did not wait for
 all its users

---
 src/arpc/usage_lock.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/arpc/usage_lock.h b/src/arpc/usage_lock.h
index 459ad93..b9da6d7 100644
--- a/src/arpc/usage_lock.h
+++ b/src/arpc/usage_lock.h
@@ -46,22 +46,24 @@ class usage_lock {
 
   void arm(T* ptr) {
     std::scoped_lock arm_drop_lock(arm_drop_mu_);
+    {
+      std::scoped_lock lock(mu_);
+      live_++;
+    }
     std::shared_ptr<T> new_ptr(ptr, [this](T*) {
       std::scoped_lock lock(mu_);
-      done_ = true;
-      done_cond_.notify_all();
+      if (--live_ == 0) done_cond_.notify_all();
     });
     release();
     std::scoped_lock lock(mu_);
     ptr_ = std::move(new_ptr);
-    done_ = false;
   }
 
   void drop() {
     std::scoped_lock arm_drop_lock(arm_drop_mu_);
     release();
     std::unique_lock lock(mu_);
-    done_cond_.wait(lock, [this]() { return done_; });
+    done_cond_.wait(lock, [this]() { return live_ == 0; });
   }
 
   auto get() {
@@ -89,7 +91,7 @@ class usage_lock {
   std::shared_ptr<T> ptr_;
   std::mutex mu_, arm_drop_mu_;
   std::condition_variable done_cond_;
-  bool done_ = true;
+  int live_ = 0;
 };
 
 }  // namespace arpc
-- 
2.43.0


From 40da5f5163163ec891ff203c987d79de0ed1c7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:12 +0000
Subject: [PATCH 27/45] fix: context data and deadline were accessed without
 their lock

---
 src/arpc/context.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/arpc/context.cpp b/src/arpc/context.cpp
index c79ec83..23150c2 100644
--- a/src/arpc/context.cpp
+++ b/src/arpc/context.cpp
@@ -43,6 +43,7 @@ context::context(context& parent, bool set_current, bool shield)
     if (!shield) {
       parent_->add_child(this);
     }
+    std::scoped_lock lock(parent_->data_mu_);
     deadline_ = parent_->deadline_;
     data_ = parent_->data_;
   }
@@ -145,9 +146,9 @@ void context::reset_all() {
 
 std::vector<std::shared_ptr<const dynamic_base_class>> context::data() const {
   std::vector<std::shared_ptr<const dynamic_base_class>> res;
-  res.reserve(data_.size());
   {
     std::scoped_lock lock(data_mu_);
+    res.reserve(data_.size());
     for (auto it : data_) {
       res.push_back(it.second);
     }
@@ -157,6 +158,7 @@ std::vector<std::shared_ptr<const dynamic_base_class>> context::data() const {
 
 void context::set_data(
     std::vector<std::shared_ptr<dynamic_base_class>>&& new_data) {
+  std::scoped_lock lock(data_mu_);
   data_.clear();
   for (auto it : new_data) {
     data_[it->portable_class_name()] =
-- 
2.43.0


From 5c7b32e5c9a65f485e2a54ead119633ebd052a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:12 +0000
Subject: [PATCH 28/45] fix: a parent context could be gone before its child
 notified it

---
 src/arpc/context.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/arpc/context.cpp b/src/arpc/context.cpp
index 23150c2..984c079 100644
--- a/src/arpc/context.cpp
+++ b/src/arpc/context.cpp
@@ -79,10 +79,8 @@ void context::add_child(context* child) {
 }
 
 void context::remove_child(context* child) {
-  {
-    std::scoped_lock lock(children_mu_);
-    children_.erase(child);
-  }
+  std::scoped_lock lock(children_mu_);
+  children_.erase(child);
   child_detached_.notify_one();
 }
 
-- 
2.43.0


From 420a8135f46e3f2729b7b18e8a8307002487b892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:12 +0000
Subject: [PATCH 29/45] fix: null context data in a received context was
 dereferenced

---
 src/arpc/context.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/arpc/context.cpp b/src/arpc/context.cpp
index 984c079..ec1b267 100644
--- a/src/arpc/context.cpp
+++ b/src/arpc/context.cpp
@@ -159,6 +159,7 @@ void context::set_data(
   std::scoped_lock lock(data_mu_);
   data_.clear();
   for (auto it : new_data) {
+    if (!it) throw errors::data_mismatch("Null context data");
     data_[it->portable_class_name()] =
         std::static_pointer_cast<const dynamic_base_class>(std::move(it));
   }
-- 
2.43.0


From f0a6a75505bae7165f2cd3d27e7365b391de9a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:12 +0000
Subject: [PATCH 30/45] fix: reconnecting waited forever for its own reference

---
 src/arpc/connection.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/arpc/connection.h b/src/arpc/connection.h
index 98e56bc..8765229 100644
--- a/src/arpc/connection.h
+++ b/src/arpc/connection.h
@@ -80,6 +80,7 @@ class reconnectable_connection : public connection {
     std::scoped_lock lock(mu_);
     auto ptr = connection_.get_or_null();
     if (!ptr || !ptr->connected()) {
+      ptr.reset();
       connection_.drop();
       connection_factory_();
       connection_.arm(&*connection_storage_);
-- 
2.43.0


From 59dc4950d2fe6f3bf73da9081272e3b8d3007946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:12 +0000
Subject: [PATCH 31/45] fix: a thread pool lost the function when its queue
 filled up meanwhile

---
 src/arpc/executor.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/arpc/executor.h b/src/arpc/executor.h
index e80cecb..2b08db1 100644
--- a/src/arpc/executor.h
+++ b/src/arpc/executor.h
@@ -52,6 +52,7 @@ class thread_pool {
 
   template <typename F>
   void run(F&& f) {
+    fn_type fn(std::forward<F>(f));
     while (true) {
       auto [have_slot, have_pending_space] =
           select(slots_.can_get(), pending_.can_put());
@@ -59,12 +60,12 @@ class thread_pool {
         std::scoped_lock lock(mu_);
         if (have_slot) {
           *have_slot;
-          slots_.maybe_get().set_value(std::move(fn_type(std::forward<F>(f))));
+          slots_.maybe_get().set_value(std::move(fn));
           return;
         }
         if (have_pending_space) {
           *have_pending_space;
-          pending_.maybe_put(std::move(fn_type(std::forward<F>(f))));
+          pending_.maybe_put(std::move(fn));
           return;
         }
       } catch (const errors::try_again&) {
-- 
2.43.0


From d80b487bad9683a3e71db74d2edd450e8daab76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:12 +0000
Subject: [PATCH 32/45] fix: select failed when interrupted by a signal

---
 src/arpc/select.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/arpc/select.h b/src/arpc/select.h
index c6a62bd..d431a90 100644
--- a/src/arpc/select.h
+++ b/src/arpc/select.h
@@ -29,6 +29,7 @@
 #endif  // ESP_PLATFORM
 #include <algorithm>
 #include <array>
+#include <cerrno>
 #include <chrono>
 #include <cstddef>
 #include <exception>
@@ -274,7 +275,10 @@ template <typename... Args>
     auto fds(detail::make_select_pollfds(a));
 
     int pres = poll(fds.data(), fds.size(), min_timeout / std::chrono::milliseconds(1));
-    if (pres < 0) throw_io_error("Error in select");
+    if (pres < 0) {
+      if (errno == EINTR) continue;
+      throw_io_error("Error in select");
+    }
 
     auto res(detail::make_select_result(a, fds.data(), pres == 0, min_timeout,
                                         min_timeout_is_polling, mpt::make_index_sequence<n>{}));
-- 
2.43.0


From dd1ae151bad13b9050779421bcaf39b757354f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:35 +0000
Subject: [PATCH 33/45] fix: handling an exception on a future did not compile

---
 src/arpc/future.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/arpc/future.h b/src/arpc/future.h
index b27d535..ff93392 100644
--- a/src/arpc/future.h
+++ b/src/arpc/future.h
@@ -175,7 +175,8 @@ class future {
   template <typename E, typename CGF>
   auto except(CGF&& handler_fn) {
     auto new_get_fn =
-        compose_catch<E>(std::move(get_fn_), std::move(handler_fn));
+        compose_catch<E, detail::future_state_base&>(
+            std::move(get_fn_), std::move(handler_fn));
     using new_value_type =
         std::invoke_result_t<decltype(new_get_fn), detail::future_state_base&>;
     return future<new_value_type>(std::move(state_), std::move(new_get_fn));
@@ -262,7 +263,8 @@ class future<void> {
   template <typename E, typename CGF>
   auto except(CGF&& handler_fn) {
     auto new_get_fn =
-        compose_catch<E>(std::move(get_fn_), std::move(handler_fn));
+        compose_catch<E, detail::future_state_base&>(
+            std::move(get_fn_), std::move(handler_fn));
     using new_value_type =
         std::invoke_result_t<decltype(new_get_fn), detail::future_state_base&>;
     return future<new_value_type>(std::move(state_), std::move(new_get_fn));
-- 
2.43.0


From 261826e727141a9f79bec2beb73a18e7d1691f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:35 +0000
Subject: [PATCH 34/45] fix: a promise assigned over left the future of the old
 one waiting forever

---
 src/arpc/future.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/arpc/future.h b/src/arpc/future.h
index ff93392..f9df386 100644
--- a/src/arpc/future.h
+++ b/src/arpc/future.h
@@ -318,7 +318,13 @@ class promise {
   using value_type = T;
 
   promise(promise<value_type>&&) = default;
-  promise<value_type>& operator=(promise<value_type>&&) = default;
+  promise<value_type>& operator=(promise<value_type>&& other) {
+    // A promise that was still pending here is broken with the temporary.
+    promise<value_type> moved(std::move(other));
+    std::swap(state_, moved.state_);
+    std::swap(future_, moved.future_);
+    return *this;
+  }
 
   promise()
       : state_(
@@ -366,7 +372,13 @@ class promise<void> {
   using value_type = void;
 
   promise(promise<value_type>&&) = default;
-  promise<value_type>& operator=(promise<value_type>&&) = default;
+  promise<value_type>& operator=(promise<value_type>&& other) {
+    // A promise that was still pending here is broken with the temporary.
+    promise<value_type> moved(std::move(other));
+    std::swap(state_, moved.state_);
+    std::swap(future_, moved.future_);
+    return *this;
+  }
 
   promise()
       : state_(
-- 
2.43.0


From 8549393fff5519980b8d4d0bfe13662b89d1ff82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:27 +0000
Subject: [PATCH 35/45] fix: the timeouts of a select started over at every
 wakeup, and polling became busy

---
 src/arpc/select.h | 53 +++++++++++++++++++++++------------------------
 1 file changed, 26 insertions(+), 27 deletions(-)

diff --git a/src/arpc/select.h b/src/arpc/select.h
index d431a90..dea4365 100644
--- a/src/arpc/select.h
+++ b/src/arpc/select.h
@@ -47,15 +47,24 @@ namespace arpc {
 
 namespace detail {
 
+// What is left of a timeout. Polling ones apply anew at every wakeup.
+template <typename A>
+std::chrono::milliseconds time_left(const A& a, std::chrono::milliseconds elapsed) {
+  if (a.timeout() < std::chrono::milliseconds::zero() || a.for_polling()) return a.timeout();
+  return std::max(a.timeout() - elapsed, std::chrono::milliseconds::zero());
+}
+
 template <typename A>
 result_holder<typename A::return_type> make_one_select_result(A& a, const pollfd& fd,
                                                               bool was_timeout,
+                                                              std::chrono::milliseconds elapsed,
                                                               std::chrono::milliseconds min_timeout,
                                                               bool min_timeout_is_polling) {
   bool active;
   if (was_timeout) {
     active = (a.timeout() >= std::chrono::milliseconds::zero() &&
-              (a.timeout() <= min_timeout || (min_timeout_is_polling && a.for_polling())));
+              (time_left(a, elapsed) <= min_timeout ||
+               (min_timeout_is_polling && a.for_polling())));
   } else {
     active = (fd.revents != 0);
   }
@@ -98,22 +107,15 @@ struct select_input_helper<awaitable<T>> {
   static constexpr std::size_t static_size = 1;
   static constexpr std::size_t size(const awaitable<T>&) { return 1; }
   static result_type make_result(awaitable<T>& a, const pollfd* fd, bool was_timeout,
+                                 std::chrono::milliseconds elapsed,
                                  std::chrono::milliseconds min_timeout,
                                  bool min_timeout_is_polling) {
-    return make_one_select_result(a, *fd, was_timeout, min_timeout, min_timeout_is_polling);
+    return make_one_select_result(a, *fd, was_timeout, elapsed, min_timeout,
+                                  min_timeout_is_polling);
   }
   static void fill_fds(const awaitable<T>& a, pollfd* fds) { *fds = make_pollfd(a); }
   static auto timeout_info(const awaitable<T>& a, std::chrono::milliseconds elapsed) {
-    auto timeout = a.timeout();
-    bool is_polling = a.for_polling();
-
-    if (timeout >= std::chrono::milliseconds::zero()) {
-      if (is_polling) {
-        timeout = std::max(timeout - elapsed, std::chrono::milliseconds::zero());
-      }
-    }
-
-    return std::pair(timeout, is_polling);
+    return std::pair(time_left(a, elapsed), a.for_polling());
   }
 };
 
@@ -123,13 +125,14 @@ struct select_input_helper<std::vector<awaitable<T>>> {
   static constexpr bool has_static_size = false;
   static constexpr std::size_t size(const std::vector<awaitable<T>>& v) { return v.size(); }
   static result_type make_result(std::vector<awaitable<T>>& v, const pollfd* fd, bool was_timeout,
+                                 std::chrono::milliseconds elapsed,
                                  std::chrono::milliseconds min_timeout,
                                  bool min_timeout_is_polling) {
     result_type res;
     res.reserve(v.size());
     for (auto& a : v) {
-      res.push_back(
-          make_one_select_result(a, *fd++, was_timeout, min_timeout, min_timeout_is_polling));
+      res.push_back(make_one_select_result(a, *fd++, was_timeout, elapsed, min_timeout,
+                                           min_timeout_is_polling));
     }
     return res;
   }
@@ -143,13 +146,10 @@ struct select_input_helper<std::vector<awaitable<T>>> {
     bool min_timeout_is_polling = false;
 
     for (const auto& a : v) {
-      auto timeout = a.timeout();
+      auto timeout = time_left(a, elapsed);
       bool is_polling = a.for_polling();
 
       if (timeout >= std::chrono::milliseconds::zero()) {
-        if (is_polling) {
-          timeout = std::max(timeout - elapsed, std::chrono::milliseconds::zero());
-        }
         if (min_timeout < std::chrono::milliseconds::zero() || timeout < min_timeout) {
           min_timeout = timeout;
           min_timeout_is_polling = is_polling;
@@ -212,11 +212,12 @@ constexpr std::size_t select_inputs_static_size() {
 template <typename... Args, std::size_t... ints>
 std::tuple<typename select_input<Args>::result_type...> make_select_result(
     std::tuple<Args...>& awaitables, const pollfd* pollfds, bool was_timeout,
-    std::chrono::milliseconds min_timeout, bool min_timeout_is_polling,
+    std::chrono::milliseconds elapsed, std::chrono::milliseconds min_timeout,
+    bool min_timeout_is_polling,
     mpt::index_sequence<ints...>) {
   return {std::move(select_input<Args>::make_result(
       mpt::at<ints>(awaitables), pollfds + pollfds_index<ints>(awaitables), was_timeout,
-      min_timeout, min_timeout_is_polling))...};
+      elapsed, min_timeout, min_timeout_is_polling))...};
 }
 
 template <typename... Args, std::size_t... ints>
@@ -252,10 +253,12 @@ template <typename... Args>
                                                                  current_context.wait_cancelled(),
                                                                  current_context.wait_deadline());
 
-  std::chrono::milliseconds elapsed = std::chrono::milliseconds::zero();
-  auto last = std::chrono::steady_clock::now();
+  const auto start = std::chrono::steady_clock::now();
 
   do {
+    const auto elapsed = std::chrono::duration_cast<std::chrono::milliseconds>(
+        std::chrono::steady_clock::now() - start);
+
     // Find whether we have a timeout to apply, and whether it's a polling one.
     auto [min_timeout, min_timeout_is_polling] = mpt::accumulate(
         std::pair(std::chrono::milliseconds(-1), false), a, [elapsed](auto prev, const auto& a) {
@@ -280,7 +283,7 @@ template <typename... Args>
       throw_io_error("Error in select");
     }
 
-    auto res(detail::make_select_result(a, fds.data(), pres == 0, min_timeout,
+    auto res(detail::make_select_result(a, fds.data(), pres == 0, elapsed, min_timeout,
                                         min_timeout_is_polling, mpt::make_index_sequence<n>{}));
 
     bool active = mpt::accumulate(false, res, [](bool so_far, const auto& val) {
@@ -296,10 +299,6 @@ template <typename... Args>
       }
       return mpt::range<0, n - 2>(std::move(res));
     }
-
-    auto now = std::chrono::steady_clock::now();
-    elapsed += std::chrono::duration_cast<std::chrono::milliseconds>(now - last);
-    last = now;
   } while (true);
 }
 
-- 
2.43.0


From b276f93bcbe7a8ccdd08d2e48edebf8754878efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:09 +0000
Subject: [PATCH 36/45] fix: timeouts of over 24 days fired early or never

---
 src/arpc/select.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/arpc/select.h b/src/arpc/select.h
index dea4365..2f17c9f 100644
--- a/src/arpc/select.h
+++ b/src/arpc/select.h
@@ -33,6 +33,7 @@
 #include <chrono>
 #include <cstddef>
 #include <exception>
+#include <limits>
 #include <tuple>
 #include <type_traits>
 #include <utility>
@@ -275,6 +276,10 @@ template <typename... Args>
           return std::pair(min_timeout, min_timeout_is_polling);
         });
 
+    // What poll can not wait for at once is waited for in several rounds.
+    min_timeout =
+        std::min(min_timeout, std::chrono::milliseconds(std::numeric_limits<int>::max()));
+
     auto fds(detail::make_select_pollfds(a));
 
     int pres = poll(fds.data(), fds.size(), min_timeout / std::chrono::milliseconds(1));
-- 
2.43.0


From 1333853e615067933599d90aa7cca42dd34d6fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:16 +0000
Subject: [PATCH 37/45] fix: mpt::tail of a temporary left references to its
 elements

---
 src/arpc/mpt.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arpc/mpt.h b/src/arpc/mpt.h
index 50d5364..014902e 100644
--- a/src/arpc/mpt.h
+++ b/src/arpc/mpt.h
@@ -842,7 +842,7 @@ constexpr decltype(auto) head(T&& t) {
 /// \return The original sequence with the head removed.
 template <typename T>
 constexpr auto tail(T&& t) {
-  return range<1, size_v<T>>(t);
+  return range<1, size_v<T>>(std::forward<T>(t));
 }
 
 template <typename I, typename T, typename O, typename... Args>
-- 
2.43.0


From 099e92d0127ed999807cc783741ddc199eccba57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:38 +0000
Subject: [PATCH 38/45] fix: a range of a temporary tuple of references moved
 what they refer to

---
 src/arpc/mpt.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/arpc/mpt.h b/src/arpc/mpt.h
index 014902e..11b10fb 100644
--- a/src/arpc/mpt.h
+++ b/src/arpc/mpt.h
@@ -729,7 +729,8 @@ constexpr auto subset(const std::tuple<T...>& t, index_sequence<idxs...>) {
 /// indices.
 template <typename... T, std::size_t... idxs>
 constexpr auto subset(std::tuple<T...>&& t, index_sequence<idxs...>) {
-  return std::make_tuple(std::move(at<idxs>(t))...);
+  return std::tuple<std::tuple_element_t<idxs, std::tuple<T...>>...>(
+      std::get<idxs>(std::move(t))...);
 }
 /// Return a new tuple containing a subset of the fields as determined by the
 /// passed index sequence.
@@ -770,7 +771,8 @@ constexpr auto subset(const std::pair<U, V>& t, index_sequence<idxs...>) {
 /// indices.
 template <typename U, typename V, std::size_t... idxs>
 constexpr auto subset(std::pair<U, V>&& t, index_sequence<idxs...>) {
-  return std::make_tuple(std::move(at<idxs>(t))...);
+  return std::tuple<std::tuple_element_t<idxs, std::pair<U, V>>...>(
+      std::get<idxs>(std::move(t))...);
 }
 /// Return a new tuple containing a subset of the fields as determined by the
 /// passed index sequence.
-- 
2.43.0


From 5afa59c8507994c32455f17dd434edef15cdadd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:36 +0000
Subject: [PATCH 39/45] fix: a function could be left waiting while a worker
 waits for one

---
 src/arpc/executor.cpp | 24 +++++++++++++-----------
 src/arpc/executor.h   | 24 +++++++++++++-----------
 2 files changed, 26 insertions(+), 22 deletions(-)

diff --git a/src/arpc/executor.cpp b/src/arpc/executor.cpp
index a4f194b..1ae1df8 100644
--- a/src/arpc/executor.cpp
+++ b/src/arpc/executor.cpp
@@ -48,18 +48,20 @@ void thread_pool::request_work(promise<fn_type> slot) {
   while (true) {
     auto [have_pending_fn, have_slot_space] =
         select(pending_.can_get(), slots_.can_put());
+    if (have_pending_fn) *have_pending_fn;
+    if (have_slot_space) *have_slot_space;
+    // What select() found may have changed by now: under the lock, a worker
+    // only waits for a function if none is pending.
+    std::scoped_lock lock(mu_);
     try {
-      std::scoped_lock lock(mu_);
-      if (have_pending_fn) {
-        *have_pending_fn;
-        slot.set_value(pending_.maybe_get());
-        return;
-      }
-      if (have_slot_space) {
-        *have_slot_space;
-        slots_.maybe_put(std::move(slot));
-        return;
-      }
+      slot.set_value(pending_.maybe_get());
+      return;
+    } catch (const errors::try_again&) {
+      // No function pending.
+    }
+    try {
+      slots_.maybe_put(std::move(slot));
+      return;
     } catch (const errors::try_again&) {
       // Just try again.
     }
diff --git a/src/arpc/executor.h b/src/arpc/executor.h
index 2b08db1..f71fd06 100644
--- a/src/arpc/executor.h
+++ b/src/arpc/executor.h
@@ -56,18 +56,20 @@ class thread_pool {
     while (true) {
       auto [have_slot, have_pending_space] =
           select(slots_.can_get(), pending_.can_put());
+      if (have_slot) *have_slot;
+      if (have_pending_space) *have_pending_space;
+      // What select() found may have changed by now: under the lock, a function
+      // is only left pending if no worker is waiting for one.
+      std::scoped_lock lock(mu_);
       try {
-        std::scoped_lock lock(mu_);
-        if (have_slot) {
-          *have_slot;
-          slots_.maybe_get().set_value(std::move(fn));
-          return;
-        }
-        if (have_pending_space) {
-          *have_pending_space;
-          pending_.maybe_put(std::move(fn));
-          return;
-        }
+        slots_.maybe_get().set_value(std::move(fn));
+        return;
+      } catch (const errors::try_again&) {
+        // No worker waiting.
+      }
+      try {
+        pending_.maybe_put(std::move(fn));
+        return;
       } catch (const errors::try_again&) {
         // Just try again.
       }
-- 
2.43.0


From 168cfbc828314329d5922d5f6acf427c829bca32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:19 +0000
Subject: [PATCH 40/45] fix: an object registered in another's place kept the
 other's methods

---
 src/arpc/server.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/arpc/server.h b/src/arpc/server.h
index 8e1ef88..b401289 100644
--- a/src/arpc/server.h
+++ b/src/arpc/server.h
@@ -578,6 +578,7 @@ class server {
     auto key = object_name<ObjectNameEncoder>(std::forward<Name>(name));
     auto& entry = objects_[key];
     entry.ref = object.get_ref();
+    entry.methods.clear();
 
     register_object_interface(entry, object.get_ref());
   }
-- 
2.43.0


From 663b671c2b0acbcfd62c6147d4bcb9dfd5adb328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:19 +0000
Subject: [PATCH 41/45] fix: a server connection could start receiving or
 sending while being removed

---
 src/arpc/server.h | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/arpc/server.h b/src/arpc/server.h
index b401289..05e64af 100644
--- a/src/arpc/server.h
+++ b/src/arpc/server.h
@@ -185,7 +185,12 @@ class server {
       }
 
       return connection_->data_available().then([this]() {
-        can_receive_.reset();
+        {
+          std::scoped_lock lock(mu_);
+          // It may have failed since it was found to have data.
+          if (failed_receive_) return;
+          can_receive_.reset();
+        }
 
         server_.pool_.run([this]() {
           try {
@@ -232,7 +237,12 @@ class server {
       }
 
       return responses_.async_get().then([this](std::string response) {
-        can_send_.reset();
+        {
+          std::scoped_lock lock(mu_);
+          // It may have failed since it was found to have a response.
+          if (failed_send_) return;
+          can_send_.reset();
+        }
 
         server_.pool_.run([this, response(std::move(response))]() mutable {
           try {
@@ -264,7 +274,7 @@ class server {
           failed_receive_ = true;
         }
         if (failed_send_ || (can_send_ && failed)) {
-          failed_receive_ = true;
+          failed_receive_ = failed_send_ = true;
           removed = true;
         }
         can_receive_.set();
@@ -282,7 +292,7 @@ class server {
           failed_send_ = true;
         }
         if (failed_receive_ || (can_receive_ && failed)) {
-          failed_send_ = true;
+          failed_receive_ = failed_send_ = true;
           removed = true;
         }
         can_send_.set();
-- 
2.43.0


From f168981bf2fc98349afc87d99f26c0429cebac48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:19 +0000
Subject: [PATCH 42/45] fix: a server connection could be destroyed while a
 worker was using it

---
 src/arpc/server.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/arpc/server.h b/src/arpc/server.h
index 05e64af..2b678f1 100644
--- a/src/arpc/server.h
+++ b/src/arpc/server.h
@@ -165,7 +165,7 @@ class server {
 
   using connection_key = std::size_t;
   using connection_type = typename ConnectionProducer::connection_type;
-  class connection_wrapper {
+  class connection_wrapper : public std::enable_shared_from_this<connection_wrapper> {
    public:
     explicit connection_wrapper(server& server, connection_key key,
                                 std::unique_ptr<connection_type> connection)
@@ -192,7 +192,7 @@ class server {
           can_receive_.reset();
         }
 
-        server_.pool_.run([this]() {
+        server_.pool_.run([this, self(this->shared_from_this())]() {
           try {
             auto request = connection_->receive();
             string_input_stream request_is(request);
@@ -244,7 +244,8 @@ class server {
           can_send_.reset();
         }
 
-        server_.pool_.run([this, response(std::move(response))]() mutable {
+        server_.pool_.run([this, self(this->shared_from_this()),
+                           response(std::move(response))]() mutable {
           try {
             connection_->send(std::move(response));
 
@@ -311,7 +312,7 @@ class server {
     flag can_receive_, can_send_, can_remove_;
   };
 
-  using connection_map = flat_map<connection_key, std::unique_ptr<connection_wrapper>>;
+  using connection_map = flat_map<connection_key, std::shared_ptr<connection_wrapper>>;
 
   using request_key = std::pair<connection_key, rpc_defs::request_id_type>;
   using request_result = std::pair<request_key, std::string>;
@@ -532,7 +533,7 @@ class server {
             // Ensure we prevent connection counter cycle collisions.
           }
           connections_.insert(
-              {next_connection_key_, std::make_unique<connection_wrapper>(
+              {next_connection_key_, std::make_shared<connection_wrapper>(
                                          *this, next_connection_key_, std::move(new_connection))});
         });
   }
-- 
2.43.0


From fef36571b3adc9892f8f8274aac8576a06ba115a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:57 +0000
Subject: [PATCH 43/45] fix: requests lost by a failed send could be left
 waiting

---
 src/arpc/client.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/arpc/client.h b/src/arpc/client.h
index c6208f0..6b81df7 100644
--- a/src/arpc/client.h
+++ b/src/arpc/client.h
@@ -274,6 +274,11 @@ class client_connection {
       // Disconnect the connection.
       ready_.reset();
       connection_.disconnect();
+
+      // Responses still to come are lost. The receiver does not know if it had
+      // not started to receive from this connection yet.
+      broadcast_exception(std::make_exception_ptr(
+          errors::unavailable("Disconnected after failing to send")));
       throw;
     }
   }
-- 
2.43.0


From da16008fdc46a205e61488484d5c7fc44c33b084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:34 +0000
Subject: [PATCH 44/45] fix: a connection that could not be accepted used up a
 slot

---
 src/arpc/server.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/arpc/server.h b/src/arpc/server.h
index 2b678f1..f4b7821 100644
--- a/src/arpc/server.h
+++ b/src/arpc/server.h
@@ -108,7 +108,13 @@ class connection_producer {
   void produce() {
     while (true) {
       connections_given_.put();
-      output_.put(factory_());
+      try {
+        output_.put(factory_());
+      } catch (...) {
+        // There is no connection to be returned for it.
+        connections_given_.maybe_get();
+        throw;
+      }
     }
   }
 
-- 
2.43.0


From 7b9ad8dc90ef85d9f32a16eafb83b11d3cfdc22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:36 +0000
Subject: [PATCH 45/45] fix: disconnecting a reconnectable connection waited
 for blocked reads and writes

---
 src/arpc/connection.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/arpc/connection.h b/src/arpc/connection.h
index 8765229..9c8c676 100644
--- a/src/arpc/connection.h
+++ b/src/arpc/connection.h
@@ -89,6 +89,8 @@ class reconnectable_connection : public connection {
 
   void disconnect() override {
     std::scoped_lock lock(mu_);
+    // Make those using it give up before waiting for them.
+    if (auto ptr = connection_.get_or_null()) ptr->disconnect();
     connection_.drop();
     connection_storage_.reset();
   }
-- 
2.43.0

