From 8b020ee234381305fd77df3f8cb93c5a2f71ab2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:12 +0000
Subject: [PATCH 01/57] fix: mpt::as_tuple() could not be instantiated for
 rvalue tuples and pairs

Returning the named rvalue reference as is does not compile.
---
 src/arpc/mpt.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/arpc/mpt.h b/src/arpc/mpt.h
index ab703c1..362945c 100644
--- a/src/arpc/mpt.h
+++ b/src/arpc/mpt.h
@@ -465,11 +465,11 @@ constexpr decltype(auto) as_tuple(std::tuple<T...>& t) {
 }
 template <typename... T>
 constexpr decltype(auto) as_tuple(const std::tuple<T...>&& t) {
-  return t;
+  return std::move(t);
 }
 template <typename... T>
 constexpr decltype(auto) as_tuple(std::tuple<T...>&& t) {
-  return t;
+  return std::move(t);
 }
 
 /// \brief Convert a a pair value into a tuple value.
@@ -486,11 +486,11 @@ constexpr decltype(auto) as_tuple(std::pair<U, V>& t) {
 }
 template <typename U, typename V>
 constexpr decltype(auto) as_tuple(const std::pair<U, V>&& t) {
-  return t;
+  return std::move(t);
 }
 template <typename U, typename V>
 constexpr decltype(auto) as_tuple(std::pair<U, V>&& t) {
-  return t;
+  return std::move(t);
 }
 
 /// \brief Convert a tuple value into a `pack` value.
-- 
2.43.0


From 46b89079ef2afbbc6da3f3ae07cd3b03abf82978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:13 +0000
Subject: [PATCH 02/57] fix: select() used a function parameter reference in a
 constant expression

Standard-conforming compilers reject it, so nothing that includes select.h
with at least one instantiation could be built with g++ 13 or clang 18.
---
 src/arpc/select.h | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/arpc/select.h b/src/arpc/select.h
index 6c9209f..70ef7f9 100644
--- a/src/arpc/select.h
+++ b/src/arpc/select.h
@@ -198,15 +198,6 @@ constexpr std::size_t pollfds_index(const std::tuple<Args...>& awaitables) {
   return pollfds_index_helper(awaitables, mpt::make_index_sequence<idx>{});
 }
 
-template <typename... Args>
-constexpr bool select_inputs_have_static_size(const std::tuple<Args...>& awaitables) {
-  return (... && select_input<Args>::has_static_size);
-}
-
-template <typename... Args>
-constexpr std::size_t select_inputs_static_size(const std::tuple<Args...>& awaitables) {
-  return (0 + ... + select_input<Args>::static_size);
-}
 template <typename... Args, std::size_t... ints>
 std::tuple<typename select_input<Args>::result_type...> make_select_result(
     std::tuple<Args...>& awaitables, const pollfd* pollfds, bool was_timeout,
@@ -226,9 +217,8 @@ void make_select_pollfds_helper(const std::tuple<Args...>& awaitables, pollfd* f
 
 template <typename... Args>
 auto make_select_pollfds(const std::tuple<Args...>& awaitables) {
-  if constexpr (select_inputs_have_static_size(awaitables)) {
-    constexpr std::size_t size = pollfds_index<sizeof...(Args)>(awaitables);
-    std::array<pollfd, size> res;
+  if constexpr ((... && select_input<Args>::has_static_size)) {
+    std::array<pollfd, sizeof...(Args)> res;
     make_select_pollfds_helper(awaitables, res.data(), mpt::make_index_sequence<sizeof...(Args)>{});
     return res;
   } else {
-- 
2.43.0


From 9ab33e45b526a1764766c3259b44d04b0f38ec6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:29 +0000
Subject: [PATCH 03/57] fix: sizes and ids of two or more groups were decoded
 in the wrong group order

---
 src/arpc/binary_codecs.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/arpc/binary_codecs.h b/src/arpc/binary_codecs.h
index 3fd1c52..6d2fc28 100644
--- a/src/arpc/binary_codecs.h
+++ b/src/arpc/binary_codecs.h
@@ -26,6 +26,7 @@
 #include <cstddef>
 #include <cstdint>
 #include <iterator>
+#include <limits>
 #include <memory>
 #include <optional>
 #include <string>
@@ -594,11 +595,17 @@ class binary_decoder {
   // For convenience, this is always represented in little endian format.
   std::size_t read_variant() {
     std::size_t l = 0;
+    std::size_t shift = 0;
     uint8_t o;
     do {
       (*this)(o);
-      l <<= 7;
-      l |= (static_cast<std::size_t>(o) & 0x7f);
+      std::size_t group = static_cast<std::size_t>(o) & 0x7f;
+      if (shift >= std::numeric_limits<std::size_t>::digits ||
+          ((group << shift) >> shift) != group) {
+        throw errors::data_mismatch("Size or identifier out of range");
+      }
+      l |= group << shift;
+      shift += 7;
     } while ((o & 0x80) != 0);
     return l;
   }
-- 
2.43.0


From 03c0410754daf38815c29f288672a70bf58127ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:56 +0000
Subject: [PATCH 04/57] fix: bool and presence bytes other than 0 and 1 were
 undefined behaviour when decoded

---
 src/arpc/binary_codecs.h | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/arpc/binary_codecs.h b/src/arpc/binary_codecs.h
index 6d2fc28..c71505f 100644
--- a/src/arpc/binary_codecs.h
+++ b/src/arpc/binary_codecs.h
@@ -772,7 +772,19 @@ class binary_decoder {
   template <typename T>
   std::enable_if_t<!reverse_bytes || sizeof(T) == 1, void> read_block(
       T* p, std::size_t l) {
-    in_.read_fully(reinterpret_cast<char*>(p), l * sizeof(T));
+    if constexpr (std::is_same_v<T, bool>) {
+      // Any other byte is not a valid representation of a bool.
+      for (std::size_t i = 0; i < l; i++, p++) {
+        char c;
+        in_.read_fully(&c, 1);
+        if (c != 0 && c != 1) {
+          throw errors::data_mismatch("Wrong boolean value in stream");
+        }
+        *p = (c == 1);
+      }
+    } else {
+      in_.read_fully(reinterpret_cast<char*>(p), l * sizeof(T));
+    }
   }
 
   std::vector<seen_class_info> class_info_vector_;
-- 
2.43.0


From 01af8557e55a32b686749a955eadc66fb68c2061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:56 +0000
Subject: [PATCH 05/57] fix: decoding a std::array was ambiguous with decoding
 an aggregate

---
 src/arpc/binary_codecs.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/arpc/binary_codecs.h b/src/arpc/binary_codecs.h
index c71505f..6e38715 100644
--- a/src/arpc/binary_codecs.h
+++ b/src/arpc/binary_codecs.h
@@ -104,7 +104,8 @@ class binary_encoder {
   template <typename T>
   std::enable_if_t<
       (mpt::is_tuple_v<T> ||
-       traits::is_bindable_aggregate_v<T>)&&!traits::can_be_serialized_v<T>,
+       traits::is_bindable_aggregate_v<T>)&&!traits::can_be_serialized_v<T> &&
+          !traits::is_const_iterable_v<T>,
       void>
   operator()(T& t) {
     mpt::for_each(mpt::as_tuple(t), tuple_element_saver(), *this);
@@ -468,7 +469,8 @@ class binary_decoder {
   template <typename T>
   std::enable_if_t<
       (mpt::is_tuple_v<T> ||
-       traits::is_bindable_aggregate_v<T>)&&!traits::can_be_serialized_v<T>,
+       traits::is_bindable_aggregate_v<T>)&&!traits::can_be_serialized_v<T> &&
+          !traits::is_iterable_v<T>,
       void>
   operator()(T& t) {
     mpt::for_each(mpt::as_tuple(t), tuple_element_loader(), *this);
-- 
2.43.0


From 77a5c4a2d76e144dbba20771d95a02c0e9a46f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:08 +0000
Subject: [PATCH 06/57] fix: classes derived from one with custom serialization
 could not be serialized

---
 src/arpc/serializable_base.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/arpc/serializable_base.h b/src/arpc/serializable_base.h
index 891318d..b5679b4 100644
--- a/src/arpc/serializable_base.h
+++ b/src/arpc/serializable_base.h
@@ -58,6 +58,8 @@ struct serializable_mixin<false, OwnType, Bases...> : Bases... {
   void save(S& s) const = delete;
   template <typename S>
   void load(S& s) = delete;
+  // Hides the constants of the parents; only a constant enables load/save.
+  using custom_serialization_version = void;
   using field_descriptors = mpt::pack<>;
 };
 
-- 
2.43.0


From 3fa898715063766193cff5a20b7cadbaa44b2539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:51 +0000
Subject: [PATCH 07/57] fix: flat containers lost their comparator and copied
 their elements when copied, moved, assigned or swapped

---
 src/arpc/container/detail/flat_tree.h | 36 ++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/src/arpc/container/detail/flat_tree.h b/src/arpc/container/detail/flat_tree.h
index e49787e..cc2ac1b 100644
--- a/src/arpc/container/detail/flat_tree.h
+++ b/src/arpc/container/detail/flat_tree.h
@@ -27,6 +27,7 @@
 #include <initializer_list>
 #include <memory>
 #include <stdexcept>
+#include <type_traits>
 #include <utility>
 #include <vector>
 
@@ -162,15 +163,24 @@ class flat_tree : protected std::vector<Value, Allocator> {
   using underlying_container::data;
 
   // swap.
-  void swap(flat_tree& other) { underlying_container::swap(other); }
+  void swap(flat_tree& other) {
+    using std::swap;
+    underlying_container::swap(other);
+    swap(comp_, other.comp_);
+    swap(eq_, other.eq_);
+  }
 
   // Assignment.
   flat_tree& operator=(const flat_tree& other) {
     underlying_container::operator=(other);
+    comp_ = other.comp_;
+    eq_ = other.eq_;
     return *this;
   }
   flat_tree& operator=(flat_tree&& other) {
-    underlying_container::operator=(std::forward<flat_tree>(other));
+    underlying_container::operator=(std::move(other));
+    comp_ = other.comp_;
+    eq_ = other.eq_;
     return *this;
   }
   flat_tree& operator=(std::initializer_list<value_type> ilist) {
@@ -197,16 +207,24 @@ class flat_tree : protected std::vector<Value, Allocator> {
     }
   }
   flat_tree(const flat_tree& other)
-      : underlying_container(static_cast<const underlying_container&>(other)) {}
+      : underlying_container(static_cast<const underlying_container&>(other)),
+        comp_(other.comp_),
+        eq_(other.eq_) {}
   flat_tree(const flat_tree& other, const Allocator& alloc)
       : underlying_container(static_cast<const underlying_container&>(other),
-                             alloc) {}
-  flat_tree(flat_tree&& other)
-      : underlying_container(static_cast<const underlying_container&&>(other)) {
-  }
+                             alloc),
+        comp_(other.comp_),
+        eq_(other.eq_) {}
+  flat_tree(flat_tree&& other) noexcept(
+      std::is_nothrow_copy_constructible_v<Compare>)
+      : underlying_container(static_cast<underlying_container&&>(other)),
+        comp_(other.comp_),
+        eq_(other.eq_) {}
   flat_tree(flat_tree&& other, const Allocator& alloc)
-      : underlying_container(static_cast<const underlying_container&&>(other),
-                             alloc) {}
+      : underlying_container(static_cast<underlying_container&&>(other),
+                             alloc),
+        comp_(other.comp_),
+        eq_(other.eq_) {}
   flat_tree(std::initializer_list<value_type> init,
             const Compare& comp = Compare(),
             const Allocator& alloc = Allocator())
-- 
2.43.0


From 3ef51e7539a61a996373eca00c73bf1c7bb18a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:51 +0000
Subject: [PATCH 08/57] fix: emplace_hint could not be instantiated for unique
 flat containers

---
 src/arpc/container/detail/flat_tree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arpc/container/detail/flat_tree.h b/src/arpc/container/detail/flat_tree.h
index cc2ac1b..2e4771e 100644
--- a/src/arpc/container/detail/flat_tree.h
+++ b/src/arpc/container/detail/flat_tree.h
@@ -315,7 +315,7 @@ class flat_tree : protected std::vector<Value, Allocator> {
   }
   template <class... Args>
   iterator emplace_hint(const_iterator hint, Args&&... args) {
-    return insert(std::move(value_type(std::forward<Args>(args)...)));
+    return insert(hint, value_type(std::forward<Args>(args)...));
   }
 
   // erase
-- 
2.43.0


From c4b3abcc05f5ca65cb0cde1a4ec48d47a0f03b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:51 +0000
Subject: [PATCH 09/57] fix: building a flat container from a range kept an
 arbitrary one of equivalent elements

---
 src/arpc/container/detail/flat_tree.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/arpc/container/detail/flat_tree.h b/src/arpc/container/detail/flat_tree.h
index 2e4771e..c5d7c5f 100644
--- a/src/arpc/container/detail/flat_tree.h
+++ b/src/arpc/container/detail/flat_tree.h
@@ -185,7 +185,7 @@ class flat_tree : protected std::vector<Value, Allocator> {
   }
   flat_tree& operator=(std::initializer_list<value_type> ilist) {
     underlying_container::operator=(ilist);
-    std::sort(begin(), end(), comp_);
+    std::stable_sort(begin(), end(), comp_);
     if constexpr (!multiple_allowed) {
       this->erase(std::unique(begin(), end(), eq_), end());
     }
@@ -201,7 +201,7 @@ class flat_tree : protected std::vector<Value, Allocator> {
   flat_tree(InputIt first, InputIt last, const Compare& comp = Compare(),
             const Allocator& alloc = Allocator())
       : underlying_container(first, last, alloc), comp_(comp), eq_(comp) {
-    std::sort(begin(), end(), comp_);
+    std::stable_sort(begin(), end(), comp_);
     if constexpr (!multiple_allowed) {
       this->erase(std::unique(begin(), end(), eq_), end());
     }
@@ -229,7 +229,7 @@ class flat_tree : protected std::vector<Value, Allocator> {
             const Compare& comp = Compare(),
             const Allocator& alloc = Allocator())
       : underlying_container(init, alloc), comp_(comp), eq_(comp) {
-    std::sort(begin(), end(), comp_);
+    std::stable_sort(begin(), end(), comp_);
     if constexpr (!multiple_allowed) {
       this->erase(std::unique(begin(), end(), eq_), end());
     }
-- 
2.43.0


From 0384145eb29812dc2efbc49ce9364895e010a72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:16 +0000
Subject: [PATCH 10/57] fix: the type hash of types that contain themselves
 through containers or aggregates could not be computed

---
 src/arpc/type_hash.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/arpc/type_hash.h b/src/arpc/type_hash.h
index dc9a67a..65099f4 100644
--- a/src/arpc/type_hash.h
+++ b/src/arpc/type_hash.h
@@ -145,22 +145,23 @@ struct new_type_hash {
       return type_hash_add(
           type_hash_leaf(detail::type_family::MAP,
                          is_multi_key_associative_v<T>, 0),
-          type_hash_v<writable_value_type_t<typename T::value_type>>);
+          type_hash_v<writable_value_type_t<typename T::value_type>, Seen>);
     } else if constexpr (is_set_v<T>) {
       return type_hash_add(
           type_hash_leaf(detail::type_family::SET,
                          is_multi_key_associative_v<T>, 0),
-          type_hash_v<writable_value_type_t<typename T::value_type>>);
+          type_hash_v<writable_value_type_t<typename T::value_type>, Seen>);
     } else if constexpr (is_const_iterable_v<T>) {
       if constexpr (has_static_size_v<T>) {
         return type_hash_add(
             type_hash_leaf(detail::type_family::ARRAY, false, static_size_v<T>),
             type_hash_v<typename std::iterator_traits<decltype(
-                std::begin(std::declval<T&>()))>::value_type>);
+                std::begin(std::declval<T&>()))>::value_type,
+                        Seen>);
       } else {
         return type_hash_add(
             type_hash_leaf(detail::type_family::SEQUENCE, false, 0),
-            type_hash_v<writable_value_type_t<typename T::value_type>>);
+            type_hash_v<writable_value_type_t<typename T::value_type>, Seen>);
       }
     } else if constexpr (can_be_serialized_v<T>) {
       return type_hash_add(
@@ -179,7 +180,7 @@ struct new_type_hash {
                          get_custom_serialization_version_v<T>));
     } else if constexpr (is_bindable_aggregate_v<T>) {
       // Hash as a tuple.
-      return type_hash_v<decltype(mpt::as_tuple(std::declval<T>()))>;
+      return type_hash_v<decltype(mpt::as_tuple(std::declval<T>())), Seen>;
     } else {
       return unknown_hash<T>();
     }
-- 
2.43.0


From 1de226ba141abc18009789903a25cf9856be7e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:51 +0000
Subject: [PATCH 11/57] fix: COBS-decoding empty data resized it to a negative
 size

---
 src/arpc/packet_codecs.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/arpc/packet_codecs.cpp b/src/arpc/packet_codecs.cpp
index cf108c5..8cad1c4 100644
--- a/src/arpc/packet_codecs.cpp
+++ b/src/arpc/packet_codecs.cpp
@@ -119,6 +119,9 @@ void cobs_codec::encode(std::string& data) {
 }
 
 void cobs_codec::decode(std::string& data) {
+  if (data.empty()) {
+    throw errors::data_mismatch("Empty COBS-encoded data");
+  }
   auto src = data.begin();
   auto dst = data.begin();
   while (src < data.end()) {
-- 
2.43.0


From 39f4d0a756252f45e0283d73f3fe99aa6c1b4afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:51 +0000
Subject: [PATCH 12/57] fix: failed reads and flushes of standard streams were
 not reported

---
 src/arpc/iostream_adapters.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/arpc/iostream_adapters.cpp b/src/arpc/iostream_adapters.cpp
index 726d932..2023310 100644
--- a/src/arpc/iostream_adapters.cpp
+++ b/src/arpc/iostream_adapters.cpp
@@ -28,7 +28,8 @@ istream_input_stream::istream_input_stream(std::istream& is) : is_(is) {}
 
 std::size_t istream_input_stream::read(char* p, std::size_t l) {
   is_.read(p, l);
-  if (is_.bad()) throw errors::io_error("Bad input stream");
+  if (is_.bad() || (is_.fail() && !is_.eof()))
+    throw errors::io_error("Bad input stream");
   return static_cast<std::size_t>(is_.gcount());
 }
 
@@ -43,7 +44,7 @@ char istream_input_stream::getc() {
 
 ostream_output_stream::ostream_output_stream(std::ostream& os) : os_(os) {}
 
-ostream_output_stream::~ostream_output_stream() { flush(); }
+ostream_output_stream::~ostream_output_stream() { os_.flush(); }
 
 void ostream_output_stream::write(const char* p, std::size_t l) {
   if (!os_.write(p, l)) throw errors::io_error("Bad output stream");
@@ -53,6 +54,8 @@ void ostream_output_stream::putc(char c) {
   if (!os_.put(c)) throw errors::io_error("Bad output stream");
 }
 
-void ostream_output_stream::flush() { os_.flush(); }
+void ostream_output_stream::flush() {
+  if (!os_.flush()) throw errors::io_error("Bad output stream");
+}
 
 }  // namespace arpc
-- 
2.43.0


From 8e459327ae774fc327d53f0495b77cfb9ead6267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:06 +0000
Subject: [PATCH 13/57] fix: result holders mixed up value and error when set
 twice, and moved from lvalues

---
 src/arpc/result_holder.h | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/arpc/result_holder.h b/src/arpc/result_holder.h
index 7da2c6d..1fe3317 100644
--- a/src/arpc/result_holder.h
+++ b/src/arpc/result_holder.h
@@ -76,14 +76,18 @@ class result_holder : public serializable<result_holder<T>> {
   explicit result_holder(std::exception_ptr exception)
       : exception_(exception) {}
   template <typename U>
-  explicit result_holder(U&& u) : value_(std::move(u)) {}
+  explicit result_holder(U&& u) : value_(std::forward<U>(u)) {}
 
   template <typename U>
   void set_value(U&& u) {
     value_ = std::forward<U>(u);
+    exception_ = nullptr;
   }
 
-  void set_exception(std::exception_ptr exception) { exception_ = exception; }
+  void set_exception(std::exception_ptr exception) {
+    exception_ = exception;
+    value_.reset();
+  }
 
   constexpr explicit operator bool() const noexcept {
     return value_ || exception_;
@@ -223,9 +227,15 @@ class result_holder<void> : public serializable<result_holder<void>> {
   explicit result_holder(std::exception_ptr exception)
       : exception_(exception) {}
 
-  void set_value() { value_ = true; }
+  void set_value() {
+    value_ = true;
+    exception_ = nullptr;
+  }
 
-  void set_exception(std::exception_ptr exception) { exception_ = exception; }
+  void set_exception(std::exception_ptr exception) {
+    exception_ = exception;
+    value_ = false;
+  }
 
   constexpr explicit operator bool() const noexcept {
     return value_ || exception_;
-- 
2.43.0


From f4b0d66b8cbdf8340e6fb262bc6910dea04933da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:42 +0000
Subject: [PATCH 14/57] fix: flags and mutexes could not be set, reset, created
 or unlocked in a cancelled or expired context

---
 src/arpc/flag.cpp  | 4 ++--
 src/arpc/mutex.cpp | 5 ++---
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/arpc/flag.cpp b/src/arpc/flag.cpp
index e675b80..60ae2be 100644
--- a/src/arpc/flag.cpp
+++ b/src/arpc/flag.cpp
@@ -35,7 +35,7 @@ flag::flag() {
 void flag::set() {
   std::scoped_lock lock(mu_);
   if (!set_) {
-    pipe_[1].write("*", 1);
+    pipe_[1].maybe_write("*", 1);
     set_ = true;
   }
 }
@@ -44,7 +44,7 @@ void flag::reset() {
   std::scoped_lock lock(mu_);
   if (set_) {
     char c;
-    pipe_[0].read(&c, 1);
+    pipe_[0].maybe_read(&c, 1);
     set_ = false;
   }
 }
diff --git a/src/arpc/mutex.cpp b/src/arpc/mutex.cpp
index f807d12..8151cd4 100644
--- a/src/arpc/mutex.cpp
+++ b/src/arpc/mutex.cpp
@@ -33,7 +33,7 @@ mutex::mutex() {
   pipe(pipe_);
   pipe_[0].make_non_blocking();
   pipe_[1].make_non_blocking();
-  pipe_[1].write("*", 1);
+  pipe_[1].maybe_write("*", 1);
 }
 
 void mutex::lock() {
@@ -56,8 +56,7 @@ bool mutex::try_lock() {
 }
 
 void mutex::unlock() {
-  shield shield;
-  pipe_[1].write("*", 1);
+  pipe_[1].maybe_write("*", 1);
 }
 
 awaitable<void> mutex::can_lock() { return pipe_[0].can_read(); }
-- 
2.43.0


From 5ae6a17b1608bb0a33af95adae99cec30c117d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:06 +0000
Subject: [PATCH 15/57] fix: select() restarted timeouts on every try_again,
 ignored timers and deadlines while descriptors were ready, and lost results
 on cancellation

Timeouts that were not polling ones restarted whenever a reaction said try
again, so they and the context's deadline could be put off for ever. Timers
and deadlines were not looked at as long as some descriptor was ready. All
reactions ran before cancellation was noticed, and their results were dropped.
Signals made it fail with an io_error, and long timeouts overflowed poll()'s.
---
 src/arpc/select.h | 179 ++++++++++++++++++++++++----------------------
 1 file changed, 93 insertions(+), 86 deletions(-)

diff --git a/src/arpc/select.h b/src/arpc/select.h
index 70ef7f9..2114a2e 100644
--- a/src/arpc/select.h
+++ b/src/arpc/select.h
@@ -29,9 +29,11 @@
 #endif  // ESP_PLATFORM
 #include <algorithm>
 #include <array>
+#include <cerrno>
 #include <chrono>
 #include <cstddef>
 #include <exception>
+#include <limits>
 #include <tuple>
 #include <type_traits>
 #include <utility>
@@ -46,18 +48,30 @@ namespace arpc {
 
 namespace detail {
 
+// Time since the start of a select: now, and when its timers were last checked.
+struct select_clock {
+  std::chrono::milliseconds last = std::chrono::milliseconds::zero();
+  std::chrono::milliseconds now = std::chrono::milliseconds::zero();
+  bool polling_due = false;
+
+  // A timer whose reaction says try again is due again after the same time.
+  bool is_due(std::chrono::milliseconds timeout) const {
+    if (timeout < std::chrono::milliseconds::zero()) return false;
+    if (timeout == std::chrono::milliseconds::zero()) return true;
+    return now / timeout > last / timeout;
+  }
+
+  std::chrono::milliseconds remaining(std::chrono::milliseconds timeout) const {
+    if (timeout <= std::chrono::milliseconds::zero()) return timeout;
+    return timeout - now % timeout;
+  }
+};
+
 template <typename A>
 result_holder<typename A::return_type> make_one_select_result(A& a, const pollfd& fd,
-                                                              bool was_timeout,
-                                                              std::chrono::milliseconds min_timeout,
-                                                              bool min_timeout_is_polling) {
-  bool active;
-  if (was_timeout) {
-    active = (a.timeout() >= std::chrono::milliseconds::zero() &&
-              (a.timeout() <= min_timeout || (min_timeout_is_polling && a.for_polling())));
-  } else {
-    active = (fd.revents != 0);
-  }
+                                                              const select_clock& clock) {
+  bool active = fd.revents != 0 || clock.is_due(a.timeout()) ||
+                (a.for_polling() && clock.polling_due);
 
   result_holder<typename A::return_type> res;
 
@@ -87,6 +101,14 @@ constexpr pollfd make_pollfd(const T& awaitable) {
           0};
 }
 
+// The smaller one of two timeouts; negative ones are infinite.
+inline std::chrono::milliseconds min_timeout(std::chrono::milliseconds a,
+                                             std::chrono::milliseconds b) {
+  if (a < std::chrono::milliseconds::zero()) return b;
+  if (b < std::chrono::milliseconds::zero()) return a;
+  return std::min(a, b);
+}
+
 template <typename T>
 struct select_input_helper;
 
@@ -95,23 +117,15 @@ struct select_input_helper<awaitable<T>> {
   using result_type = result_holder<T>;
   static constexpr bool has_static_size = true;
   static constexpr std::size_t size(const awaitable<T>&) { return 1; }
-  static result_type make_result(awaitable<T>& a, const pollfd* fd, bool was_timeout,
-                                 std::chrono::milliseconds min_timeout,
-                                 bool min_timeout_is_polling) {
-    return make_one_select_result(a, *fd, was_timeout, min_timeout, min_timeout_is_polling);
+  static result_type make_result(awaitable<T>& a, const pollfd* fd, const select_clock& clock) {
+    return make_one_select_result(a, *fd, clock);
   }
   static void fill_fds(const awaitable<T>& a, pollfd* fds) { *fds = make_pollfd(a); }
-  static auto timeout_info(const awaitable<T>& a, std::chrono::milliseconds elapsed) {
-    auto timeout = a.timeout();
-    bool is_polling = a.for_polling();
-
-    if (timeout >= std::chrono::milliseconds::zero()) {
-      if (is_polling) {
-        timeout = std::max(timeout - elapsed, std::chrono::milliseconds::zero());
-      }
-    }
-
-    return std::pair(timeout, is_polling);
+  static std::chrono::milliseconds remaining(const awaitable<T>& a, const select_clock& clock) {
+    return clock.remaining(a.timeout());
+  }
+  static bool polling_due(const awaitable<T>& a, const select_clock& clock) {
+    return a.for_polling() && clock.is_due(a.timeout());
   }
 };
 
@@ -120,14 +134,12 @@ struct select_input_helper<std::vector<awaitable<T>>> {
   using result_type = std::vector<result_holder<T>>;
   static constexpr bool has_static_size = false;
   static constexpr std::size_t size(const std::vector<awaitable<T>>& v) { return v.size(); }
-  static result_type make_result(std::vector<awaitable<T>>& v, const pollfd* fd, bool was_timeout,
-                                 std::chrono::milliseconds min_timeout,
-                                 bool min_timeout_is_polling) {
+  static result_type make_result(std::vector<awaitable<T>>& v, const pollfd* fd,
+                                 const select_clock& clock) {
     result_type res;
     res.reserve(v.size());
     for (auto& a : v) {
-      res.push_back(
-          make_one_select_result(a, *fd++, was_timeout, min_timeout, min_timeout_is_polling));
+      res.push_back(make_one_select_result(a, *fd++, clock));
     }
     return res;
   }
@@ -136,26 +148,19 @@ struct select_input_helper<std::vector<awaitable<T>>> {
       *fds++ = make_pollfd(a);
     }
   }
-  static auto timeout_info(const std::vector<awaitable<T>>& v, std::chrono::milliseconds elapsed) {
-    auto min_timeout = std::chrono::milliseconds(-1);
-    bool min_timeout_is_polling = false;
-
+  static std::chrono::milliseconds remaining(const std::vector<awaitable<T>>& v,
+                                             const select_clock& clock) {
+    auto min_remaining = std::chrono::milliseconds(-1);
     for (const auto& a : v) {
-      auto timeout = a.timeout();
-      bool is_polling = a.for_polling();
-
-      if (timeout >= std::chrono::milliseconds::zero()) {
-        if (is_polling) {
-          timeout = std::max(timeout - elapsed, std::chrono::milliseconds::zero());
-        }
-        if (min_timeout < std::chrono::milliseconds::zero() || timeout < min_timeout) {
-          min_timeout = timeout;
-          min_timeout_is_polling = is_polling;
-        }
-      }
+      min_remaining = min_timeout(min_remaining, clock.remaining(a.timeout()));
     }
-
-    return std::pair(min_timeout, min_timeout_is_polling);
+    return min_remaining;
+  }
+  static bool polling_due(const std::vector<awaitable<T>>& v, const select_clock& clock) {
+    for (const auto& a : v) {
+      if (a.for_polling() && clock.is_due(a.timeout())) return true;
+    }
+    return false;
   }
 };
 
@@ -199,13 +204,12 @@ constexpr std::size_t pollfds_index(const std::tuple<Args...>& awaitables) {
 }
 
 template <typename... Args, std::size_t... ints>
-std::tuple<typename select_input<Args>::result_type...> make_select_result(
-    std::tuple<Args...>& awaitables, const pollfd* pollfds, bool was_timeout,
-    std::chrono::milliseconds min_timeout, bool min_timeout_is_polling,
-    mpt::index_sequence<ints...>) {
-  return {std::move(select_input<Args>::make_result(
-      mpt::at<ints>(awaitables), pollfds + pollfds_index<ints>(awaitables), was_timeout,
-      min_timeout, min_timeout_is_polling))...};
+auto make_select_result(std::tuple<Args...>& awaitables, const pollfd* pollfds,
+                        const select_clock& clock, mpt::index_sequence<ints...>) {
+  return std::tuple<
+      typename select_input<mpt::element_type_t<ints, std::tuple<Args...>>>::result_type...>{
+      std::move(select_input<mpt::element_type_t<ints, std::tuple<Args...>>>::make_result(
+          mpt::at<ints>(awaitables), pollfds + pollfds_index<ints>(awaitables), clock))...};
 }
 
 template <typename... Args, std::size_t... ints>
@@ -240,51 +244,54 @@ template <typename... Args>
                                                                  current_context.wait_cancelled(),
                                                                  current_context.wait_deadline());
 
-  std::chrono::milliseconds elapsed = std::chrono::milliseconds::zero();
-  auto last = std::chrono::steady_clock::now();
+  const auto start = std::chrono::steady_clock::now();
+  detail::select_clock clock;
 
   do {
-    // Find whether we have a timeout to apply, and whether it's a polling one.
-    auto [min_timeout, min_timeout_is_polling] = mpt::accumulate(
-        std::pair(std::chrono::milliseconds(-1), false), a, [elapsed](auto prev, const auto& a) {
-          auto& [min_timeout, min_timeout_is_polling] = prev;
-          auto [timeout, is_polling] = detail::select_input<decltype(a)>::timeout_info(a, elapsed);
-
-          if (timeout >= std::chrono::milliseconds::zero()) {
-            if (min_timeout < std::chrono::milliseconds::zero() || timeout < min_timeout) {
-              min_timeout = timeout;
-              min_timeout_is_polling = is_polling;
-            }
-          }
-
-          return std::pair(min_timeout, min_timeout_is_polling);
+    auto timeout = mpt::accumulate(
+        std::chrono::milliseconds(-1), a, [&clock](auto prev, const auto& a) {
+          return detail::min_timeout(prev,
+                                     detail::select_input<decltype(a)>::remaining(a, clock));
         });
+    // poll() takes an int; waking up early is harmless.
+    timeout =
+        std::min(timeout, std::chrono::milliseconds(std::numeric_limits<int>::max()));
 
     auto fds(detail::make_select_pollfds(a));
 
-    int pres = poll(fds.data(), fds.size(), min_timeout / std::chrono::milliseconds(1));
-    if (pres < 0) throw_io_error("Error in select");
-
-    auto res(detail::make_select_result(a, fds.data(), pres == 0, min_timeout,
-                                        min_timeout_is_polling, mpt::make_index_sequence<n>{}));
+    int pres = poll(fds.data(), fds.size(), timeout / std::chrono::milliseconds(1));
+    if (pres < 0) {
+      if (errno == EINTR) continue;
+      throw_io_error("Error in select");
+    }
 
-    bool active = mpt::accumulate(false, res, [](bool so_far, const auto& val) {
-      return so_far || detail::select_output<decltype(val)>::is_active(val);
+    clock.last = clock.now;
+    clock.now = std::chrono::floor<std::chrono::milliseconds>(std::chrono::steady_clock::now() -
+                                                              start);
+    clock.polling_due = mpt::accumulate(false, a, [&clock](bool so_far, const auto& a) {
+      return so_far || detail::select_input<decltype(a)>::polling_due(a, clock);
     });
-    if (active) {
-      auto [cancelled, deadline_exceeded] = mpt::range<n - 2, n>(res);
-      if (cancelled) {
+
+    // Cancellation and deadline go first: no other reaction may run if its
+    // result would be lost.
+    {
+      const pollfd* context_fds = fds.data() + detail::pollfds_index<n - 2>(a);
+      if (auto cancelled =
+              detail::make_one_select_result(mpt::at<n - 2>(a), context_fds[0], clock)) {
         *cancelled;
       }
-      if (deadline_exceeded) {
+      if (auto deadline_exceeded =
+              detail::make_one_select_result(mpt::at<n - 1>(a), context_fds[1], clock)) {
         *deadline_exceeded;
       }
-      return mpt::range<0, n - 2>(std::move(res));
     }
 
-    auto now = std::chrono::steady_clock::now();
-    elapsed += std::chrono::duration_cast<std::chrono::milliseconds>(now - last);
-    last = now;
+    auto res(detail::make_select_result(a, fds.data(), clock, mpt::make_index_sequence<n - 2>{}));
+
+    bool active = mpt::accumulate(false, res, [](bool so_far, const auto& val) {
+      return so_far || detail::select_output<decltype(val)>::is_active(val);
+    });
+    if (active) return res;
   } while (true);
 }
 
-- 
2.43.0


From 71dec504530a30e3280eb323e67fb7c8cc0f790e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:40 +0000
Subject: [PATCH 16/57] fix: queue::empty() returned the opposite

---
 src/arpc/queue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arpc/queue.h b/src/arpc/queue.h
index d9bfa59..b976658 100644
--- a/src/arpc/queue.h
+++ b/src/arpc/queue.h
@@ -50,7 +50,7 @@ class queue {
   size_type capacity() const { return max_size_; }
   bool empty() const {
     std::scoped_lock lock(mu_);
-    return data_.empty() == 0;
+    return data_.empty();
   }
   bool full() const {
     std::scoped_lock lock(mu_);
-- 
2.43.0


From d72082dd49dad2390195bda1cc82cd6877827bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:59 +0000
Subject: [PATCH 17/57] fix: thread pools lost, delayed and reordered tasks
 when a worker became free while one was submitted

A task could be made pending just before an idle worker's slot was added, and
nothing brought them together; and a task was moved from on each attempt to
queue it, so after a failed one an empty function was run.
---
 src/arpc/executor.cpp | 26 +++++++++++---------------
 src/arpc/executor.h   | 27 ++++++++++++---------------
 2 files changed, 23 insertions(+), 30 deletions(-)

diff --git a/src/arpc/executor.cpp b/src/arpc/executor.cpp
index a4f194b..06d3dcb 100644
--- a/src/arpc/executor.cpp
+++ b/src/arpc/executor.cpp
@@ -46,22 +46,18 @@ thread_pool::thread_pool(unsigned int num_worker_threads, int queue_size)
 
 void thread_pool::request_work(promise<fn_type> slot) {
   while (true) {
-    auto [have_pending_fn, have_slot_space] =
+    [[maybe_unused]] auto ready =
         select(pending_.can_get(), slots_.can_put());
-    try {
-      std::scoped_lock lock(mu_);
-      if (have_pending_fn) {
-        *have_pending_fn;
-        slot.set_value(pending_.maybe_get());
-        return;
-      }
-      if (have_slot_space) {
-        *have_slot_space;
-        slots_.maybe_put(std::move(slot));
-        return;
-      }
-    } catch (const errors::try_again&) {
-      // Just try again.
+    // Things may have changed since. There must never be both a pending
+    // function and a free slot.
+    std::scoped_lock lock(mu_);
+    if (!pending_.empty()) {
+      slot.set_value(pending_.maybe_get());
+      return;
+    }
+    if (!slots_.full()) {
+      slots_.maybe_put(std::move(slot));
+      return;
     }
   }
 }
diff --git a/src/arpc/executor.h b/src/arpc/executor.h
index e80cecb..bd5e0da 100644
--- a/src/arpc/executor.h
+++ b/src/arpc/executor.h
@@ -52,23 +52,20 @@ class thread_pool {
 
   template <typename F>
   void run(F&& f) {
+    fn_type fn(std::forward<F>(f));
     while (true) {
-      auto [have_slot, have_pending_space] =
+      [[maybe_unused]] auto ready =
           select(slots_.can_get(), pending_.can_put());
-      try {
-        std::scoped_lock lock(mu_);
-        if (have_slot) {
-          *have_slot;
-          slots_.maybe_get().set_value(std::move(fn_type(std::forward<F>(f))));
-          return;
-        }
-        if (have_pending_space) {
-          *have_pending_space;
-          pending_.maybe_put(std::move(fn_type(std::forward<F>(f))));
-          return;
-        }
-      } catch (const errors::try_again&) {
-        // Just try again.
+      // Things may have changed since. There must never be both a pending
+      // function and a free slot.
+      std::scoped_lock lock(mu_);
+      if (!slots_.empty()) {
+        slots_.maybe_get().set_value(std::move(fn));
+        return;
+      }
+      if (!pending_.full()) {
+        pending_.maybe_put(std::move(fn));
+        return;
       }
     }
   }
-- 
2.43.0


From a3932e7f6099db77d12c6e5709b7ff17488fd2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:18 +0000
Subject: [PATCH 18/57] fix: functions given to awaitables, futures and compose
 functions as lvalues were moved from

---
 src/arpc/awaitable.h |  6 +++---
 src/arpc/function.h  |  6 +++---
 src/arpc/future.h    | 12 ++++++------
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/arpc/awaitable.h b/src/arpc/awaitable.h
index 1871208..9b72c21 100644
--- a/src/arpc/awaitable.h
+++ b/src/arpc/awaitable.h
@@ -54,7 +54,7 @@ class awaitable {
   template <typename E, typename CRF>
   auto except(CRF&& handler_fn) {
     auto new_react_fn =
-        compose_catch<E>(std::move(react_fn_), std::move(handler_fn));
+        compose_catch<E>(std::move(react_fn_), std::forward<CRF>(handler_fn));
     using new_return_type = std::invoke_result_t<decltype(new_react_fn)>;
     return awaitable<new_return_type>(std::move(*this),
                                       std::move(new_react_fn));
@@ -62,7 +62,7 @@ class awaitable {
 
   template <typename ORF>
   auto then(ORF&& react_fn) {
-    auto new_react_fn = compose_pipe(std::move(react_fn_), std::move(react_fn));
+    auto new_react_fn = compose_pipe(std::move(react_fn_), std::forward<ORF>(react_fn));
     using new_return_type = std::invoke_result_t<decltype(new_react_fn)>;
     return awaitable<new_return_type>(std::move(*this),
                                       std::move(new_react_fn));
@@ -70,7 +70,7 @@ class awaitable {
 
   template <typename ORF>
   auto decorate(ORF&& react_fn) {
-    auto new_react_fn = compose_wrap(std::move(react_fn_), std::move(react_fn));
+    auto new_react_fn = compose_wrap(std::move(react_fn_), std::forward<ORF>(react_fn));
     using new_return_type = std::invoke_result_t<decltype(new_react_fn)>;
     return awaitable<new_return_type>(std::move(*this),
                                       std::move(new_react_fn));
diff --git a/src/arpc/function.h b/src/arpc/function.h
index d74559a..1f2b4af 100644
--- a/src/arpc/function.h
+++ b/src/arpc/function.h
@@ -34,7 +34,7 @@ auto compose_pipe(OF&& of, MF&& mf) {
       std::is_same_v<original_return_type, void>, std::invoke_result<MF>,
       std::invoke_result<MF, original_return_type>>::type;
 
-  return [mof(std::move(of)), mmf(std::move(mf))](Args&&... args) mutable {
+  return [mof(std::forward<OF>(of)), mmf(std::forward<MF>(mf))](Args&&... args) mutable {
     if constexpr (std::is_same_v<original_return_type, void>) {
       if constexpr (std::is_same_v<new_return_type, void>) {
         mof(std::forward<Args>(args)...);
@@ -57,7 +57,7 @@ template <typename... Args, typename OF, typename WF>
 auto compose_wrap(OF&& of, WF&& wf) {
   using new_return_type = std::invoke_result_t<WF, OF&, Args...>;
 
-  return [mof(std::move(of)), mwf(std::move(wf))](Args&&... args) mutable {
+  return [mof(std::forward<OF>(of)), mwf(std::forward<WF>(wf))](Args&&... args) mutable {
     if constexpr (std::is_same_v<new_return_type, void>) {
       mwf(mof, std::forward<Args>(args)...);
     } else {
@@ -74,7 +74,7 @@ auto compose_catch(OF&& of, HF&& hf) {
                 "Exception handlers must have the same return type as the "
                 "original function");
 
-  return [mof(std::move(of)), mhf(std::move(hf))](Args&&... args) mutable {
+  return [mof(std::forward<OF>(of)), mhf(std::forward<HF>(hf))](Args&&... args) mutable {
     if constexpr (std::is_same_v<original_return_type, void>) {
       try {
         mof(std::forward<Args>(args)...);
diff --git a/src/arpc/future.h b/src/arpc/future.h
index 0849b69..e601810 100644
--- a/src/arpc/future.h
+++ b/src/arpc/future.h
@@ -167,7 +167,7 @@ class future {
   template <typename E, typename CGF>
   auto except(CGF&& handler_fn) {
     auto new_get_fn =
-        compose_catch<E>(std::move(get_fn_), std::move(handler_fn));
+        compose_catch<E>(std::move(get_fn_), std::forward<CGF>(handler_fn));
     using new_value_type =
         std::invoke_result_t<decltype(new_get_fn), detail::future_state_base&>;
     return future<new_value_type>(std::move(state_), std::move(new_get_fn));
@@ -176,7 +176,7 @@ class future {
   template <typename OGF>
   auto then(OGF&& get_fn) {
     auto new_get_fn = compose_pipe<detail::future_state_base&>(
-        std::move(get_fn_), std::move(get_fn));
+        std::move(get_fn_), std::forward<OGF>(get_fn));
     using new_value_type =
         std::invoke_result_t<decltype(new_get_fn), detail::future_state_base&>;
     return future<new_value_type>(std::move(state_), std::move(new_get_fn));
@@ -185,7 +185,7 @@ class future {
   template <typename OWF>
   auto decorate(OWF&& get_fn) {
     auto new_get_fn = compose_wrap<detail::future_state_base&>(
-        std::move(get_fn_), std::move(get_fn));
+        std::move(get_fn_), std::forward<OWF>(get_fn));
     using new_value_type =
         std::invoke_result_t<decltype(new_get_fn), detail::future_state_base&>;
     return future<new_value_type>(std::move(state_), std::move(new_get_fn));
@@ -254,7 +254,7 @@ class future<void> {
   template <typename E, typename CGF>
   auto except(CGF&& handler_fn) {
     auto new_get_fn =
-        compose_catch<E>(std::move(get_fn_), std::move(handler_fn));
+        compose_catch<E>(std::move(get_fn_), std::forward<CGF>(handler_fn));
     using new_value_type =
         std::invoke_result_t<decltype(new_get_fn), detail::future_state_base&>;
     return future<new_value_type>(std::move(state_), std::move(new_get_fn));
@@ -263,7 +263,7 @@ class future<void> {
   template <typename OGF>
   auto then(OGF&& get_fn) {
     auto new_get_fn = compose_pipe<detail::future_state_base&>(
-        std::move(get_fn_), std::move(get_fn));
+        std::move(get_fn_), std::forward<OGF>(get_fn));
     using new_value_type =
         std::invoke_result_t<decltype(new_get_fn), detail::future_state_base&>;
     return future<new_value_type>(std::move(state_), std::move(new_get_fn));
@@ -272,7 +272,7 @@ class future<void> {
   template <typename OWF>
   auto decorate(OWF&& get_fn) {
     auto new_get_fn = compose_wrap<detail::future_state_base&>(
-        std::move(get_fn_), std::move(get_fn));
+        std::move(get_fn_), std::forward<OWF>(get_fn));
     using new_value_type =
         std::invoke_result_t<decltype(new_get_fn), detail::future_state_base&>;
     return future<new_value_type>(std::move(state_), std::move(new_get_fn));
-- 
2.43.0


From 2e9efb3d1cee66cbaf3c134ef419aa4e2f79251b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:18 +0000
Subject: [PATCH 19/57] fix: timers with fractions of milliseconds fired early

---
 src/arpc/awaitable.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/arpc/awaitable.h b/src/arpc/awaitable.h
index 9b72c21..278f702 100644
--- a/src/arpc/awaitable.h
+++ b/src/arpc/awaitable.h
@@ -107,19 +107,19 @@ awaitable<void> always();
 template <typename Rep, typename Period>
 awaitable<void> timeout(const std::chrono::duration<Rep, Period>& duration) {
   return awaitable<void>(
-      std::chrono::duration_cast<std::chrono::milliseconds>(duration));
+      std::chrono::ceil<std::chrono::milliseconds>(duration));
 }
 
 template <typename Rep, typename Period>
 awaitable<void> polling(const std::chrono::duration<Rep, Period>& duration) {
   return awaitable<void>(
-      std::chrono::duration_cast<std::chrono::milliseconds>(duration), true);
+      std::chrono::ceil<std::chrono::milliseconds>(duration), true);
 }
 
 template <typename Clock, typename Duration>
 awaitable<void> deadline(const std::chrono::time_point<Clock, Duration>& when) {
   std::chrono::milliseconds delta =
-      std::chrono::duration_cast<std::chrono::milliseconds>(
+      std::chrono::ceil<std::chrono::milliseconds>(
           when - std::chrono::system_clock::now());
   return awaitable<void>(std::max(std::chrono::milliseconds::zero(), delta));
 }
-- 
2.43.0


From f0e63e0327a800f18dc6fbe1411736515c1640e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:01 +0000
Subject: [PATCH 20/57] fix: contexts raced on their data and with the removal
 of their last child, and crashed on null data items received

---
 src/arpc/context.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/arpc/context.cpp b/src/arpc/context.cpp
index c79ec83..dc22739 100644
--- a/src/arpc/context.cpp
+++ b/src/arpc/context.cpp
@@ -43,6 +43,7 @@ context::context(context& parent, bool set_current, bool shield)
     if (!shield) {
       parent_->add_child(this);
     }
+    std::scoped_lock lock(parent_->data_mu_);
     deadline_ = parent_->deadline_;
     data_ = parent_->data_;
   }
@@ -78,10 +79,9 @@ void context::add_child(context* child) {
 }
 
 void context::remove_child(context* child) {
-  {
-    std::scoped_lock lock(children_mu_);
-    children_.erase(child);
-  }
+  // Notify under the lock, as this context may go away right after releasing it.
+  std::scoped_lock lock(children_mu_);
+  children_.erase(child);
   child_detached_.notify_one();
 }
 
@@ -145,20 +145,20 @@ void context::reset_all() {
 
 std::vector<std::shared_ptr<const dynamic_base_class>> context::data() const {
   std::vector<std::shared_ptr<const dynamic_base_class>> res;
+  std::scoped_lock lock(data_mu_);
   res.reserve(data_.size());
-  {
-    std::scoped_lock lock(data_mu_);
-    for (auto it : data_) {
-      res.push_back(it.second);
-    }
+  for (const auto& it : data_) {
+    res.push_back(it.second);
   }
   return res;
 }
 
 void context::set_data(
     std::vector<std::shared_ptr<dynamic_base_class>>&& new_data) {
+  std::scoped_lock lock(data_mu_);
   data_.clear();
-  for (auto it : new_data) {
+  for (auto& it : new_data) {
+    if (!it) throw errors::data_mismatch("Null data item in a context");
     data_[it->portable_class_name()] =
         std::static_pointer_cast<const dynamic_base_class>(std::move(it));
   }
-- 
2.43.0


From 8f3ed55d90bcdf3f4805c8b0af70ce9c8a1f1b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:01 +0000
Subject: [PATCH 21/57] fix: context timeouts and deadlines overflowed when far
 away, and truncated ones passed early

---
 src/arpc/context.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/arpc/context.cpp b/src/arpc/context.cpp
index dc22739..8320f52 100644
--- a/src/arpc/context.cpp
+++ b/src/arpc/context.cpp
@@ -20,6 +20,7 @@
 ///   under the License.
 
 #include "arpc/context.h"
+#include <algorithm>
 #include <utility>
 #include "arpc/errors.h"
 
@@ -127,6 +128,10 @@ awaitable<void> context::wait_deadline() {
 }
 
 void context::set_deadline(time_point when) {
+  // Keep differences with the current time representable.
+  when = std::clamp(when, time_point(),
+                    std::chrono::floor<duration>(
+                        std::chrono::system_clock::time_point::max()));
   std::scoped_lock lock(data_mu_);
   if (!deadline_ || *deadline_ > when) {
     deadline_ = when;
@@ -134,8 +139,9 @@ void context::set_deadline(time_point when) {
 }
 
 void context::set_timeout(duration timeout) {
-  set_deadline(std::chrono::time_point_cast<context::duration>(
-      std::chrono::system_clock::now() + timeout));
+  auto now = std::chrono::ceil<duration>(std::chrono::system_clock::now());
+  set_deadline(timeout < time_point::max() - now ? now + timeout
+                                                 : time_point::max());
 }
 
 void context::reset_all() {
-- 
2.43.0


From 130ded83b2ca7e34d0a484661b42f16ee15d1a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:23 +0000
Subject: [PATCH 22/57] fix: usage locks raced between taking references and
 dropping them

---
 src/arpc/usage_lock.h | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/arpc/usage_lock.h b/src/arpc/usage_lock.h
index 333d069..d876646 100644
--- a/src/arpc/usage_lock.h
+++ b/src/arpc/usage_lock.h
@@ -45,33 +45,43 @@ class usage_lock {
 
   void arm(T* ptr) {
     std::scoped_lock arm_drop_lock(arm_drop_mu_);
-    ptr_.reset(ptr, [this](T*) {
-      {
-        std::scoped_lock lock(mu_);
-        done_ = true;
-      }
+    std::shared_ptr<T> new_ptr(ptr, [this](T*) {
+      // Notify under the lock, as this may go away right after releasing it.
+      std::scoped_lock lock(mu_);
+      done_ = true;
       done_cond_.notify_all();
     });
-    std::scoped_lock lock(mu_);
+    std::unique_lock lock(mu_);
+    ptr_.swap(new_ptr);
+    lock.unlock();
+    new_ptr.reset();
+    lock.lock();
     done_ = false;
   }
 
   void drop() {
     std::scoped_lock arm_drop_lock(arm_drop_mu_);
-    ptr_.reset();
+    std::shared_ptr<T> old_ptr;
     std::unique_lock lock(mu_);
+    ptr_.swap(old_ptr);
+    lock.unlock();
+    old_ptr.reset();
+    lock.lock();
     done_cond_.wait(lock, [this]() { return done_; });
   }
 
   auto get() {
-    auto res = ptr_;
+    auto res = get_or_null();
     if (!res) {
       throw E(message_);
     }
     return res;
   }
 
-  auto get_or_null() { return ptr_; }
+  std::shared_ptr<T> get_or_null() {
+    std::scoped_lock lock(mu_);
+    return ptr_;
+  }
 
  private:
   const char* const message_;
-- 
2.43.0


From cce855c15896e7b181fb851bd70e940b346bfe74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:52 +0000
Subject: [PATCH 23/57] fix: addresses released their storage as a smaller type

---
 src/arpc/address.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arpc/address.cpp b/src/arpc/address.cpp
index 16aebb0..10289b3 100644
--- a/src/arpc/address.cpp
+++ b/src/arpc/address.cpp
@@ -108,7 +108,7 @@ address::address(address&& other)
 
 address::~address() {
   assert(ai_next == this);
-  delete ai_addr;
+  delete reinterpret_cast<struct sockaddr_storage*>(ai_addr);
 }
 
 int& address::family() { return ai_family; }
-- 
2.43.0


From fd9579252349057a107b6dae8f8ae88fd21a3a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:52 +0000
Subject: [PATCH 24/57] fix: created files got arbitrary permissions

---
 src/arpc/file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arpc/file.cpp b/src/arpc/file.cpp
index 2c73c23..a50af12 100644
--- a/src/arpc/file.cpp
+++ b/src/arpc/file.cpp
@@ -37,7 +37,7 @@ channel file(const std::string& path, open_mode mode) {
       O_RDWR | O_CREAT | O_APPEND,    // APPEND
   };
   channel res(
-      ::open(path.c_str(), posix_modes[static_cast<std::size_t>(mode)]));
+      ::open(path.c_str(), posix_modes[static_cast<std::size_t>(mode)], 0666));
   if (!res) throw_io_error("Error opening file");
   return res;
 }
-- 
2.43.0


From f565cd536f3ce42c4b04b7adc8f4da2e8a89de96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:52 +0000
Subject: [PATCH 25/57] fix: linger() set SO_REUSEPORT instead of SO_LINGER

---
 src/arpc/channel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arpc/channel.cpp b/src/arpc/channel.cpp
index 429b324..05f51d3 100644
--- a/src/arpc/channel.cpp
+++ b/src/arpc/channel.cpp
@@ -252,7 +252,7 @@ channel& channel::linger(bool do_linger, std::chrono::seconds linger_time) {
   struct linger value {
     do_linger, static_cast<int>(linger_time / std::chrono::seconds(1))
   };
-  if (::setsockopt(fd_, SOL_SOCKET, SO_REUSEPORT, &value, sizeof(value)))
+  if (::setsockopt(fd_, SOL_SOCKET, SO_LINGER, &value, sizeof(value)))
     throw_io_error("Error setting linger");
   return *this;
 }
-- 
2.43.0


From 07787fa27be4dc1a45739edb3e00c80652abe4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:52 +0000
Subject: [PATCH 26/57] fix: zero-length reads reported the end of the channel

---
 src/arpc/channel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arpc/channel.cpp b/src/arpc/channel.cpp
index 05f51d3..06fed11 100644
--- a/src/arpc/channel.cpp
+++ b/src/arpc/channel.cpp
@@ -90,7 +90,7 @@ std::size_t channel::read(void* buf, std::size_t len) {
 std::size_t channel::maybe_read(void* buf, std::size_t len) {
   auto num = ::read(fd_, buf, len);
   if (num < 0) throw_io_error("Error reading");
-  if (num == 0) throw errors::eof("End of channel");
+  if (num == 0 && len > 0) throw errors::eof("End of channel");
   return static_cast<std::size_t>(num);
 }
 
-- 
2.43.0


From c747bdacd399c24520560b2324510bb368f2147f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:59 +0000
Subject: [PATCH 27/57] fix: flushing a channel undid no_delay()

---
 src/arpc/channel.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/arpc/channel.cpp b/src/arpc/channel.cpp
index 06fed11..6404039 100644
--- a/src/arpc/channel.cpp
+++ b/src/arpc/channel.cpp
@@ -235,7 +235,12 @@ channel& channel::reuse_port(bool reuse) {
 
 channel& channel::flush() {
   constexpr int on = 1, off = 0;
-  if (!::setsockopt(fd_, IPPROTO_TCP, TCP_NODELAY, &on, sizeof(on))) {
+  int value = 0;
+  socklen_t value_size = sizeof(value);
+  // Nothing is held back if there is no delay already.
+  if (!::getsockopt(fd_, IPPROTO_TCP, TCP_NODELAY, &value, &value_size) &&
+      !value &&
+      !::setsockopt(fd_, IPPROTO_TCP, TCP_NODELAY, &on, sizeof(on))) {
     ::setsockopt(fd_, IPPROTO_TCP, TCP_NODELAY, &off, sizeof(off));
   }
   return *this;
-- 
2.43.0


From 34c695851f25f202fb756067ce19224a38147b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:59 +0000
Subject: [PATCH 28/57] fix: reading from a connection lost the bytes before
 the end of it

---
 src/arpc/connection.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/arpc/connection.cpp b/src/arpc/connection.cpp
index 8586d23..b9a2541 100644
--- a/src/arpc/connection.cpp
+++ b/src/arpc/connection.cpp
@@ -83,10 +83,13 @@ std::size_t channel_connection::read(char* data, std::size_t size) {
     auto [read, closing] =
         select(channel_.async_read(data, size), closing_.async_wait());
     if (read) {
-      if (*read == 0) break;
-      size -= *read;
-      data += *read;
-      total_read += *read;
+      try {
+        size -= *read;
+        data += *read;
+        total_read += *read;
+      } catch (const errors::eof&) {
+        break;
+      }
     }
     if (closing)
       throw errors::io_error("Read interrupted by connection shutdown");
-- 
2.43.0


From c5837e30726c8960913f0b42ef76c93757fa76f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:22 +0000
Subject: [PATCH 29/57] fix: disconnecting did not interrupt those using or
 waiting on a connection

A reconnectable connection waited for its users without telling them to stop,
and for itself when reconnecting; flush() and data_available() raced with
closing the channel, and waiters for data were not woken up.
---
 src/arpc/connection.cpp | 14 ++++++++++++--
 src/arpc/connection.h   | 15 ++++++++++-----
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/arpc/connection.cpp b/src/arpc/connection.cpp
index b9a2541..6a39af0 100644
--- a/src/arpc/connection.cpp
+++ b/src/arpc/connection.cpp
@@ -20,6 +20,7 @@
 ///   under the License.
 
 #include "arpc/connection.h"
+#include <sys/socket.h>
 #include <utility>
 #include "arpc/file.h"
 #include "arpc/select.h"
@@ -52,6 +53,8 @@ bool channel_connection::connected() {
 void channel_connection::disconnect() {
   std::unique_lock lock(mu_);
   closing_.set();
+  // Wake up whoever waits for available data; not everything is a socket.
+  if (channel_) ::shutdown(channel_.get(), SHUT_RDWR);
   locked_.drop();
   channel_.close();
 }
@@ -73,7 +76,10 @@ void channel_connection::write(const char* data, std::size_t size) {
 
 void channel_connection::putc(char c) { connection::putc(c); }
 
-void channel_connection::flush() { channel_.flush(); }
+void channel_connection::flush() {
+  auto lock = locked_.get();
+  channel_.flush();
+}
 
 std::size_t channel_connection::read(char* data, std::size_t size) {
   auto lock = locked_.get();
@@ -100,7 +106,11 @@ std::size_t channel_connection::read(char* data, std::size_t size) {
 char channel_connection::getc() { return connection::getc(); }
 
 awaitable<void> channel_connection::data_available() {
-  return channel_.can_read();
+  auto lock = locked_.get();
+  return channel_.can_read().then([this]() {
+    if (closing_)
+      throw errors::io_error("Wait interrupted by connection shutdown");
+  });
 }
 
 char_dev_connection::char_dev_connection(const std::string& path)
diff --git a/src/arpc/connection.h b/src/arpc/connection.h
index 98e56bc..9af4865 100644
--- a/src/arpc/connection.h
+++ b/src/arpc/connection.h
@@ -78,9 +78,8 @@ class reconnectable_connection : public connection {
 
   void connect() override {
     std::scoped_lock lock(mu_);
-    auto ptr = connection_.get_or_null();
-    if (!ptr || !ptr->connected()) {
-      connection_.drop();
+    if (!connected()) {
+      close();
       connection_factory_();
       connection_.arm(&*connection_storage_);
     }
@@ -88,8 +87,7 @@ class reconnectable_connection : public connection {
 
   void disconnect() override {
     std::scoped_lock lock(mu_);
-    connection_.drop();
-    connection_storage_.reset();
+    close();
   }
 
   bool connected() override {
@@ -119,6 +117,13 @@ class reconnectable_connection : public connection {
   }
 
  private:
+  void close() {
+    // Make those using the connection give up first.
+    if (auto ptr = connection_.get_or_null()) ptr->disconnect();
+    connection_.drop();
+    connection_storage_.reset();
+  }
+
   std::optional<Connection> connection_storage_;
   usage_lock<Connection, errors::io_error> connection_{"Connection is closed"};
   std::mutex mu_;
-- 
2.43.0


From 844fa6817a298b073eb6b31c3c4d5e8aa21afb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:52 +0000
Subject: [PATCH 30/57] fix: promise::set() never woke the future up, and a
 future gave its outcome away more than once

---
 src/arpc/future.h | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/arpc/future.h b/src/arpc/future.h
index e601810..15df6c9 100644
--- a/src/arpc/future.h
+++ b/src/arpc/future.h
@@ -75,13 +75,20 @@ class future_state : public future_state_base {
     set_.set();
   }
 
-  void set(result_holder<value_type>&& result) { result_ = std::move(result); }
+  void set(result_holder<value_type>&& result) {
+    std::scoped_lock lock(mu_);
+    result_ = std::move(result);
+    set_.set();
+  }
 
   value_type maybe_get() {
     std::scoped_lock lock(mu_);
     if (result_) {
       set_.reset();
-      return *std::move(result_);
+      // There is nothing more to get after this.
+      auto result = std::move(result_);
+      result_.reset();
+      return *std::move(result);
     }
     throw errors::try_again("Future not ready yet");
   }
@@ -107,13 +114,20 @@ class future_state<void> : public future_state_base {
     set_.set();
   }
 
-  void set(result_holder<value_type>&& result) { result_ = std::move(result); }
+  void set(result_holder<value_type>&& result) {
+    std::scoped_lock lock(mu_);
+    result_ = std::move(result);
+    set_.set();
+  }
 
   void maybe_get() {
     std::scoped_lock lock(mu_);
     if (result_) {
       set_.reset();
-      *result_;
+      // There is nothing more to get after this.
+      auto result = std::move(result_);
+      result_.reset();
+      *result;
       return;
     }
     throw errors::try_again("Future not ready yet");
-- 
2.43.0


From 16193a7cc55737739940f97d240ea6eb616aaf2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:52 +0000
Subject: [PATCH 31/57] fix: future::except() could not be instantiated

---
 src/arpc/future.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/arpc/future.h b/src/arpc/future.h
index 15df6c9..1ceea47 100644
--- a/src/arpc/future.h
+++ b/src/arpc/future.h
@@ -181,7 +181,8 @@ class future {
   template <typename E, typename CGF>
   auto except(CGF&& handler_fn) {
     auto new_get_fn =
-        compose_catch<E>(std::move(get_fn_), std::forward<CGF>(handler_fn));
+        compose_catch<E, detail::future_state_base&>(
+            std::move(get_fn_), std::forward<CGF>(handler_fn));
     using new_value_type =
         std::invoke_result_t<decltype(new_get_fn), detail::future_state_base&>;
     return future<new_value_type>(std::move(state_), std::move(new_get_fn));
@@ -268,7 +269,8 @@ class future<void> {
   template <typename E, typename CGF>
   auto except(CGF&& handler_fn) {
     auto new_get_fn =
-        compose_catch<E>(std::move(get_fn_), std::forward<CGF>(handler_fn));
+        compose_catch<E, detail::future_state_base&>(
+            std::move(get_fn_), std::forward<CGF>(handler_fn));
     using new_value_type =
         std::invoke_result_t<decltype(new_get_fn), detail::future_state_base&>;
     return future<new_value_type>(std::move(state_), std::move(new_get_fn));
-- 
2.43.0


From a9779393f5014d6590974e7b8023961db9e65e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:03 +0000
Subject: [PATCH 32/57] fix: promises assigned over, or whose value threw while
 being copied, never completed their future

---
 src/arpc/future.h | 75 ++++++++++++++++++++++++++++++++---------------
 1 file changed, 52 insertions(+), 23 deletions(-)

diff --git a/src/arpc/future.h b/src/arpc/future.h
index 1ceea47..42db644 100644
--- a/src/arpc/future.h
+++ b/src/arpc/future.h
@@ -324,7 +324,14 @@ class promise {
   using value_type = T;
 
   promise(promise<value_type>&&) = default;
-  promise<value_type>& operator=(promise<value_type>&&) = default;
+  promise<value_type>& operator=(promise<value_type>&& other) {
+    if (this != &other) {
+      break_promise();
+      state_ = std::move(other.state_);
+      future_ = std::move(other.future_);
+    }
+    return *this;
+  }
 
   promise()
       : state_(
@@ -332,24 +339,24 @@ class promise {
             [](detail::future_state_base* state) { state->release_writer(); }),
         future_(state_.get()) {}
 
-  ~promise() {
-    if (state_) {
-      state()->set_exception(
-          std::make_exception_ptr(errors::invalid_state("Broken promise")));
-    }
-  }
+  ~promise() { break_promise(); }
 
   future<value_type> get_future() { return std::move(future_); }
 
   template <typename U>
   void set_value(U&& u) {
-    state()->set_value(std::forward<U>(u));
+    state().set_value(std::forward<U>(u));
+    state_.reset();
   }
 
-  void set_exception(std::exception_ptr exc) { state()->set_exception(exc); }
+  void set_exception(std::exception_ptr exc) {
+    state().set_exception(exc);
+    state_.reset();
+  }
 
   void set(result_holder<value_type>&& result) {
-    state()->set(std::move(result));
+    state().set(std::move(result));
+    state_.reset();
   }
 
  private:
@@ -357,9 +364,16 @@ class promise {
       std::unique_ptr<detail::future_state<value_type>,
                       typename detail::future_state<value_type>::releaser>;
 
-  pointer_type state() {
+  detail::future_state<value_type>& state() {
     if (!state_) throw errors::invalid_state("Promise already set");
-    return std::move(state_);
+    return *state_;
+  }
+
+  void break_promise() {
+    if (state_) {
+      set_exception(
+          std::make_exception_ptr(errors::invalid_state("Broken promise")));
+    }
   }
 
   pointer_type state_;
@@ -372,7 +386,14 @@ class promise<void> {
   using value_type = void;
 
   promise(promise<value_type>&&) = default;
-  promise<value_type>& operator=(promise<value_type>&&) = default;
+  promise<value_type>& operator=(promise<value_type>&& other) {
+    if (this != &other) {
+      break_promise();
+      state_ = std::move(other.state_);
+      future_ = std::move(other.future_);
+    }
+    return *this;
+  }
 
   promise()
       : state_(
@@ -380,27 +401,35 @@ class promise<void> {
             [](detail::future_state_base* state) { state->release_writer(); }),
         future_(state_.get()) {}
 
-  ~promise() {
-    if (state_) {
-      state()->set_exception(
-          std::make_exception_ptr(errors::invalid_state("Broken promise")));
-    }
-  }
+  ~promise() { break_promise(); }
 
   future<value_type> get_future() { return std::move(future_); }
 
-  void set_value() { state()->set_value(); }
+  void set_value() {
+    state().set_value();
+    state_.reset();
+  }
 
-  void set_exception(std::exception_ptr exc) { state()->set_exception(exc); }
+  void set_exception(std::exception_ptr exc) {
+    state().set_exception(exc);
+    state_.reset();
+  }
 
  private:
   using pointer_type =
       std::unique_ptr<detail::future_state<value_type>,
                       typename detail::future_state<value_type>::releaser>;
 
-  pointer_type state() {
+  detail::future_state<value_type>& state() {
     if (!state_) throw errors::invalid_state("Promise already set");
-    return std::move(state_);
+    return *state_;
+  }
+
+  void break_promise() {
+    if (state_) {
+      set_exception(
+          std::make_exception_ptr(errors::invalid_state("Broken promise")));
+    }
   }
 
   pointer_type state_;
-- 
2.43.0


From 44b7272fe79e6033d660fc1c31dd2d846ce40996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:51 +0000
Subject: [PATCH 33/57] fix: cancelled or expired calls could not be abandoned,
 so the server was not told

The mutex over pending requests could not be locked in the caller's context.
---
 src/arpc/client.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/arpc/client.h b/src/arpc/client.h
index c6208f0..d2bb314 100644
--- a/src/arpc/client.h
+++ b/src/arpc/client.h
@@ -26,6 +26,7 @@
 #include <chrono>
 #include <cstddef>
 #include <exception>
+#include <mutex>
 #include <optional>
 #include <sstream>
 #include <string>
@@ -404,7 +405,10 @@ class client_connection {
     }
   }
 
-  mutex pending_mu_, sending_mu_;
+  // Not a mutex that can be cancelled: pending requests have to be taken care of
+  // when cancelled as well.
+  std::mutex pending_mu_;
+  mutex sending_mu_;
   rpc_defs::request_id_type sequence_;
   flag ready_;
   connection_type connection_;
-- 
2.43.0


From c49b79b160126fac83271b267a91c72f9d096d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:51 +0000
Subject: [PATCH 34/57] fix: calls could wait for ever, or fail on a new
 connection, after sending on the old one failed

If the receiver had not started to read from the connection, nothing failed the
pending requests; if it had, it could close the connection made afterwards.
---
 src/arpc/client.h | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/arpc/client.h b/src/arpc/client.h
index d2bb314..294d129 100644
--- a/src/arpc/client.h
+++ b/src/arpc/client.h
@@ -23,6 +23,7 @@
 #define ARPC_CLIENT_H_
 
 #include <algorithm>
+#include <atomic>
 #include <chrono>
 #include <cstddef>
 #include <exception>
@@ -272,13 +273,23 @@ class client_connection {
       connection_.send(std::move(data));
       ready_.set();
     } catch (...) {
-      // Disconnect the connection.
-      ready_.reset();
-      connection_.disconnect();
+      close_connection(std::current_exception());
       throw;
     }
   }
 
+  // To be called with sending_mu_ locked.
+  void close_connection(std::exception_ptr exc) {
+    connection_count_++;
+
+    // Disconnect the connection.
+    ready_.reset();
+    connection_.disconnect();
+
+    // Broadcast the exception to all the pending requests.
+    broadcast_exception(exc);
+  }
+
   future<std::string> send_request(rpc_defs::request_id_type req_id,
                                    std::string request) {
     future<std::string> result;
@@ -312,6 +323,7 @@ class client_connection {
       // Wait until we actually need to receive something.
       auto [res] = select(ready_.async_wait());
       if (res) {
+        const std::size_t connection_count = connection_count_;
         try {
           while (true) {
             // Read the next packet.
@@ -343,13 +355,10 @@ class client_connection {
           // Prevent sending more requests while we disconnect.
           std::scoped_lock lock(sending_mu_);
 
-          // Disconnect the connection.
-          ready_.reset();
-          connection_.disconnect();
-
-          // Broadcast the exception to all the pending requests.
-          auto exc = std::current_exception();
-          broadcast_exception(exc);
+          // A failed send might have closed it already.
+          if (connection_count == connection_count_) {
+            close_connection(std::current_exception());
+          }
         }
       }
     }
@@ -410,6 +419,7 @@ class client_connection {
   std::mutex pending_mu_;
   mutex sending_mu_;
   rpc_defs::request_id_type sequence_;
+  std::atomic<std::size_t> connection_count_{0};
   flag ready_;
   connection_type connection_;
   pending_map_type pending_;
-- 
2.43.0


From 1ae9defcdb0ba769cd761688c34bcb910b9cca12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:04 +0000
Subject: [PATCH 35/57] fix: server connections were destroyed while tasks in
 the pool used them

A failure while receiving removed the connection although a response was about
to be sent, and stopping the server removed all of them.
---
 src/arpc/server.h | 81 ++++++++++++++++++++---------------------------
 1 file changed, 35 insertions(+), 46 deletions(-)

diff --git a/src/arpc/server.h b/src/arpc/server.h
index 8e1ef88..e119c3d 100644
--- a/src/arpc/server.h
+++ b/src/arpc/server.h
@@ -165,7 +165,7 @@ class server {
 
   using connection_key = std::size_t;
   using connection_type = typename ConnectionProducer::connection_type;
-  class connection_wrapper {
+  class connection_wrapper : public std::enable_shared_from_this<connection_wrapper> {
    public:
     explicit connection_wrapper(server& server, connection_key key,
                                 std::unique_ptr<connection_type> connection)
@@ -176,7 +176,7 @@ class server {
 
     awaitable<void> receive() {
       std::scoped_lock lock(mu_);
-      if (failed_receive_) {
+      if (failed_) {
         return never();
       }
 
@@ -185,9 +185,9 @@ class server {
       }
 
       return connection_->data_available().then([this]() {
-        can_receive_.reset();
+        if (!begin(can_receive_)) return;
 
-        server_.pool_.run([this]() {
+        server_.pool_.run([this, self(this->shared_from_this())]() {
           try {
             auto request = connection_->receive();
             string_input_stream request_is(request);
@@ -213,9 +213,9 @@ class server {
                 break;
             }
 
-            receive_done();
+            done(can_receive_);
           } catch (...) {
-            receive_done(true);
+            done(can_receive_, true);
           }
         });
       });
@@ -223,7 +223,7 @@ class server {
 
     awaitable<void> send() {
       std::scoped_lock lock(mu_);
-      if (failed_send_) {
+      if (failed_) {
         return never();
       }
 
@@ -232,15 +232,16 @@ class server {
       }
 
       return responses_.async_get().then([this](std::string response) {
-        can_send_.reset();
+        if (!begin(can_send_)) return;
 
-        server_.pool_.run([this, response(std::move(response))]() mutable {
+        server_.pool_.run([this, self(this->shared_from_this()),
+                           response(std::move(response))]() mutable {
           try {
             connection_->send(std::move(response));
 
-            send_done();
+            done(can_send_);
           } catch (...) {
-            send_done(true);
+            done(can_send_, true);
           }
         });
       });
@@ -248,6 +249,7 @@ class server {
 
     awaitable<void> remove() {
       return can_remove_.async_wait().then([this]() {
+        auto self = this->shared_from_this();
         server_.acceptor_->return_connection(std::move(connection_));
         server_.connections_.erase(key_);
       });
@@ -255,41 +257,24 @@ class server {
 
     void add_response(std::string response) { responses_.put(std::move(response)); }
 
+    // Make any task still using the connection fail.
+    void disconnect() { connection_->disconnect(); }
+
    private:
-    void receive_done(bool failed = false) {
-      bool removed = false;
-      {
-        std::scoped_lock lock(mu_);
-        if (failed) {
-          failed_receive_ = true;
-        }
-        if (failed_send_ || (can_send_ && failed)) {
-          failed_receive_ = true;
-          removed = true;
-        }
-        can_receive_.set();
-      }
-      if (removed) {
-        can_remove_.set();
-      }
+    bool begin(flag& can_do) {
+      std::scoped_lock lock(mu_);
+      if (failed_) return false;
+      can_do.reset();
+      return true;
     }
 
-    void send_done(bool failed = false) {
-      bool removed = false;
-      {
-        std::scoped_lock lock(mu_);
-        if (failed) {
-          failed_send_ = true;
-        }
-        if (failed_receive_ || (can_receive_ && failed)) {
-          failed_send_ = true;
-          removed = true;
-        }
-        can_send_.set();
-      }
-      if (removed) {
-        can_remove_.set();
-      }
+    // After a failure in either direction, the connection is removed as soon as
+    // no task is using it.
+    void done(flag& can_do, bool failed = false) {
+      std::scoped_lock lock(mu_);
+      if (failed) failed_ = true;
+      can_do.set();
+      if (failed_ && can_receive_ && can_send_) can_remove_.set();
     }
 
     server& server_;
@@ -297,11 +282,11 @@ class server {
     std::mutex mu_;
     std::unique_ptr<connection_type> connection_;
     queue<std::string> responses_;
-    bool failed_receive_ = false, failed_send_ = false;
+    bool failed_ = false;
     flag can_receive_, can_send_, can_remove_;
   };
 
-  using connection_map = flat_map<connection_key, std::unique_ptr<connection_wrapper>>;
+  using connection_map = flat_map<connection_key, std::shared_ptr<connection_wrapper>>;
 
   using request_key = std::pair<connection_key, rpc_defs::request_id_type>;
   using request_result = std::pair<request_key, std::string>;
@@ -522,7 +507,7 @@ class server {
             // Ensure we prevent connection counter cycle collisions.
           }
           connections_.insert(
-              {next_connection_key_, std::make_unique<connection_wrapper>(
+              {next_connection_key_, std::make_shared<connection_wrapper>(
                                          *this, next_connection_key_, std::move(new_connection))});
         });
   }
@@ -629,6 +614,10 @@ class server {
       reactor_.join();
     }
 
+    // Tasks in the pool may hold on to them for a bit.
+    for (auto& cit : connections_) {
+      cit.second->disconnect();
+    }
     connections_.clear();
 
     acceptor_.reset();
-- 
2.43.0


From bb82dd3fa552f74c0fa9a578782bbc3f748e667a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:04 +0000
Subject: [PATCH 36/57] fix: servers terminated the process when accepting a
 connection failed

---
 src/arpc/server.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/arpc/server.h b/src/arpc/server.h
index e119c3d..00fc131 100644
--- a/src/arpc/server.h
+++ b/src/arpc/server.h
@@ -53,6 +53,7 @@
 #include "arpc/thread.h"
 #include "arpc/type_hash.h"
 #include "arpc/usage_lock.h"
+#include "arpc/wait.h"
 
 namespace arpc {
 
@@ -108,7 +109,15 @@ class connection_producer {
   void produce() {
     while (true) {
       connections_given_.put();
-      output_.put(factory_());
+      try {
+        output_.put(factory_());
+      } catch (const errors::cancelled&) {
+        throw;
+      } catch (const errors::base_error&) {
+        // Probably the peer went away already, or we ran out of descriptors.
+        connections_given_.get();
+        wait(timeout(std::chrono::milliseconds(10)));
+      }
     }
   }
 
-- 
2.43.0


From a1e3ea356903752e80a49e6c0b5f98ff939390ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:04 +0000
Subject: [PATCH 37/57] fix: registering an object over another one left the
 methods of the latter callable

---
 src/arpc/server.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/arpc/server.h b/src/arpc/server.h
index 00fc131..508f230 100644
--- a/src/arpc/server.h
+++ b/src/arpc/server.h
@@ -572,6 +572,7 @@ class server {
     auto key = object_name<ObjectNameEncoder>(std::forward<Name>(name));
     auto& entry = objects_[key];
     entry.ref = object.get_ref();
+    entry.methods.clear();
 
     register_object_interface(entry, object.get_ref());
   }
-- 
2.43.0


From 32953840910e2573dfeea1bd04729bcee443879a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:04 +0000
Subject: [PATCH 38/57] fix: servers with bounded queues deadlocked

Tasks in the pool, holding a mutex the reactor needs, waited for room in the
queue of the same pool in order to serve requests.
---
 src/arpc/server.h | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/arpc/server.h b/src/arpc/server.h
index 508f230..2298f9a 100644
--- a/src/arpc/server.h
+++ b/src/arpc/server.h
@@ -54,6 +54,7 @@
 #include "arpc/type_hash.h"
 #include "arpc/usage_lock.h"
 #include "arpc/wait.h"
+#include "function2/function2.hpp"
 
 namespace arpc {
 
@@ -197,6 +198,7 @@ class server {
         if (!begin(can_receive_)) return;
 
         server_.pool_.run([this, self(this->shared_from_this())]() {
+          fu2::unique_function<void()> work;
           try {
             auto request = connection_->receive();
             string_input_stream request_is(request);
@@ -211,7 +213,7 @@ class server {
             switch (message_type) {
               case rpc_defs::message_type::REQUEST:
                 request.erase(0, request_is.pos());
-                server_.queue_request(request_key{key_, req_id}, request);
+                work = server_.add_request(request_key{key_, req_id}, std::move(request));
                 break;
               case rpc_defs::message_type::CANCEL_REQUEST:
                 server_.cancel_request(request_key{key_, req_id});
@@ -226,6 +228,9 @@ class server {
           } catch (...) {
             done(can_receive_, true);
           }
+
+          // Another task can receive the next request while this one runs it.
+          if (work) work();
         });
       });
     }
@@ -340,29 +345,31 @@ class server {
     requests_.erase(key);
   }
 
-  void queue_request(const request_key& key, std::string request) {
+  // Returns what is to be done in order to serve the request, if anything.
+  fu2::unique_function<void()> add_request(const request_key& key, std::string request) {
     std::scoped_lock lock(requests_mu_);
 
     if (requests_.count(key) > 0) {
       // A previous request with the same key was already registered... dupe?
       // Just drop the new one.
-      return;
+      return nullptr;
     }
 
     promise<request_result> promise;
     auto wrapper_ptr = std::make_unique<request_wrapper>(*this, promise.get_future());
 
-    pool_.run([this, promise(std::move(promise)), key, request(std::move(request)),
-               &parent_context(wrapper_ptr->get_context())]() mutable {
+    auto& wrapper = *wrapper_ptr;
+    requests_.insert({key, std::move(wrapper_ptr)});
+
+    return [this, promise(std::move(promise)), key, request(std::move(request)),
+            &parent_context(wrapper.get_context())]() mutable {
       try {
         context ctx(parent_context);
         promise.set_value(request_result{key, std::move(execute(key.second, std::move(request)))});
       } catch (...) {
         promise.set_exception(std::current_exception());
       }
-    });
-
-    requests_.insert({key, std::move(wrapper_ptr)});
+    };
   }
 
   template <typename Interface>
-- 
2.43.0


From b04b0f07dc206a11fe0bcba3259013dc107f3d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:49 +0000
Subject: [PATCH 39/57] fix: assigning a list to a flat container replaced its
 comparator

---
 src/arpc/container/flat_map.h | 4 ++++
 src/arpc/container/flat_set.h | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/src/arpc/container/flat_map.h b/src/arpc/container/flat_map.h
index 06a7624..06bc009 100644
--- a/src/arpc/container/flat_map.h
+++ b/src/arpc/container/flat_map.h
@@ -48,6 +48,8 @@ class flat_map : public detail::flat_tree<Key, false, std::pair<Key, T>,
   // Inherit constructors.
   using detail::flat_tree<Key, false, std::pair<Key, T>, Compare,
                           Allocator>::flat_tree;
+  using detail::flat_tree<Key, false, std::pair<Key, T>, Compare,
+                          Allocator>::operator=;
 
   // operator []
   T& operator[](const Key& key) {
@@ -101,6 +103,8 @@ class flat_multimap : public detail::flat_tree<Key, true, std::pair<Key, T>,
   // Inherit constructors.
   using detail::flat_tree<Key, true, std::pair<Key, T>, Compare,
                           Allocator>::flat_tree;
+  using detail::flat_tree<Key, true, std::pair<Key, T>, Compare,
+                          Allocator>::operator=;
 };
 
 }  // namespace arpc
diff --git a/src/arpc/container/flat_set.h b/src/arpc/container/flat_set.h
index 59b9cae..674ccc9 100644
--- a/src/arpc/container/flat_set.h
+++ b/src/arpc/container/flat_set.h
@@ -41,6 +41,7 @@ class flat_set : public detail::flat_tree<Key, false, Key, Compare, Allocator> {
  public:
   // Inherit constructors.
   using detail::flat_tree<Key, false, Key, Compare, Allocator>::flat_tree;
+  using detail::flat_tree<Key, false, Key, Compare, Allocator>::operator=;
 };
 
 /// \brief `std::vector`-backed replacement for `std::multiset`.
@@ -57,6 +58,7 @@ class flat_multiset
  public:
   // Inherit constructors.
   using detail::flat_tree<Key, true, Key, Compare, Allocator>::flat_tree;
+  using detail::flat_tree<Key, true, Key, Compare, Allocator>::operator=;
 };
 
 }  // namespace arpc
-- 
2.43.0


From a1764d0e99deda05b1ecd26ed3e159d1e8764bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:57 +0000
Subject: [PATCH 40/57] fix: encoders took new objects at the address of a
 released one for the latter

---
 src/arpc/binary_codecs.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/arpc/binary_codecs.h b/src/arpc/binary_codecs.h
index 6e38715..0b15d74 100644
--- a/src/arpc/binary_codecs.h
+++ b/src/arpc/binary_codecs.h
@@ -162,11 +162,12 @@ class binary_encoder {
       return;
     }
 
-    auto it = shared_object_map_.find(p.get());
+    // The object is kept alive, so that its address identifies it.
+    auto it = shared_object_map_.find(p);
     bool first_time = false;
     if (it == shared_object_map_.end()) {
       std::size_t next_object_id = shared_object_map_.size();
-      it = shared_object_map_.emplace(p.get(), next_object_id).first;
+      it = shared_object_map_.emplace(p, next_object_id).first;
       first_time = true;
     }
     write_variant(it->second);
@@ -345,7 +346,8 @@ class binary_encoder {
   // Here we depend on portable_class_name() returning identical pointers for
   // speed.
   arpc::flat_map<std::string_view, seen_class_info> class_info_map_;
-  arpc::flat_map<const void*, std::size_t> shared_object_map_ = {{nullptr, 0}};
+  arpc::flat_map<std::shared_ptr<const void>, std::size_t> shared_object_map_ =
+      {{nullptr, 0}};
 
  protected:
   output_stream& out_;
-- 
2.43.0


From 5933e1f49e5526fb464311135bca29767167e549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:29 +0000
Subject: [PATCH 41/57] fix: dynamic objects shared through pointers to
 different base classes were encoded twice or decoded at wrong addresses

---
 src/arpc/binary_codecs.h | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/arpc/binary_codecs.h b/src/arpc/binary_codecs.h
index 0b15d74..ed42743 100644
--- a/src/arpc/binary_codecs.h
+++ b/src/arpc/binary_codecs.h
@@ -163,11 +163,12 @@ class binary_encoder {
     }
 
     // The object is kept alive, so that its address identifies it.
-    auto it = shared_object_map_.find(p);
+    std::shared_ptr<const void> object = as_object(p);
+    auto it = shared_object_map_.find(object);
     bool first_time = false;
     if (it == shared_object_map_.end()) {
       std::size_t next_object_id = shared_object_map_.size();
-      it = shared_object_map_.emplace(p, next_object_id).first;
+      it = shared_object_map_.emplace(object, next_object_id).first;
       first_time = true;
     }
     write_variant(it->second);
@@ -184,6 +185,17 @@ class binary_encoder {
   }
 
  private:
+  // Pointers to different base classes of one dynamic object can differ, so get
+  // the one to the root of its hierarchy.
+  template <typename T>
+  static std::shared_ptr<const void> as_object(const std::shared_ptr<T>& p) {
+    if constexpr (is_dynamic_v<T>) {
+      return std::shared_ptr<const ::arpc::dynamic_base_class>(p);
+    } else {
+      return p;
+    }
+  }
+
   struct seen_class_info {
     std::size_t class_id;
     typename registry::dynamic_encoder_registry<MyClass>::encoder_function_type
@@ -362,7 +374,11 @@ class binary_decoder {
     explicit update_pointer(std::shared_ptr<void>& ptr) : ptr_(ptr) {}
     template <typename T>
     void operator()(const std::shared_ptr<T>& ptr) {
-      ptr_ = ptr;
+      if constexpr (is_dynamic_v<T>) {
+        ptr_ = std::shared_ptr<::arpc::dynamic_base_class>(ptr);
+      } else {
+        ptr_ = ptr;
+      }
     }
 
    private:
@@ -570,7 +586,13 @@ class binary_decoder {
         throw errors::data_mismatch("Data shared among incompatible pointers");
       }
       // Cast the object reference we already had.
-      p = std::static_pointer_cast<T>(object_info.ptr);
+      if constexpr (is_dynamic_v<T>) {
+        p = std::static_pointer_cast<T>(
+            std::static_pointer_cast<::arpc::dynamic_base_class>(
+                object_info.ptr));
+      } else {
+        p = std::static_pointer_cast<T>(object_info.ptr);
+      }
     }
   }
 
-- 
2.43.0


From bfa3e69b69587647f92e723b4a2ba738f0ee53fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:29 +0000
Subject: [PATCH 42/57] fix: decoders dereferenced null for objects that had
 failed to load

---
 src/arpc/binary_codecs.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/arpc/binary_codecs.h b/src/arpc/binary_codecs.h
index ed42743..64100b2 100644
--- a/src/arpc/binary_codecs.h
+++ b/src/arpc/binary_codecs.h
@@ -579,7 +579,8 @@ class binary_decoder {
       load_object_reference(p, update_pointer(object_info.ptr));
     } else {
       // Check for type compatibility.
-      if (object_info.type_id != registry::get_type_id<T>() ||
+      if (!object_info.ptr ||
+          object_info.type_id != registry::get_type_id<T>() ||
           !registry::check_dynamic_compatibility<T>(object_info.ptr.get())) {
         // We recorded an incompatible type when we saw this object before,
         // or the object's dynamic type can't be stored in this pointer.
-- 
2.43.0


From c974c09e10369c8943efb82d5d4bd05dde2725b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:56 +0000
Subject: [PATCH 43/57] fix: as_pack of integer sequences and value packs did
 not compile

---
 src/arpc/mpt.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arpc/mpt.h b/src/arpc/mpt.h
index 362945c..18350f6 100644
--- a/src/arpc/mpt.h
+++ b/src/arpc/mpt.h
@@ -522,7 +522,7 @@ constexpr pack<U, V> as_pack(std::pair<U, V>) {
 /// the sequence.
 template <typename T, T... ints>
 constexpr auto as_pack(integer_sequence<T, ints...>) {
-  return as_pack(std::make_tuple(ints...));
+  return pack<decltype(ints)...>{};
 }
 
 /// \brief Convert an `value_sequence` value into a `pack` value.
@@ -533,7 +533,7 @@ constexpr auto as_pack(integer_sequence<T, ints...>) {
 /// the sequence.
 template <auto... v>
 constexpr auto as_pack(value_pack<v...>) {
-  return as_pack(std::make_tuple(v...));
+  return pack<decltype(v)...>{};
 }
 
 template <typename... T>
-- 
2.43.0


From d59443d62bcf6e28e91129ad205cb208a78daf93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:56 +0000
Subject: [PATCH 44/57] fix: subsets of temporary tuples moved out of the
 objects their references refer to

---
 src/arpc/mpt.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arpc/mpt.h b/src/arpc/mpt.h
index 18350f6..cfa9fc9 100644
--- a/src/arpc/mpt.h
+++ b/src/arpc/mpt.h
@@ -727,7 +727,7 @@ constexpr auto subset(const std::tuple<T...>& t, index_sequence<idxs...>) {
 /// indices.
 template <typename... T, std::size_t... idxs>
 constexpr auto subset(std::tuple<T...>&& t, index_sequence<idxs...>) {
-  return std::make_tuple(std::move(at<idxs>(t))...);
+  return std::tuple<std::tuple_element_t<idxs, std::tuple<T...>>...>(at<idxs>(std::move(t))...);
 }
 /// Return a new tuple containing a subset of the fields as determined by the
 /// passed index sequence.
@@ -768,7 +768,7 @@ constexpr auto subset(const std::pair<U, V>& t, index_sequence<idxs...>) {
 /// indices.
 template <typename U, typename V, std::size_t... idxs>
 constexpr auto subset(std::pair<U, V>&& t, index_sequence<idxs...>) {
-  return std::make_tuple(std::move(at<idxs>(t))...);
+  return std::tuple<std::tuple_element_t<idxs, std::pair<U, V>>...>(at<idxs>(std::move(t))...);
 }
 /// Return a new tuple containing a subset of the fields as determined by the
 /// passed index sequence.
-- 
2.43.0


From af0046816701f1d67ae25b587c815e84dc02a27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:56 +0000
Subject: [PATCH 45/57] fix: the tail of a temporary tuple referred to the
 destroyed elements

---
 src/arpc/mpt.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arpc/mpt.h b/src/arpc/mpt.h
index cfa9fc9..6d220bb 100644
--- a/src/arpc/mpt.h
+++ b/src/arpc/mpt.h
@@ -840,7 +840,7 @@ constexpr decltype(auto) head(T&& t) {
 /// \return The original sequence with the head removed.
 template <typename T>
 constexpr auto tail(T&& t) {
-  return range<1, size_v<T>>(t);
+  return range<1, size_v<T>>(std::forward<T>(t));
 }
 
 template <typename I, typename T, typename O, typename... Args>
-- 
2.43.0


From a2f4e64de249f4c0005f7a1236760bcaca48a4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:56 +0000
Subject: [PATCH 46/57] fix: accumulate moved its extra arguments into the
 first call only

---
 src/arpc/mpt.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arpc/mpt.h b/src/arpc/mpt.h
index 6d220bb..2978459 100644
--- a/src/arpc/mpt.h
+++ b/src/arpc/mpt.h
@@ -851,7 +851,7 @@ template <std::size_t n>
 struct accumulate_helper {
   template <typename I, typename T, typename O, typename... Args>
   static constexpr auto accumulate_internal(I&& a, T&& t, O o, Args&&... args) {
-    return accumulate(o(std::forward<I>(a), head(std::forward<T>(t)), std::forward<Args>(args)...),
+    return accumulate(o(std::forward<I>(a), head(std::forward<T>(t)), args...),
                       tail(std::forward<T>(t)), o, std::forward<Args>(args)...);
   }
 };
-- 
2.43.0


From 9d26ce7f0566e1e58fa3add54ce969de322bd95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:58 +0000
Subject: [PATCH 47/57] fix: endpoints with ports out of range denoted other
 ports

---
 src/arpc/address.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/arpc/address.cpp b/src/arpc/address.cpp
index 10289b3..d03673b 100644
--- a/src/arpc/address.cpp
+++ b/src/arpc/address.cpp
@@ -36,6 +36,9 @@ endpoint& endpoint::service(const std::string& new_service) {
   return *this;
 }
 endpoint& endpoint::port(int new_port) {
+  // The resolver would only use the lower 16 bits.
+  if (new_port < 0 || new_port > 65535)
+    throw errors::invalid_argument("Port out of range");
   service_ = std::to_string(new_port);
   return *this;
 }
-- 
2.43.0


From 5bd83060646e950c01eaada79b82c2ea1a1931f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:58 +0000
Subject: [PATCH 48/57] fix: copying a moved-from address copied from null

---
 src/arpc/address.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arpc/address.cpp b/src/arpc/address.cpp
index d03673b..895c4dc 100644
--- a/src/arpc/address.cpp
+++ b/src/arpc/address.cpp
@@ -92,7 +92,7 @@ address::address(const address& other)
           reinterpret_cast<struct sockaddr*>(new struct sockaddr_storage()),
           nullptr,
           this} {
-  memcpy(ai_addr, other.ai_addr, ai_addrlen);
+  if (other.ai_addr) memcpy(ai_addr, other.ai_addr, ai_addrlen);
 }
 
 address::address(address&& other)
-- 
2.43.0


From 6cd76aab52963b953510171f879afe08d44e8c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:58 +0000
Subject: [PATCH 49/57] fix: addresses reported by accept() were truncated when
 reused, and lacked family, type and protocol

---
 src/arpc/channel.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/arpc/channel.cpp b/src/arpc/channel.cpp
index 6404039..6caeb52 100644
--- a/src/arpc/channel.cpp
+++ b/src/arpc/channel.cpp
@@ -207,8 +207,19 @@ channel channel::accept(address& addr) {
 }
 
 channel channel::maybe_accept(address& addr) {
+  // The size may be that of a previous, shorter address.
+  addr.address_size() = sizeof(struct sockaddr_storage);
   channel c(::accept(fd_, addr.address_data(), &addr.address_size()));
   if (!c) throw_io_error("Accept error");
+  addr.family() = addr.address_data()->sa_family;
+  socklen_t buf_size = sizeof(addr.socket_type());
+  if (::getsockopt(*c, SOL_SOCKET, SO_TYPE, &addr.socket_type(), &buf_size))
+    throw_io_error("Can't get socket type");
+#ifndef ESP_PLATFORM
+  buf_size = sizeof(addr.protocol());
+  if (::getsockopt(*c, SOL_SOCKET, SO_PROTOCOL, &addr.protocol(), &buf_size))
+    throw_io_error("Can't get socket protocol");
+#endif  // ESP_PLATFORM
   return c;
 }
 
-- 
2.43.0


From 7e9222d0812742b57be12557dcfdda596ca31dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:58 +0000
Subject: [PATCH 50/57] fix: a failure to accept dropped connections accepted
 at the same time

---
 src/arpc/socket.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/arpc/socket.cpp b/src/arpc/socket.cpp
index 47da107..fb93a34 100644
--- a/src/arpc/socket.cpp
+++ b/src/arpc/socket.cpp
@@ -22,6 +22,7 @@
 #include "arpc/socket.h"
 #include <sys/socket.h>
 #include <sys/types.h>
+#include <exception>
 #include <utility>
 #include "arpc/address_resolver.h"
 #include "arpc/context.h"
@@ -93,13 +94,20 @@ channel listener::accept() {
       return res;
     }
     auto [res] = select(acceptors_);
+    std::exception_ptr error;
     for (auto& r : res) {
-      if (r) {
-        auto s = std::move(r).value();
-        s.make_non_blocking(non_blocking_);
-        pending_.push_back(std::move(s));
+      try {
+        if (r) {
+          auto s = std::move(r).value();
+          s.make_non_blocking(non_blocking_);
+          pending_.push_back(std::move(s));
+        }
+      } catch (...) {
+        error = std::current_exception();
       }
     }
+    // Connections accepted along with the failure are not lost.
+    if (error && pending_.empty()) std::rethrow_exception(error);
   } while (true);
 }
 
-- 
2.43.0


From bf559ae97117b69f041cd34bd06bf5f6df21ed0d Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Fri, 20 Nov 2026 01:05:32 +0000
Subject: [PATCH 51/57] fix: reads interrupted by disconnecting reported the
 end of the stream

---
 src/arpc/connection.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/arpc/connection.cpp b/src/arpc/connection.cpp
index 6a39af0..f690fbe 100644
--- a/src/arpc/connection.cpp
+++ b/src/arpc/connection.cpp
@@ -94,7 +94,9 @@ std::size_t channel_connection::read(char* data, std::size_t size) {
         data += *read;
         total_read += *read;
       } catch (const errors::eof&) {
-        break;
+        // Disconnecting ends the stream as well, once it has set the flag.
+        if (!closing_) break;
+        throw errors::io_error("Read interrupted by connection shutdown");
       }
     }
     if (closing)
-- 
2.43.0


From 4bfe01bcb57a183ce39cc11f5a3a7285110d28e4 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Fri, 20 Nov 2026 01:05:42 +0000
Subject: [PATCH 52/57] fix: dropping a usage lock armed more than once did not
 wait for all users

---
 src/arpc/usage_lock.h | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/arpc/usage_lock.h b/src/arpc/usage_lock.h
index d876646..174e099 100644
--- a/src/arpc/usage_lock.h
+++ b/src/arpc/usage_lock.h
@@ -23,6 +23,7 @@
 #define ARPC_USAGE_LOCK_H_
 
 #include <condition_variable>
+#include <cstddef>
 #include <memory>
 #include <mutex>
 #include <string_view>
@@ -45,18 +46,18 @@ class usage_lock {
 
   void arm(T* ptr) {
     std::scoped_lock arm_drop_lock(arm_drop_mu_);
+    std::unique_lock lock(mu_);
+    ++armed_;
+    lock.unlock();
     std::shared_ptr<T> new_ptr(ptr, [this](T*) {
       // Notify under the lock, as this may go away right after releasing it.
       std::scoped_lock lock(mu_);
-      done_ = true;
+      --armed_;
       done_cond_.notify_all();
     });
-    std::unique_lock lock(mu_);
+    lock.lock();
     ptr_.swap(new_ptr);
     lock.unlock();
-    new_ptr.reset();
-    lock.lock();
-    done_ = false;
   }
 
   void drop() {
@@ -67,7 +68,7 @@ class usage_lock {
     lock.unlock();
     old_ptr.reset();
     lock.lock();
-    done_cond_.wait(lock, [this]() { return done_; });
+    done_cond_.wait(lock, [this]() { return armed_ == 0; });
   }
 
   auto get() {
@@ -88,7 +89,8 @@ class usage_lock {
   std::shared_ptr<T> ptr_;
   std::mutex mu_, arm_drop_mu_;
   std::condition_variable done_cond_;
-  bool done_ = true;
+  // Objects armed and not released by all their users yet.
+  std::size_t armed_ = 0;
 };
 
 }  // namespace arpc
-- 
2.43.0


From b2d03a3a52b417968b845985c3385f6b574c3b3c Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Fri, 20 Nov 2026 01:28:28 +0000
Subject: [PATCH 53/57] fix: connections being closed went on with streams cut
 off by an interrupted read or write

---
 src/arpc/connection.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/arpc/connection.cpp b/src/arpc/connection.cpp
index f690fbe..fb7b991 100644
--- a/src/arpc/connection.cpp
+++ b/src/arpc/connection.cpp
@@ -61,6 +61,9 @@ void channel_connection::disconnect() {
 
 void channel_connection::write(const char* data, std::size_t size) {
   auto lock = locked_.get();
+  // Do not go on with a stream which others were interrupted in the middle of.
+  if (closing_)
+    throw errors::io_error("Write interrupted by connection shutdown");
 
   while (size > 0) {
     auto [written, closing] =
@@ -83,6 +86,9 @@ void channel_connection::flush() {
 
 std::size_t channel_connection::read(char* data, std::size_t size) {
   auto lock = locked_.get();
+  // Do not go on with a stream which others were interrupted in the middle of.
+  if (closing_)
+    throw errors::io_error("Read interrupted by connection shutdown");
 
   std::size_t total_read = 0;
   while (size > 0) {
-- 
2.43.0


From 30fca1f5aab030f88be4a1f79cb17d4d9230dc1a Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Fri, 20 Nov 2026 01:43:01 +0000
Subject: [PATCH 54/57] fix: interfaces extended over more than one level had
 no usable proxies

---
 src/arpc/interface.h | 53 +++++++++++++++++++-------------------------
 1 file changed, 23 insertions(+), 30 deletions(-)

diff --git a/src/arpc/interface.h b/src/arpc/interface.h
index e6995a5..4b2ab71 100644
--- a/src/arpc/interface.h
+++ b/src/arpc/interface.h
@@ -23,6 +23,7 @@
 #define ARPC_INTERFACE_H_
 
 #include <array>
+#include <optional>
 #include <utility>
 #include "arpc/future.h"
 #include "arpc/message_defs.h"
@@ -70,6 +71,15 @@ struct async_interface : virtual Extends::async... {
   virtual ~async_interface() {}
 };
 
+// Shared by all the proxies of an interface and the ones it extends, and
+// initialized by the most derived one.
+template <typename O>
+struct proxy_object {
+  proxy_object() = default;
+  explicit proxy_object(O obj) : obj_(std::move(obj)) {}
+  std::optional<O> obj_;
+};
+
 #define ARPC_INTERFACE_EXTENDS_ONE(...) ARPC_EXPAND_1 __VA_ARGS__
 #define ARPC_INTERFACE_EXTENDS_SEP() ,
 #define ARPC_INTERFACE_EXTENDS(...)                                    \
@@ -90,20 +100,6 @@ struct async_interface : virtual Extends::async... {
   ARPC_FOREACH(ARPC_INTERFACE_ASYNC_PROXY_EXTENDS_ONE, \
                ARPC_INTERFACE_ASYNC_PROXY_EXTENDS_SEP, __VA_ARGS__)
 
-#define ARPC_INTERFACE_PROXY_CTOR_ONE(...) \
-  ARPC_EXPAND_1 __VA_ARGS__::proxy<O>(obj)
-#define ARPC_INTERFACE_PROXY_CTOR_SEP() ,
-#define ARPC_INTERFACE_PROXY_CTOR(...)                                       \
-  ARPC_FOREACH(ARPC_INTERFACE_PROXY_CTOR_ONE, ARPC_INTERFACE_PROXY_CTOR_SEP, \
-               __VA_ARGS__)
-
-#define ARPC_INTERFACE_ASYNC_PROXY_CTOR_ONE(...) \
-  ARPC_EXPAND_1 __VA_ARGS__::async::proxy<O>(obj)
-#define ARPC_INTERFACE_ASYNC_PROXY_CTOR_SEP() ,
-#define ARPC_INTERFACE_ASYNC_PROXY_CTOR(...)        \
-  ARPC_FOREACH(ARPC_INTERFACE_ASYNC_PROXY_CTOR_ONE, \
-               ARPC_INTERFACE_ASYNC_PROXY_CTOR_SEP, __VA_ARGS__)
-
 #define ARPC_INTERFACE_DECL_ARG(TYPE, NAME) ARPC_EXPAND_1 TYPE NAME
 #define ARPC_INTERFACE_DECL_ARGS_ONE(...) ARPC_INTERFACE_DECL_ARG __VA_ARGS__
 #define ARPC_INTERFACE_DECL_ARGS_SEP() ,
@@ -147,7 +143,7 @@ struct async_interface : virtual Extends::async... {
      ARPC_INTERFACE_PROXY_FORWARD_ARGS_SEP, __VA_ARGS__)
 #define ARPC_INTERFACE_PROXY_IMPL(RETURN, METHOD, ARGS)                       \
   ARPC_EXPAND_1 RETURN METHOD(ARPC_INTERFACE_PROXY_IMPL_ARGS ARGS) override { \
-    return obj_.template call<&own_interface::METHOD>(                        \
+    return this->obj_->template call<&own_interface::METHOD>(                 \
         ARPC_INTERFACE_PROXY_FORWARD_ARGS ARGS);                              \
   }
 #define ARPC_INTERFACE_PROXY_IMPLS_ONE(...) \
@@ -161,7 +157,7 @@ struct async_interface : virtual Extends::async... {
   ::std::pair<::arpc::future<ARPC_EXPAND_1 RETURN>,           \
               ::arpc::rpc_defs::request_id_type>              \
   METHOD(ARPC_INTERFACE_PROXY_IMPL_ARGS ARGS) override {      \
-    return obj_.template async_call<&own_interface::METHOD>(  \
+    return this->obj_->template async_call<&own_interface::METHOD>( \
         ARPC_INTERFACE_PROXY_FORWARD_ARGS ARGS);              \
   }
 #define ARPC_INTERFACE_ASYNC_PROXY_IMPLS_ONE(...) \
@@ -215,30 +211,27 @@ struct async_interface : virtual Extends::async... {
     struct proxy;                                                              \
   };                                                                           \
   template <typename O>                                                        \
-  struct NAME::proxy : virtual NAME ARPC_IF(ARPC_NOT(ARPC_IS_EMPTY EXTENDS))(  \
+  struct NAME::proxy : virtual NAME,                                           \
+                       virtual ::arpc::proxy_object<O>                         \
+                           ARPC_IF(ARPC_NOT(ARPC_IS_EMPTY EXTENDS))(           \
                            , /* NOLINT(whitespace/parens) */)                  \
                            ARPC_EXPAND(ARPC_INTERFACE_PROXY_EXTENDS EXTENDS) { \
-    proxy(O obj)                                                               \
-        : ARPC_EXPAND(ARPC_INTERFACE_PROXY_CTOR EXTENDS)                       \
-              ARPC_IF(ARPC_NOT(ARPC_IS_EMPTY EXTENDS))(                        \
-                  , /* NOLINT(whitespace/parens) */) obj_(std::move(obj)) {}   \
+    explicit proxy(O obj) : ::arpc::proxy_object<O>(std::move(obj)) {}         \
     ARPC_EXPAND(ARPC_INTERFACE_PROXY_IMPLS METHODS)                            \
-   private:                                                                    \
-    O obj_;                                                                    \
+   protected:                                                                  \
+    proxy() = default;                                                         \
   };                                                                           \
   template <typename O>                                                        \
   struct NAME::async::proxy                                                    \
-      : virtual NAME::async                                                    \
+      : virtual NAME::async,                                                   \
+        virtual ::arpc::proxy_object<O>                                        \
         ARPC_IF(ARPC_NOT(ARPC_IS_EMPTY EXTENDS))(                              \
             , /* NOLINT(whitespace/parens) */)                                 \
             ARPC_EXPAND(ARPC_INTERFACE_ASYNC_PROXY_EXTENDS EXTENDS) {          \
-    proxy(O obj)                                                               \
-        : ARPC_EXPAND(ARPC_INTERFACE_ASYNC_PROXY_CTOR EXTENDS)                 \
-              ARPC_IF(ARPC_NOT(ARPC_IS_EMPTY EXTENDS))(                        \
-                  , /* NOLINT(whitespace/parens) */) obj_(std::move(obj)) {}   \
+    explicit proxy(O obj) : ::arpc::proxy_object<O>(std::move(obj)) {}         \
     ARPC_EXPAND(ARPC_INTERFACE_ASYNC_PROXY_IMPLS METHODS)                      \
-   private:                                                                    \
-    O obj_;                                                                    \
+   protected:                                                                  \
+    proxy() = default;                                                         \
   }
 }  // namespace arpc
 
-- 
2.43.0


From ade7d6d523e584590153959c0e6dbfb55b20f74d Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Fri, 20 Nov 2026 02:14:06 +0000
Subject: [PATCH 55/57] fix: futures lost outcomes that are errors::try_again
 and never got ready

---
 src/arpc/awaitable.h |  9 +++++++++
 src/arpc/future.cpp  |  5 +++++
 src/arpc/future.h    | 24 ++++++++++++++++++++++--
 src/arpc/select.h    |  2 ++
 4 files changed, 38 insertions(+), 2 deletions(-)

diff --git a/src/arpc/awaitable.h b/src/arpc/awaitable.h
index 278f702..85c9a8f 100644
--- a/src/arpc/awaitable.h
+++ b/src/arpc/awaitable.h
@@ -23,6 +23,7 @@
 #define ARPC_AWAITABLE_H_
 
 #include <chrono>
+#include <exception>
 #include <type_traits>
 #include <utility>
 #include "arpc/function.h"
@@ -30,6 +31,14 @@
 
 namespace arpc {
 
+namespace detail {
+// Thrown by reactions that failed with an exception which, coming from them,
+// would be taken as a request to try again.
+struct reaction_failed {
+  std::exception_ptr exception;
+};
+}  // namespace detail
+
 template <typename R>
 class awaitable {
  public:
diff --git a/src/arpc/future.cpp b/src/arpc/future.cpp
index 955ecd6..b0eb977 100644
--- a/src/arpc/future.cpp
+++ b/src/arpc/future.cpp
@@ -52,5 +52,10 @@ void future_state_base::release_writer() {
 
 awaitable<void> future_state_base::can_get() { return set_.async_wait(); }
 
+bool future_state_base::taken() {
+  std::scoped_lock lock(mu_);
+  return taken_;
+}
+
 }  // namespace detail
 }  // namespace arpc
diff --git a/src/arpc/future.h b/src/arpc/future.h
index 42db644..ef74e19 100644
--- a/src/arpc/future.h
+++ b/src/arpc/future.h
@@ -50,8 +50,12 @@ class future_state_base {
 
   awaitable<void> can_get();
 
+  // Whether the outcome was taken already.
+  bool taken();
+
  protected:
   std::mutex mu_;
+  bool taken_ = false;
   bool has_writer_ = true;
   bool has_reader_ = true;
   flag set_;
@@ -88,6 +92,7 @@ class future_state : public future_state_base {
       // There is nothing more to get after this.
       auto result = std::move(result_);
       result_.reset();
+      taken_ = true;
       return *std::move(result);
     }
     throw errors::try_again("Future not ready yet");
@@ -127,6 +132,7 @@ class future_state<void> : public future_state_base {
       // There is nothing more to get after this.
       auto result = std::move(result_);
       result_.reset();
+      taken_ = true;
       *result;
       return;
     }
@@ -170,7 +176,14 @@ class future {
   awaitable<void> can_get() { return state().can_get(); }
 
   awaitable<value_type> async_get() {
-    return can_get().then([this]() { return maybe_get(); });
+    return can_get().then([this]() {
+      try {
+        return maybe_get();
+      } catch (const errors::try_again&) {
+        if (!state().taken()) throw;
+        throw detail::reaction_failed{std::current_exception()};
+      }
+    });
   }
 
   value_type get() {
@@ -258,7 +271,14 @@ class future<void> {
   awaitable<void> can_get() { return state().can_get(); }
 
   awaitable<value_type> async_get() {
-    return can_get().then([this]() { maybe_get(); });
+    return can_get().then([this]() {
+      try {
+        maybe_get();
+      } catch (const errors::try_again&) {
+        if (!state().taken()) throw;
+        throw detail::reaction_failed{std::current_exception()};
+      }
+    });
   }
 
   value_type get() {
diff --git a/src/arpc/select.h b/src/arpc/select.h
index 2114a2e..cac2db8 100644
--- a/src/arpc/select.h
+++ b/src/arpc/select.h
@@ -84,6 +84,8 @@ result_holder<typename A::return_type> make_one_select_result(A& a, const pollfd
         res.set_value(std::move(a.get_react_fn()()));
       }
     } catch (const errors::try_again&) {
+    } catch (const reaction_failed& failed) {
+      res.set_exception(failed.exception);
     } catch (...) {
       res.set_exception(std::current_exception());
     }
-- 
2.43.0


From 3423bb0a9100033c87d267f021f3ef243e839e6f Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Fri, 20 Nov 2026 02:19:32 +0000
Subject: [PATCH 56/57] fix: stopping a server while it removed a closed
 connection crashed

---
 src/arpc/server.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/arpc/server.h b/src/arpc/server.h
index 2298f9a..47b298c 100644
--- a/src/arpc/server.h
+++ b/src/arpc/server.h
@@ -264,8 +264,9 @@ class server {
     awaitable<void> remove() {
       return can_remove_.async_wait().then([this]() {
         auto self = this->shared_from_this();
-        server_.acceptor_->return_connection(std::move(connection_));
+        // Returning it fails if the server is being stopped.
         server_.connections_.erase(key_);
+        server_.acceptor_->return_connection(std::move(connection_));
       });
     }
 
-- 
2.43.0


From 8e8d42cc3f5a6d32fb5d361fe2958af18e3996f7 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Fri, 20 Nov 2026 02:47:14 +0000
Subject: [PATCH 57/57] fix: decoders allocated whatever size the input claimed

---
 src/arpc/binary_codecs.h | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/arpc/binary_codecs.h b/src/arpc/binary_codecs.h
index 64100b2..3602837 100644
--- a/src/arpc/binary_codecs.h
+++ b/src/arpc/binary_codecs.h
@@ -22,6 +22,7 @@
 #ifndef ARPC_BINARY_CODECS_H_
 #define ARPC_BINARY_CODECS_H_
 
+#include <algorithm>
 #include <chrono>
 #include <cstddef>
 #include <cstdint>
@@ -440,10 +441,17 @@ class binary_decoder {
           !traits::is_associative_v<T>,
       void>
   operator()(T& sequence) {
-    std::size_t l = read_size();
-    // No need to reserve as we are setting the size directly.
-    sequence.resize(l);
-    read_sequence(std::data(sequence), l);
+    // The size is just what the input claims, so grow the sequence as the data
+    // shows up instead of allocating all of it beforehand.
+    const std::size_t l = read_size();
+    std::size_t done = 0;
+    do {
+      const std::size_t n = std::min(
+          l - done, max_unread_elements<typename T::value_type>());
+      sequence.resize(done + n);
+      read_sequence(std::data(sequence) + done, n);
+      done += n;
+    } while (done < l);
   }
 
   // Containers where we need to read elements one by one and push_back them.
@@ -751,11 +759,18 @@ class binary_decoder {
   std::enable_if_t<!traits::has_custom_serialization_v<T>, void> invoke_load(
       T& o) {}
 
+  // How many elements to make room for before having seen any of their data.
+  template <typename T>
+  static constexpr std::size_t max_unread_elements() {
+    return sizeof(T) < 65536 ? 65536 / sizeof(T) : 1;
+  }
+
   // Reserve space in a container that supports a reserve method.
   template <typename T>
   std::enable_if_t<traits::can_reserve_capacity_v<T>, void> maybe_reserve(
       T& t, typename T::size_type l) {
-    t.reserve(l);
+    t.reserve(std::min<typename T::size_type>(
+        l, max_unread_elements<typename T::value_type>()));
   }
 
   template <typename T>
-- 
2.43.0

