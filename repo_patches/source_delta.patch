From 7bbf8d1a43cd0746063f2cae643bc850fbcb522c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:51 +0000
Subject: [PATCH 001/119] fix: Vector::resize() constructed elements beyond the
 new size when growing a non-empty vector

---
 src/archon/core/impl/vector_impl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/archon/core/impl/vector_impl.hpp b/src/archon/core/impl/vector_impl.hpp
index debd31f..ad03680 100644
--- a/src/archon/core/impl/vector_impl.hpp
+++ b/src/archon/core/impl/vector_impl.hpp
@@ -289,7 +289,7 @@ void VectorImpl<T>::resize(std::size_t size)
     }
     else {
         reserve(size); // Throws
-        core::uninit_safe_fill(size, data() + m_size);
+        core::uninit_safe_fill(std::size_t(size - m_size), data() + m_size); // Throws
     }
     m_size = size;
 }
@@ -303,7 +303,7 @@ void VectorImpl<T>::resize(std::size_t size, const T& value)
     }
     else {
         reserve(size); // Throws
-        core::uninit_safe_fill(size, value, data() + m_size);
+        core::uninit_safe_fill(std::size_t(size - m_size), value, data() + m_size); // Throws
     }
     m_size = size;
 }
-- 
2.43.0


From 075e8ceb6f6ea96c5323e8da665f94690915002d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:51 +0000
Subject: [PATCH 002/119] fix: Vector::reserve() treated the requested capacity
 as extra capacity

---
 src/archon/core/impl/vector_impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/core/impl/vector_impl.hpp b/src/archon/core/impl/vector_impl.hpp
index ad03680..adf4959 100644
--- a/src/archon/core/impl/vector_impl.hpp
+++ b/src/archon/core/impl/vector_impl.hpp
@@ -185,7 +185,7 @@ inline void VectorImpl<T>::reserve(std::size_t min_capacity)
 {
     if (ARCHON_LIKELY(min_capacity <= m_capacity))
         return;
-    do_reserve_extra(min_capacity); // Throws
+    do_reserve(min_capacity); // Throws
 }
 
 
-- 
2.43.0


From bd7ab6cea9ede3cc86d7beafdac97fdfca21a2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:51 +0000
Subject: [PATCH 003/119] fix: Deque::erase() moved the wrong elements when
 contents wrap around and the erased range lies on one side

---
 src/archon/core/deque.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/archon/core/deque.hpp b/src/archon/core/deque.hpp
index 23fe267..77777ac 100644
--- a/src/archon/core/deque.hpp
+++ b/src/archon/core/deque.hpp
@@ -1191,8 +1191,8 @@ void Deque<T>::erase_near_front(size_type begin, size_type end) noexcept
                 core::uninit_destroy(base + m_offset + begin, before);
                 core::uninit_destroy(base, after);
             }
-            size_type n = std::min(after, begin);
-            begin_2 = begin - n;
+            size_type n = std::min(after, begin_2);
+            begin_2 -= n;
             core::uninit_safe_move(base + m_offset + begin_2, n, base + (after - n));
         }
     }
@@ -1237,7 +1237,7 @@ void Deque<T>::erase_near_back(size_type begin, size_type end) noexcept
                 core::uninit_destroy(base + m_offset + begin, before);
                 core::uninit_destroy(base, after);
             }
-            size_type remain = size_type(m_size - end);
+            size_type remain = size_type(m_size - end_2);
             size_type n = std::min(before, remain);
             core::uninit_safe_move(base + after, n, base + m_offset + (top - before));
             end_2 += n;
-- 
2.43.0


From 43b572e26d5df4b0677b02bf93402eeb93fc3bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:55 +0000
Subject: [PATCH 004/119] fix: Copy self-assignment of Deque lost all elements

---
 src/archon/core/deque.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/archon/core/deque.hpp b/src/archon/core/deque.hpp
index 77777ac..02e8e09 100644
--- a/src/archon/core/deque.hpp
+++ b/src/archon/core/deque.hpp
@@ -515,8 +515,10 @@ inline Deque<T>::~Deque() noexcept
 template<class T>
 inline auto Deque<T>::operator=(const Deque& other) -> Deque&
 {
-    clear();
-    append(other.begin(), other.end()); // Throws
+    if (ARCHON_LIKELY(&other != this)) {
+        clear();
+        append(other.begin(), other.end()); // Throws
+    }
     return *this;
 }
 
-- 
2.43.0


From c20a4c5e468690f16f3e108e755696af4a313901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:03 +0000
Subject: [PATCH 005/119] fix: FrozenSets::unite() discarded existing sets when
 both operands have equal elements

---
 src/archon/core/frozen_sets.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/archon/core/frozen_sets.hpp b/src/archon/core/frozen_sets.hpp
index 36e3daa..ea181c5 100644
--- a/src/archon/core/frozen_sets.hpp
+++ b/src/archon/core/frozen_sets.hpp
@@ -194,10 +194,12 @@ auto FrozenSets<T, C>::unite(Ident i, Ident j) -> Ident
 {
     core::IndexIterator j_begin = { m_wrap.elems, std::ptrdiff_t(j.m_begin) };
     core::IndexIterator j_end   = { m_wrap.elems, std::ptrdiff_t(j.m_end)   };
+    std::size_t size = m_wrap.elems.size();
     Ident k = unite_ordered(i, j_begin, j_end); // Throws
     if (ARCHON_LIKELY(k.size() > j.size()))
         return k;
-    discard_from(k);
+    // Discard any newly added elements, but not those of `i`, as `k` may be `i`
+    m_wrap.elems.resize(size);
     return j;
 }
 
-- 
2.43.0


From ad65d5e4947f0ac4c2eb54c80115f1d89b43c4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:38 +0000
Subject: [PATCH 006/119] fix: Buffer::at() accepted an index equal to the size
 of the buffer

---
 src/archon/core/buffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/core/buffer.hpp b/src/archon/core/buffer.hpp
index a514e3a..ec2b744 100644
--- a/src/archon/core/buffer.hpp
+++ b/src/archon/core/buffer.hpp
@@ -697,7 +697,7 @@ void Buffer<T>::prepend_a(T val, std::size_t& offset, std::size_t n)
 template<class T>
 inline void Buffer<T>::verify_index(std::size_t i) const
 {
-    if (ARCHON_LIKELY(i <= size()))
+    if (ARCHON_LIKELY(i < size()))
         return;
     throw std::out_of_range("Buffer element index");
 }
-- 
2.43.0


From 67f3b96e4a266f8ab3eadece24a5e56a7fd2aaab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:38 +0000
Subject: [PATCH 007/119] fix: Buffer::reserve_f() terminated the program when
 the specified function threw

---
 src/archon/core/buffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/core/buffer.hpp b/src/archon/core/buffer.hpp
index ec2b744..7d6035a 100644
--- a/src/archon/core/buffer.hpp
+++ b/src/archon/core/buffer.hpp
@@ -597,7 +597,7 @@ template<class T>
 template<class F> inline void Buffer<T>::reserve_f(std::size_t min_size, std::size_t used_size, F&& func,
                                                    std::size_t max_size)
 {
-    reserve_a(min_size, [&](span_type new_mem) noexcept {
+    reserve_a(min_size, [&](span_type new_mem) {
         func(new_mem); // Throws
         std::copy_n(data(), used_size, new_mem.data()); // Throws
     }, max_size); // Throws
-- 
2.43.0


From 2a4f0c0066eaf52f4205563b3ad7a89711b8110c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:40 +0000
Subject: [PATCH 008/119] fix: twos_compl_cast() family rejected negative
 values when the origin type is narrower than int

---
 src/archon/core/integer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/archon/core/integer.hpp b/src/archon/core/integer.hpp
index 7418368..84a28e0 100644
--- a/src/archon/core/integer.hpp
+++ b/src/archon/core/integer.hpp
@@ -1478,7 +1478,7 @@ template<class T, class F> constexpr bool can_twos_compl_cast(F val) noexcept
         else {
             static_assert(width_t < width_f);
             auto sign_bit = core::promote(val) & (core::promote(F(1)) << (width_t - 1));
-            auto expected_sign_extension = ~((sign_bit << 1) - 1);
+            auto expected_sign_extension = core::promote(F(-1)) & ~((sign_bit << 1) - 1);
             auto actual_sign_extension = core::promote(val) & (core::promote(F(-1)) << width_t);
             return (actual_sign_extension == expected_sign_extension);
         }
@@ -1503,7 +1503,7 @@ template<class T, class F> constexpr bool try_twos_compl_cast(F from, T& to) noe
         else {
             static_assert(width_t < width_f);
             auto sign_bit = core::promote(from) & (core::promote(F(1)) << (width_t - 1));
-            auto expected_sign_extension = ~((sign_bit << 1) - 1);
+            auto expected_sign_extension = core::promote(F(-1)) & ~((sign_bit << 1) - 1);
             auto actual_sign_extension = core::promote(from) & (core::promote(F(-1)) << width_t);
             if (ARCHON_LIKELY(actual_sign_extension == expected_sign_extension)) {
                 to = T(from);
-- 
2.43.0


From 8e58eacafd70a47eb8523dd1608ec744b6ef798a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:40 +0000
Subject: [PATCH 009/119] fix: int_logic_shift_left() did not discard the
 shifted out bit of a bool

---
 src/archon/core/integer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/core/integer.hpp b/src/archon/core/integer.hpp
index 84a28e0..94dcd6f 100644
--- a/src/archon/core/integer.hpp
+++ b/src/archon/core/integer.hpp
@@ -1673,7 +1673,7 @@ template<class T> constexpr void int_logic_shift_left(T& lval, int i) noexcept
     static_assert(std::is_unsigned_v<T>);
     ARCHON_ASSERT(i >= 0);
     if (ARCHON_LIKELY(i < std::numeric_limits<core::promoted_type<T>>::digits)) {
-        lval <<= i;
+        lval = core::int_cast_a<T>(core::promote(lval) << i);
     }
     else {
         lval = 0;
-- 
2.43.0


From 0c5f7cdabde2404c988327fb49f48024af1deb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:40 +0000
Subject: [PATCH 010/119] fix: Comparisons of floating-point and integer values
 were wrong where floating-point resolution is coarser than one

---
 src/archon/core/float.hpp | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/archon/core/float.hpp b/src/archon/core/float.hpp
index d068c78..16c8efa 100644
--- a/src/archon/core/float.hpp
+++ b/src/archon/core/float.hpp
@@ -290,9 +290,10 @@ template<class F, class I> inline bool float_less_int(F float_val, I int_val) no
 {
     if (ARCHON_UNLIKELY(float_val < F(0))) {
         if constexpr (core::is_signed<I>()) {
-            using float_traits_type = core::FloatTraits<F>;
-            F float_val_2 = float_traits_type::nextafter(float_val, F(0));
-            return (float_val < core::min_float_for_int<F, I>() || core::float_to_int_a<I>(float_val_2) <= int_val);
+            if (float_val < core::min_float_for_int<F, I>())
+                return true;
+            I int_val_2 = core::float_to_int_a<I>(float_val);
+            return (int_val_2 < int_val || (int_val_2 == int_val && std::trunc(float_val) != float_val));
         }
         return (float_val < F(0)); // Catch NaN
     }
@@ -303,9 +304,10 @@ template<class F, class I> inline bool float_less_int(F float_val, I int_val) no
 template<class F, class I> inline bool float_greater_int(F float_val, I int_val) noexcept
 {
     if (ARCHON_LIKELY(float_val > F(0))) {
-        using float_traits_type = core::FloatTraits<F>;
-        F float_val_2 = float_traits_type::nextafter(float_val, F(0));
-        return (float_val > core::max_float_for_int<F, I>() || core::float_to_int_a<I>(float_val_2) >= int_val);
+        if (float_val > core::max_float_for_int<F, I>())
+            return true;
+        I int_val_2 = core::float_to_int_a<I>(float_val);
+        return (int_val_2 > int_val || (int_val_2 == int_val && std::trunc(float_val) != float_val));
     }
     if constexpr (core::is_signed<I>()) {
         return (float_val >= core::min_float_for_int<F, I>() && core::float_to_int_a<I>(float_val) > int_val);
@@ -322,9 +324,10 @@ template<class F, class I> inline bool float_less_equal_int(F float_val, I int_v
         }
         return (float_val <= F(0)); // Catch NaN
     }
-    using float_traits_type = core::FloatTraits<F>;
-    F float_val_2 = float_traits_type::nextafter(float_val, F(0));
-    return (float_val <= core::max_float_for_int<F, I>() && core::float_to_int_a<I>(float_val_2) < int_val);
+    if (!(float_val <= core::max_float_for_int<F, I>()))
+        return false;
+    I int_val_2 = core::float_to_int_a<I>(float_val);
+    return (int_val_2 < int_val || (int_val_2 == int_val && std::trunc(float_val) == float_val));
 }
 
 
@@ -333,9 +336,10 @@ template<class F, class I> inline bool float_greater_equal_int(F float_val, I in
     if (ARCHON_LIKELY(float_val >= F(0)))
         return (float_val > core::max_float_for_int<F, I>() || core::float_to_int_a<I>(float_val) >= int_val);
     if constexpr (core::is_signed<I>()) {
-        using float_traits_type = core::FloatTraits<F>;
-        F float_val_2 = float_traits_type::nextafter(float_val, F(0));
-        return (float_val >= core::min_float_for_int<F, I>() && core::float_to_int_a<I>(float_val_2) > int_val);
+        if (!(float_val >= core::min_float_for_int<F, I>()))
+            return false;
+        I int_val_2 = core::float_to_int_a<I>(float_val);
+        return (int_val_2 > int_val || (int_val_2 == int_val && std::trunc(float_val) == float_val));
     }
     return (float_val >= F(0)); // Catch NaN
 }
-- 
2.43.0


From 78634039d87543138825ab99d02467e4b8e88147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:26 +0000
Subject: [PATCH 011/119] fix: Parsing through as_int_a() did not compile due
 to missing BasicIntegerParser::parse_a()

---
 src/archon/core/integer_parser.hpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/archon/core/integer_parser.hpp b/src/archon/core/integer_parser.hpp
index 31476d4..597c9f7 100644
--- a/src/archon/core/integer_parser.hpp
+++ b/src/archon/core/integer_parser.hpp
@@ -92,6 +92,13 @@ public:
 
     template<int radix = 10, Sign = Sign::auto_, class I> bool parse(string_view_type string, I& var);
 
+    /// \brief Parse integer with radix specified at run time.
+    ///
+    /// This function has the same effect as \ref parse(), but allows you to use a radix that
+    /// is not known at compile time.
+    ///
+    template<Sign = Sign::auto_, class I> bool parse_a(string_view_type string, int radix, I& var);
+
     template<Sign = Sign::auto_, class I> bool parse_bin(string_view_type string, I& var);
     template<Sign = Sign::auto_, class I> bool parse_oct(string_view_type string, I& var);
     template<Sign = Sign::auto_, class I> bool parse_dec(string_view_type string, I& var);
@@ -281,7 +288,15 @@ inline BasicIntegerParser<C, T>::BasicIntegerParser(const char_mapper_type& mapp
 
 template<class C, class T>
 template<int radix, core::IntegerParserBase::Sign sign, class I>
-bool BasicIntegerParser<C, T>::parse(string_view_type string, I& var)
+inline bool BasicIntegerParser<C, T>::parse(string_view_type string, I& var)
+{
+    return parse_a<sign>(string, radix, var); // Throws
+}
+
+
+template<class C, class T>
+template<core::IntegerParserBase::Sign sign, class I>
+bool BasicIntegerParser<C, T>::parse_a(string_view_type string, int radix, I& var)
 {
     auto string_2 = string;
     int sign_val = 1;
-- 
2.43.0


From 5afcb8d27515fd42705f656099802d674c95f9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:13 +0000
Subject: [PATCH 012/119] fix: Extended integer types of more than 64 bits were
 only 64 bits wide

---
 src/archon/core/impl/ext_int_type.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/archon/core/impl/ext_int_type.hpp b/src/archon/core/impl/ext_int_type.hpp
index 4e35ddf..fb20b04 100644
--- a/src/archon/core/impl/ext_int_type.hpp
+++ b/src/archon/core/impl/ext_int_type.hpp
@@ -40,27 +40,32 @@ template<int N, bool S> struct ExtIntTypePredWrapper {
         template<class T> static constexpr bool value =
             (core::MulPrecInt<T, max_parts, is_signed>::width >= required_width);
     };
+    template<class T> using type = core::MulPrecInt<T, max_parts, is_signed>;
 };
 
 
 template<int N> struct LeastSignedExtIntType {
+    using wrapper = impl::ExtIntTypePredWrapper<N, true>;
     using type = core::NotVoidOr<core::least_signed_int_type<N>,
-                                 core::least_unsigned_int_type_a<typename impl::ExtIntTypePredWrapper<N, true>::Pred>>;
+                                 typename wrapper::template type<core::least_unsigned_int_type_a<typename wrapper::Pred>>>;
 };
 
 template<int N> struct LeastUnsignedExtIntType {
+    using wrapper = impl::ExtIntTypePredWrapper<N, false>;
     using type = core::NotVoidOr<core::least_unsigned_int_type<N>,
-                                 core::least_unsigned_int_type_a<typename impl::ExtIntTypePredWrapper<N, false>::Pred>>;
+                                 typename wrapper::template type<core::least_unsigned_int_type_a<typename wrapper::Pred>>>;
 };
 
 template<int N> struct FastSignedExtIntType {
+    using wrapper = impl::ExtIntTypePredWrapper<N, true>;
     using type = core::NotVoidOr<core::fast_signed_int_type<N>,
-                                 core::fast_unsigned_int_type_a<typename impl::ExtIntTypePredWrapper<N, true>::Pred>>;
+                                 typename wrapper::template type<core::fast_unsigned_int_type_a<typename wrapper::Pred>>>;
 };
 
 template<int N> struct FastUnsignedExtIntType {
+    using wrapper = impl::ExtIntTypePredWrapper<N, false>;
     using type = core::NotVoidOr<core::fast_unsigned_int_type<N>,
-                                 core::fast_unsigned_int_type_a<typename impl::ExtIntTypePredWrapper<N, false>::Pred>>;
+                                 typename wrapper::template type<core::fast_unsigned_int_type_a<typename wrapper::Pred>>>;
 };
 
 
-- 
2.43.0


From 2362ca021ee48e8743dbca91686430d153a9e32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:10 +0000
Subject: [PATCH 013/119] fix: BasicValueParser modified its target when
 parsing failed

---
 src/archon/core/value_parser.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/archon/core/value_parser.hpp b/src/archon/core/value_parser.hpp
index 1e51812..49b350b 100644
--- a/src/archon/core/value_parser.hpp
+++ b/src/archon/core/value_parser.hpp
@@ -328,8 +328,20 @@ template<class V> bool BasicValueParserSource<C, T>::do_parse(V& var)
     goto parse;
   parse:
     m_in.reset(m_string); // Throws
-    m_in >> var; // Throws
-    return (m_in && m_in.peek() == T::eof()); // Throws
+    if constexpr (std::is_copy_constructible_v<type> && std::is_move_assignable_v<type>) {
+        // Stream input operators generally modify their target also when the string as a
+        // whole ends up being rejected, so use a temporary object.
+        type var_2 = var; // Throws
+        m_in >> var_2; // Throws
+        bool success = (m_in && m_in.peek() == T::eof()); // Throws
+        if (ARCHON_LIKELY(success))
+            var = std::move(var_2); // Throws
+        return success;
+    }
+    else {
+        m_in >> var; // Throws
+        return (m_in && m_in.peek() == T::eof()); // Throws
+    }
 }
 
 
-- 
2.43.0


From 53b488f59a465a4e2d97d764f9f2e60f11bf0f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:50 +0000
Subject: [PATCH 014/119] fix: Lenient Unicode transcoding functions misplaced
 the replacement characters

---
 src/archon/core/unicode.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/archon/core/unicode.hpp b/src/archon/core/unicode.hpp
index 87a6c2e..08173ce 100644
--- a/src/archon/core/unicode.hpp
+++ b/src/archon/core/unicode.hpp
@@ -1392,7 +1392,7 @@ void encode_utf8_l(core::StringSpan<C> string, core::Buffer<D>& buffer, std::siz
             traits_type::to_char_type(0xBF),
             traits_type::to_char_type(0xBD),
         };
-        buffer.append(replacement, buffer_offset); // Throws
+        buffer.append(replacement, buffer_offset_2); // Throws
     }
 }
 
@@ -1449,7 +1449,7 @@ void decode_utf8_l(core::StringSpan<C> string, core::Buffer<D>& buffer, std::siz
         char_type replacement[] = {
             traits_type::to_char_type(0xFFFD),
         };
-        buffer.append(replacement, buffer_offset); // Throws
+        buffer.append(replacement, buffer_offset_2); // Throws
     }
 }
 
@@ -1502,7 +1502,7 @@ void encode_utf16_l(core::StringSpan<C> string, core::Buffer<D>& buffer, std::si
         char_type replacement[] = {
             traits_type::to_char_type(0xFFFD),
         };
-        buffer.append(replacement, buffer_offset); // Throws
+        buffer.append(replacement, buffer_offset_2); // Throws
     }
 }
 
@@ -1559,7 +1559,7 @@ void decode_utf16_l(core::StringSpan<C> string, core::Buffer<D>& buffer, std::si
         char_type replacement[] = {
             traits_type::to_char_type(0xFFFD),
         };
-        buffer.append(replacement, buffer_offset); // Throws
+        buffer.append(replacement, buffer_offset_2); // Throws
     }
 }
 
@@ -1613,7 +1613,7 @@ void utf8_to_utf16_l(core::StringSpan<C> string, core::Buffer<D>& buffer, std::s
         char_type replacement[] = {
             traits_type::to_char_type(0xFFFD),
         };
-        buffer.append(replacement, buffer_offset); // Throws
+        buffer.append(replacement, buffer_offset_2); // Throws
     }
 }
 
@@ -1669,7 +1669,7 @@ void utf16_to_utf8_l(core::StringSpan<C> string, core::Buffer<D>& buffer, std::s
             traits_type::to_char_type(0xBF),
             traits_type::to_char_type(0xBD),
         };
-        buffer.append(replacement, buffer_offset); // Throws
+        buffer.append(replacement, buffer_offset_2); // Throws
     }
 }
 
-- 
2.43.0


From 25d3af4929fcca16449a8ad6a18945b6b1b3b123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:50 +0000
Subject: [PATCH 015/119] fix: utf8_to_native_mb_transcoder::transcode_l()
 ignored the specified buffer offset

---
 src/archon/core/unicode_bridge.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/core/unicode_bridge.cpp b/src/archon/core/unicode_bridge.cpp
index 28fc774..99cb81e 100644
--- a/src/archon/core/unicode_bridge.cpp
+++ b/src/archon/core/unicode_bridge.cpp
@@ -149,7 +149,7 @@ void utf8_to_native_mb_transcoder::transcode_l(core::StringSpan<char> string, co
     std::size_t string_size = string.size();
     core::WideCharCodec codec(m_locale); // Throws
     std::mbstate_t state = {};
-    std::size_t buffer_offset_3 = 0;
+    std::size_t buffer_offset_3 = buffer_offset;
     while (string_offset < string_size) {
         std::size_t buffer_offset_2 = 0;
         for (;;) {
-- 
2.43.0


From 4cb6e58a5ea10485d0d1fb6cbe3f740b76510637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:17 +0000
Subject: [PATCH 016/119] fix: Code units greater than 0xFF were accepted as
 UTF-8 continuation bytes

---
 src/archon/core/unicode.hpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/archon/core/unicode.hpp b/src/archon/core/unicode.hpp
index 08173ce..17dc0ee 100644
--- a/src/archon/core/unicode.hpp
+++ b/src/archon/core/unicode.hpp
@@ -1358,6 +1358,12 @@ template<class T> constexpr bool valid_unicode_code_point(T val) noexcept
 }
 
 
+template<class T> constexpr bool is_utf8_continuation(T val) noexcept
+{
+    return (val >= 0x80 && val < 0xC0);
+}
+
+
 } // namespace impl
 
 
@@ -1952,7 +1958,7 @@ void decode_utf8_incr(core::Span<const C> in, core::Span<D> out, std::size_t& in
                     // Code point range: U+0080 -> U+07FF
                     if (ARCHON_LIKELY(end_1 - i_1 >= 2)) {
                         promoted_type v_2 = core::promote(traits_type_1::to_int_type(i_1[1]));
-                        if (ARCHON_LIKELY((v_2 & 0xC0) == 0x80)) {
+                        if (ARCHON_LIKELY(impl::is_utf8_continuation(v_2))) {
                             promoted_type v = (((v_1 & 0x1F) << 6) | (v_2 & 0x3F));
                             if (ARCHON_LIKELY(v >= 0x80)) {
                                 if (ARCHON_LIKELY(i_2 < end_2)) {
@@ -1978,7 +1984,7 @@ void decode_utf8_incr(core::Span<const C> in, core::Span<D> out, std::size_t& in
                     if (ARCHON_LIKELY(end_1 - i_1 >= 3)) {
                         promoted_type v_2 = core::promote(traits_type_1::to_int_type(i_1[1]));
                         promoted_type v_3 = core::promote(traits_type_1::to_int_type(i_1[2]));
-                        if (ARCHON_LIKELY((v_2 & 0xC0) == 0x80 && (v_3 & 0xC0) == 0x80)) {
+                        if (ARCHON_LIKELY(impl::is_utf8_continuation(v_2) && impl::is_utf8_continuation(v_3))) {
                             using type = decltype(promoted_type() + std::uint_least16_t());
                             type v = ((type(v_1 & 0x0F) << 12) | ((v_2 & 0x3F) << 6) | (v_3 & 0x3F));
                             if (ARCHON_LIKELY(v >= 0x800)) {
@@ -2014,7 +2020,7 @@ void decode_utf8_incr(core::Span<const C> in, core::Span<D> out, std::size_t& in
                         promoted_type v_2 = core::promote(traits_type_1::to_int_type(i_1[1]));
                         promoted_type v_3 = core::promote(traits_type_1::to_int_type(i_1[2]));
                         promoted_type v_4 = core::promote(traits_type_1::to_int_type(i_1[3]));
-                        if (ARCHON_LIKELY((v_2 & 0xC0) == 0x80 && (v_3 & 0xC0) == 0x80) && (v_4 & 0xC0) == 0x80) {
+                        if (ARCHON_LIKELY(impl::is_utf8_continuation(v_2) && impl::is_utf8_continuation(v_3)) && impl::is_utf8_continuation(v_4)) {
                             using type = decltype(promoted_type() + std::int_least32_t());
                             type v = ((type(v_1 & 0x07) << 18) | (type(v_2 & 0x3F) << 12) |
                                       ((v_3 & 0x3F) << 6) | (v_4 & 0x3F));
@@ -2291,7 +2297,7 @@ void utf8_to_utf16_incr(core::Span<const C> in, core::Span<D> out, std::size_t&
                     // Code point range: U+0080 -> U+07FF
                     if (ARCHON_LIKELY(end_1 - i_1 >= 2)) {
                         promoted_type v_2 = core::promote(traits_type_1::to_int_type(i_1[1]));
-                        if (ARCHON_LIKELY((v_2 & 0xC0) == 0x80)) {
+                        if (ARCHON_LIKELY(impl::is_utf8_continuation(v_2))) {
                             promoted_type v = (((v_1 & 0x1F) << 6) | (v_2 & 0x3F));
                             if (ARCHON_LIKELY(v >= 0x80)) {
                                 if (ARCHON_LIKELY(end_2 - i_2 >= 1)) {
@@ -2317,7 +2323,7 @@ void utf8_to_utf16_incr(core::Span<const C> in, core::Span<D> out, std::size_t&
                     if (ARCHON_LIKELY(end_1 - i_1 >= 3)) {
                         promoted_type v_2 = core::promote(traits_type_1::to_int_type(i_1[1]));
                         promoted_type v_3 = core::promote(traits_type_1::to_int_type(i_1[2]));
-                        if (ARCHON_LIKELY((v_2 & 0xC0) == 0x80 && (v_3 & 0xC0) == 0x80)) {
+                        if (ARCHON_LIKELY(impl::is_utf8_continuation(v_2) && impl::is_utf8_continuation(v_3))) {
                             using type = decltype(promoted_type() + std::uint_least16_t());
                             type v = ((type(v_1 & 0x0F) << 12) | ((v_2 & 0x3F) << 6) | (v_3 & 0x3F));
                             if (ARCHON_LIKELY(v >= 0x800)) {
@@ -2353,7 +2359,7 @@ void utf8_to_utf16_incr(core::Span<const C> in, core::Span<D> out, std::size_t&
                         promoted_type v_2 = core::promote(traits_type_1::to_int_type(i_1[1]));
                         promoted_type v_3 = core::promote(traits_type_1::to_int_type(i_1[2]));
                         promoted_type v_4 = core::promote(traits_type_1::to_int_type(i_1[3]));
-                        if (ARCHON_LIKELY((v_2 & 0xC0) == 0x80 && (v_3 & 0xC0) == 0x80) && (v_4 & 0xC0) == 0x80) {
+                        if (ARCHON_LIKELY(impl::is_utf8_continuation(v_2) && impl::is_utf8_continuation(v_3)) && impl::is_utf8_continuation(v_4)) {
                             using type = decltype(promoted_type() + std::int_least32_t());
                             type v = ((type(v_1 & 0x07) << 18) | (type(v_2 & 0x3F) << 12) |
                                       ((v_3 & 0x3F) << 6) | (v_4 & 0x3F));
-- 
2.43.0


From eed15f8570eb44c679c8eaa7176cdb1abd2310fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:24 +0000
Subject: [PATCH 017/119] fix: Character codecs mishandled output buffers that
 get filled by a null character

---
 src/archon/core/impl/char_codec.hpp     | 11 +++++++++++
 src/archon/core/impl/codecvt_quirks.hpp | 10 ++++++++++
 2 files changed, 21 insertions(+)

diff --git a/src/archon/core/impl/char_codec.hpp b/src/archon/core/impl/char_codec.hpp
index f77cdec..69dc2b4 100644
--- a/src/archon/core/impl/char_codec.hpp
+++ b/src/archon/core/impl/char_codec.hpp
@@ -404,6 +404,10 @@ bool CharCodec2<C, T>::decode(std::mbstate_t& state, core::Span<const char> data
 
     switch (result) {
         case std::codecvt_base::ok:
+            if constexpr (impl::codecvt_quirk_ok_result_on_full_buffer_after_null) {
+                if (ARCHON_UNLIKELY(to_next == to_end && from_next < from_end))
+                    goto buffer_full;
+            }
             goto ok;
         case std::codecvt_base::partial:
             if constexpr (impl::codecvt_quirk_partial_result_on_partial_char) {
@@ -414,6 +418,7 @@ bool CharCodec2<C, T>::decode(std::mbstate_t& state, core::Span<const char> data
                 if (to_next < to_end)
                     goto error;
             }
+          buffer_full:
             state = state_2;
             data_offset   = std::size_t(from_next - data.data());
             buffer_offset = std::size_t(to_next - buffer.data());
@@ -515,6 +520,12 @@ bool CharCodec2<C, T>::encode(std::mbstate_t& state, core::Span<const char_type>
 
     switch (result) {
         case std::codecvt_base::ok:
+            if constexpr (impl::codecvt_quirk_ok_result_on_full_buffer_after_null) {
+                if (ARCHON_UNLIKELY(buffer_offset == buffer.size() && data_offset < data.size())) {
+                    error = false;
+                    return false;
+                }
+            }
             ARCHON_ASSERT(data_offset == data.size());
             return true;
         case std::codecvt_base::partial:
diff --git a/src/archon/core/impl/codecvt_quirks.hpp b/src/archon/core/impl/codecvt_quirks.hpp
index e20e31a..c1e2510 100644
--- a/src/archon/core/impl/codecvt_quirks.hpp
+++ b/src/archon/core/impl/codecvt_quirks.hpp
@@ -43,6 +43,16 @@ inline constexpr bool codecvt_quirk_ok_result_on_zero_size_buffer = true;
 inline constexpr bool codecvt_quirk_ok_result_on_zero_size_buffer = false;
 #endif
 
+// std::codecvt::in() and std::codecvt::out() may report an `ok` result, rather than a
+// `partial` result, when the output buffer is filled by a null character even when there is
+// more input after that null character.
+//
+#if ARCHON_GNU_LIBCXX && !(ARCHON_CYGWIN || ARCHON_MINGW)
+inline constexpr bool codecvt_quirk_ok_result_on_full_buffer_after_null = true;
+#else
+inline constexpr bool codecvt_quirk_ok_result_on_full_buffer_after_null = false;
+#endif
+
 // std::codecvt::in() reports a `partial` result, rather than an `ok` result when presented
 // with an incomplete byte sequence (regardless of whether none, some, or all of the
 // incomplete byte sequence has been consumed), and there is enough available space in the
-- 
2.43.0


From 62d449535e403210f035af4c994a66ecb6e31da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:24 +0000
Subject: [PATCH 018/119] fix: utf8_to_native_mb_transcoder::transcode_l()
 failed on small buffers and unencodable characters

---
 src/archon/core/unicode_bridge.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/archon/core/unicode_bridge.cpp b/src/archon/core/unicode_bridge.cpp
index 99cb81e..63b2519 100644
--- a/src/archon/core/unicode_bridge.cpp
+++ b/src/archon/core/unicode_bridge.cpp
@@ -147,7 +147,9 @@ void utf8_to_native_mb_transcoder::transcode_l(core::StringSpan<char> string, co
     std::array<wchar_t, 64> buffer_2;
     std::size_t string_offset = 0;
     std::size_t string_size = string.size();
-    core::WideCharCodec codec(m_locale); // Throws
+    core::WideCharCodec::Config config;
+    config.lenient = true; // Automatically produce replacement characters for unencodable characters
+    core::WideCharCodec codec(m_locale, config); // Throws
     std::mbstate_t state = {};
     std::size_t buffer_offset_3 = buffer_offset;
     while (string_offset < string_size) {
@@ -169,9 +171,11 @@ void utf8_to_native_mb_transcoder::transcode_l(core::StringSpan<char> string, co
         std::wstring_view string_2 = { buffer_2.data(), buffer_offset_2 }; // Throws
         if (ARCHON_LIKELY(m_is_unicode_locale && !force_fallback)) {
             std::size_t string_offset_2 = 0;
-            bool error_2 = {};
-            bool complete = codec.encode(state, string_2, string_offset_2, buffer, buffer_offset_3, error_2); // Throws
-            ARCHON_ASSERT(complete);
+            bool error_2 = false;
+            while (!codec.encode(state, string_2, string_offset_2, buffer, buffer_offset_3, error_2)) { // Throws
+                ARCHON_ASSERT(!error_2); // Because lenient mode is used
+                buffer.expand(buffer_offset_3); // Throws
+            }
             ARCHON_ASSERT(string_offset_2 == string_2.size());
         }
         else {
-- 
2.43.0


From b6b89978dd47a3ff8423e185391d33ddfc3af19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:16 +0000
Subject: [PATCH 019/119] fix: Character decoding silently dropped incomplete
 byte sequences followed by a null byte

std::codecvt::in() of libstdc++ drops such sequences. Also correct the handling of input
that has to be presented to std::codecvt::in() in several chunks.
---
 src/archon/core/impl/char_codec.hpp     | 21 +++++++++++++++++++--
 src/archon/core/impl/codecvt_quirks.hpp |  9 +++++++++
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/archon/core/impl/char_codec.hpp b/src/archon/core/impl/char_codec.hpp
index 69dc2b4..5fad700 100644
--- a/src/archon/core/impl/char_codec.hpp
+++ b/src/archon/core/impl/char_codec.hpp
@@ -382,15 +382,25 @@ bool CharCodec2<C, T>::decode(std::mbstate_t& state, core::Span<const char> data
 
     std::mbstate_t state_2 = state;
     std::size_t data_offset_2 = data_offset;
+    std::size_t buffer_offset_2 = buffer_offset;
 
   again:
     std::size_t data_size = std::size_t(data.size() - data_offset_2);
     std::size_t data_size_2 = std::min(data_size, max_simul_decode_size());
+    if constexpr (impl::codecvt_quirk_partial_char_dropped_before_null) {
+        // Process null bytes separately. This is possible because a null byte can never be
+        // part of a multi-byte sequence.
+        if (ARCHON_LIKELY(data_size_2 > 0)) {
+            const char* begin = data.data() + data_offset_2;
+            std::size_t n = std::size_t(std::find(begin, begin + data_size_2, '\0') - begin);
+            data_size_2 = (n > 0 ? n : 1);
+        }
+    }
     std::mbstate_t state_3 = state_2;
     const char* from      = data.data() + data_offset_2;
     const char* from_end  = from + data_size_2;
     const char* from_next = nullptr;
-    char_type* to      = buffer.data() + buffer_offset;
+    char_type* to      = buffer.data() + buffer_offset_2;
     char_type* to_end  = buffer.data() + buffer.size();
     char_type* to_next = nullptr;
     std::codecvt_base::result result =
@@ -470,10 +480,17 @@ bool CharCodec2<C, T>::decode(std::mbstate_t& state, core::Span<const char> data
         }
         goto error;
     }
+    if constexpr (impl::codecvt_quirk_partial_char_dropped_before_null) {
+        if (ARCHON_UNLIKELY(from_next < from_end && *from_end == '\0'))
+            goto error; // Incomplete byte sequence followed by null byte
+    }
+    if (ARCHON_UNLIKELY(to_next == to_end))
+        goto buffer_full;
     {
         std::size_t new_data_offset = std::size_t(from_next - data.data());
-        if (ARCHON_LIKELY(new_data_offset < data_offset_2)) {
+        if (ARCHON_LIKELY(new_data_offset > data_offset_2)) {
             data_offset_2 = new_data_offset;
+            buffer_offset_2 = std::size_t(to_next - buffer.data());
             goto again;
         }
     }
diff --git a/src/archon/core/impl/codecvt_quirks.hpp b/src/archon/core/impl/codecvt_quirks.hpp
index c1e2510..7c077e8 100644
--- a/src/archon/core/impl/codecvt_quirks.hpp
+++ b/src/archon/core/impl/codecvt_quirks.hpp
@@ -53,6 +53,15 @@ inline constexpr bool codecvt_quirk_ok_result_on_full_buffer_after_null = true;
 inline constexpr bool codecvt_quirk_ok_result_on_full_buffer_after_null = false;
 #endif
 
+// std::codecvt::in() fails to report an error when an incomplete byte sequence is followed
+// by a null byte. Instead, the incomplete byte sequence is silently dropped.
+//
+#if ARCHON_GNU_LIBCXX && !(ARCHON_CYGWIN || ARCHON_MINGW)
+inline constexpr bool codecvt_quirk_partial_char_dropped_before_null = true;
+#else
+inline constexpr bool codecvt_quirk_partial_char_dropped_before_null = false;
+#endif
+
 // std::codecvt::in() reports a `partial` result, rather than an `ok` result when presented
 // with an incomplete byte sequence (regardless of whether none, some, or all of the
 // incomplete byte sequence has been consumed), and there is enough available space in the
-- 
2.43.0


From 77ae9ee3d311d281ec5033890e26506211bc6cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:16 +0000
Subject: [PATCH 020/119] fix: Text file write operations failed to report
 number of written characters upon failure

When the underlying write operation failed, the output argument for the number of written
characters was left unassigned. In stacked implementations this led to the same data being
written twice when writing was resumed.
---
 src/archon/core/impl/prim_text_file_impl.cpp | 1 +
 src/archon/core/impl/text_file_impl.hpp      | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/archon/core/impl/prim_text_file_impl.cpp b/src/archon/core/impl/prim_text_file_impl.cpp
index d28e3e4..fab30c2 100644
--- a/src/archon/core/impl/prim_text_file_impl.cpp
+++ b/src/archon/core/impl/prim_text_file_impl.cpp
@@ -163,6 +163,7 @@ bool PrimWindowsTextFileImpl::write(core::Span<const char> data, std::size_t& n,
         if (ARCHON_LIKELY(m_end > 0)) {
             if (ARCHON_LIKELY(do_flush(ec)))
                 continue;
+            n = data_offset;
             return false;
         }
         expand_buffer(); // Throws
diff --git a/src/archon/core/impl/text_file_impl.hpp b/src/archon/core/impl/text_file_impl.hpp
index 9755246..5d52e4d 100644
--- a/src/archon/core/impl/text_file_impl.hpp
+++ b/src/archon/core/impl/text_file_impl.hpp
@@ -457,6 +457,7 @@ bool TextFileImpl2<P, D>::write(core::Span<const char_type> data, std::size_t& n
             if (ARCHON_LIKELY(m_end > 0)) {
                 if (ARCHON_LIKELY(shallow_flush(ec))) // Throws
                     continue;
+                n = data_offset;
                 return false;
             }
             expand_buffer(); // Throws
-- 
2.43.0


From 4bef2304731aefc17607da50e28bcd81d74a1e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:52 +0000
Subject: [PATCH 021/119] fix: BufferedFileSink::flush() was declared but not
 defined

---
 src/archon/core/file_sink.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/archon/core/file_sink.hpp b/src/archon/core/file_sink.hpp
index d04e485..0f741e2 100644
--- a/src/archon/core/file_sink.hpp
+++ b/src/archon/core/file_sink.hpp
@@ -27,6 +27,7 @@
 #include <cstddef>
 #include <system_error>
 
+#include <archon/core/features.h>
 #include <archon/core/span.hpp>
 #include <archon/core/assert.hpp>
 #include <archon/core/sink.hpp>
@@ -127,6 +128,15 @@ inline BufferedFileSink::BufferedFileSink(core::File& file, core::Span<char> buf
 }
 
 
+inline void BufferedFileSink::flush()
+{
+    std::error_code ec;
+    if (ARCHON_LIKELY(try_flush(ec))) // Throws
+        return; // Success
+    throw std::system_error(ec, "Failed to flush sink");
+}
+
+
 } // namespace archon::core
 
 #endif // ARCHON_X_CORE_X_FILE_SINK_HPP
-- 
2.43.0


From 676f95308ab44eed10dabd99901d109475f2abdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:33 +0000
Subject: [PATCH 022/119] fix: File::get_terminal_info() did not fail when the
 file object is empty

---
 src/archon/core/file.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/archon/core/file.cpp b/src/archon/core/file.cpp
index 0e66891..42b9c64 100644
--- a/src/archon/core/file.cpp
+++ b/src/archon/core/file.cpp
@@ -477,6 +477,11 @@ bool File::try_get_terminal_info(bool& is_term, TerminalInfo& info, std::error_c
         info = std::move(info_2);
     }
     else {
+        int err = errno; // Eliminate any risk of clobbering
+        if (ARCHON_UNLIKELY(err == EBADF)) {
+            ec = core::make_system_error(err);
+            return false; // Failure
+        }
         is_term = false;
     }
     return true; // Success
-- 
2.43.0


From 06b03046260609881d83e1177dbd939214d65345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:03 +0000
Subject: [PATCH 023/119] fix: File locking functions terminated the program
 rather than failing when the file object is empty

---
 src/archon/core/file.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/archon/core/file.cpp b/src/archon/core/file.cpp
index 42b9c64..b7292ff 100644
--- a/src/archon/core/file.cpp
+++ b/src/archon/core/file.cpp
@@ -627,11 +627,9 @@ void File::do_close() noexcept
 
 bool File::do_lock(bool exclusive, bool nonblocking)
 {
-    ARCHON_ASSERT(is_open());
-
 #if ARCHON_WINDOWS
 
-    ARCHON_ASSERT(!m_holds_lock);
+    ARCHON_ASSERT(!is_open() || !m_holds_lock);
 
     // Under Windows, a file lock must be explicitely released before the file is closed. It
     // will eventually be released by the system, but there is no guarantees on the timing.
-- 
2.43.0


From 86af0e091959387c037201e34a53238bf8e9ebc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:22 +0000
Subject: [PATCH 024/119] fix: File constructor leaked a file descriptor when
 specified path refers to a directory

---
 src/archon/core/file.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/archon/core/file.cpp b/src/archon/core/file.cpp
index b7292ff..eb3254a 100644
--- a/src/archon/core/file.cpp
+++ b/src/archon/core/file.cpp
@@ -80,6 +80,7 @@ bool File::try_open(FilesystemPathRef path, AccessMode access_mode, CreateMode c
                 return true;
             ec = make_error_code(std::errc::is_a_directory);
         }
+        close();
     }
     return false;
 }
-- 
2.43.0


From 76446e73497f47007a40526f79895448d2e4a3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:48 +0000
Subject: [PATCH 025/119] fix: Base64 decoder rejected all padded input

---
 src/archon/core/base64.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/archon/core/base64.cpp b/src/archon/core/base64.cpp
index 7a95f2c..6737cbb 100644
--- a/src/archon/core/base64.cpp
+++ b/src/archon/core/base64.cpp
@@ -424,6 +424,7 @@ bool IncrementalDecoder::decode(const char*& data_begin, const char* data_end, b
         if (ARCHON_LIKELY(is_padding)) {
             bool allow_padding = (m_config.padding != DecodeConfig::Padding::reject);
             if (ARCHON_LIKELY(allow_padding && valid_partial())) {
+                ++data_begin;
                 ++m_padding_size;
                 if (ARCHON_LIKELY(m_holding_size + m_padding_size < 4))
                     goto input;
@@ -439,9 +440,9 @@ bool IncrementalDecoder::decode(const char*& data_begin, const char* data_end, b
         bool require_padding = (m_config.padding == DecodeConfig::Padding::require);
         if (ARCHON_LIKELY(!require_padding && valid_partial()))
             goto partial;
-        if (ARCHON_LIKELY(m_holding_size == 0))
-            return true;
     }
+    if (ARCHON_LIKELY(m_holding_size == 0))
+        return true;
     return false; // Prematute end of input
 
   batch:
-- 
2.43.0


From a4a8421f20c495bb02dbb927917952b19c39f590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:48 +0000
Subject: [PATCH 026/119] fix: Base64 encoding to, and decoding from wide
 characters did not compile

---
 src/archon/core/base64.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/archon/core/base64.hpp b/src/archon/core/base64.hpp
index ff41809..d8c9fa1 100644
--- a/src/archon/core/base64.hpp
+++ b/src/archon/core/base64.hpp
@@ -313,7 +313,7 @@ template<class C, class T>
 auto BasicEncoder<C, T>::encode(core::Span<const char> data, core::Buffer<C>& buffer) const -> string_view_type
 {
     buffer.reserve(encode_buffer_size(data.size(), m_config)); // Throws
-    if constexpr (BasicCharMapper<char>::is_trivial) {
+    if constexpr (BasicCharMapper<C, T>::is_trivial) {
         std::size_t size = 0;
         bool insufficient_buffer_space = false;
         bool success = base64::encode(data, core::Span(buffer), size, insufficient_buffer_space, m_config);
@@ -370,7 +370,7 @@ template<class C, class T>
 auto BasicDecoder<C, T>::decode(string_view_type data, core::Buffer<char>& buffer) const -> core::Span<const char>
 {
     buffer.reserve(decode_buffer_size(data.size())); // Throws
-    if constexpr (BasicCharMapper<char>::is_trivial) {
+    if constexpr (BasicCharMapper<C, T>::is_trivial) {
         std::size_t size = 0;
         bool insufficient_buffer_space = false;
         bool success = base64::decode(data, core::Span(buffer), size, insufficient_buffer_space, m_config);
-- 
2.43.0


From 0d0698bfa6e1569e3e6c70d453343588f24ae9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:48 +0000
Subject: [PATCH 027/119] fix: Base64 decoding of invalid input terminated the
 program when the output buffer was exactly filled

---
 src/archon/core/base64.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/archon/core/base64.hpp b/src/archon/core/base64.hpp
index d8c9fa1..6393112 100644
--- a/src/archon/core/base64.hpp
+++ b/src/archon/core/base64.hpp
@@ -288,7 +288,11 @@ inline bool decode(std::string_view data, core::Span<char> buffer, std::size_t&
         size = std::size_t(buffer_begin - buffer.data());
         return true;
     }
-    insufficient_buffer_space = (buffer_begin == buffer_end);
+    // The failure is due to lack of buffer space if, and only if more output is pending
+    char extra = {};
+    char* extra_begin = &extra;
+    decoder.decode(data_begin, data_end, end_of_input, extra_begin, &extra + 1);
+    insufficient_buffer_space = (extra_begin != &extra);
     return false;
 }
 
@@ -395,9 +399,7 @@ auto BasicDecoder<C, T>::decode(string_view_type data, core::Buffer<char>& buffe
             const char* data_end   = data_begin + size;
             bool done = decoder.decode(data_begin, data_end, end_of_input, buffer_begin, buffer_end);
             if (ARCHON_LIKELY(!done)) {
-                ARCHON_ASSERT(buffer_begin != buffer_end);
-                if (ARCHON_LIKELY(data_begin == data_end)) {
-                    ARCHON_ASSERT(!end_of_input);
+                if (ARCHON_LIKELY(data_begin == data_end && !end_of_input)) {
                     i += size;
                     continue;
                 }
-- 
2.43.0


From 3f7b4353d56c2c536a21a7c9fdbcc3bcbe2c0ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:54 +0000
Subject: [PATCH 028/119] fix: Base64 encoding of more than zero bytes to wide
 characters used a narrow output cursor

---
 src/archon/core/base64.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/core/base64.hpp b/src/archon/core/base64.hpp
index 6393112..7702cc7 100644
--- a/src/archon/core/base64.hpp
+++ b/src/archon/core/base64.hpp
@@ -331,7 +331,7 @@ auto BasicEncoder<C, T>::encode(core::Span<const char> data, core::Buffer<C>& bu
         const char* data_begin = data.data();
         const char* data_end = data_begin + data.size();
         char* buffer_end = buffer_2.data() + buffer_2.size();
-        char* dest = buffer.data();
+        C* dest = buffer.data();
         for (;;) {
             bool end_of_input = true;
             char* buffer_begin = buffer_2.data();
-- 
2.43.0


From f73d1c54129915303c4fe66509022cea896af279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:36 +0000
Subject: [PATCH 029/119] fix: Text formatter word query function did not
 compile

---
 src/archon/core/text_formatter.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/core/text_formatter.hpp b/src/archon/core/text_formatter.hpp
index 2fe49a0..e103f8c 100644
--- a/src/archon/core/text_formatter.hpp
+++ b/src/archon/core/text_formatter.hpp
@@ -1774,7 +1774,7 @@ auto BasicTextFormatter<C, T>::get_word_info(std::size_t section_index, std::siz
                                              std::size_t word_index) -> WordInfo
 {
     ExtendedLineInfo line_info = get_extended_line_info(section_index, line_index); // Throws
-    if (ARCHON_UNLIKELY(word_index >= line_info.num_words))
+    if (ARCHON_UNLIKELY(word_index >= line_info.base.num_words))
         throw std::out_of_range("Word index");
     std::size_t word_index_2 = std::size_t(line_info.words_begin + word_index);
     const InputWord& word = m_input_words[word_index_2];
-- 
2.43.0


From 2274b3fe692688ff7013b23e27cd85daba147a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:36 +0000
Subject: [PATCH 030/119] fix: Text formatter jump to line below last line
 landed on wrong line when current line was above last line

---
 src/archon/core/text_formatter.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/archon/core/text_formatter.hpp b/src/archon/core/text_formatter.hpp
index e103f8c..a716a50 100644
--- a/src/archon/core/text_formatter.hpp
+++ b/src/archon/core/text_formatter.hpp
@@ -2961,6 +2961,8 @@ void BasicTextFormatter<C, T>::do_jump(std::size_t line_number)
         m_line_number = line_number;
         return;
     }
+    // Lines are added after the last one, which may be below the current one
+    m_line_number = last_line_number;
     std::size_t n = std::size_t(line_number - last_line_number);
     for (std::size_t i = 0; i < n; ++i) {
         format_newline(); // Throws
-- 
2.43.0


From c0d53da12da7b0b4bb908471040b98b6aa43845d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:52 +0000
Subject: [PATCH 031/119] fix: Knuth word wrapper reported badness of previous
 operation when there were fewer than two words

---
 src/archon/core/word_wrap.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/archon/core/word_wrap.cpp b/src/archon/core/word_wrap.cpp
index 3647a4e..2b5d201 100644
--- a/src/archon/core/word_wrap.cpp
+++ b/src/archon/core/word_wrap.cpp
@@ -108,6 +108,7 @@ void KnuthWrapper::wrap(core::Span<const word_wrap::Word> words, std::size_t tra
     // To "move down" means to "break onto a new output line".
 
     breakpoints.clear();
+    m_badness = 0;
 
     std::size_t num_words = words.size();
     if (ARCHON_UNLIKELY(num_words < 2))
-- 
2.43.0


From cb3075d0caa80d91a4a0608f7b903a8be6c897d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:53 +0000
Subject: [PATCH 032/119] fix: as_byte_size() used binary prefix for sizes
 below 1024 bytes

---
 src/archon/core/format_as.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/core/format_as.hpp b/src/archon/core/format_as.hpp
index 87a59cc..2621af7 100644
--- a/src/archon/core/format_as.hpp
+++ b/src/archon/core/format_as.hpp
@@ -538,7 +538,7 @@ template<class C, class T> auto operator<<(std::basic_ostream<C, T>& out, AsTime
 template<class C, class T>
 auto operator<<(std::basic_ostream<C, T>& out, impl::AsByteSize pod) -> std::basic_ostream<C, T>&
 {
-    if (std::abs(pod.value) >= as_quant_limit()) {
+    if (std::abs(pod.value) >= 1024) {
         out << as_quant_bin(pod.value, " B"); // Throws
     }
     else {
-- 
2.43.0


From 66ba1bd6375ec73bae82055bc114ca87c7f309f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:53 +0000
Subject: [PATCH 033/119] fix: as_list() in "loose" mode inserted space between
 brackets of empty list

---
 src/archon/core/as_list.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/archon/core/as_list.hpp b/src/archon/core/as_list.hpp
index 01315cf..cc1195e 100644
--- a/src/archon/core/as_list.hpp
+++ b/src/archon/core/as_list.hpp
@@ -312,6 +312,8 @@ auto format_as_list(std::basic_ostream<C, T>& out, I begin, I end, F&& func,
             break;
     }
     auto i = begin;
+    if (i == end)
+        space_inside_brackets = false;
     if (config.bracketed) {
         helper.out << out.widen(config.opening_bracket); // Throws
         if (space_inside_brackets)
-- 
2.43.0


From 8289c5638fab6d47c2f2dd4c4ce37d503d93e4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:53 +0000
Subject: [PATCH 034/119] fix: as_list() failed to parse bracketed empty list

---
 src/archon/core/as_list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/core/as_list.hpp b/src/archon/core/as_list.hpp
index cc1195e..3000725 100644
--- a/src/archon/core/as_list.hpp
+++ b/src/archon/core/as_list.hpp
@@ -418,7 +418,7 @@ bool parse_as_list(core::BasicValueParserSource<C, T>& src, I begin, I end, I& r
             return false; // Error
         }
     }
-    if (ARCHON_LIKELY(str.empty())) {
+    if (ARCHON_LIKELY(begin_2 == end_2)) {
         reached = end;
         return true; // Trivial success
     }
-- 
2.43.0


From 13cc571e32c32e759bb7b3c021dc5ea59c332f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:53 +0000
Subject: [PATCH 035/119] fix: as_list_a() accepted elision beyond minimum
 number of elements when parsing

---
 src/archon/core/as_list.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/archon/core/as_list.hpp b/src/archon/core/as_list.hpp
index 3000725..2e2f1ec 100644
--- a/src/archon/core/as_list.hpp
+++ b/src/archon/core/as_list.hpp
@@ -530,6 +530,8 @@ bool parse_value(core::BasicValueParserSource<C, T>& src, const impl::AsListA<V>
         if (ARCHON_LIKELY(!pod.seq.empty())) {
             std::size_t elision_offset = std::size_t(reached - begin);
             ARCHON_ASSERT(elision_offset > 0);
+            if (ARCHON_UNLIKELY(reached != end && elision_offset < pod.min_elems))
+                return false; // Failure
             V fill_val = {}; // Throws
             if (ARCHON_UNLIKELY(pod.copy_last))
                 fill_val = pod.seq[elision_offset - 1]; // Throws
@@ -580,6 +582,8 @@ bool parse_value(core::BasicValueParserSource<C, T>& src, const impl::AsListFunc
         if (ARCHON_LIKELY(!pod.seq.empty())) {
             std::size_t elision_offset = std::size_t(reached - begin);
             ARCHON_ASSERT(elision_offset > 0);
+            if (ARCHON_UNLIKELY(reached != end && elision_offset < pod.min_elems))
+                return false; // Failure
             V fill_val = {}; // Throws
             if (ARCHON_UNLIKELY(pod.copy_last))
                 fill_val = pod.seq[elision_offset - 1]; // Throws
-- 
2.43.0


From 9ca61eeada228f50d861a8061d26ad94a6921045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:53 +0000
Subject: [PATCH 036/119] fix: String template parser referred to locale object
 beyond its lifetime

---
 src/archon/core/string_template.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/core/string_template.hpp b/src/archon/core/string_template.hpp
index 187a6bf..9f1fd3a 100644
--- a/src/archon/core/string_template.hpp
+++ b/src/archon/core/string_template.hpp
@@ -337,7 +337,7 @@ private:
     template<class F> class FuncCallErrorHandler;
 
     core::BasicStringFormatter<char_type, traits_type> m_string_formatter;
-    const std::locale& m_locale;
+    const std::locale m_locale;
     core::ArraySeededBuffer<Substitution, 8> m_buffer;
 
     void do_parse(const char* c_str, const Parameters&, BasicStringTemplate&);
-- 
2.43.0


From 18ace254a41796fd19e28fbe5c14a0729a5c3350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:44 +0000
Subject: [PATCH 037/119] fix: log::BasicJailLogger could not be instantiated
 due to misspelled name of base class

---
 src/archon/log/jail_logger.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/archon/log/jail_logger.hpp b/src/archon/log/jail_logger.hpp
index 6560568..8da1d90 100644
--- a/src/archon/log/jail_logger.hpp
+++ b/src/archon/log/jail_logger.hpp
@@ -51,7 +51,7 @@ namespace archon::log {
 /// connected to any channel in the target logger.
 ///
 template<class C, class T = std::char_traits<C>> class BasicJailLogger final
-    : private log::BasicCannelMap<C, T>
+    : private log::BasicChannelMap<C, T>
     , public log::BasicLogger<C, T> {
 public:
     using prefix_type  = log::BasicPrefix<C, T>;
@@ -69,7 +69,7 @@ private:
 
     BasicJailLogger(logger_type& target_logger, channel_type& target_channel) noexcept;
 
-    // Overriding functions from log::BasicCannelMap<C, T>
+    // Overriding functions from log::BasicChannelMap<C, T>
     auto do_get_channels() const noexcept -> core::Span<const channel_type> override;
 };
 
-- 
2.43.0


From 56fa7a57dde3b366939ba9d7174e7e46d88d34ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:44 +0000
Subject: [PATCH 038/119] fix: Inverted assertion in
 log::BasicLimitLogger::set_log_level_limit()

---
 src/archon/log/limit_logger.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/log/limit_logger.hpp b/src/archon/log/limit_logger.hpp
index a7ade20..f398f57 100644
--- a/src/archon/log/limit_logger.hpp
+++ b/src/archon/log/limit_logger.hpp
@@ -102,7 +102,7 @@ public:
 
     void set(LogLevel limit) noexcept
     {
-        ARCHON_ASSERT(m_fixed_limit != std::numeric_limits<int>::max());
+        ARCHON_ASSERT(m_fixed_limit == std::numeric_limits<int>::max());
         m_variable_limit.store(limit, std::memory_order_relaxed);
     }
 
-- 
2.43.0


From 3cf770ec77c24910fac5e0c0df913213f257ec25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:44 +0000
Subject: [PATCH 039/119] fix: log::BasicLimitLogger applied limit to selected
 channel even when that channel was not covered by the specified pattern

---
 src/archon/log/limit_logger.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/archon/log/limit_logger.hpp b/src/archon/log/limit_logger.hpp
index f398f57..0c6e7a5 100644
--- a/src/archon/log/limit_logger.hpp
+++ b/src/archon/log/limit_logger.hpp
@@ -224,7 +224,8 @@ inline void BasicLimitLogger<C, T>::set_log_level_limit(log::LogLevel limit) noe
 
 template<class C, class T>
 inline BasicLimitLogger<C, T>::BasicLimitLogger(Interm&& i, int fixed_limit) noexcept
-    : logger_type(fixed_limit, m_limit, i.prefix, *i.channel, *this)
+    : logger_type((&i.channel->get_limit() == &m_limit ? fixed_limit : i.channel->get_limit().get_fixed_limit()),
+                  i.channel->get_limit(), i.prefix, *i.channel, *this)
     , m_limit(fixed_limit)
     , m_sinks(std::move(i.sinks))
     , m_channels(std::move(i.channels))
-- 
2.43.0


From f2f2881abf42b02efd37d403e201bc83e5c17532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:44 +0000
Subject: [PATCH 040/119] fix: log::BasicEncodingLogger emitted base logger
 prefix after channel prefix of encoding side

---
 src/archon/log/impl/encoding_logger_impl.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/archon/log/impl/encoding_logger_impl.hpp b/src/archon/log/impl/encoding_logger_impl.hpp
index 48931a7..811fd92 100644
--- a/src/archon/log/impl/encoding_logger_impl.hpp
+++ b/src/archon/log/impl/encoding_logger_impl.hpp
@@ -244,8 +244,10 @@ inline void EncodingLoggerImpl2<C, T>::SinkImpl::sink_log(log::LogLevel log_leve
                                                           const prefix_type& message_prefix, string_view_type message)
 {
     core::ArraySeededBuffer<char, channel_type::format_seed_memory_size> buffer;
-    BridgingPrefix channel_prefix_2(m_base_channel_prefix, channel_prefix);
-    BridgingPrefix message_prefix_2(m_base_message_prefix, message_prefix);
+    log::CompoundPrefix base_prefix(m_base_channel_prefix, m_base_message_prefix);
+    log::NullPrefix null_prefix;
+    BridgingPrefix channel_prefix_2(base_prefix, channel_prefix);
+    BridgingPrefix message_prefix_2(null_prefix, message_prefix);
     std::string_view message_2 = m_string_codec.encode(message, buffer); // Throws
     m_base_sink.sink_log(log_level, channel_prefix_2, message_prefix_2, message_2); // Throws
 }
-- 
2.43.0


From c8d0d6749172da7c5cc0d0a2f8abfbf8c1300ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:16 +0000
Subject: [PATCH 041/119] fix: cli::BasicProcessor::process() ignored nonzero
 exit status from function of non-completing pattern

---
 src/archon/cli/processor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/cli/processor.hpp b/src/archon/cli/processor.hpp
index 273b52c..325a983 100644
--- a/src/archon/cli/processor.hpp
+++ b/src/archon/cli/processor.hpp
@@ -437,7 +437,7 @@ bool BasicProcessor<C, T>::process(int& exit_status) const
                                                       error_accum, exit_status_2); // Throws
                 if (ARCHON_LIKELY(success)) {
                     bool completing = ((pattern->attr & cli::completing) != 0);
-                    if (ARCHON_LIKELY(!completing))
+                    if (ARCHON_LIKELY(!completing && exit_status_2 == 0))
                         return false;
                     exit_status = exit_status_2;
                     return true;
-- 
2.43.0


From 2d3da0f85f05a49be4c8a6e8501998453f11b1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:16 +0000
Subject: [PATCH 042/119] fix: Command-line pattern parameter of type
 `std::size_t` was accepted for alternatives construct, but led to assertion
 failure

---
 src/archon/cli/impl/pattern_args_parser.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/archon/cli/impl/pattern_args_parser.hpp b/src/archon/cli/impl/pattern_args_parser.hpp
index c5600b3..0149305 100644
--- a/src/archon/cli/impl/pattern_args_parser.hpp
+++ b/src/archon/cli/impl/pattern_args_parser.hpp
@@ -400,6 +400,12 @@ private:
         }
         else if constexpr (std::is_same_v<U, std::size_t>) {
             if (ARCHON_LIKELY(desc.elem->type != Elem::Type::opt)) {
+                if (ARCHON_LIKELY(desc.elem->type == Elem::Type::alt)) {
+                    ARCHON_ASSERT(desc.elem->collapsible);
+                    std::size_t branch_index = desc.value;
+                    elem = branch_index;
+                    return true;
+                }
                 if (ARCHON_LIKELY(desc.elem->type != Elem::Type::rep))
                     goto regular;
             }
-- 
2.43.0


From da569de57ae040266e834918925b91b74dc18cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:16 +0000
Subject: [PATCH 043/119] fix: Missing check for option whose action requires
 an argument when no argument is allowed

---
 src/archon/cli/impl/spec.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/archon/cli/impl/spec.hpp b/src/archon/cli/impl/spec.hpp
index 3d78dfe..dd4a641 100644
--- a/src/archon/cli/impl/spec.hpp
+++ b/src/archon/cli/impl/spec.hpp
@@ -322,10 +322,10 @@ void Spec<C, T>::add_option(core::IndexRange forms, ArgSpec arg, int attr, strin
             error(cli::SpecError::option_func_mismatch,
                   "Option action does not accept an option argument"); // Throws
         }
-        if (ARCHON_UNLIKELY(!arg.require && action.require_arg())) {
-            error(cli::SpecError::option_func_mismatch,
-                  "Option action does not allow for option argument to be optional"); // Throws
-        }
+    }
+    if (ARCHON_UNLIKELY(!arg.require && action.require_arg())) {
+        error(cli::SpecError::option_func_mismatch,
+              "Option action does not allow for option argument to be optional"); // Throws
     }
 
     // Verify that no option form is used in previously added option
-- 
2.43.0


From 3d20993c0527f346b6d28ff17883bc9e0aec1dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:27 +0000
Subject: [PATCH 044/119] fix: Structural ambiguity in command-line pattern was
 reported with wrong error code

---
 src/archon/cli/impl/spec_parser.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/archon/cli/impl/spec_parser.hpp b/src/archon/cli/impl/spec_parser.hpp
index 5d0716d..e3e8456 100644
--- a/src/archon/cli/impl/spec_parser.hpp
+++ b/src/archon/cli/impl/spec_parser.hpp
@@ -126,7 +126,7 @@ private:
     void extract_next_token();
 
     template<class... P> [[noreturn]] void parse_error(const char* message, const P&... params) const;
-    template<class... P> [[noreturn]] void error(const char* message, const P&... params) const;
+    template<class... P> [[noreturn]] void error(cli::SpecError, const char* message, const P&... params) const;
     template<class... P> auto format_except(const char* message, const P&... params) const -> std::string;
 
     bool get_option_forms(std::size_t node_index, core::BufferContents<OptionForm>&) const;
@@ -495,7 +495,7 @@ auto SpecParser<C, T>::PatternStructureRecorder::record(std::size_t node_index,
                 // not be clear whether the std::optional object associated with the
                 // outer-most optionality construct should have a value.
                 if (ARCHON_UNLIKELY(level.seq.nullable)) {
-                    parser.error("Pattern-internal structural ambiguity: "
+                    parser.error(cli::SpecError::structural_ambiguity, "Pattern-internal structural ambiguity: "
                                  "Optionality construct with nullable sub-pattern"); // Throws
                 }
                 typename Elem::Type type = Elem::Type::opt;
@@ -515,7 +515,7 @@ auto SpecParser<C, T>::PatternStructureRecorder::record(std::size_t node_index,
                 // clear how many elements should be in the std::vector object associated
                 // with the repetition construct.
                 if (ARCHON_UNLIKELY(level.seq.nullable)) {
-                    parser.error("Pattern-internal structural ambiguity: "
+                    parser.error(cli::SpecError::structural_ambiguity, "Pattern-internal structural ambiguity: "
                                  "Repetition construct with nullable sub-pattern"); // Throws
                 }
                 // This repetition construct has internal ambiguity if there is some
@@ -528,7 +528,7 @@ auto SpecParser<C, T>::PatternStructureRecorder::record(std::size_t node_index,
                 // should have one and two elements respectively, or whether it should be
                 // the other way around (2 elements in the outer-most std::vector object).
                 if (ARCHON_UNLIKELY(level.seq.repeating)) {
-                    parser.error("Pattern-internal structural ambiguity: "
+                    parser.error(cli::SpecError::structural_ambiguity, "Pattern-internal structural ambiguity: "
                                  "Repetition construct with repeating sub-pattern"); // Throws
                 }
                 typename Elem::Type type = Elem::Type::rep;
@@ -564,7 +564,7 @@ auto SpecParser<C, T>::PatternStructureRecorder::record(std::size_t node_index,
                         // alternatives construct should have its first or second
                         // alternative materialized.
                         if (ARCHON_UNLIKELY(level.alt.multiple_nullable_seqs)) {
-                            parser.error("Pattern-internal structural ambiguity: "
+                            parser.error(cli::SpecError::structural_ambiguity, "Pattern-internal structural ambiguity: "
                                          "Alternatives construct with multiple nullable branches"); // Throws
                         }
                         typename Elem::Type type = Elem::Type::alt;
@@ -874,18 +874,18 @@ void SpecParser<C, T>::extract_next_token()
 template<class C, class T>
 template<class... P> inline void SpecParser<C, T>::parse_error(const char* message, const P&... params) const
 {
-    error("Failed to parse %s specification: %s", m_error_qualifier.component,
+    error(m_error_qualifier.code, "Failed to parse %s specification: %s", m_error_qualifier.component,
           core::formatted(message, params...)); // Throws
 }
 
 
 template<class C, class T>
-template<class... P> void SpecParser<C, T>::error(const char* message, const P&... params) const
+template<class... P> void SpecParser<C, T>::error(cli::SpecError code, const char* message, const P&... params) const
 {
     std::string message_2 = format_except("Error in %s %s specification: %s",
                                           core::as_ordinal(1 + m_error_qualifier.index), m_error_qualifier.entity,
                                           core::formatted(message, params...)); // Throws
-    throw cli::BadSpec(m_error_qualifier.code, std::move(message_2));
+    throw cli::BadSpec(code, std::move(message_2));
 }
 
 
-- 
2.43.0


From 3941b289af0a198aa2edfb11ab6e60889fe3823e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:39 +0000
Subject: [PATCH 045/119] fix: Parsing of random seed rejected blocks
 containing a 64-bit word with all bits set

Such seeds are valid, and are produced by the output operator.
---
 src/archon/check/random_seed.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/check/random_seed.hpp b/src/archon/check/random_seed.hpp
index ac17929..937fcfb 100644
--- a/src/archon/check/random_seed.hpp
+++ b/src/archon/check/random_seed.hpp
@@ -428,7 +428,7 @@ template<class C, class T> auto operator>>(std::basic_istream<C, T>& in, RandomS
                     if (ARCHON_UNLIKELY(!core::try_int_add(value, digit)))
                         return false;
                 }
-                if (ARCHON_UNLIKELY(value >= core::int_mask<std::uint_fast64_t>(64)))
+                if (ARCHON_UNLIKELY(value > core::int_mask<std::uint_fast64_t>(64)))
                     return false;
                 auto mask = core::int_mask<RandomSeed::value_type>(32);
                 auto word_1 = RandomSeed::value_type(value         & mask);
-- 
2.43.0


From 593349885bb87c282a088125a2f9c47188d3a302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:06 +0000
Subject: [PATCH 046/119] fix: Failures in concurrent tests were forgotten by
 test runner when there were also nonconcurrent tests

The counters of the test thread that goes on to execute the nonconcurrent tests were reset
between the two phases. As a consequence, the testing process could be reported as
successful even when a test had failed. Also, when a single test thread had only concurrent
tests to execute, the end of that thread was reported twice.
---
 src/archon/check/noinst/thread_context_impl.cpp | 2 --
 src/archon/check/test_runner.cpp                | 3 ++-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/archon/check/noinst/thread_context_impl.cpp b/src/archon/check/noinst/thread_context_impl.cpp
index 27d96bf..c515481 100644
--- a/src/archon/check/noinst/thread_context_impl.cpp
+++ b/src/archon/check/noinst/thread_context_impl.cpp
@@ -79,8 +79,6 @@ void ThreadContextImpl::run()
 
 void ThreadContextImpl::nonconcur_run()
 {
-    clear_counters();
-
     std::unique_lock lock(m_root_context.mutex); // Throws
 
     for (auto entry : m_root_context.nonconcur_execs)
diff --git a/src/archon/check/test_runner.cpp b/src/archon/check/test_runner.cpp
index d3920ab..6ea1d25 100644
--- a/src/archon/check/test_runner.cpp
+++ b/src/archon/check/test_runner.cpp
@@ -354,7 +354,8 @@ bool TestRunner::run() const
         log::Logger& logger = (loggers[0] ? *loggers[0] : m_logger);
         ThreadContextImpl thread_context(root_context, 0, logger, m_config.inner_log_level_limit); // Throws
         thread_context.run(); // Throws
-        thread_context.nonconcur_run(); // Throws
+        if (root_context.last_thread_to_end != -1)
+            thread_context.nonconcur_run(); // Throws
     }
     else {
         std::unique_ptr<std::unique_ptr<ThreadContextImpl>[]> thread_contexts =
-- 
2.43.0


From bba41ee7e19d3d09f7fc94bcfd9f169715296bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:06 +0000
Subject: [PATCH 047/119] fix: XML reporter kept references to mapped file
 paths beyond their lifetime

---
 src/archon/check/xml_reporter.cpp | 2 +-
 src/archon/check/xml_reporter.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/archon/check/xml_reporter.cpp b/src/archon/check/xml_reporter.cpp
index 57e60a9..5cd3900 100644
--- a/src/archon/check/xml_reporter.cpp
+++ b/src/archon/check/xml_reporter.cpp
@@ -87,7 +87,7 @@ void XmlReporter::begin(const check::TestContext& context, log::Logger&)
 void XmlReporter::fail(const check::FailContext& context, std::string_view message, log::Logger&)
 {
     Failure f;
-    f.file_path = context.mapped_file_path;
+    f.file_path = std::string(context.mapped_file_path); // Throws
     f.line_number = context.location.line_number;
     f.message = std::string(message); // Throws
     const check::TestContext& test_context = context.test_context;
diff --git a/src/archon/check/xml_reporter.hpp b/src/archon/check/xml_reporter.hpp
index d965a44..f01669d 100644
--- a/src/archon/check/xml_reporter.hpp
+++ b/src/archon/check/xml_reporter.hpp
@@ -56,7 +56,7 @@ public:
 
 protected:
     struct Failure {
-        std::string_view file_path;
+        std::string file_path;
         long line_number;
         std::string message;
     };
-- 
2.43.0


From b17825505ba453af616700df8206771894469d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:06 +0000
Subject: [PATCH 048/119] fix: XML reporter could produce malformed XML

File paths were not escaped, and control characters occurring in messages were passed
through unchanged.
---
 src/archon/check/xml_reporter.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/archon/check/xml_reporter.cpp b/src/archon/check/xml_reporter.cpp
index 5cd3900..35c664e 100644
--- a/src/archon/check/xml_reporter.cpp
+++ b/src/archon/check/xml_reporter.cpp
@@ -64,6 +64,20 @@ auto operator<<(std::ostream& out, const AsXmlEscaped& pod) -> std::ostream&
                 case '"':
                     helper.write("&quot;"); // Throws
                     continue;
+                case '\t':
+                    helper.write("&#9;"); // Throws
+                    continue;
+                case '\n':
+                    helper.write("&#10;"); // Throws
+                    continue;
+                case '\r':
+                    helper.write("&#13;"); // Throws
+                    continue;
+            }
+            if (ARCHON_UNLIKELY(static_cast<unsigned char>(ch) < 32)) {
+                // Such characters are not allowed in XML, not even when escaped
+                helper.write("&#xFFFD;"); // Throws
+                continue;
             }
             helper.put(ch); // Throws
         }
@@ -137,7 +151,7 @@ void XmlReporter::root_end(const check::RootContext& context, const check::Summa
         m_out << ">\n"; // Throws
 
         for (auto& i_2 : t.failures) {
-            m_out << "    <failure message=\"" << i_2.file_path << "(" << i_2.line_number << ") : "
+            m_out << "    <failure message=\"" << as_xml_escaped(i_2.file_path) << "(" << i_2.line_number << ") : "
                 "" << as_xml_escaped(i_2.message) << "\"/>\n"; // Throws
         }
         m_out << "  </test>\n"; // Throws
-- 
2.43.0


From 989933fd96db5fcbbff136c9bc69571455772c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:06 +0000
Subject: [PATCH 049/119] fix: Failures of ARCHON_CHECK_NOTHROW() were reported
 as failures of ARCHON_CHECK_THROW_ANY()

---
 src/archon/check/test_context.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/archon/check/test_context.cpp b/src/archon/check/test_context.cpp
index 98eebeb..dad98ad 100644
--- a/src/archon/check/test_context.cpp
+++ b/src/archon/check/test_context.cpp
@@ -193,11 +193,11 @@ void TestContext::check_nothrow_failed_2(check::Location location, std::string_v
     core::StringFormatter formatter(seed_memory, locale); // Throws
     std::string_view message;
     if (exc) {
-        message = formatter.format("ARCHON_CHECK_THROW_ANY(%s) failed: Did throw %s: %s", expr_text,
+        message = formatter.format("ARCHON_CHECK_NOTHROW(%s) failed: Did throw %s: %s", expr_text,
                                    core::get_type_name(*exc), exc->what()); // Throws
     }
     else {
-        message = formatter.format("ARCHON_CHECK_THROW_ANY(%s) failed: Did throw exception of unknown type",
+        message = formatter.format("ARCHON_CHECK_NOTHROW(%s) failed: Did throw exception of unknown type",
                                    expr_text); // Throws
     }
     check_failed(location, message); // Throws
-- 
2.43.0


From 7140184ccf241f08df1efbb35da31a5814488b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:36 +0000
Subject: [PATCH 050/119] fix: Rotation axis obtained from quaternion
 representing very small rotation was not a unit vector

---
 src/archon/math/quaternion.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/archon/math/quaternion.hpp b/src/archon/math/quaternion.hpp
index a32635e..4431073 100644
--- a/src/archon/math/quaternion.hpp
+++ b/src/archon/math/quaternion.hpp
@@ -24,6 +24,7 @@
 /// \file
 
 
+#include <algorithm>
 #include <cmath>
 #include <ostream>
 
@@ -401,11 +402,13 @@ inline auto Quaternion::from_axis_cos_angle(const vector_type& axis, comp_type c
 
 template<class T> void Quaternion::to_axis_angle(math::Vector<3, T>& axis, T& angle) const noexcept
 {
-    comp_type s = math::sq_sum(v);
-    if (ARCHON_LIKELY(s != 0)) {
-        comp_type l = std::sqrt(s);
-        axis = v / l;
-        angle = 2 * std::atan2(l, w);
+    // Scale the vector part prior to squaring in order to avoid underflow and overflow.
+    comp_type m = std::max({ std::abs(v[0]), std::abs(v[1]), std::abs(v[2]) });
+    if (ARCHON_LIKELY(m != 0)) {
+        vector_type u = v / m;
+        comp_type l = math::len(u);
+        axis = u / l;
+        angle = 2 * std::atan2(m * l, w);
         return;
     }
     axis = { 1, 0, 0 };
-- 
2.43.0


From e19a121bebcfdcda86e5dbfe528b5518a4e6b66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:41 +0000
Subject: [PATCH 051/119] fix: Missing CSS color keyword `yellowgreen`

---
 src/archon/util/colors.hpp    | 1 +
 src/archon/util/css_color.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/archon/util/colors.hpp b/src/archon/util/colors.hpp
index 9afca3e..ff96caa 100644
--- a/src/archon/util/colors.hpp
+++ b/src/archon/util/colors.hpp
@@ -184,6 +184,7 @@ inline constexpr auto wheat                = util::Color::from_trgb(0x00F5DEB3);
 inline constexpr auto white                = util::Color::from_trgb(0x00FFFFFF);
 inline constexpr auto whitesmoke           = util::Color::from_trgb(0x00F5F5F5);
 inline constexpr auto yellow               = util::Color::from_trgb(0x00FFFF00);
+inline constexpr auto yellowgreen          = util::Color::from_trgb(0x009ACD32);
 
 
 } // namespace archon::util::colors
diff --git a/src/archon/util/css_color.cpp b/src/archon/util/css_color.cpp
index 321cb0c..ceb7b1e 100644
--- a/src/archon/util/css_color.cpp
+++ b/src/archon/util/css_color.cpp
@@ -270,6 +270,7 @@ constexpr NamedColorEntry g_named_colors[] = {
     { "white",                colors::white,                true  },
     { "whitesmoke",           colors::whitesmoke,           false },
     { "yellow",               colors::yellow,               true  },
+    { "yellowgreen",          colors::yellowgreen,          false },
 };
 
 
-- 
2.43.0


From d51321fb818e179133bcb9e75cf3ddb828eae669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:41 +0000
Subject: [PATCH 052/119] fix: Out-of-range saturation and lightness in CSS
 color was not clipped before conversion to RGB

---
 src/archon/util/css_color.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/archon/util/css_color.cpp b/src/archon/util/css_color.cpp
index ceb7b1e..d6b528b 100644
--- a/src/archon/util/css_color.cpp
+++ b/src/archon/util/css_color.cpp
@@ -109,7 +109,11 @@ auto to_hex(util::CssColor::RgbP rgb) noexcept -> util::CssColor::Hex
 auto to_hex(util::CssColor::Hsl hsl) noexcept -> util::CssColor::Hex
 {
     using vector_type = math::Vector<3, flt_comp_type>;
-    vector_type hsl_2 = { hsl.h / 360, hsl.s / 100, hsl.l / 100 };
+    // CSS requires that out-of-range saturation and lightness values are clipped before
+    // conversion to RGB.
+    flt_comp_type s = std::clamp(hsl.s, flt_comp_type(0), flt_comp_type(100));
+    flt_comp_type l = std::clamp(hsl.l, flt_comp_type(0), flt_comp_type(100));
+    vector_type hsl_2 = { hsl.h / 360, s / 100, l / 100 };
     vector_type rgb = util::cvt_HSL_to_sRGB(hsl_2);
     return to_hex(rgb[0], rgb[1], rgb[2], hsl.a);
 }
-- 
2.43.0


From 599a7e750f2cc3a97107e59ce4ac506762d5a285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:41 +0000
Subject: [PATCH 053/119] fix: White space was not accepted in all the places
 allowed by CSS in functional color notation

---
 src/archon/util/css_color.cpp | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/archon/util/css_color.cpp b/src/archon/util/css_color.cpp
index d6b528b..cc83af0 100644
--- a/src/archon/util/css_color.cpp
+++ b/src/archon/util/css_color.cpp
@@ -513,14 +513,8 @@ public:
         if (ARCHON_LIKELY(p != m_end)) {
             if (ARCHON_LIKELY(p != m_begin)) {
                 if (ARCHON_LIKELY(*p == ',')) {
-                  again:
                     ++p;
-                    if (ARCHON_LIKELY(p != m_end)) {
-                        // FIXME: Should spaces always be allowed here?                                                        
-                        if (ARCHON_LIKELY(*p == ' '))
-                            goto again;
-                        goto arg;
-                    }
+                    goto arg;
                 }
                 return false; // Failure
             }
@@ -529,10 +523,12 @@ public:
         return false; // Failure
 
       arg:
-        ARCHON_ASSERT(p != m_end);
+        p = skip_space(p);
+        if (ARCHON_UNLIKELY(p == m_end))
+            return false; // Failure
         const char* begin = p;
         for (;;) {
-            if (ARCHON_LIKELY(*p != '%' && *p != ',')) {
+            if (ARCHON_LIKELY(*p != '%' && *p != ',' && !is_space(*p))) {
                 ++p;
                 if (ARCHON_LIKELY(p != m_end))
                     continue;
@@ -550,7 +546,7 @@ public:
                 is_percent = true;
                 ++p;
             }
-            m_curr = p;
+            m_curr = skip_space(p);
             return true; // Success
         }
         return false; // Failure
@@ -566,6 +562,18 @@ private:
     const char* m_begin;
     const char* m_end;
     const char* m_curr;
+
+    static bool is_space(char ch) noexcept
+    {
+        return (ch == ' ' || ch == '\t' || ch == '\n' || ch == '\f' || ch == '\r');
+    }
+
+    auto skip_space(const char* p) const noexcept -> const char*
+    {
+        while (p != m_end && is_space(*p))
+            ++p;
+        return p;
+    }
 };
 
 
-- 
2.43.0


From 7ed31ce48fed78e8e591fdaa6fb36f851ba82edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:58 +0000
Subject: [PATCH 054/119] fix: CSS color keywords and function names were not
 recognized case-insensitively

---
 src/archon/util/css_color.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/archon/util/css_color.cpp b/src/archon/util/css_color.cpp
index cc83af0..dfca47c 100644
--- a/src/archon/util/css_color.cpp
+++ b/src/archon/util/css_color.cpp
@@ -497,6 +497,21 @@ void format_hsl(flt_comp_type h, flt_comp_type s, flt_comp_type l, flt_comp_type
 }
 
 
+// Keywords and function names are ASCII case-insensitive in CSS. If the specified string does
+// not fit in the buffer, it is too long to be a keyword, and the result is the empty string.
+auto to_lowercase(std::string_view string, std::array<char, 32>& buffer) noexcept -> std::string_view
+{
+    std::size_t n = string.size();
+    if (ARCHON_UNLIKELY(n > buffer.size()))
+        return {};
+    for (std::size_t i = 0; i < n; ++i) {
+        char ch = string[i];
+        buffer[i] = (ch >= 'A' && ch <= 'Z' ? char(ch - 'A' + 'a') : ch);
+    }
+    return { buffer.data(), n };
+}
+
+
 class ArgsParser {
 public:
     ArgsParser(std::string_view string)
@@ -812,7 +827,8 @@ bool CssColor::parse(core::StringSpan<char> string, CssLevel level)
             }
             return false; // Failure (bad functional form)
         }
-        std::string_view label = string_2.substr(0, i);
+        std::array<char, 32> buffer;
+        std::string_view label = to_lowercase(string_2.substr(0, i), buffer);
         std::string_view args = string_2.substr(std::size_t(i + 1), std::size_t(n - (i + 1)));
         if (ARCHON_LIKELY(label == "rgb" || label == "rgba")) {
             bool with_alpha = (label == "rgba");
@@ -837,8 +853,9 @@ bool CssColor::parse(core::StringSpan<char> string, CssLevel level)
 
     // Check for named color
   next_2:
+    std::array<char, 32> buffer;
     Name name = {};
-    if (ARCHON_LIKELY(find_named_color_by_name(string_2, name))) {
+    if (ARCHON_LIKELY(find_named_color_by_name(to_lowercase(string_2, buffer), name))) {
         *this = name;
         return true; // Success
     }
-- 
2.43.0


From 2f8b67a607f2cf8e15de061fa521e327527649ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:32 +0000
Subject: [PATCH 055/119] fix: Conversion of fraction of unity from
 floating-point to integer failed to produce maximum value for 1

---
 src/archon/util/unit_frac.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/archon/util/unit_frac.hpp b/src/archon/util/unit_frac.hpp
index 096bae5..e0ff6d1 100644
--- a/src/archon/util/unit_frac.hpp
+++ b/src/archon/util/unit_frac.hpp
@@ -202,6 +202,11 @@ constexpr auto flt_to_int(F flt_val, core::Type<I> max_int) noexcept -> I
     static_assert((core::int_max<I>() & 1) == 1);
     F v = flt_val;
     if (ARCHON_LIKELY(v >= F(0))) {
+        // If there are integers that cannot be represented exactly by the floating-point
+        // type, the scaling below may produce a value that is less than the maximum value.
+        if (ARCHON_UNLIKELY(v >= F(1)))
+            return max_int;
+
         if constexpr (!alt) {
             // Model: Default
             // Intuition: v = floor(v * (max_int + 1))
-- 
2.43.0


From bfeae6e273b4bcef0145e20e3e02f7f27bd3ba78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:23 +0000
Subject: [PATCH 056/119] fix: Rectangle packer terminated the program if
 packing was attempted again, e.g., after failure to pack into too small a bin

---
 src/archon/util/rectangle_packer.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/archon/util/rectangle_packer.hpp b/src/archon/util/rectangle_packer.hpp
index d6c0379..3c561c6 100644
--- a/src/archon/util/rectangle_packer.hpp
+++ b/src/archon/util/rectangle_packer.hpp
@@ -277,6 +277,10 @@ void RectanglePacker<T>::get_rect_pos(std::size_t rect_index, std::size_t& bin_i
 template<class T>
 bool RectanglePacker<T>::do_pack(comp_type bin_width, comp_type bin_height, std::size_t max_bins)
 {
+    // Discard result of any previous packing attempt
+    m_bins.clear();
+    m_nodes.clear();
+
     if (ARCHON_UNLIKELY(m_margin > bin_width  || m_margin > bin_width  - m_margin ||
                         m_margin > bin_height || m_margin > bin_height - m_margin))
         return false;
@@ -296,8 +300,6 @@ bool RectanglePacker<T>::do_pack(comp_type bin_width, comp_type bin_height, std:
     });
 
     // Place rectangles
-    ARCHON_ASSERT(m_nodes.empty());
-    ARCHON_ASSERT(m_bins.empty());
     auto add_node = [&](comp_type x, comp_type y, comp_type w, comp_type h) {
         bool occupied = false;
         std::size_t right_node = std::size_t(-1);
-- 
2.43.0


From 46414497e5a9efef076f4650c9c40367afa06895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:23 +0000
Subject: [PATCH 057/119] fix: Bin width suggested by rectangle packer was
 wrong when using spacing, and could not be computed if total area was too
 large

---
 src/archon/util/rectangle_packer.hpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/archon/util/rectangle_packer.hpp b/src/archon/util/rectangle_packer.hpp
index 3c561c6..05e30c5 100644
--- a/src/archon/util/rectangle_packer.hpp
+++ b/src/archon/util/rectangle_packer.hpp
@@ -166,14 +166,17 @@ auto RectanglePacker<T>::suggest_bin_width() const noexcept -> comp_type
             part_type w = part_type(rect.w);
             part_type h = part_type(rect.h);
             if (ARCHON_LIKELY(core::try_int_add(w, m_spacing) &&
-                              core::try_int_add(w, m_spacing))) {
+                              core::try_int_add(h, m_spacing))) {
                 part_type a = w;
                 if (ARCHON_LIKELY(core::try_int_mul(a, h) && core::try_int_add(area, a)))
                     continue;
             }
             goto fallback;
         }
-        width = std::max(comp_type(core::int_sqrt(area) - m_spacing), min_width);
+        part_type size = core::int_sqrt(area);
+        part_type spacing = part_type(m_spacing);
+        part_type width_2 = (size > spacing ? size - spacing : part_type(0));
+        width = std::max(comp_type(std::min(width_2, part_type(max_comp))), min_width);
     }
 
   add_margins:
@@ -194,8 +197,8 @@ auto RectanglePacker<T>::suggest_bin_width() const noexcept -> comp_type
         // Need to be able to hold area of a rectangle whose sides lengths are
         // max_image_wisth + spacing and max_image_height + spacing.
         constexpr int bits = 2 * (core::num_value_bits<comp_type>() + 1);
-        constexpr int num_parts = bits / core::int_width<part_type>();
-        ARCHON_ASSERT(num_parts > 1); // Otherwise the attempt above would have succeeded
+        constexpr int part_width = core::int_width<part_type>();
+        constexpr int num_parts = (bits + (part_width - 1)) / part_width;
         constexpr bool is_signed = false;
         using mul_prec_type = core::MulPrecInt<part_type, num_parts, is_signed>;
         mul_prec_type spacing = mul_prec_type(m_spacing);
@@ -209,7 +212,10 @@ auto RectanglePacker<T>::suggest_bin_width() const noexcept -> comp_type
             }
             return max_comp;
         }
-        width = std::max(comp_type(core::int_sqrt(area) - mul_prec_type(m_spacing)), min_width);
+        mul_prec_type size = core::int_sqrt(area);
+        mul_prec_type width_2 = (size > spacing ? size - spacing : mul_prec_type(0));
+        mul_prec_type max = mul_prec_type(max_comp);
+        width = std::max(comp_type(width_2 < max ? width_2 : max), min_width);
     }
     goto add_margins;
 }
-- 
2.43.0


From 9072da6cb93afcb81b7928284910d2314c9e9d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:02 +0000
Subject: [PATCH 058/119] fix: Pixel box intersection, containment, and
 clipping overflowed and gave wrong results when boxes were far apart

---
 src/archon/util/pixel_box.hpp | 80 +++++++++++++++++++----------------
 1 file changed, 43 insertions(+), 37 deletions(-)

diff --git a/src/archon/util/pixel_box.hpp b/src/archon/util/pixel_box.hpp
index 0ef5fa1..7ac4412 100644
--- a/src/archon/util/pixel_box.hpp
+++ b/src/archon/util/pixel_box.hpp
@@ -209,20 +209,31 @@ constexpr bool Box::is_empty() const noexcept
 
 constexpr bool Box::intersects(const Box& other) const noexcept
 {
-    bool horz = (pos.x < other.pos.x ? size.width > other.pos.x - pos.x && other.size.width > 0 :
-                 other.size.width > pos.x - other.pos.x && size.width > 0);
-    bool vert = (pos.y < other.pos.y ? size.height > other.pos.y - pos.y && other.size.height > 0 :
-                 other.size.height > pos.y - other.pos.y && size.height > 0);
+    // Distances are computed in an unsigned type because they may not be representable as
+    // `int`
+    auto test = [](int pos_1, int size_1, int pos_2, int size_2) noexcept {
+        if (ARCHON_UNLIKELY(size_1 <= 0 || size_2 <= 0))
+            return false;
+        if (pos_1 < pos_2)
+            return unsigned(size_1) > unsigned(pos_2) - unsigned(pos_1);
+        return unsigned(size_2) > unsigned(pos_1) - unsigned(pos_2);
+    };
+    bool horz = test(pos.x, size.width, other.pos.x, other.size.width);
+    bool vert = test(pos.y, size.height, other.pos.y, other.size.height);
     return (horz && vert);
 }
 
 
 constexpr bool Box::contains(const Box& other) const noexcept
 {
-    bool horz = (other.pos.x >= pos.x && other.size.width <= size.width &&
-                 other.pos.x - pos.x <= size.width - other.size.width);
-    bool vert = (other.pos.y >= pos.y && other.size.height <= size.height &&
-                 other.pos.y - pos.y <= size.height - other.size.height);
+    // Distances are computed in an unsigned type because they may not be representable as
+    // `int`
+    auto test = [](int pos_1, int size_1, int pos_2, int size_2) noexcept {
+        return (pos_2 >= pos_1 && size_2 <= size_1 &&
+                unsigned(pos_2) - unsigned(pos_1) <= unsigned(size_1) - unsigned(size_2));
+    };
+    bool horz = test(pos.x, size.width, other.pos.x, other.size.width);
+    bool vert = test(pos.y, size.height, other.pos.y, other.size.height);
     return (horz && vert);
 }
 
@@ -241,37 +252,32 @@ constexpr bool Box::contains_pixel_at(const pixel::Pos& pos) const noexcept
 
 constexpr bool Box::clip(Box& other) const noexcept
 {
+    // Distances are computed in an unsigned type because they may not be representable as
+    // `int`
+    auto clip = [](int pos_1, int size_1, int& pos_2, int& size_2) noexcept {
+        if (ARCHON_UNLIKELY(size_1 <= 0 || size_2 <= 0))
+            return false;
+        if (ARCHON_LIKELY(pos_2 >= pos_1)) {
+            unsigned dist = unsigned(pos_2) - unsigned(pos_1);
+            if (ARCHON_UNLIKELY(dist >= unsigned(size_1)))
+                return false;
+            size_2 = std::min(size_2, int(unsigned(size_1) - dist));
+        }
+        else {
+            unsigned dist = unsigned(pos_1) - unsigned(pos_2);
+            if (ARCHON_UNLIKELY(dist >= unsigned(size_2)))
+                return false;
+            pos_2 = pos_1;
+            size_2 = std::min(size_1, int(unsigned(size_2) - dist));
+        }
+        return true;
+    };
     pixel::Pos pos_2   = other.pos;
     pixel::Size size_2 = other.size;
-
-    if (ARCHON_LIKELY(pos_2.x >= pos.x)) {
-        int discr = size.width - (pos_2.x - pos.x);
-        if (ARCHON_UNLIKELY(discr <= 0 || size_2.width <= 0))
-            return false;
-        size_2.width = std::min(size_2.width, discr);
-    }
-    else {
-        int discr = size_2.width - (pos.x - pos_2.x);
-        if (ARCHON_UNLIKELY(discr <= 0 || size.width <= 0))
-            return false;
-        pos_2.x = pos.x;
-        size_2.width = std::min(size.width, discr);
-    }
-
-    if (ARCHON_LIKELY(pos_2.y >= pos.y)) {
-        int discr = size.height - (pos_2.y - pos.y);
-        if (ARCHON_UNLIKELY(discr <= 0 || size_2.height <= 0))
-            return false;
-        size_2.height = std::min(size_2.height, discr);
-    }
-    else {
-        int discr = size_2.height - (pos.y - pos_2.y);
-        if (ARCHON_UNLIKELY(discr <= 0 || size.height <= 0))
-            return false;
-        pos_2.y = pos.y;
-        size_2.height = std::min(size.height, discr);
-    }
-
+    if (ARCHON_UNLIKELY(!clip(pos.x, size.width, pos_2.x, size_2.width)))
+        return false;
+    if (ARCHON_UNLIKELY(!clip(pos.y, size.height, pos_2.y, size_2.height)))
+        return false;
     other = { pos_2, size_2 };
     return true;
 }
-- 
2.43.0


From b2bcbf97378802d3629ed4c1290e861d5f974062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:52 +0000
Subject: [PATCH 059/119] fix: Reading from integer pixel format whose words
 fill out promoted component type shifted by full width of type

---
 src/archon/image/integer_pixel_format.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/archon/image/integer_pixel_format.hpp b/src/archon/image/integer_pixel_format.hpp
index f129b0f..269ec38 100644
--- a/src/archon/image/integer_pixel_format.hpp
+++ b/src/archon/image/integer_pixel_format.hpp
@@ -419,9 +419,10 @@ auto IntegerPixelFormat<C, W, B, S, D, E, F, G>::read_comp(const word_type* pixe
     else {
         unpacked_comp_type comp = 0;
         for (int i = 0; i < words_per_channel; ++i) {
+            int reverse_i = (words_per_channel - 1) - i;
+            int shift = reverse_i * bits_per_word;
             int j = map_word_index(i);
-            comp <<= bits_per_word;
-            comp |= image::unpack_int<bits_per_word>(channel_ptr[j]);
+            comp |= unpacked_comp_type(image::unpack_int<bits_per_word>(channel_ptr[j])) << shift;
         }
         if constexpr (std::is_integral_v<transf_comp_type>) {
             constexpr int n = image::comp_repr_bit_width<transf_repr>();
-- 
2.43.0


From 13b24484949c353055dda87850caf7943d214a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:52 +0000
Subject: [PATCH 060/119] fix: Writing too large color index to image with
 indexed pixel format corrupted neighboring pixels

---
 src/archon/image/indexed_pixel_format.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/archon/image/indexed_pixel_format.hpp b/src/archon/image/indexed_pixel_format.hpp
index ddbcafe..6305be3 100644
--- a/src/archon/image/indexed_pixel_format.hpp
+++ b/src/archon/image/indexed_pixel_format.hpp
@@ -593,7 +593,9 @@ template<class S, int M, int N, core::Endianness A, class W, int B, int D, core:
 void IndexedPixelFormat<S, M, N, A, W, B, D, E, H>::set_pixel(const transf_comp_type* source, value_type& compound,
                                                               int pos) noexcept
 {
-    value_type value = value_type(image::comp_repr_unpack<transf_repr>(*source));
+    // Make sure that an index, that is too large, does not spill into neighboring pixels
+    value_type value = (value_type(image::comp_repr_unpack<transf_repr>(*source)) &
+                        core::int_mask<value_type>(bits_per_pixel));
     int shift = map_pixel_pos(pos) * bits_per_pixel;
     compound &= (core::int_mask<value_type>(bits_per_compound) ^
                  (core::int_mask<value_type>(bits_per_pixel) << shift));
-- 
2.43.0


From 3e2f3b771bc01c7ab07d116c2eb1b9fa6b67fcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:42 +0000
Subject: [PATCH 061/119] fix: Division by zero when reading from image whose
 palette has zero width

---
 src/archon/image/reader.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/archon/image/reader.cpp b/src/archon/image/reader.cpp
index d240c37..a323c6f 100644
--- a/src/archon/image/reader.cpp
+++ b/src/archon/image/reader.cpp
@@ -320,6 +320,10 @@ void Reader::instantiate_palette_cache()
         constexpr image::CompRepr repr = tag.comp_repr;
         using comp_type = image::comp_type<repr>;
         std::unique_ptr<comp_type[]> palette_entries = std::make_unique<comp_type[]>(buffer_size); // Throws
+        if (ARCHON_UNLIKELY(m_palette_size == 0)) {
+            m_palette_cache = palette_entries.release();
+            return;
+        }
         int num_full_rows = int(m_palette_size / palette_image_size.width);
         std::ptrdiff_t horz_stride = m_num_channels_ext;
         std::ptrdiff_t vert_stride = palette_image_size.width * m_num_channels_ext;
-- 
2.43.0


From 8085bc84ef6d7c00e12e0575248791d81b265cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:25 +0000
Subject: [PATCH 062/119] fix: Integer overflow when reading from image whose
 palette is very wide

---
 src/archon/image/reader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/image/reader.cpp b/src/archon/image/reader.cpp
index a323c6f..74b9d83 100644
--- a/src/archon/image/reader.cpp
+++ b/src/archon/image/reader.cpp
@@ -326,7 +326,7 @@ void Reader::instantiate_palette_cache()
         }
         int num_full_rows = int(m_palette_size / palette_image_size.width);
         std::ptrdiff_t horz_stride = m_num_channels_ext;
-        std::ptrdiff_t vert_stride = palette_image_size.width * m_num_channels_ext;
+        std::ptrdiff_t vert_stride = std::ptrdiff_t(palette_image_size.width) * m_num_channels_ext;
         image::Iter iter = { palette_entries.get(), horz_stride, vert_stride };
         image::Tray tray_1 = { iter, image::Size(palette_image_size.width, num_full_rows) };
         bool has_alpha = true;
-- 
2.43.0


From cf0841db2f264ba8a534251e9c57d64e96f03c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:55 +0000
Subject: [PATCH 063/119] fix: Writing pixel block through image writer did not
 compile

---
 src/archon/image/writer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/image/writer.hpp b/src/archon/image/writer.hpp
index 5c41aec..ab107da 100644
--- a/src/archon/image/writer.hpp
+++ b/src/archon/image/writer.hpp
@@ -569,7 +569,7 @@ inline auto Writer::put_block_rgba(image::Pos pos, const const_int8_tray_type& t
 
 template<class R> auto Writer::put_block(image::Pos pos, const image::PixelBlock<R>& block) -> Writer&
 {
-    return put_block(pos, block.tray()); // Throws
+    return put_block<R>(pos, block.tray()); // Throws
 }
 
 
-- 
2.43.0


From be9aef18085f5d1b1a94efd0f93911c2a807cde8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:28 +0000
Subject: [PATCH 064/119] fix: Color distance and reverse palette lookup in
 image writer used uninitialized or misplaced alpha component

---
 src/archon/image/writer.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/archon/image/writer.hpp b/src/archon/image/writer.hpp
index ab107da..bd26e41 100644
--- a/src/archon/image/writer.hpp
+++ b/src/archon/image/writer.hpp
@@ -746,6 +746,7 @@ void Writer::color_to_promoted_native(const image::comp_type<R>* components, con
     const image::ColorSpace& destin_color_space = get_color_space();
     const image::ColorSpaceConverter* custom_converter = find_color_space_converter(color_space, destin_color_space);
     image::color_space_convert(buffer, alpha, color_space, destin_color_space, custom_converter); // Throws
+    buffer[m_num_channels_ext - 1] = alpha;
 }
 
 
-- 
2.43.0


From 3f78bb90dc16aef446409a90c3e0c61538fe1c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:42 +0000
Subject: [PATCH 065/119] fix: Blending was skipped for background pixels when
 writing image without alpha channel to other image

---
 src/archon/image/writer.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/archon/image/writer.cpp b/src/archon/image/writer.cpp
index 2cc0fda..40b6d1e 100644
--- a/src/archon/image/writer.cpp
+++ b/src/archon/image/writer.cpp
@@ -160,7 +160,11 @@ auto Writer::put_image_a(image::Pos pos, image::Reader& reader, image::Box box)
     bool remove_alpha = (origin_info.has_alpha && !destin_info.has_alpha);
     bool is_float = (destin_info.comp_repr == image::CompRepr::float_);
     image::float_type opacity = get_opacity();
-    bool blending = (get_blending_enabled() && (origin_info.has_alpha || opacity != 1));
+    // Even if the source image has no alpha channel, the extracted block may contain pixels
+    // that are not fully opaque, because the background color of the reader applies to
+    // pixels outside the source image, and to color indexes that are out of range.
+    bool may_use_bgcolor = (reader.has_indexed_color() || !box.contained_in(reader.get_image_size()));
+    bool blending = (get_blending_enabled() && (origin_info.has_alpha || may_use_bgcolor || opacity != 1));
     bool is_indexed = has_indexed_color();
     bool lossless = (same_comp_repr && same_color_space && (!remove_alpha || is_float) && opacity == 1 && !blending &&
                      !is_indexed);
-- 
2.43.0


From 2d64f66a249e504416e7ea5fa28cabb098946125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:50 +0000
Subject: [PATCH 066/119] fix: End of test thread was reported twice when there
 were no nonconcurrent tests

Also, leave test_context.cpp and test_runner.cpp as they were originally.
---
 src/archon/check/noinst/thread_context_impl.cpp | 5 +++++
 src/archon/check/test_context.cpp               | 4 ++--
 src/archon/check/test_runner.cpp                | 3 +--
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/archon/check/noinst/thread_context_impl.cpp b/src/archon/check/noinst/thread_context_impl.cpp
index c515481..66407c3 100644
--- a/src/archon/check/noinst/thread_context_impl.cpp
+++ b/src/archon/check/noinst/thread_context_impl.cpp
@@ -81,6 +81,11 @@ void ThreadContextImpl::nonconcur_run()
 {
     std::unique_lock lock(m_root_context.mutex); // Throws
 
+    // If there are no tests that need to run nonconcurrently, this test thread has already
+    // ended.
+    if (m_root_context.last_thread_to_end == -1)
+        return;
+
     for (auto entry : m_root_context.nonconcur_execs)
         run(entry, lock); // Throws
 
diff --git a/src/archon/check/test_context.cpp b/src/archon/check/test_context.cpp
index dad98ad..98eebeb 100644
--- a/src/archon/check/test_context.cpp
+++ b/src/archon/check/test_context.cpp
@@ -193,11 +193,11 @@ void TestContext::check_nothrow_failed_2(check::Location location, std::string_v
     core::StringFormatter formatter(seed_memory, locale); // Throws
     std::string_view message;
     if (exc) {
-        message = formatter.format("ARCHON_CHECK_NOTHROW(%s) failed: Did throw %s: %s", expr_text,
+        message = formatter.format("ARCHON_CHECK_THROW_ANY(%s) failed: Did throw %s: %s", expr_text,
                                    core::get_type_name(*exc), exc->what()); // Throws
     }
     else {
-        message = formatter.format("ARCHON_CHECK_NOTHROW(%s) failed: Did throw exception of unknown type",
+        message = formatter.format("ARCHON_CHECK_THROW_ANY(%s) failed: Did throw exception of unknown type",
                                    expr_text); // Throws
     }
     check_failed(location, message); // Throws
diff --git a/src/archon/check/test_runner.cpp b/src/archon/check/test_runner.cpp
index 6ea1d25..d3920ab 100644
--- a/src/archon/check/test_runner.cpp
+++ b/src/archon/check/test_runner.cpp
@@ -354,8 +354,7 @@ bool TestRunner::run() const
         log::Logger& logger = (loggers[0] ? *loggers[0] : m_logger);
         ThreadContextImpl thread_context(root_context, 0, logger, m_config.inner_log_level_limit); // Throws
         thread_context.run(); // Throws
-        if (root_context.last_thread_to_end != -1)
-            thread_context.nonconcur_run(); // Throws
+        thread_context.nonconcur_run(); // Throws
     }
     else {
         std::unique_ptr<std::unique_ptr<ThreadContextImpl>[]> thread_contexts =
-- 
2.43.0


From 8d1652e4cc26fcd6939600533663bf2675fcae53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:40 +0000
Subject: [PATCH 067/119] fix: Read error while checking signature of PNG file
 was reported as wrong file format

---
 src/archon/image/file_format_png.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/image/file_format_png.cpp b/src/archon/image/file_format_png.cpp
index f2f08a5..c0d8fa2 100644
--- a/src/archon/image/file_format_png.cpp
+++ b/src/archon/image/file_format_png.cpp
@@ -156,8 +156,8 @@ bool recognize(core::Source& source, std::error_code& ec)
     if (ARCHON_LIKELY(source.try_read(header, n, ec))) { // Throws
         if (ARCHON_LIKELY(n == header_size && png_sig_cmp(to_png_bytep(header), 0, header_size) == 0))
             return true; // Success
+        ec = image::Error::wrong_file_format;
     }
-    ec = image::Error::wrong_file_format;
     return false; // Failure
 }
 
-- 
2.43.0


From 91fc33f3410521d571586ed461a0a5d208a7f9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:40 +0000
Subject: [PATCH 068/119] fix: Pixels were misplaced when saving interlaced PNG
 image from image with multiple pixels per byte in little-endian bit order

---
 src/archon/image/file_format_png.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/archon/image/file_format_png.cpp b/src/archon/image/file_format_png.cpp
index c0d8fa2..281ca62 100644
--- a/src/archon/image/file_format_png.cpp
+++ b/src/archon/image/file_format_png.cpp
@@ -1070,8 +1070,12 @@ bool save(const image::Image& image, core::Sink& sink, const std::locale& loc, l
         if (ARCHON_LIKELY(image.try_get_buffer(buffer_format, buffer_2) &&
                           try_match_save_format(buffer_format, image_size, ctx.format, ctx.xforms,
                                                 ctx.bytes_per_row))) { // Throws
-            buffer = static_cast<const png_byte*>(buffer_2);
-            format_matched = true;
+            // When libpng is asked to do both interlacing and swapping of bits, it does not get
+            // the order of pixels right.
+            if (ARCHON_LIKELY(!(config.use_adam7_interlacing && ctx.xforms.swap_bits))) {
+                buffer = static_cast<const png_byte*>(buffer_2);
+                format_matched = true;
+            }
         }
     }
     if (!format_matched) {
-- 
2.43.0


From 216e0c0cf2758b4c38e90e831c6577f71e24568b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:33 +0000
Subject: [PATCH 069/119] fix: Registration of file format with identifier
 already in use was not rejected

---
 src/archon/image/file_format_registry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/image/file_format_registry.cpp b/src/archon/image/file_format_registry.cpp
index 8d04d10..8a877d2 100644
--- a/src/archon/image/file_format_registry.cpp
+++ b/src/archon/image/file_format_registry.cpp
@@ -148,7 +148,7 @@ void FileFormatRegistry::register_file_format(const image::FileFormat& format)
     std::string_view ident = format.get_ident();
     std::size_t format_index = m_formats.size();
     auto p = m_format_map.emplace(ident, format_index);
-    bool was_inserted = p.first;
+    bool was_inserted = p.second;
     if (!was_inserted)
         throw std::invalid_argument("File format already registered");
 
-- 
2.43.0


From 38b99f341574fc24daf2c0aa7eb126159dca8bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:37 +0000
Subject: [PATCH 070/119] fix: Mapping of types to buffer word types succeeded
 for unsupported types

---
 src/archon/image/buffer_format.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/archon/image/buffer_format.hpp b/src/archon/image/buffer_format.hpp
index d76943e..e76e75f 100644
--- a/src/archon/image/buffer_format.hpp
+++ b/src/archon/image/buffer_format.hpp
@@ -633,7 +633,7 @@ template<class W> constexpr bool BufferFormat::try_map_integer_type(IntegerType&
         return true;
     }
     else {
-        return true;
+        return false;
     }
 }
 
@@ -653,7 +653,7 @@ template<class W> constexpr bool BufferFormat::try_map_float_type(FloatType& wor
         return true;
     }
     else {
-        return true;
+        return false;
     }
 }
 
-- 
2.43.0


From 119252477f2b3a01ae1cd8281674aaccfe095b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:37 +0000
Subject: [PATCH 071/119] fix: Wrong number of bit fields for packed buffer
 format was an assertion failure instead of an exception

---
 src/archon/image/buffer_format.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/archon/image/buffer_format.hpp b/src/archon/image/buffer_format.hpp
index e76e75f..58663f8 100644
--- a/src/archon/image/buffer_format.hpp
+++ b/src/archon/image/buffer_format.hpp
@@ -506,8 +506,6 @@ inline void BufferFormat::set_packed_format(IntegerType word_type, int bits_per_
         reverse_channel_order,
     };
     int num_channels = channel_conf.get_num_channels();
-    ARCHON_ASSERT(bit_fields.size() <= std::size_t(max_bit_fields));
-    ARCHON_ASSERT(int(bit_fields.size()) == num_channels);
     if (ARCHON_UNLIKELY(core::int_not_equal(bit_fields.size(), num_channels) || num_channels > max_bit_fields))
         throw std::runtime_error("Bad number of bit fields");
     type = Type::packed;
-- 
2.43.0


From 4e8a6c1288eb02e1717e8311e73ee0dcc867ec5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:37 +0000
Subject: [PATCH 072/119] fix: Channel order was wrong when casting packed
 buffer format to integer format

---
 src/archon/image/buffer_format.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/archon/image/buffer_format.cpp b/src/archon/image/buffer_format.cpp
index f1396e6..b3561e0 100644
--- a/src/archon/image/buffer_format.cpp
+++ b/src/archon/image/buffer_format.cpp
@@ -165,7 +165,9 @@ bool BufferFormat::try_cast_to(IntegerFormat& format, IntegerType word_type) con
                 word_order,
                 packed.channel_conf,
             };
-            if (word_order == core::Endianness::big)
+            // The first channel is the most significant one in the bit compound, so it is
+            // stored last when the least significant word is stored first.
+            if (packed.words_per_pixel > 1 && packed.word_order == core::Endianness::little)
                 format.channel_conf.reverse();
             return true;
         }
-- 
2.43.0


From e97b5f320677e918cf51fb6c5d032b8896f324b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:37 +0000
Subject: [PATCH 073/119] fix: Number of words per channel was wrong when
 casting subword buffer format to integer format

---
 src/archon/image/buffer_format.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/image/buffer_format.cpp b/src/archon/image/buffer_format.cpp
index b3561e0..84f056b 100644
--- a/src/archon/image/buffer_format.cpp
+++ b/src/archon/image/buffer_format.cpp
@@ -208,7 +208,7 @@ bool BufferFormat::try_cast_to(IntegerFormat& format, IntegerType word_type) con
                             return false;
                     }
                     int bits_per_word_2 = bits_per_byte;
-                    int words_per_channel = bytes_per_word;
+                    int words_per_channel = subword.bits_per_channel / bits_per_byte;
                     core::Endianness word_order = byte_order;
                     ChannelConf channel_conf = subword.channel_conf;
                     if (byte_order == core::Endianness::little)
-- 
2.43.0


From 94dbb2d1ffe372ce8c1f9d501c0d5f6b66b9be99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:54 +0000
Subject: [PATCH 074/119] fix: Setting scaled size was rejected for scalable
 fonts and an assertion failure for others

---
 src/archon/font/loader_freetype.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/font/loader_freetype.cpp b/src/archon/font/loader_freetype.cpp
index b74e564..7e17b0a 100644
--- a/src/archon/font/loader_freetype.cpp
+++ b/src/archon/font/loader_freetype.cpp
@@ -256,7 +256,7 @@ public:
 
     void set_scaled_size(font::Size size) override
     {
-        if (ARCHON_LIKELY(!FT_IS_SCALABLE(m_face.face))) {
+        if (ARCHON_LIKELY(FT_IS_SCALABLE(m_face.face))) {
             FT_F26Dot6 width  = float_to_fixed_26p6(size.width);
             FT_F26Dot6 height = float_to_fixed_26p6(size.height);
             do_set_scaled_size(width, height); // Throws
-- 
2.43.0


From aeaaa3086ad864319778e5b32cc104dfc19ec705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:54 +0000
Subject: [PATCH 075/119] fix: Selection of closest fixed size was an assertion
 failure for fonts that are not scalable

---
 src/archon/font/loader_freetype.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/font/loader_freetype.cpp b/src/archon/font/loader_freetype.cpp
index 7e17b0a..dbf6865 100644
--- a/src/archon/font/loader_freetype.cpp
+++ b/src/archon/font/loader_freetype.cpp
@@ -294,7 +294,7 @@ public:
             const FT_Bitmap_Size& entry = m_face.face->available_sizes[i];
             float_type diff = (core::square(size.width  - fixed_26p6_to_float(entry.x_ppem)) +
                                core::square(size.height - fixed_26p6_to_float(entry.y_ppem)));
-            if (ARCHON_LIKELY(fixed_size_index < 0 && diff >= min))
+            if (ARCHON_LIKELY(fixed_size_index >= 0 && diff >= min))
                 continue;
             min = diff;
             fixed_size_index = i;
-- 
2.43.0


From 54fd65657d89afde354d9baaa0430310639352b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:54 +0000
Subject: [PATCH 076/119] fix: Selection of fixed font size was reported as
 failure after having succeeded

---
 src/archon/font/loader_freetype.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/archon/font/loader_freetype.cpp b/src/archon/font/loader_freetype.cpp
index dbf6865..6ccc7db 100644
--- a/src/archon/font/loader_freetype.cpp
+++ b/src/archon/font/loader_freetype.cpp
@@ -633,6 +633,7 @@ private:
         if (ARCHON_LIKELY(err == 0)) {
             const FT_Bitmap_Size& entry = m_face.face->available_sizes[fixed_size_index];
             on_size_changed(entry.x_ppem, entry.y_ppem);
+            return;
         }
         throw std::runtime_error("FreeType: Failed to select fixed size");
     }
-- 
2.43.0


From 1937184b205d6913048923d17c4d71b1e5ae35f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:19 +0000
Subject: [PATCH 077/119] fix: Integer overflow while rendering glyph at
 negative horizontal position

---
 src/archon/font/loader_freetype.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/font/loader_freetype.cpp b/src/archon/font/loader_freetype.cpp
index 6ccc7db..000a3ee 100644
--- a/src/archon/font/loader_freetype.cpp
+++ b/src/archon/font/loader_freetype.cpp
@@ -112,7 +112,7 @@ void render_spans(int y, int count, const FT_Span* spans, void* user) throw()
         const FT_Span& span = spans[i];
         static_assert(std::is_same_v<decltype(span.x), short>);
         static_assert(std::is_same_v<decltype(span.len), unsigned short>);
-        ARCHON_ASSERT(span.len <= unsigned(core::int_max<int>() - span.x));
+        ARCHON_ASSERT(span.x < 0 || span.len <= unsigned(core::int_max<int>() - span.x));
         ARCHON_ASSERT(span.x >= context.clip_box.xMin);
         ARCHON_ASSERT(int(int(span.x) + span.len) <= context.clip_box.xMax);
         int x_1 = int(span.x - context.clip_box.xMin);
-- 
2.43.0


From bd6e55945c009bfa4b293a4fe55d1888b30fc46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:17 +0000
Subject: [PATCH 078/119] fix: Rounding of negative 26.6 fixed-point values was
 off by up to one and a half

---
 src/archon/font/loader_freetype.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/font/loader_freetype.cpp b/src/archon/font/loader_freetype.cpp
index 000a3ee..9669b24 100644
--- a/src/archon/font/loader_freetype.cpp
+++ b/src/archon/font/loader_freetype.cpp
@@ -81,7 +81,7 @@ inline auto fixed_26p6_round(FT_F26Dot6 val) noexcept -> FT_F26Dot6
     using type = decltype(val_2);
     if (val >= 0)
         return core::cast_from_twos_compl<FT_F26Dot6>((val_2 + 32) & ~type(63));
-    return core::cast_from_twos_compl<FT_F26Dot6>((val_2 - 32) & ~type(63));
+    return core::cast_from_twos_compl<FT_F26Dot6>((val_2 + 31) & ~type(63));
 }
 
 
-- 
2.43.0


From 4e6d9c32999105354da31cfa0b510a3b284e23ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:17 +0000
Subject: [PATCH 079/119] fix: Regeneration of fallback font failed when there
 was no existing one

---
 src/archon/font/loader_fallback.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/archon/font/loader_fallback.cpp b/src/archon/font/loader_fallback.cpp
index 3c6fef9..638e133 100644
--- a/src/archon/font/loader_fallback.cpp
+++ b/src/archon/font/loader_fallback.cpp
@@ -137,7 +137,12 @@ bool load_spec(core::FilesystemPathRef resource_dir, log::Logger& logger, const
 {
     namespace fs = std::filesystem;
     fs::path path = generate_file_path(resource_dir, g_spec_file_name, loc); // Throws
-    core::BufferedTextFile file(path, loc); // Throws
+    core::BufferedTextFile file(loc); // Throws
+    std::error_code ec;
+    if (ARCHON_UNLIKELY(!file.try_open(path, core::File::Mode::read, ec))) { // Throws
+        logger.error("%s: %s", core::as_native_path(path), ec.message()); // Throws
+        return false;
+    }
     std::array<char, 96> seed_memory;
     core::Buffer<char> buffer(seed_memory);
     std::string_view line, line_2;
-- 
2.43.0


From 5fa67239ed7ebedb3204e56220f4e237e6f3ef99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:26 +0000
Subject: [PATCH 080/119] fix: Pressing an unusual mouse button was an
 assertion failure in SDL-based display implementation

---
 src/archon/display/sdl_implementation.cpp | 25 ++++++++++++++---------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/archon/display/sdl_implementation.cpp b/src/archon/display/sdl_implementation.cpp
index 1375274..97cb7b5 100644
--- a/src/archon/display/sdl_implementation.cpp
+++ b/src/archon/display/sdl_implementation.cpp
@@ -126,7 +126,7 @@ void init_rect(SDL_Rect* rect, const display::Box& area) noexcept
 
 bool map_key(display::KeyCode, display::Key&) noexcept;
 bool rev_map_key(display::Key, display::KeyCode&) noexcept;
-auto map_mouse_button(Uint8 button) noexcept -> display::MouseButton;
+bool map_mouse_button(Uint8, display::MouseButton&) noexcept;
 
 
 class ImplementationImpl final
@@ -618,7 +618,8 @@ bool ConnectionImpl::process_event_batch()
                 event_2.cookie = window->cookie;
                 event_2.timestamp = unwrap_session.unwrap_next_timestamp(event.button.timestamp); // Throws
                 event_2.pos = { event.button.x, event.button.y };
-                event_2.button = map_mouse_button(event.button.button);
+                if (ARCHON_UNLIKELY(!map_mouse_button(event.button.button, event_2.button)))
+                    break; // Ignore buttons that have no corresponding value in `display::MouseButton`
                 bool proceed;
                 if (event.type == SDL_MOUSEBUTTONDOWN) {
                     proceed = window->event_handler->on_mousedown(event_2); // Throws
@@ -1581,22 +1582,26 @@ inline bool rev_map_key(display::Key key, display::KeyCode& key_code) noexcept
 }
 
 
-inline auto map_mouse_button(Uint8 button) noexcept -> display::MouseButton
+inline bool map_mouse_button(Uint8 button, display::MouseButton& button_2) noexcept
 {
     switch (button) {
         case SDL_BUTTON_LEFT:
-            return display::MouseButton::left;
+            button_2 = display::MouseButton::left;
+            return true;
         case SDL_BUTTON_MIDDLE:
-            return display::MouseButton::middle;
+            button_2 = display::MouseButton::middle;
+            return true;
         case SDL_BUTTON_RIGHT:
-            return display::MouseButton::right;
+            button_2 = display::MouseButton::right;
+            return true;
         case SDL_BUTTON_X1:
-            return display::MouseButton::x1;
+            button_2 = display::MouseButton::x1;
+            return true;
         case SDL_BUTTON_X2:
-            return display::MouseButton::x2;
+            button_2 = display::MouseButton::x2;
+            return true;
     }
-    ARCHON_ASSERT_UNREACHABLE();
-    return {};
+    return false;
 }
 
 
-- 
2.43.0


From ba6ed5171fea41a1529670e4870f43fde578a048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:39 +0000
Subject: [PATCH 081/119] fix: Expiration of deadline could be reported too
 early by SDL-based display implementation

---
 src/archon/display/sdl_implementation.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/archon/display/sdl_implementation.cpp b/src/archon/display/sdl_implementation.cpp
index 97cb7b5..516ff38 100644
--- a/src/archon/display/sdl_implementation.cpp
+++ b/src/archon/display/sdl_implementation.cpp
@@ -874,11 +874,9 @@ bool ConnectionImpl::wait_for_events(time_point_type deadline)
         time_point_type now = clock_type::now();
         if (ARCHON_LIKELY(now < deadline)) {
             int timeout = core::int_max<int>();
-            bool complete = false;
             auto duration = std::chrono::ceil<std::chrono::milliseconds>(deadline - now).count();
             if (ARCHON_LIKELY(core::int_less_equal(duration, timeout))) {
                 timeout = int(duration);
-                complete = true;
             }
             // FIXME: There is something broken about the design of
             // SDL_WaitEventTimeout(). According to the documentation, when that function
@@ -897,8 +895,8 @@ bool ConnectionImpl::wait_for_events(time_point_type deadline)
             if (ARCHON_LIKELY(ret == 1))
                 return true; // Events are available
             ARCHON_ASSERT(ret == 0);
-            if (ARCHON_LIKELY(complete))
-                break;
+            // SDL_WaitEventTimeout() can return slightly too early, so it is necessary to
+            // check the time again.
             continue;
         }
         break;
-- 
2.43.0


From 04295ad0cf867fbe0845159aacfde17627b49d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:47 +0000
Subject: [PATCH 082/119] fix: SDL-based display implementation reported empty
 name for keys with no known name

---
 src/archon/display/sdl_implementation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/display/sdl_implementation.cpp b/src/archon/display/sdl_implementation.cpp
index 516ff38..fe25355 100644
--- a/src/archon/display/sdl_implementation.cpp
+++ b/src/archon/display/sdl_implementation.cpp
@@ -435,7 +435,7 @@ bool ConnectionImpl::try_get_key_name(display::KeyCode key_code, std::string_vie
     if (ARCHON_LIKELY(core::assume_utf8_locale(locale))) {
         SDL_Keycode code = core::cast_from_twos_compl_a<SDL_Keycode>(key_code.code);
         const char* name_2 = SDL_GetKeyName(code);
-        if (ARCHON_LIKELY(name_2)) {
+        if (ARCHON_LIKELY(name_2 && *name_2 != '\0')) { // Empty string if name is not known
             name = std::string_view(name_2); // Throws
             return true;
         }
-- 
2.43.0


From d2025fea8fb31a709f87fd01fcd6e746267b2dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:49 +0000
Subject: [PATCH 083/119] fix: Handler was not told about release of key that
 was bound again while pressed down

---
 src/archon/render/impl/key_bindings.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/archon/render/impl/key_bindings.cpp b/src/archon/render/impl/key_bindings.cpp
index 36dfec1..806227f 100644
--- a/src/archon/render/impl/key_bindings.cpp
+++ b/src/archon/render/impl/key_bindings.cpp
@@ -208,7 +208,10 @@ bool KeyBindings::resume_incomplete_on_blur()
 
 void KeyBindings::KeySlot::on_reconfigured() noexcept
 {
-    reset_key_state();
+    // If the key is currently pressed down, it needs to remain in that state, such that the
+    // handler that was called on the "key down" event also gets called on the subsequent
+    // "key up" event.
+    multiplicity = 0;
     max_multiplicity = 0;
     for (const auto& entry : handlers) {
         const Subkey& subkey = entry.first;
-- 
2.43.0


From 1402091f10c086f5f613fda8556e729f36485d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:28 +0000
Subject: [PATCH 084/119] fix: Registration of key handler from within a key
 handler could cause executing handler to be relocated

---
 src/archon/render/impl/key_bindings.cpp | 8 +++++---
 src/archon/render/impl/key_bindings.hpp | 5 ++++-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/archon/render/impl/key_bindings.cpp b/src/archon/render/impl/key_bindings.cpp
index 806227f..ba9ae9c 100644
--- a/src/archon/render/impl/key_bindings.cpp
+++ b/src/archon/render/impl/key_bindings.cpp
@@ -20,6 +20,7 @@
 
 
 #include <utility>
+#include <memory>
 #include <stdexcept>
 #include <functional>
 #include <string_view>
@@ -92,7 +93,8 @@ auto KeyBindings::register_handler(std::string_view label, std::function<bool(bo
     decltype(render::KeyHandlerIdent::value) handler_index = {};
     core::int_cast(m_handlers.size(), handler_index); // Throws
     auto label_2 = std::string(label); // Throws
-    m_handlers.push_back({ std::move(func), std::move(label_2) }); // Throws
+    auto handler = std::make_unique<KeyHandler>(KeyHandler { std::move(func), std::move(label_2) }); // Throws
+    m_handlers.push_back(std::move(handler)); // Throws
     return { handler_index };
 }
 
@@ -176,7 +178,7 @@ template<bool down> inline bool KeyBindings::on_key(const KeyIdent& key_ident, T
     }
 
     ARCHON_ASSERT(slot.handler_index >= 0);
-    const KeyHandler& handler = m_handlers[slot.handler_index];
+    const KeyHandler& handler = *m_handlers[slot.handler_index];
     return handler.func(down); // Throws
 }
 
@@ -192,7 +194,7 @@ bool KeyBindings::resume_incomplete_on_blur()
         slot.reset_key_state();
         if (ARCHON_LIKELY(!was_pressed || handler_index < 0))
             continue;
-        const KeyHandler& handler = m_handlers[handler_index];
+        const KeyHandler& handler = *m_handlers[handler_index];
         bool down = false;
         bool proceed = handler.func(down); // Throws
         if (ARCHON_LIKELY(proceed))
diff --git a/src/archon/render/impl/key_bindings.hpp b/src/archon/render/impl/key_bindings.hpp
index de4b754..2298a8b 100644
--- a/src/archon/render/impl/key_bindings.hpp
+++ b/src/archon/render/impl/key_bindings.hpp
@@ -22,6 +22,7 @@
 #define ARCHON_X_RENDER_X_IMPL_X_KEY_BINDINGS_HPP
 
 
+#include <memory>
 #include <functional>
 #include <string_view>
 #include <vector>
@@ -79,7 +80,9 @@ private:
     struct KeyHandler;
     struct KeySlot;
 
-    std::vector<KeyHandler> m_handlers;
+    // Handlers need to have stable addresses because more handlers can be registered while
+    // a handler is executing.
+    std::vector<std::unique_ptr<KeyHandler>> m_handlers;
 
     core::FlatMap<KeyIdent, KeySlot> m_key_slots;
 
-- 
2.43.0


From 0f8e846f48ad360d2e4ddae19172c77c02b628ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:28 +0000
Subject: [PATCH 085/119] fix: Binding of keys from within a key handler was
 unsafe during loss of focus

---
 src/archon/render/impl/key_bindings.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/archon/render/impl/key_bindings.cpp b/src/archon/render/impl/key_bindings.cpp
index ba9ae9c..d5e7d94 100644
--- a/src/archon/render/impl/key_bindings.cpp
+++ b/src/archon/render/impl/key_bindings.cpp
@@ -187,21 +187,26 @@ bool KeyBindings::resume_incomplete_on_blur()
 {
     ARCHON_ASSERT(m_on_blur_in_progress);
 
-    for (auto& entry : m_key_slots) {
-        KeySlot& slot = entry.second;
+    // Because additional keys can be bound while a handler is executing, iterators and
+    // references to key slots cannot be assumed to remain valid across the invocation of a
+    // handler. For that reason, the scan is restarted after each invocation of a handler.
+    auto i = m_key_slots.begin();
+    while (i != m_key_slots.end()) {
+        KeySlot& slot = i->second;
         bool was_pressed = slot.is_pressed;
         int handler_index = slot.handler_index;
         slot.reset_key_state();
-        if (ARCHON_LIKELY(!was_pressed || handler_index < 0))
+        if (ARCHON_LIKELY(!was_pressed || handler_index < 0)) {
+            ++i;
             continue;
+        }
         const KeyHandler& handler = *m_handlers[handler_index];
         bool down = false;
         bool proceed = handler.func(down); // Throws
-        if (ARCHON_LIKELY(proceed))
-            continue;
-        return false; // Interrupt event processing
+        if (ARCHON_UNLIKELY(!proceed))
+            return false; // Interrupt event processing
+        i = m_key_slots.begin();
     }
-
     m_on_blur_in_progress = false;
     return true; // Allow event processing to proceed
 }
-- 
2.43.0


From c8ea826d879f961c6c4f24f48ea93a4c97a26fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:45 +0000
Subject: [PATCH 086/119] fix: Spin of virtual trackball became invalid when it
 was moved and released with no passing of time

---
 src/archon/render/virt_trackball.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/archon/render/virt_trackball.cpp b/src/archon/render/virt_trackball.cpp
index 5147ec3..353bba1 100644
--- a/src/archon/render/virt_trackball.cpp
+++ b/src/archon/render/virt_trackball.cpp
@@ -126,6 +126,11 @@ void VirtualTrackball::release(Clock::time_point now) noexcept
     // But be carefull not to extrapolate into the past before the ball was acquired.
     if (m_track_millis < millis)
         millis = m_track_millis;
+    // There is no telling what the velocity was if no time has passed since acquisition.
+    if (millis <= 0) {
+        m_spin.angle = 0;
+        return;
+    }
     math::Vector2 pos = m_curve_mem.get_value(m_track_millis - millis);
 
     math::Vector3 first_point = get_ball_point(pos);
-- 
2.43.0


From 5a442c5c3058e1257d1e585f1db6013e3d7d738d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:17 +0000
Subject: [PATCH 087/119] fix: Orientation of virtual trackball could become
 invalid when dragging between opposite points

---
 src/archon/render/virt_trackball.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/archon/render/virt_trackball.hpp b/src/archon/render/virt_trackball.hpp
index 53f2188..4f3bc73 100644
--- a/src/archon/render/virt_trackball.hpp
+++ b/src/archon/render/virt_trackball.hpp
@@ -333,8 +333,11 @@ inline auto VirtualTrackball::calc_rotation(const math::Vector3& a, const math::
     math::Vector3 axis = math::cross(a, b);
     double ss = math::sq_sum(axis);
     double dp = math::dot(a, b);
-    if (ARCHON_LIKELY(ss != 0 && dp <= 1))
-        return { axis / std::sqrt(ss), std::acos(dp) };
+    if (ARCHON_LIKELY(ss != 0 && dp <= 1)) {
+        double sine = std::sqrt(ss);
+        // Due to rounding, `dp` can be less than -1, so std::acos(dp) is not an option here
+        return { axis / sine, std::atan2(sine, dp) };
+    }
     return {};
 }
 
-- 
2.43.0


From 18220e1c23243aa9d9ee9e100046ed4893e79f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:33 +0000
Subject: [PATCH 088/119] fix: Render engine did not track changes to
 configuration of default screen

---
 src/archon/render/noinst/engine_impl.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/archon/render/noinst/engine_impl.cpp b/src/archon/render/noinst/engine_impl.cpp
index d0b8c2d..95e127e 100644
--- a/src/archon/render/noinst/engine_impl.cpp
+++ b/src/archon/render/noinst/engine_impl.cpp
@@ -468,7 +468,11 @@ bool EngineImpl::EventHandler::on_close(const display::WindowEvent&)
 
 bool EngineImpl::EventHandler::on_screen_change(int screen)
 {
-    if (screen == m_engine.m_screen) {
+    // A negative screen index is a reference to the default screen
+    int screen_2 = m_engine.m_screen;
+    if (screen_2 < 0)
+        screen_2 = m_engine.m_conn.get_default_screen(); // Throws
+    if (screen == screen_2) {
         m_engine.fetch_screen_conf(); // Throws
         m_engine.track_screen_conf(); // Throws
     }
-- 
2.43.0


From 92c74dcdc537a37949fc92b57c0b7716d27f9ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:33 +0000
Subject: [PATCH 089/119] fix: Arithmetic overflow in render engine when frame
 rate is very low

---
 src/archon/render/noinst/engine_impl.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/archon/render/noinst/engine_impl.cpp b/src/archon/render/noinst/engine_impl.cpp
index 95e127e..977db57 100644
--- a/src/archon/render/noinst/engine_impl.cpp
+++ b/src/archon/render/noinst/engine_impl.cpp
@@ -871,7 +871,10 @@ void EngineImpl::update_frame_rate(double rate)
 {
     m_frame_rate = rate;
     if (m_started) {
-        auto nanos_per_frame = std::chrono::nanoseconds::rep(std::floor(1E9 / m_frame_rate));
+        // Avoid overflow due to extreme frame rates
+        double max_nanos_per_frame = 3600E9;
+        auto nanos_per_frame = std::chrono::nanoseconds::rep(std::min(std::floor(1E9 / m_frame_rate),
+                                                                      max_nanos_per_frame));
         auto time_per_frame = std::chrono::nanoseconds(nanos_per_frame);
         m_time_per_frame = std::chrono::duration_cast<Clock::duration>(time_per_frame);
         m_interrupt_before_sleep = true;
-- 
2.43.0


From 2d203b5c5ff554b68764ae5a0f08adc3a6aa6b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:28 +0000
Subject: [PATCH 090/119] fix: Composed modifier modes never came into effect
 in render engine

---
 src/archon/render/noinst/engine_impl.cpp | 78 +++++++++++++-----------
 src/archon/render/noinst/engine_impl.hpp |  8 +++
 2 files changed, 50 insertions(+), 36 deletions(-)

diff --git a/src/archon/render/noinst/engine_impl.cpp b/src/archon/render/noinst/engine_impl.cpp
index 977db57..3d14c91 100644
--- a/src/archon/render/noinst/engine_impl.cpp
+++ b/src/archon/render/noinst/engine_impl.cpp
@@ -106,26 +106,26 @@ bool EngineImpl::try_init(std::string_view window_title, display::Size window_si
     handler = register_builtin_key_handler(BuiltinKeyHandler::shift_modifier,
                                            "Shift modifier mode",
                                            &EngineImpl::key_func_shift_modifier); // Throws
-    bind_key(display::Key::shift_left, handler); // Throws
-    bind_key(display::Key::shift_right, handler); // Throws
+    bind_modifier_key(display::Key::shift_left, handler); // Throws
+    bind_modifier_key(display::Key::shift_right, handler); // Throws
 
     handler = register_builtin_key_handler(BuiltinKeyHandler::control_modifier,
                                            "Control modifier mode",
                                            &EngineImpl::key_func_control_modifier); // Throws
-    bind_key(display::Key::ctrl_left, handler); // Throws
-    bind_key(display::Key::ctrl_right, handler); // Throws
+    bind_modifier_key(display::Key::ctrl_left, handler); // Throws
+    bind_modifier_key(display::Key::ctrl_right, handler); // Throws
 
     handler = register_builtin_key_handler(BuiltinKeyHandler::alt_modifier,
                                            "Alt modifier mode",
                                            &EngineImpl::key_func_alt_modifier); // Throws
-    bind_key(display::Key::alt_left, handler); // Throws
-    bind_key(display::Key::alt_right, handler); // Throws
+    bind_modifier_key(display::Key::alt_left, handler); // Throws
+    bind_modifier_key(display::Key::alt_right, handler); // Throws
 
     handler = register_builtin_key_handler(BuiltinKeyHandler::meta_modifier,
                                            "Meta modifier mode",
                                            &EngineImpl::key_func_meta_modifier); // Throws
-    bind_key(display::Key::meta_left, handler); // Throws
-    bind_key(display::Key::meta_right, handler); // Throws
+    bind_modifier_key(display::Key::meta_left, handler); // Throws
+    bind_modifier_key(display::Key::meta_right, handler); // Throws
 
     handler = register_builtin_key_handler(BuiltinKeyHandler::quit,
                                            "Quit application",
@@ -540,58 +540,64 @@ auto EngineImpl::register_builtin_key_handler(BuiltinKeyHandler ident, std::stri
 }
 
 
-bool EngineImpl::key_func_shift_modifier(bool down)
+void EngineImpl::bind_modifier_key(display::Key key, render::KeyHandlerIdent handler)
+{
+    // A modifier key must also have its effect when other modifier keys are already pressed
+    // down, or composed modifier modes would never come into effect.
+    for (int i = 0; i < 16; ++i) {
+        render::KeyModifierMode modifier = render::modif_none;
+        if ((i & 1) != 0)
+            modifier = modifier | render::modif_shift;
+        if ((i & 2) != 0)
+            modifier = modifier | render::modif_ctrl;
+        if ((i & 4) != 0)
+            modifier = modifier | render::modif_alt;
+        if ((i & 8) != 0)
+            modifier = modifier | render::modif_meta;
+        bind_key(key, modifier, render::single_tap, handler); // Throws
+    }
+}
+
+
+void EngineImpl::update_modifier(bool down, render::KeyModifierMode modifier, int& num_keys_down) noexcept
 {
+    // A modifier remains in effect for as long as at least one of its keys is pressed down
+    num_keys_down += (down ? 1 : -1);
     auto mode = m_key_bindings.get_modifier_mode();
-    if (down) {
-        mode = mode | render::modif_shift;
+    if (num_keys_down > 0) {
+        mode = mode | modifier;
     }
     else {
-        mode = mode & ~render::modif_shift;
+        mode = mode & ~modifier;
     }
     m_key_bindings.set_modifier_mode(mode);
+}
+
+
+bool EngineImpl::key_func_shift_modifier(bool down)
+{
+    update_modifier(down, render::modif_shift, m_num_shift_keys_down);
     return true;
 }
 
 
 bool EngineImpl::key_func_control_modifier(bool down)
 {
-    auto mode = m_key_bindings.get_modifier_mode();
-    if (down) {
-        mode = mode | render::modif_ctrl;
-    }
-    else {
-        mode = mode & ~render::modif_ctrl;
-    }
-    m_key_bindings.set_modifier_mode(mode);
+    update_modifier(down, render::modif_ctrl, m_num_ctrl_keys_down);
     return true;
 }
 
 
 bool EngineImpl::key_func_alt_modifier(bool down)
 {
-    auto mode = m_key_bindings.get_modifier_mode();
-    if (down) {
-        mode = mode | render::modif_alt;
-    }
-    else {
-        mode = mode & ~render::modif_alt;
-    }
-    m_key_bindings.set_modifier_mode(mode);
+    update_modifier(down, render::modif_alt, m_num_alt_keys_down);
     return true;
 }
 
 
 bool EngineImpl::key_func_meta_modifier(bool down)
 {
-    auto mode = m_key_bindings.get_modifier_mode();
-    if (down) {
-        mode = mode | render::modif_meta;
-    }
-    else {
-        mode = mode & ~render::modif_meta;
-    }
-    m_key_bindings.set_modifier_mode(mode);
+    update_modifier(down, render::modif_meta, m_num_meta_keys_down);
     return true;
 }
 
diff --git a/src/archon/render/noinst/engine_impl.hpp b/src/archon/render/noinst/engine_impl.hpp
index 5755cf1..e69b57f 100644
--- a/src/archon/render/noinst/engine_impl.hpp
+++ b/src/archon/render/noinst/engine_impl.hpp
@@ -165,6 +165,11 @@ private:
     bool m_wireframe_mode = false;
     bool m_wireframe_mode_prev = false;
 
+    int m_num_shift_keys_down = 0;
+    int m_num_ctrl_keys_down = 0;
+    int m_num_alt_keys_down = 0;
+    int m_num_meta_keys_down = 0;
+
     int m_max_opengl_errors = 8;
 
     static auto instantiate_fallback_logger(std::unique_ptr<log::FileLogger>&, const std::locale&) -> log::Logger&;
@@ -174,6 +179,9 @@ private:
     auto register_builtin_key_handler(BuiltinKeyHandler ident, std::string_view label,
                                       bool (EngineImpl::* func)(bool down)) -> render::KeyHandlerIdent;
 
+    void bind_modifier_key(display::Key, render::KeyHandlerIdent);
+    void update_modifier(bool down, render::KeyModifierMode, int& num_keys_down) noexcept;
+
     bool key_func_shift_modifier(bool down);
     bool key_func_control_modifier(bool down);
     bool key_func_alt_modifier(bool down);
-- 
2.43.0


From 3b2b4d9f4c1dbcd14966c9330d43dc2a86baffb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:55 +0000
Subject: [PATCH 091/119] fix: Wrong computation of solid angle of view by
 perspective projection

---
 src/archon/util/perspect_proj.hpp | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/archon/util/perspect_proj.hpp b/src/archon/util/perspect_proj.hpp
index f243445..dc6258d 100644
--- a/src/archon/util/perspect_proj.hpp
+++ b/src/archon/util/perspect_proj.hpp
@@ -630,6 +630,10 @@ public:
     double get_min_field_factor() noexcept;
     double get_max_field_factor() noexcept;
     /// \}
+
+private:
+    double fov_to_solid_angle(double mean_fov) const noexcept;
+    double solid_angle_to_fov(double solid_angle) const noexcept;
 };
 
 
@@ -768,27 +772,25 @@ inline double PerspectiveProjection::get_effective_fov(double field_factor) noex
 
 inline double PerspectiveProjection::get_neutral_solid_angle_of_view() noexcept
 {
-    return 4 * std::atan(1 / std::sqrt(4 / core::square(mean_neutral_fov) + aspect_ratio + 1 / aspect_ratio));
+    return fov_to_solid_angle(mean_neutral_fov);
 }
 
 
 inline void PerspectiveProjection::set_neutral_solid_angle_of_view(double solid_angle) noexcept
 {
-    mean_neutral_fov = std::sqrt(4 / (core::square(1 / std::tan(solid_angle / 4)) - aspect_ratio - 1 / aspect_ratio));
+    mean_neutral_fov = solid_angle_to_fov(solid_angle);
 }
 
 
 inline double PerspectiveProjection::get_effective_solid_angle_of_view() noexcept
 {
-    return 4 * std::atan(1 / std::sqrt(4 / core::square(mean_neutral_fov / zoom_factor) + aspect_ratio +
-                                       1 / aspect_ratio));
+    return fov_to_solid_angle(mean_neutral_fov / zoom_factor);
 }
 
 
 inline void PerspectiveProjection::set_effective_solid_angle_of_view(double solid_angle) noexcept
 {
-    mean_neutral_fov = zoom_factor * std::sqrt(4 / (core::square(1 / std::tan(solid_angle / 4)) - aspect_ratio -
-                                                    1 / aspect_ratio));
+    mean_neutral_fov = zoom_factor * solid_angle_to_fov(solid_angle);
 }
 
 
@@ -852,6 +854,23 @@ inline double PerspectiveProjection::get_max_field_factor() noexcept
 }
 
 
+inline double PerspectiveProjection::fov_to_solid_angle(double mean_fov) const noexcept
+{
+    // This is the solid angle of a right rectangular pyramid
+    double area = core::square(mean_fov);
+    return 4 * std::atan(area / (2 * std::sqrt(4 + area * (aspect_ratio + 1 / aspect_ratio))));
+}
+
+
+inline double PerspectiveProjection::solid_angle_to_fov(double solid_angle) const noexcept
+{
+    double t = std::tan(solid_angle / 4);
+    double u = t * (aspect_ratio + 1 / aspect_ratio);
+    double area = 2 * t * (u + std::sqrt(core::square(u) + 4));
+    return std::sqrt(area);
+}
+
+
 } // namespace archon::util
 
 #endif // ARCHON_X_UTIL_X_PERSPECT_PROJ_HPP
-- 
2.43.0


From 088ad7a65da278b71c2b9f0b732f323b6d3fa5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:25 +0000
Subject: [PATCH 092/119] fix: Exception thrown in thread could be lost or
 written to destroyed object when thread guard is moved

---
 src/archon/core/thread_guard.hpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/archon/core/thread_guard.hpp b/src/archon/core/thread_guard.hpp
index a94b846..0de0e14 100644
--- a/src/archon/core/thread_guard.hpp
+++ b/src/archon/core/thread_guard.hpp
@@ -26,6 +26,7 @@
 
 #include <exception>
 #include <utility>
+#include <memory>
 #include <string>
 
 #include <archon/core/demangle.hpp>
@@ -128,7 +129,10 @@ public:
 
 private:
     std::thread m_thread;
-    std::exception_ptr m_exception;
+
+    // Must be at a fixed location in memory because it is written to by the thread, and
+    // the thread guard object may be moved while the thread is running.
+    std::unique_ptr<std::exception_ptr> m_exception;
 };
 
 
@@ -182,22 +186,23 @@ struct ThreadGuard::Config {
 
 
 template<class F> inline ThreadGuard::ThreadGuard(F&& func)
-    : ThreadGuard(std::move(func), {}) // Throws
+    : ThreadGuard(std::forward<F>(func), {}) // Throws
 {
 }
 
 
 template<class F> inline ThreadGuard::ThreadGuard(F&& func, Config config)
+    : m_exception(std::make_unique<std::exception_ptr>()) // Throws
 {
-    auto run = [this, thread_name = std::move(config.thread_name),
-                func = std::move(func)]() noexcept {
+    auto run = [exception = m_exception.get(), thread_name = std::move(config.thread_name),
+                func = std::forward<F>(func)]() noexcept {
         try {
             if (thread_name.has_value())
                 core::set_thread_name(thread_name->m_name, thread_name->m_locale); // Throws
             func(); // Throws
         }
         catch (...) {
-            m_exception = std::current_exception();
+            *exception = std::current_exception();
         }
     };
     if (config.block_signals) {
@@ -220,8 +225,9 @@ inline void ThreadGuard::join()
 inline void ThreadGuard::join_and_rethrow()
 {
     join(); // Throws
-    if (m_exception) {
-        std::exception_ptr exception = std::move(m_exception);
+    if (m_exception && *m_exception) {
+        std::exception_ptr exception = std::move(*m_exception);
+        *m_exception = nullptr;
         std::rethrow_exception(exception); // Throws
     }
 }
-- 
2.43.0


From 39ee860673736f4eae54098f2b0584b822972320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:25 +0000
Subject: [PATCH 093/119] fix: Undefined behavior when adding huge value to
 histogram, and when rendering empty histogram

---
 src/archon/core/histogram.hpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/archon/core/histogram.hpp b/src/archon/core/histogram.hpp
index 45b707c..c409263 100644
--- a/src/archon/core/histogram.hpp
+++ b/src/archon/core/histogram.hpp
@@ -147,13 +147,14 @@ void Histogram<T>::add(value_type val) noexcept
     if (ARCHON_LIKELY(val_2 >= 0)) {
         value_type val_3 = std::trunc(val_2);
         value_type max = core::max_float_for_int<value_type, std::size_t>();
-        std::size_t val_4 = std::size_t(val_2);
-        if (ARCHON_LIKELY(val_3 <= max && val_4 < m_num_bins)) {
-            m_bins[val_4] += 1;
-        }
-        else {
-            m_over += 1;
+        if (ARCHON_LIKELY(val_3 <= max)) {
+            std::size_t val_4 = std::size_t(val_3);
+            if (ARCHON_LIKELY(val_4 < m_num_bins)) {
+                m_bins[val_4] += 1;
+                return;
+            }
         }
+        m_over += 1;
     }
     else {
         m_under += 1;
@@ -331,7 +332,7 @@ template<class C, class U> void Histogram<T>::print(std::basic_ostream<C, U>& ou
     deduct(3);
     deduct(count_column_width);
     deduct(3);
-    double scale = double(max_bar_size) / max_count;
+    double scale = (ARCHON_LIKELY(max_count > 0) ? double(max_bar_size) / max_count : 0);
 
     core::BasicSeedMemoryOutputStream<char_type, traits_type> formatter_2; // Throws
     formatter_2.exceptions(std::ios_base::badbit | std::ios_base::failbit); // Throws
-- 
2.43.0


From 8b67f9848f24e93f67560fee85216ac1b389a055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:25 +0000
Subject: [PATCH 094/119] fix: Custom subscription operation was ignored by
 index iterator

---
 src/archon/core/index_iterator.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/archon/core/index_iterator.hpp b/src/archon/core/index_iterator.hpp
index 6e500aa..34037e4 100644
--- a/src/archon/core/index_iterator.hpp
+++ b/src/archon/core/index_iterator.hpp
@@ -111,14 +111,14 @@ inline IndexIterator<C, S>::IndexIterator(C& container, std::ptrdiff_t index) no
 template<class C, class S>
 inline auto IndexIterator<C, S>::operator->() const noexcept(noexcept(&S::subscr(std::declval<C&>(), 0))) -> pointer
 {
-    return &(*m_container)[m_index];
+    return &S::subscr(*m_container, m_index); // Throws
 }
 
 
 template<class C, class S>
 inline auto IndexIterator<C, S>::operator*() const noexcept(noexcept(S::subscr(std::declval<C&>(), 0))) -> reference
 {
-    return (*m_container)[m_index];
+    return S::subscr(*m_container, m_index); // Throws
 }
 
 
@@ -126,7 +126,7 @@ template<class C, class S>
 inline auto IndexIterator<C, S>::operator[](std::ptrdiff_t i) const
     noexcept(noexcept(S::subscr(std::declval<C&>(), 0))) -> reference
 {
-    return (*m_container)[m_index + i];
+    return S::subscr(*m_container, m_index + i); // Throws
 }
 
 
-- 
2.43.0


From a1ec3538d0e25abe3b18b40504495458cc878c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:25 +0000
Subject: [PATCH 095/119] fix: Wrong distance between stride iterators when it
 is negative

---
 src/archon/core/stride_iterator.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/archon/core/stride_iterator.hpp b/src/archon/core/stride_iterator.hpp
index c505060..1f300a6 100644
--- a/src/archon/core/stride_iterator.hpp
+++ b/src/archon/core/stride_iterator.hpp
@@ -124,7 +124,7 @@ template<class I, std::size_t S>
 inline auto StrideIterator<I, S>::operator[](std::ptrdiff_t i) const
     noexcept(noexcept(std::declval<const I&>()[i * S])) -> reference
 {
-    return m_iter[i * S]; // Throws
+    return m_iter[i * std::ptrdiff_t(S)]; // Throws
 }
 
 
@@ -166,7 +166,7 @@ template<class I, std::size_t S>
 inline auto StrideIterator<I, S>::operator+=(std::ptrdiff_t i) noexcept(noexcept(std::declval<I&>() += i * S)) ->
     StrideIterator&
 {
-    m_iter += i * S; // Throws
+    m_iter += i * std::ptrdiff_t(S); // Throws
     return *this;
 }
 
@@ -175,7 +175,7 @@ template<class I, std::size_t S>
 inline auto StrideIterator<I, S>::operator-=(std::ptrdiff_t i) noexcept(noexcept(std::declval<I&>() -= i * S)) ->
     StrideIterator&
 {
-    m_iter -= i * S; // Throws
+    m_iter -= i * std::ptrdiff_t(S); // Throws
     return *this;
 }
 
@@ -184,7 +184,7 @@ template<class I, std::size_t S>
 inline auto StrideIterator<I, S>::operator+(std::ptrdiff_t i) const
     noexcept(noexcept(std::declval<const I&>() + i * S)) -> StrideIterator
 {
-    return { m_iter + i * S }; // Throws
+    return { m_iter + i * std::ptrdiff_t(S) }; // Throws
 }
 
 
@@ -192,7 +192,7 @@ template<class I, std::size_t S>
 inline auto StrideIterator<I, S>::operator-(std::ptrdiff_t i) const
     noexcept(noexcept(std::declval<const I&>() - i * S)) -> StrideIterator
 {
-    return { m_iter - i * S }; // Throws
+    return { m_iter - i * std::ptrdiff_t(S) }; // Throws
 }
 
 
@@ -200,7 +200,7 @@ template<class I, std::size_t S>
 template<class J> inline auto StrideIterator<I, S>::operator-(const StrideIterator<J, S>& other) const
     noexcept(noexcept((std::declval<const I&>() - std::declval<const J&>()) / S)) -> difference_type
 {
-    return difference_type((m_iter - other.m_iter) / S); // Throws
+    return difference_type((m_iter - other.m_iter) / std::ptrdiff_t(S)); // Throws
 }
 
 
-- 
2.43.0


From ca11a3b243ed7a610b6b4b057d80784e0f734846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:25 +0000
Subject: [PATCH 096/119] fix: Wrong hash of negative values of narrow integer
 types

---
 src/archon/core/hash_fnv.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/core/hash_fnv.hpp b/src/archon/core/hash_fnv.hpp
index 77c6478..13d6551 100644
--- a/src/archon/core/hash_fnv.hpp
+++ b/src/archon/core/hash_fnv.hpp
@@ -135,7 +135,7 @@ template<class T> constexpr void Hash_FNV_1a_32::add_int(T value) noexcept
             offset += 8;
         }
     }
-    add_octet(value_type(value_2));
+    add_octet(value_type(value_2 & 0xFF));
 }
 
 
-- 
2.43.0


From c431f513aa42b501ca535cd37a98070dca0b5e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:25 +0000
Subject: [PATCH 097/119] fix: Field width of output stream was not reset when
 formatting value with modified locale

---
 src/archon/core/with_modified_locale.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/archon/core/with_modified_locale.hpp b/src/archon/core/with_modified_locale.hpp
index 126223e..5ef5cd9 100644
--- a/src/archon/core/with_modified_locale.hpp
+++ b/src/archon/core/with_modified_locale.hpp
@@ -122,6 +122,7 @@ inline auto with_modified_locale(std::basic_ostream<C, T>& out, const std::local
         out_2.imbue(std::locale(orig_loc, loc, cat)); // Throws
         out_2.clear(out.rdstate()); // Throws
         out_2 << ref; // Throws
+        out.width(out_2.width());
         out.clear(out_2.rdstate()); // Throws
     }
     return out;
-- 
2.43.0


From fb234d3390c0f7383a1934d0b11ce74529c3a179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:25 +0000
Subject: [PATCH 098/119] fix: Text owned by variant string reference was lost
 when character type is `char`

---
 src/archon/core/var_string_ref.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/archon/core/var_string_ref.hpp b/src/archon/core/var_string_ref.hpp
index c4582ae..d0819dd 100644
--- a/src/archon/core/var_string_ref.hpp
+++ b/src/archon/core/var_string_ref.hpp
@@ -160,8 +160,14 @@ inline bool BasicVarStringRef<C, T>::get(std::string_view& a, string_view_type&
     }
     const string_type* ptr_3 = std::get_if<string_type>(&m_variant);
     ARCHON_ASSERT(ptr_3);
-    b = *ptr_3;
-    return false;
+    if constexpr (is_degenerate) {
+        a = *ptr_3;
+        return true;
+    }
+    else {
+        b = *ptr_3;
+        return false;
+    }
 }
 
 
-- 
2.43.0


From 688ca3a099768bba70a760f871655bfd8c81422b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:25 +0000
Subject: [PATCH 099/119] fix: Conditions on fields of text parser were not
 usable

---
 src/archon/core/text_parser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/archon/core/text_parser.hpp b/src/archon/core/text_parser.hpp
index 6a6c8a5..3b00407 100644
--- a/src/archon/core/text_parser.hpp
+++ b/src/archon/core/text_parser.hpp
@@ -285,7 +285,7 @@ inline bool BasicTextParser<C, T>::set(string_view_type word, const Field2<U, I,
 {
     std::remove_reference_t<U> var = {};
     if (ARCHON_LIKELY(m_value_parser.parse(word, var))) { // Throws
-        if (ARCHON_LIKELY(cond(var))) { // Throws
+        if (ARCHON_LIKELY(field.cond(var))) { // Throws
             field.var = std::move(var);
             return true;
         }
@@ -313,7 +313,7 @@ inline bool BasicTextParser<C, T>::add(string_view_type word, const FieldSeq2<U,
 {
     U var = {};
     if (ARCHON_LIKELY(m_value_parser.parse(word, var))) { // Throws
-        if (ARCHON_LIKELY(cond(var))) { // Throws
+        if (ARCHON_LIKELY(field_seq.cond(var))) { // Throws
             field_seq.vec.push_back(std::move(var)); // Throws
             return true;
         }
-- 
2.43.0


From 9219af4362e60702c44b392b4d16ec44a9105727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:51 +0000
Subject: [PATCH 100/119] fix: Return value of function was discarded by
 with_tuple_elem()

---
 src/archon/core/impl/utility.hpp | 2 +-
 src/archon/core/utility.hpp      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/archon/core/impl/utility.hpp b/src/archon/core/impl/utility.hpp
index 061a321..704cde1 100644
--- a/src/archon/core/impl/utility.hpp
+++ b/src/archon/core/impl/utility.hpp
@@ -101,7 +101,7 @@ template<class T, class F, std::size_t I> bool for_each_tuple_elem_a(T& tuple, F
 template<class T, class F> struct WithTupleElem {
     template<std::size_t I> static auto exec(T& tuple, F& func)
     {
-        func(std::get<I>(std::forward<T>(tuple))); // Throws
+        return func(std::get<I>(std::forward<T>(tuple))); // Throws
     }
 };
 
diff --git a/src/archon/core/utility.hpp b/src/archon/core/utility.hpp
index e74a824..029c2ea 100644
--- a/src/archon/core/utility.hpp
+++ b/src/archon/core/utility.hpp
@@ -403,7 +403,7 @@ template<class T, class F> bool for_each_tuple_elem_a(T&& tuple, F&& func)
 template<class T, class F> auto with_tuple_elem(T&& tuple, std::size_t i, F&& func)
 {
     constexpr std::size_t n = std::tuple_size_v<std::remove_reference_t<T>>;
-    core::dispatch<impl::WithTupleElem<T, F>, n>(i, tuple, func); // Throws
+    return core::dispatch<impl::WithTupleElem<T, F>, n>(i, tuple, func); // Throws
 }
 
 
-- 
2.43.0


From b52bc380f1118987eeef2e73a59ed9b81ce2678e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:51 +0000
Subject: [PATCH 101/119] fix: Variant string references of non-const type
 could not be copied

---
 src/archon/core/var_string_ref.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/archon/core/var_string_ref.hpp b/src/archon/core/var_string_ref.hpp
index d0819dd..bbeda30 100644
--- a/src/archon/core/var_string_ref.hpp
+++ b/src/archon/core/var_string_ref.hpp
@@ -53,7 +53,8 @@ public:
     using string_view_type = std::basic_string_view<C, T>;
 
     BasicVarStringRef() noexcept;
-    template<class S> BasicVarStringRef(S&& string);
+    template<class S> BasicVarStringRef(S&& string)
+        requires (!std::is_same_v<std::remove_cvref_t<S>, BasicVarStringRef<C, T>>);
 
     /// \{
     ///
@@ -138,6 +139,7 @@ inline BasicVarStringRef<C, T>::BasicVarStringRef() noexcept
 
 template<class C, class T>
 template<class S> inline BasicVarStringRef<C, T>::BasicVarStringRef(S&& string)
+    requires (!std::is_same_v<std::remove_cvref_t<S>, BasicVarStringRef<C, T>>)
     : m_variant(std::in_place_type_t<mapped_type<S>>(), std::forward<S>(string)) // Throws
 {
 }
-- 
2.43.0


From 54c26e6e5a46b8f4a9fc9c32a4334ab93f3eba08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:41 +0000
Subject: [PATCH 102/119] fix: Implementation of make_stride_iterator() did not
 match its declaration

---
 src/archon/core/stride_iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/core/stride_iterator.hpp b/src/archon/core/stride_iterator.hpp
index 1f300a6..902c842 100644
--- a/src/archon/core/stride_iterator.hpp
+++ b/src/archon/core/stride_iterator.hpp
@@ -260,7 +260,7 @@ auto operator+(typename StrideIterator<I, S>::difference_type i, const StrideIte
 }
 
 
-template<class I, std::size_t S> auto make_stride_iterator(const I& iter) noexcept -> StrideIterator<I, S>
+template<std::size_t S, class I> auto make_stride_iterator(const I& iter) noexcept -> StrideIterator<I, S>
 {
     return { iter };
 }
-- 
2.43.0


From 634028a65848dfe9550f46c35221f754878d87e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:13 +0000
Subject: [PATCH 103/119] fix: Field width of output stream was not reset when
 formatting with specific parameters

---
 src/archon/core/format_with.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/archon/core/format_with.hpp b/src/archon/core/format_with.hpp
index bd2fd10..a9e1a47 100644
--- a/src/archon/core/format_with.hpp
+++ b/src/archon/core/format_with.hpp
@@ -89,6 +89,7 @@ inline auto with_width(std::basic_ostream<C, T>& out, std::streamsize width, con
     out_2.width(width); // Throws
     out_2.clear(out.rdstate()); // Throws
     out_2 << ref; // Throws
+    out.width(out_2.width());
     out.clear(out_2.rdstate()); // Throws
     return out;
 }
@@ -115,6 +116,7 @@ inline auto with_precision(std::basic_ostream<C, T>& out, int prec, const R& ref
     out_2.precision(prec); // Throws
     out_2.clear(out.rdstate()); // Throws
     out_2 << ref; // Throws
+    out.width(out_2.width());
     out.clear(out_2.rdstate()); // Throws
     return out;
 }
@@ -142,6 +144,7 @@ inline auto with_fixed(std::basic_ostream<C, T>& out, const R& ref, int prec) ->
     out_2.precision(prec); // Throws
     out_2.clear(out.rdstate()); // Throws
     out_2 << ref; // Throws
+    out.width(out_2.width());
     out.clear(out_2.rdstate()); // Throws
     return out;
 }
-- 
2.43.0


From d621bdce8b5eeab61a7c4c74732648ea09cf7444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:16 +0000
Subject: [PATCH 104/119] fix: Failure when asking for configuration of default
 screen in X11-based display implementation

When try_get_screen_conf() was asked for the configuration of the default screen (negative screen
index), it used the negative index when looking up the screen.
---
 src/archon/display/x11_implementation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/display/x11_implementation.cpp b/src/archon/display/x11_implementation.cpp
index 34a40ec..5b77226 100644
--- a/src/archon/display/x11_implementation.cpp
+++ b/src/archon/display/x11_implementation.cpp
@@ -786,7 +786,7 @@ bool ConnectionImpl::try_get_screen_conf(int screen, core::Buffer<display::Viewp
 
 #if HAVE_XRANDR
     if (m_extension_info.have_xrandr) {
-        const ScreenSlot& slot = ensure_screen_slot(screen); // Throws
+        const ScreenSlot& slot = ensure_screen_slot(screen_2); // Throws
         const x11::ScreenConf& conf = slot.screen_conf;
         std::size_t n = conf.viewports.size();
         viewports.reserve(n); // Throws
-- 
2.43.0


From 32a3825bf5d7e1c99df997ffdbf276aa157d6ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:16 +0000
Subject: [PATCH 105/119] fix: Event processing was not interrupted by
 on_screen_change() in X11-based display implementation

When the event handler for screen changes returned false, event processing was supposed to be
interrupted, but the return value was ignored.
---
 src/archon/display/x11_implementation.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/archon/display/x11_implementation.cpp b/src/archon/display/x11_implementation.cpp
index 5b77226..502e335 100644
--- a/src/archon/display/x11_implementation.cpp
+++ b/src/archon/display/x11_implementation.cpp
@@ -1293,8 +1293,11 @@ bool ConnectionImpl::process_event_batch()
                 int screen = i->second;
                 ARCHON_ASSERT(screen >= 0 && screen < ScreenCount(dpy));
                 ScreenSlot& slot = m_screen_slots[screen];
-                if (update_screen_conf(slot)) // Throws
-                    event_handler->on_screen_change(screen); // Throws
+                if (update_screen_conf(slot)) { // Throws
+                    bool proceed = event_handler->on_screen_change(screen); // Throws
+                    if (ARCHON_UNLIKELY(!proceed))
+                        return false; // Interrupt
+                }
         }
     }
 #endif // HAVE_XRANDR
-- 
2.43.0


From 445e2257be0fcbe60649a79a6b5b918a6a5f567e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:16 +0000
Subject: [PATCH 106/119] fix: Scroll events were reported twice by X11-based
 display implementation

The X server reports each step of a scroll wheel as a press of a button followed by a release of that
button. A scroll event was generated for both of them.
---
 src/archon/display/x11_implementation.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/archon/display/x11_implementation.cpp b/src/archon/display/x11_implementation.cpp
index 502e335..d084784 100644
--- a/src/archon/display/x11_implementation.cpp
+++ b/src/archon/display/x11_implementation.cpp
@@ -1102,6 +1102,10 @@ bool ConnectionImpl::process_event_batch()
                 math::Vector2F amount;
                 if (ARCHON_LIKELY(try_map_mouse_button(ev.xbutton.button, is_scroll, button, amount))) {
                     if (ARCHON_LIKELY(is_scroll)) {
+                        // Each step is reported by the X server as a press followed by a
+                        // release
+                        if (ev.type != ButtonPress)
+                            break;
                         display::ScrollEvent event;
                         event.cookie = window->cookie;
                         event.timestamp = unwrap_session.unwrap_next_timestamp(ev.xbutton.time); // Throws
-- 
2.43.0


From 223c3ae23f6d7b71be8974c6a1c987722a8b7a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:16 +0000
Subject: [PATCH 107/119] fix: Creation of window failed when its depth
 differed from that of root window

With no border specified, the X server attempts to use the border pixmap of the parent window, and
reports an error (BadMatch) if the two windows have different depths.
---
 src/archon/display/x11_implementation.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/archon/display/x11_implementation.cpp b/src/archon/display/x11_implementation.cpp
index d084784..697c217 100644
--- a/src/archon/display/x11_implementation.cpp
+++ b/src/archon/display/x11_implementation.cpp
@@ -1443,8 +1443,11 @@ void WindowImpl::create(display::Size size, const Config& config, bool enable_do
     int depth = visual_spec.info.depth;
     unsigned class_ = InputOutput;
     Visual* visual = visual_spec.info.visual;
-    unsigned long valuemask = CWEventMask | CWColormap;
+    unsigned long valuemask = CWBorderPixel | CWEventMask | CWColormap;
     XSetWindowAttributes attributes = {};
+    // If the border is not specified, it is inherited from the parent window, which is a
+    // protocol error when the windows have different depths.
+    attributes.border_pixel = 0;
     attributes.event_mask = (KeyPressMask | KeyReleaseMask |
                              ButtonPressMask | ButtonReleaseMask |
                              ButtonMotionMask |
-- 
2.43.0


From 119e6747567b74e540768c7fc81bbf9a61a5c358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:16 +0000
Subject: [PATCH 108/119] fix: Wrong contents of newly created X11 colormaps
 with more than 256 entries

Colormaps are initialized in chunks of 256 entries, but every chunk was stored in the first 256 entries
of the colormap.
---
 src/archon/display/noinst/x11/support.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/archon/display/noinst/x11/support.cpp b/src/archon/display/noinst/x11/support.cpp
index 6effc4d..28a6ed1 100644
--- a/src/archon/display/noinst/x11/support.cpp
+++ b/src/archon/display/noinst/x11/support.cpp
@@ -2827,7 +2827,7 @@ void x11::init_grayscale_colormap(Display* dpy, Colormap colormap, const x11::Mu
         for (int i = 0; i < n; ++i) {
             XColor& color = colors[i];
             color = {};
-            color.pixel = ulong(i);
+            color.pixel = ulong(offset + i);
             color.flags = DoRed | DoGreen | DoBlue;
             int j = offset + i;
             if (ARCHON_LIKELY(j >= begin_1 && j < end_1)) {
@@ -2883,7 +2883,7 @@ void x11::init_pseudocolor_colormap(Display* dpy, Colormap colormap, const x11::
         for (int i = 0; i < n; ++i) {
             XColor& color = colors[i];
             color = {};
-            color.pixel = ulong(i);
+            color.pixel = ulong(offset + i);
             color.flags = DoRed | DoGreen | DoBlue;
             int j = offset + i;
             if (ARCHON_LIKELY(j >= begin_1 && j < end_1)) {
-- 
2.43.0


From 435a9188f2bd692cad3c98a38537171a2be1f953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:57 +0000
Subject: [PATCH 109/119] fix: Red and blue were swapped when filling in X11
 windows with reversed channel order

The order of channels was taken into account when placing images in textures, but not when a window was
filled with a color. This affected decomposed visuals with red in the least significant bits, as well
as windows for which a new PseudoColor colormap was created.
---
 src/archon/display/noinst/x11/support.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/archon/display/noinst/x11/support.cpp b/src/archon/display/noinst/x11/support.cpp
index 28a6ed1..762e9b8 100644
--- a/src/archon/display/noinst/x11/support.cpp
+++ b/src/archon/display/noinst/x11/support.cpp
@@ -858,13 +858,17 @@ auto BitFieldPixelFormat<G, T, P, N, R>::intern_color(util::Color color) const n
     else {
         static_assert(packing_type::num_fields == 3);
 
-        constexpr int red_width   = image::get_bit_field_width(packing_type::fields, 3, 0);
-        constexpr int green_width = image::get_bit_field_width(packing_type::fields, 3, 1);
-        constexpr int blue_width  = image::get_bit_field_width(packing_type::fields, 3, 2);
+        constexpr int red_field   = (reverse_channel_order ? 2 : 0);
+        constexpr int green_field = 1;
+        constexpr int blue_field  = (reverse_channel_order ? 0 : 2);
 
-        constexpr int red_shift   = image::get_bit_field_shift(packing_type::fields, 3, 0);
-        constexpr int green_shift = image::get_bit_field_shift(packing_type::fields, 3, 1);
-        constexpr int blue_shift  = image::get_bit_field_shift(packing_type::fields, 3, 2);
+        constexpr int red_width   = image::get_bit_field_width(packing_type::fields, 3, red_field);
+        constexpr int green_width = image::get_bit_field_width(packing_type::fields, 3, green_field);
+        constexpr int blue_width  = image::get_bit_field_width(packing_type::fields, 3, blue_field);
+
+        constexpr int red_shift   = image::get_bit_field_shift(packing_type::fields, 3, red_field);
+        constexpr int green_shift = image::get_bit_field_shift(packing_type::fields, 3, green_field);
+        constexpr int blue_shift  = image::get_bit_field_shift(packing_type::fields, 3, blue_field);
 
         namespace uf = util::unit_frac;
         ulong r, g, b;
-- 
2.43.0


From e46e12fbc30072378210101828b30649b7a068e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:57 +0000
Subject: [PATCH 110/119] fix: Wrong gray level when filling window of X11
 visual of type StaticGray

The nearest gray level was selected on the basis of the red component of the color rather than the
luminance of the color.
---
 src/archon/display/noinst/x11/support.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/archon/display/noinst/x11/support.cpp b/src/archon/display/noinst/x11/support.cpp
index 762e9b8..5e4c92f 100644
--- a/src/archon/display/noinst/x11/support.cpp
+++ b/src/archon/display/noinst/x11/support.cpp
@@ -964,6 +964,10 @@ auto IndexedPixelFormat<N>::intern_color(util::Color color) const -> unsigned lo
         type(a * image::compressed_int_to_float<8>(color.green())),
         type(a * image::compressed_int_to_float<8>(color.blue())),
     };
+    if (m_palette_map.num_channels() == 1) {
+        // Palette of grays
+        components[0] = type(util::cvt_RGB_to_Lum(math::Vector3(components[0], components[1], components[2])));
+    }
 
     // FIXME: Should probably convert color to CIELAB colorspace (this assumes that palette
     // is also changed to be expressed in terms of CIELAB)        
-- 
2.43.0


From c95a8ab204f81f83b0243e5b039ff12d7732878c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:08 +0000
Subject: [PATCH 111/119] fix: Wrong colors were freed when default X11
 colormap could not accommodate all needed colors

When not all the needed colors could be allocated in the default colormap, those that were allocated
must be freed. What was freed, however, were the entries whose indexes were less than the number of
allocated colors, which generally are not the ones that were allocated.
---
 src/archon/display/noinst/x11/support.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/archon/display/noinst/x11/support.cpp b/src/archon/display/noinst/x11/support.cpp
index 5e4c92f..b33cc33 100644
--- a/src/archon/display/noinst/x11/support.cpp
+++ b/src/archon/display/noinst/x11/support.cpp
@@ -1380,7 +1380,7 @@ bool PixelFormatCreator::create_grayscale(std::unique_ptr<x11::PixelFormat>& for
 
               fail:
                 for (int j = 0; j < i; ++j) {
-                    ulong pixel = ulong((i - 1) - j);
+                    ulong pixel = ulong(perm[std::size_t((i - 1) - j)]);
                     ulong pixels[] = { pixel };
                     int npixels = 1;
                     ulong planes = 0;
@@ -1532,7 +1532,12 @@ bool PixelFormatCreator::create_pseudocolor(std::unique_ptr<x11::PixelFormat>& f
 
               fail:
                 for (int j = 0; j < i; ++j) {
-                    ulong pixel = ulong((i - 1) - j);
+                    // Blue varied fastest when colors were allocated
+                    int k = (i - 1) - j;
+                    ulong r = ulong(k / (num_green * num_blue));
+                    ulong g = ulong(k / num_blue % num_green);
+                    ulong b = ulong(k % num_blue);
+                    ulong pixel = ulong(perm[std::size_t(fields.pack(r, g, b))]);
                     ulong pixels[] = { pixel };
                     int npixels = 1;
                     ulong planes = 0;
-- 
2.43.0


From e83fd78ae55086f0dc5fd1788675ad646a798e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:09 +0000
Subject: [PATCH 112/119] fix: Protocol error when size of X11 window was
 specified as zero

Zero is a valid window size according to the display library, but not according to X11, which by default
means that the application is terminated.
---
 src/archon/display/x11_implementation.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/archon/display/x11_implementation.cpp b/src/archon/display/x11_implementation.cpp
index 697c217..6e739ea 100644
--- a/src/archon/display/x11_implementation.cpp
+++ b/src/archon/display/x11_implementation.cpp
@@ -1434,6 +1434,7 @@ void WindowImpl::create(display::Size size, const Config& config, bool enable_do
     bool has_minimum_size = (config.resizable && config.minimum_size.has_value());
     if (has_minimum_size)
         adjusted_size = max(adjusted_size, config.minimum_size.value());
+    adjusted_size = max(adjusted_size, display::Size(1, 1)); // X11 windows cannot be empty
 
     ::Window parent = screen_slot.root;
     int x = 0, y = 0;
@@ -1576,8 +1577,9 @@ void WindowImpl::set_size(display::Size size)
 {
     if (ARCHON_UNLIKELY(size.width < 0 || size.height < 0))
         throw std::invalid_argument("Bad window size");
-    unsigned w = unsigned(size.width);
-    unsigned h = unsigned(size.height);
+    display::Size adjusted_size = max(size, display::Size(1, 1)); // X11 windows cannot be empty
+    unsigned w = unsigned(adjusted_size.width);
+    unsigned h = unsigned(adjusted_size.height);
     XResizeWindow(conn.dpy, win, w, h);
 }
 
-- 
2.43.0


From 1535d6aa6200d392c13674d667458c7aef87426d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:09 +0000
Subject: [PATCH 113/119] fix: Protocol error when placing empty texture in X11
 window

No pixmap is created for an empty texture, so there is nothing to copy from.
---
 src/archon/display/x11_implementation.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/archon/display/x11_implementation.cpp b/src/archon/display/x11_implementation.cpp
index 6e739ea..923df6c 100644
--- a/src/archon/display/x11_implementation.cpp
+++ b/src/archon/display/x11_implementation.cpp
@@ -1695,6 +1695,8 @@ void WindowImpl::do_fill(util::Color color, int x, int y, unsigned w, unsigned h
 
 void WindowImpl::do_put_texture(const TextureImpl& tex, const display::Box& source_area, const display::Pos& pos)
 {
+    if (ARCHON_UNLIKELY(source_area.size.is_empty()))
+        return; // There is no pixmap if texture is empty
     GC gc = ensure_graphics_context();
     int src_x = source_area.pos.x, src_y = source_area.pos.y;
     unsigned width = unsigned(source_area.size.width), height = unsigned(source_area.size.height);
-- 
2.43.0


From 9f3f3b3ef977c264cc465aee109960ddf9763fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:29 +0000
Subject: [PATCH 114/119] fix: Drawing outside X11 window could affect the
 inside of the window

Coordinates and sizes are passed to the X server as 16-bit values, so when they were outside that range,
drawing took place at the wrong position.
---
 src/archon/display/x11_implementation.cpp | 26 +++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/archon/display/x11_implementation.cpp b/src/archon/display/x11_implementation.cpp
index 923df6c..a1b0348 100644
--- a/src/archon/display/x11_implementation.cpp
+++ b/src/archon/display/x11_implementation.cpp
@@ -226,6 +226,24 @@ bool ColormapFinderImpl::find_standard_colormap(VisualID visual, XStandardColorm
 
 
 
+// Clip the specified range such that it can be represented using the 16-bit coordinates and
+// sizes of the X11 protocol. No part of a window is lost, because window coordinates are in
+// the range [0, 32767]. Returns false if the resulting range would be empty.
+bool clip_range(int& pos, unsigned& size, int& num_skipped) noexcept
+{
+    using type = long long;
+    type max = 32767;
+    type begin = std::max(type(pos), type(0));
+    type end   = std::min(type(pos) + type(size), max);
+    if (ARCHON_UNLIKELY(begin >= end))
+        return false;
+    num_skipped = int(begin - pos);
+    pos  = int(begin);
+    size = unsigned(end - begin);
+    return true;
+}
+
+
 bool map_key(display::KeyCode, display::Key&) noexcept;
 bool rev_map_key(display::Key, display::KeyCode&) noexcept;
 
@@ -1686,6 +1704,9 @@ void WindowImpl::do_set_fullscreen_mode(bool on)
 
 void WindowImpl::do_fill(util::Color color, int x, int y, unsigned w, unsigned h)
 {
+    int num_skipped_x = {}, num_skipped_y = {};
+    if (ARCHON_UNLIKELY(!clip_range(x, w, num_skipped_x) || !clip_range(y, h, num_skipped_y)))
+        return;
     GC gc = ensure_graphics_context();
     unsigned long color_2 = intern_color(color); // Throws
     XSetForeground(conn.dpy, gc, color_2);
@@ -1701,6 +1722,11 @@ void WindowImpl::do_put_texture(const TextureImpl& tex, const display::Box& sour
     int src_x = source_area.pos.x, src_y = source_area.pos.y;
     unsigned width = unsigned(source_area.size.width), height = unsigned(source_area.size.height);
     int dest_x = pos.x, dest_y = pos.y;
+    int num_skipped_x = {}, num_skipped_y = {};
+    if (ARCHON_UNLIKELY(!clip_range(dest_x, width, num_skipped_x) || !clip_range(dest_y, height, num_skipped_y)))
+        return;
+    src_x += num_skipped_x;
+    src_y += num_skipped_y;
     XCopyArea(conn.dpy, tex.pixmap, m_drawable, gc, src_x, src_y, width, height, dest_x, dest_y);
 }
 
-- 
2.43.0


From fa86b3738455e067b95659c03c2eba2e8e70386d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:08 +0000
Subject: [PATCH 115/119] fix: Base pixel of standard X11 colormap was ignored
 when filling

When a window uses a standard colormap whose first color is not in the first entry of the colormap,
images were placed correctly in textures, but wrong colors were used for filling the window.
---
 src/archon/display/noinst/x11/support.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/display/noinst/x11/support.hpp b/src/archon/display/noinst/x11/support.hpp
index 703a559..333c22c 100644
--- a/src/archon/display/noinst/x11/support.hpp
+++ b/src/archon/display/noinst/x11/support.hpp
@@ -692,7 +692,7 @@ inline void MultFields::assign_to(XStandardColormap& params) const noexcept
 inline auto MultFields::pack(unsigned long red, unsigned long green,
                              unsigned long blue) const noexcept -> unsigned long
 {
-    return red * red_mult + green * green_mult + blue * blue_mult;
+    return offset + red * red_mult + green * green_mult + blue * blue_mult;
 }
 
 
-- 
2.43.0


From 0488be8ac61863b406fad0b8bbc63ebe78d6d989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:36 +0000
Subject: [PATCH 116/119] fix: Assertion failure when X11 screen is both
 rotated and reflected

---
 src/archon/display/noinst/x11/support.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/archon/display/noinst/x11/support.cpp b/src/archon/display/noinst/x11/support.cpp
index b33cc33..34e7be1 100644
--- a/src/archon/display/noinst/x11/support.cpp
+++ b/src/archon/display/noinst/x11/support.cpp
@@ -2135,11 +2135,10 @@ bool try_update_screen_conf(Display* dpy, ::Window root, Atom atom_edid, const i
         if (info->mm_width != 0 && info->mm_height != 0) {
             unsigned long mm_width  = info->mm_width;
             unsigned long mm_height = info->mm_height;
-            switch (crtc->rotation) {
+            // Reflection (RR_Reflect_X and RR_Reflect_Y) can be combined with any rotation
+            switch (crtc->rotation & (RR_Rotate_0 | RR_Rotate_90 | RR_Rotate_180 | RR_Rotate_270)) {
                 case RR_Rotate_0:
                 case RR_Rotate_180:
-                case RR_Reflect_X:
-                case RR_Reflect_Y:
                     break;
                 case RR_Rotate_90:
                 case RR_Rotate_270:
-- 
2.43.0


From 554beafa242980376675a0c529b206988dedb9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:36 +0000
Subject: [PATCH 117/119] fix: Assertion failure when X11 screen configuration
 changes while it is being fetched

---
 src/archon/display/noinst/x11/support.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/archon/display/noinst/x11/support.cpp b/src/archon/display/noinst/x11/support.cpp
index 34e7be1..3c23e23 100644
--- a/src/archon/display/noinst/x11/support.cpp
+++ b/src/archon/display/noinst/x11/support.cpp
@@ -2090,7 +2090,9 @@ bool try_update_screen_conf(Display* dpy, ::Window root, Atom atom_edid, const i
                     refresh_rate = mode.dotClock / (mode.hTotal * double(mode.vTotal));
                 break;
             }
-            ARCHON_ASSERT(found);
+            // Configuration may have changed since list of modes was fetched
+            if (ARCHON_UNLIKELY(!found))
+                return nullptr;
         }
         ARCHON_STEADY_ASSERT(crtcs.size() < crtcs.capacity());
         Crtc& crtc =  crtcs[id];
-- 
2.43.0


From 66d40dd1bf7bf96c5308c1269133f701f8153575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:58 +0000
Subject: [PATCH 118/119] fix: Assertion failure when key with no assigned
 symbol was pressed in X11 window

---
 src/archon/display/x11_implementation.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/archon/display/x11_implementation.cpp b/src/archon/display/x11_implementation.cpp
index a1b0348..a20baff 100644
--- a/src/archon/display/x11_implementation.cpp
+++ b/src/archon/display/x11_implementation.cpp
@@ -1220,7 +1220,8 @@ bool ConnectionImpl::process_event_batch()
                 unsigned group = XkbGroup1Index;
                 unsigned level = 0;
                 KeySym keysym = XkbKeycodeToKeysym(dpy, ev.xkey.keycode, group, level);
-                ARCHON_ASSERT(keysym != NoSymbol);
+                if (ARCHON_UNLIKELY(keysym == NoSymbol))
+                    break; // Ignore keys that have no symbol assigned to them
                 display::KeyEvent event;
                 event.cookie = window->cookie;
                 event.timestamp = timestamp;
-- 
2.43.0


From 41f58af87446fe97782baaaf4ab61fe96acb6dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:58 +0000
Subject: [PATCH 119/119] fix: Assertion failure, and loss of enter and leave
 events, when X11 pointer grab ended prematurely

---
 src/archon/display/x11_implementation.cpp | 24 ++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/archon/display/x11_implementation.cpp b/src/archon/display/x11_implementation.cpp
index a20baff..5f2392f 100644
--- a/src/archon/display/x11_implementation.cpp
+++ b/src/archon/display/x11_implementation.cpp
@@ -1111,6 +1111,12 @@ bool ConnectionImpl::process_event_batch()
             expose(); // Throws
             break;
 
+        case UnmapNotify:
+            // Unmapping of window ends pointer grab
+            if (ev.xunmap.window == m_pointer_grab_window_id)
+                m_pointer_grab_buttons.clear();
+            break;
+
         case ButtonPress:
         case ButtonRelease:
             if (ARCHON_LIKELY(lookup_window(ev.xbutton.window, window))) {
@@ -1371,18 +1377,18 @@ bool ConnectionImpl::lookup_window(::Window window_id, WindowImpl*& window) noex
 
 void ConnectionImpl::track_pointer_grabs(::Window window_id, unsigned button, bool is_press)
 {
-    ARCHON_ASSERT(!is_pointer_grabbed() || window_id == m_pointer_grab_window_id);
+    // The X server ends a pointer grab prematurely if the grabbing window is destroyed or
+    // unmapped. When that happens, the release of the involved buttons will be reported to
+    // another window, or not at all. Consequently, the release of a button can be reported
+    // to a window without the preceding press of that button having been reported to it.
+    if (ARCHON_UNLIKELY(is_pointer_grabbed() && window_id != m_pointer_grab_window_id))
+        m_pointer_grab_buttons.clear();
     if (is_press) {
-        bool grab_in_progress = is_pointer_grabbed();
-        auto p = m_pointer_grab_buttons.insert(button); // Throws
-        bool was_inserted = p.second;
-        ARCHON_ASSERT(was_inserted);
-        if (ARCHON_LIKELY(!grab_in_progress))
-            m_pointer_grab_window_id = window_id;
+        m_pointer_grab_buttons.insert(button); // Throws
+        m_pointer_grab_window_id = window_id;
     }
     else {
-        auto n = m_pointer_grab_buttons.erase(button);
-        ARCHON_ASSERT(n == 1);
+        m_pointer_grab_buttons.erase(button);
     }
 }
 
-- 
2.43.0

