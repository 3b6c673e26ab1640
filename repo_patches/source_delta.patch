From 4ca358a2f7d5e6d961c1fbafc2127b5f70dc484f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:54 +0000
Subject: [PATCH 01/54] fix: judge code point validity on the full 32 bit value

is_code_point_valid() narrowed the code point to char16_t before the
surrogate test, so supplementary code points such as U+1D800 (and all
U+xD800-xDFFF) were reported as invalid and could not be converted.
---
 api/src/cmp/unicode/examiners.ipp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/api/src/cmp/unicode/examiners.ipp b/api/src/cmp/unicode/examiners.ipp
index c42d066..4727e77 100644
--- a/api/src/cmp/unicode/examiners.ipp
+++ b/api/src/cmp/unicode/examiners.ipp
@@ -90,7 +90,10 @@ is_code_point_valid (
 noexcept
 {
     return code_point <= maximum_code_point
-        && !is_surrogate(code_point);
+        && (
+            code_point < leading_surrogate_minimum_value
+                || code_point > trailing_surrogate_maximum_value
+        );
 } // function -----------------------------------------------------------------
 
 constexpr
-- 
2.43.0


From fdcd40b8bbc559170bbf402be368e47501cd38fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:54 +0000
Subject: [PATCH 02/54] fix: reject invalid code points when inserting into
 UTF-16 and UTF-32

Only the UTF-8 branch validated the code point; the others stored garbage
surrogates or out of range values instead of throwing invalid_code_point.
---
 api/src/cmp/unicode/algorithms.ipp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/api/src/cmp/unicode/algorithms.ipp b/api/src/cmp/unicode/algorithms.ipp
index bffc917..b2abf2d 100644
--- a/api/src/cmp/unicode/algorithms.ipp
+++ b/api/src/cmp/unicode/algorithms.ipp
@@ -150,10 +150,10 @@ insert_code_point (
                        && sizeof (wchar_t) == 2
                )
     ) {
-        if (
-            !is_surrogate(code_point)
-                && code_point <= maximum_bmp_code_point
-        ) {
+        if (!is_code_point_valid(code_point)) {
+            throw invalid_code_point{};
+        }
+        if (code_point <= maximum_bmp_code_point) {
             s.insert(index, 1, static_cast<char16_t>(code_point));
         } else {
             code_point -= 0x10000;
@@ -181,6 +181,9 @@ insert_code_point (
                        && sizeof (wchar_t) == 4
                )
     ) {
+        if (!is_code_point_valid(code_point)) {
+            throw invalid_code_point{};
+        }
         s.insert(index, 1, code_point);
     }
 } // function -----------------------------------------------------------------
-- 
2.43.0


From 4c3d38823bca5a99aa797c980f99f9605d5a1d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:19 +0000
Subject: [PATCH 03/54] fix: step over whole surrogate pairs in UTF-16 code
 point iterators

Advancing left the iterator on the trailing surrogate, and retreating by an
offset advanced instead.
---
 api/src/cmp/unicode/by_code_point.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/api/src/cmp/unicode/by_code_point.cpp b/api/src/cmp/unicode/by_code_point.cpp
index c5c11d9..858bfa7 100644
--- a/api/src/cmp/unicode/by_code_point.cpp
+++ b/api/src/cmp/unicode/by_code_point.cpp
@@ -869,7 +869,7 @@ by_code_point<char16_t>::const_iterator::finish_sequence (
         if (!is_trailing_surrogate(code_unit)) {
             throw invalid_unicode_encoding{};
         }
-        ++i;
+        i += 2;
         return initial_code_point_value + (code_unit - 0xDC00) + 0x10000;
     } else {
         ++i;
@@ -915,7 +915,7 @@ by_code_point<char16_t>::const_iterator::retreat (
     difference_type offset
 ) {
     while (offset-- > 0) {
-        advance();
+        retreat();
     }
 } // function -----------------------------------------------------------------
 
@@ -1459,7 +1459,7 @@ by_code_point<wchar_t>::const_iterator::finish_sequence (
         if (!is_trailing_surrogate(code_unit)) {
             throw invalid_unicode_encoding{};
         }
-        ++i;
+        i += 2;
         return initial_code_point_value + (code_unit - 0xDC00) + 0x10000;
     } else {
         ++i;
@@ -1518,7 +1518,7 @@ by_code_point<wchar_t>::const_iterator::retreat (
 ) {
     if constexpr (sizeof (wchar_t) == 2) {
         while (offset-- > 0) {
-            advance();
+            retreat();
         }
     } else {
         m_current_iterator -= offset;
-- 
2.43.0


From 968f20d513ba2871623e3750a7bf427dcce5dec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:19 +0000
Subject: [PATCH 04/54] fix: do not read past the end when advancing over
 truncated text

The end check looked at the current code unit although the next one is
read, so a truncated sequence at the end of a view was read out of bounds.
---
 api/src/cmp/unicode/by_code_point.cpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/api/src/cmp/unicode/by_code_point.cpp b/api/src/cmp/unicode/by_code_point.cpp
index 858bfa7..f33274c 100644
--- a/api/src/cmp/unicode/by_code_point.cpp
+++ b/api/src/cmp/unicode/by_code_point.cpp
@@ -466,7 +466,7 @@ const
         return result;
     }
     while (--sequence_length > 0) {
-        if (i == m_end_iterator) {
+        if (i + 1 == m_end_iterator) {
             throw iterated_past_end{};
         }
         code_unit = *(i + 1);
@@ -493,7 +493,7 @@ by_code_point<char8_t>::const_iterator::finish_sequence (
         return result;
     }
     while (--sequence_length > 0) {
-        if (i == m_end_iterator) {
+        if (i + 1 == m_end_iterator) {
             throw iterated_past_end{};
         }
         code_unit = *(i + 1);
@@ -511,6 +511,9 @@ by_code_point<char8_t>::const_iterator::finish_sequence (
 void
 by_code_point<char8_t>::const_iterator::advance ()
 {
+    if (m_current_iterator == m_end_iterator) {
+        throw iterated_past_end{};
+    }
     char8_t code_unit{*m_current_iterator};
     char32_t code_point;
     auto sequence_length{
@@ -841,7 +844,7 @@ by_code_point<char16_t>::const_iterator::finish_sequence (
 const
 {
     if (sequence_length == 2) {
-        if (i == m_end_iterator) {
+        if (i + 1 == m_end_iterator) {
             throw iterated_past_end{};
         }
         char16_t code_unit{*(i + 1)};
@@ -862,7 +865,7 @@ by_code_point<char16_t>::const_iterator::finish_sequence (
     std::u16string_view::const_iterator& i
 ) {
     if (sequence_length == 2) {
-        if (i == m_end_iterator) {
+        if (i + 1 == m_end_iterator) {
             throw iterated_past_end{};
         }
         char16_t code_unit{*(i + 1)};
@@ -880,6 +883,9 @@ by_code_point<char16_t>::const_iterator::finish_sequence (
 void
 by_code_point<char16_t>::const_iterator::advance ()
 {
+    if (m_current_iterator == m_end_iterator) {
+        throw iterated_past_end{};
+    }
     char16_t code_unit{*m_current_iterator};
     char32_t code_point;
     auto sequence_length{
@@ -1431,7 +1437,7 @@ by_code_point<wchar_t>::const_iterator::finish_sequence (
 const
 {
     if (sequence_length == 2) {
-        if (i == m_end_iterator) {
+        if (i + 1 == m_end_iterator) {
             throw iterated_past_end{};
         }
         char16_t code_unit{static_cast<char16_t>(*(i + 1))};
@@ -1452,7 +1458,7 @@ by_code_point<wchar_t>::const_iterator::finish_sequence (
     std::wstring_view::const_iterator& i
 ) {
     if (sequence_length == 2) {
-        if (i == m_end_iterator) {
+        if (i + 1 == m_end_iterator) {
             throw iterated_past_end{};
         }
         char16_t code_unit{static_cast<char16_t>(*(i + 1))};
@@ -1471,6 +1477,9 @@ void
 by_code_point<wchar_t>::const_iterator::advance ()
 {
     if constexpr (sizeof (wchar_t) == 2) {
+        if (m_current_iterator == m_end_iterator) {
+            throw iterated_past_end{};
+        }
         char16_t code_unit{static_cast<char16_t>(*m_current_iterator)};
         char32_t code_point;
         auto sequence_length{
-- 
2.43.0


From bf248e0040a99e4c6670c0fec297b0b460c8ba8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:46 +0000
Subject: [PATCH 05/54] fix: reject ill-formed UTF-8 and UTF-32 when decoding
 and validating

Overlong sequences, encoded surrogates and values above U+10FFFF were
decoded as if they were valid by the iterators, by validate_string() and by
text_input_stream.
---
 api/include/cmp/unicode/impl/impl.hpp | 12 ++++++++++++
 api/src/cmp/io/text_input_stream.ipp  |  6 +++++-
 api/src/cmp/unicode/algorithms.ipp    |  2 +-
 api/src/cmp/unicode/by_code_point.cpp | 18 +++++++++++++++---
 api/src/cmp/unicode/impl/impl.cpp     | 15 +++++++++++++++
 5 files changed, 48 insertions(+), 5 deletions(-)

diff --git a/api/include/cmp/unicode/impl/impl.hpp b/api/include/cmp/unicode/impl/impl.hpp
index e044dd2..cb2d749 100644
--- a/api/include/cmp/unicode/impl/impl.hpp
+++ b/api/include/cmp/unicode/impl/impl.hpp
@@ -22,6 +22,18 @@ initialize_utf8_sequence (
     char32_t& initial_code_point_value
 );
 
+/*
+    Throws if the code point decoded from a UTF-8 sequence of the given length
+    is not valid or would have fit in a shorter sequence.
+*/
+CMP_CONDITIONAL_INLINE
+CMP_LIBRARY_NAME
+void
+verify_utf8_sequence (
+    int sequence_length,
+    char32_t code_point
+);
+
 CMP_CONDITIONAL_INLINE
 CMP_LIBRARY_NAME
 int
diff --git a/api/src/cmp/io/text_input_stream.ipp b/api/src/cmp/io/text_input_stream.ipp
index 59a74da..a8c7d2f 100644
--- a/api/src/cmp/io/text_input_stream.ipp
+++ b/api/src/cmp/io/text_input_stream.ipp
@@ -183,7 +183,7 @@ text_input_stream<InputResource>::finish_utf8_sequence (
 ) {
     char8_t code_unit;
     char32_t result{initial_code_point_value};
-    while (--sequence_length > 0) {
+    for (int remaining_length{sequence_length}; --remaining_length > 0;) {
         if (!read_utf8_code_unit(code_unit)) {
             throw read_past_end{};
         }
@@ -193,6 +193,7 @@ text_input_stream<InputResource>::finish_utf8_sequence (
         result <<= 6;
         result |= code_unit & 0b0011'1111;
     }
+    impl::verify_utf8_sequence(sequence_length, result);
     return result;
 } // function -----------------------------------------------------------------
 
@@ -260,6 +261,9 @@ text_input_stream<InputResource>::read_utf32_code_point ()
     if (!read_utf32_code_unit(code_unit)) {
         throw read_past_end{};
     }
+    if (!is_code_point_valid(code_unit)) {
+        throw invalid_unicode_encoding{};
+    }
     return code_unit;
 } // function -----------------------------------------------------------------
 
diff --git a/api/src/cmp/unicode/algorithms.ipp b/api/src/cmp/unicode/algorithms.ipp
index b2abf2d..4478722 100644
--- a/api/src/cmp/unicode/algorithms.ipp
+++ b/api/src/cmp/unicode/algorithms.ipp
@@ -290,7 +290,7 @@ noexcept
     auto bcp_iterator{std::cbegin(bcp_range)};
     try {
         while (bcp_iterator != bcp_range_end) {
-            if (*bcp_iterator > maximum_code_point) {
+            if (!is_code_point_valid(*bcp_iterator)) {
                 return bcp_iterator;
             }
             ++bcp_iterator;
diff --git a/api/src/cmp/unicode/by_code_point.cpp b/api/src/cmp/unicode/by_code_point.cpp
index f33274c..e02cda7 100644
--- a/api/src/cmp/unicode/by_code_point.cpp
+++ b/api/src/cmp/unicode/by_code_point.cpp
@@ -272,7 +272,10 @@ const
     if (sequence_length == 1) {
         return result;
     }
-    while (--sequence_length > 0) {
+    for (
+        int remaining_length{sequence_length};
+        --remaining_length > 0;
+    ) {
         if (i + 1 == m_end_iterator) {
             throw iterated_past_end{};
         }
@@ -284,6 +287,7 @@ const
         result <<= 6;
         result |= code_unit & 0b0011'1111;
     }
+    impl::verify_utf8_sequence(sequence_length, result);
     return result;
 } // function -----------------------------------------------------------------
 
@@ -465,7 +469,10 @@ const
     if (sequence_length == 1) {
         return result;
     }
-    while (--sequence_length > 0) {
+    for (
+        int remaining_length{sequence_length};
+        --remaining_length > 0;
+    ) {
         if (i + 1 == m_end_iterator) {
             throw iterated_past_end{};
         }
@@ -477,6 +484,7 @@ const
         result <<= 6;
         result |= code_unit & 0b0011'1111;
     }
+    impl::verify_utf8_sequence(sequence_length, result);
     return result;
 } // function -----------------------------------------------------------------
 
@@ -492,7 +500,10 @@ by_code_point<char8_t>::const_iterator::finish_sequence (
         ++i;
         return result;
     }
-    while (--sequence_length > 0) {
+    for (
+        int remaining_length{sequence_length};
+        --remaining_length > 0;
+    ) {
         if (i + 1 == m_end_iterator) {
             throw iterated_past_end{};
         }
@@ -504,6 +515,7 @@ by_code_point<char8_t>::const_iterator::finish_sequence (
         result <<= 6;
         result |= code_unit & 0b0011'1111;
     }
+    impl::verify_utf8_sequence(sequence_length, result);
     ++i;
     return result;
 } // function -----------------------------------------------------------------
diff --git a/api/src/cmp/unicode/impl/impl.cpp b/api/src/cmp/unicode/impl/impl.cpp
index 91483c0..9cc9cab 100644
--- a/api/src/cmp/unicode/impl/impl.cpp
+++ b/api/src/cmp/unicode/impl/impl.cpp
@@ -31,6 +31,21 @@ initialize_utf8_sequence (
     }
 } // function -----------------------------------------------------------------
 
+void
+verify_utf8_sequence (
+    int sequence_length,
+    char32_t code_point
+) {
+    if (
+        !is_code_point_valid(code_point)
+            || (sequence_length == 2 && code_point < 0x80)
+            || (sequence_length == 3 && code_point < 0x800)
+            || (sequence_length == 4 && code_point < 0x10000)
+    ) {
+        throw invalid_unicode_encoding{};
+    }
+} // function -----------------------------------------------------------------
+
 int
 initialize_utf16_sequence (
     char16_t leading_code_unit,
-- 
2.43.0


From 65eb5a1c9caf37740e9a848c493a593797d5477f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:46 +0000
Subject: [PATCH 06/54] fix: keep the high bytes of a code point read in place
 of a BOM

std::byte was shifted before being widened, so read_bom() on text that does
not start with a BOM returned only the low byte of the code unit.
---
 api/src/cmp/io/text_input_stream.ipp | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/api/src/cmp/io/text_input_stream.ipp b/api/src/cmp/io/text_input_stream.ipp
index a8c7d2f..232713e 100644
--- a/api/src/cmp/io/text_input_stream.ipp
+++ b/api/src/cmp/io/text_input_stream.ipp
@@ -326,12 +326,12 @@ text_input_stream<InputResource>::read_utf16_bom ()
         char16_t code_unit;
         if (this->get_endianness() == std::endian::big) {
             code_unit
-                = static_cast<int>(first_byte << 8)
-                    | static_cast<int>(second_byte);
+                = static_cast<char32_t>(first_byte) << 8
+                    | static_cast<char32_t>(second_byte);
         } else {
             code_unit
-                = static_cast<int>(second_byte << 8)
-                    | static_cast<int>(first_byte);
+                = static_cast<char32_t>(second_byte) << 8
+                    | static_cast<char32_t>(first_byte);
         }
         char32_t result;
         int sequence_length{
@@ -384,16 +384,19 @@ text_input_stream<InputResource>::read_utf32_bom ()
         char32_t result;
         if (this->get_endianness() == std::endian::big) {
             result
-                = static_cast<int>(first_byte << 24)
-                    | static_cast<int>(second_byte << 16)
-                    | static_cast<int>(third_byte << 8)
-                    | static_cast<int>(fourth_byte);
+                = static_cast<char32_t>(first_byte) << 24
+                    | static_cast<char32_t>(second_byte) << 16
+                    | static_cast<char32_t>(third_byte) << 8
+                    | static_cast<char32_t>(fourth_byte);
         } else {
             result
-                = static_cast<int>(fourth_byte << 24)
-                    | static_cast<int>(third_byte << 16)
-                    | static_cast<int>(second_byte << 8)
-                    | static_cast<int>(first_byte);
+                = static_cast<char32_t>(fourth_byte) << 24
+                    | static_cast<char32_t>(third_byte) << 16
+                    | static_cast<char32_t>(second_byte) << 8
+                    | static_cast<char32_t>(first_byte);
+        }
+        if (!is_code_point_valid(result)) {
+            throw invalid_unicode_encoding{};
         }
         return result;
     }
-- 
2.43.0


From fc9dce8e59526ce943e23366849cb524c47c2077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:45 +0000
Subject: [PATCH 07/54] fix: keep backward code point iteration inside
 malformed text

Retreating skipped any number of trailing code units, so text that starts
with one (or ends in the middle of a sequence) was read before its beginning.
Iterators now know where the text begins and step back a single unit over
malformed sequences, which dereferencing reports. Functions that report
malformed text by throwing are no longer noexcept.
---
 api/include/cmp/unicode/algorithms.hpp    |   6 +-
 api/include/cmp/unicode/by_code_point.hpp |  57 ++++--
 api/src/cmp/unicode/algorithms.ipp        |   8 +-
 api/src/cmp/unicode/by_code_point.cpp     | 203 +++++++++++++---------
 4 files changed, 174 insertions(+), 100 deletions(-)

diff --git a/api/include/cmp/unicode/algorithms.hpp b/api/include/cmp/unicode/algorithms.hpp
index 5297c98..4b8be32 100644
--- a/api/include/cmp/unicode/algorithms.hpp
+++ b/api/include/cmp/unicode/algorithms.hpp
@@ -35,8 +35,7 @@ bool
 starts_with (
     const ContentString& content,
     const Substring& substring
-)
-noexcept;
+);
 
 /**
     Description:
@@ -57,8 +56,7 @@ bool
 ends_with (
     const ContentString& content,
     const Substring& substring
-)
-noexcept;
+);
 
 /**
     Description:
diff --git a/api/include/cmp/unicode/by_code_point.hpp b/api/include/cmp/unicode/by_code_point.hpp
index e7ba723..4780956 100644
--- a/api/include/cmp/unicode/by_code_point.hpp
+++ b/api/include/cmp/unicode/by_code_point.hpp
@@ -431,6 +431,14 @@ public:
         )
         noexcept;
 
+        CMP_CONDITIONAL_INLINE
+        const_iterator (
+            std::u8string_view::const_iterator initial_begin_iterator,
+            std::u8string_view::const_iterator initial_current_iterator,
+            std::u8string_view::const_iterator initial_end_iterator
+        )
+        noexcept;
+
         CMP_CONDITIONAL_INLINE
         ~const_iterator ()
         = default;
@@ -516,8 +524,7 @@ public:
         operator + (
             const const_iterator& iterator,
             difference_type offset
-        )
-        noexcept;
+        );
 
         CMP_CONDITIONAL_INLINE
         CMP_LIBRARY_NAME
@@ -526,8 +533,7 @@ public:
         operator + (
             difference_type offset,
             const const_iterator& iterator
-        )
-        noexcept;
+        );
 
         CMP_CONDITIONAL_INLINE
         CMP_LIBRARY_NAME
@@ -572,6 +578,11 @@ public:
     private:
         // Private Data -------------------------------------------------------
 
+        /*
+            Retreating never goes before this. It is null, i.e. there is no
+            limit, if the beginning of the text is unknown.
+        */
+        std::u8string_view::const_iterator m_begin_iterator{};
         std::u8string_view::const_iterator m_current_iterator;
         std::u8string_view::const_iterator m_end_iterator;
 
@@ -849,6 +860,14 @@ public:
         )
         noexcept;
 
+        CMP_CONDITIONAL_INLINE
+        const_iterator (
+            std::u16string_view::const_iterator initial_begin_iterator,
+            std::u16string_view::const_iterator initial_current_iterator,
+            std::u16string_view::const_iterator initial_end_iterator
+        )
+        noexcept;
+
         CMP_CONDITIONAL_INLINE
         ~const_iterator ()
         = default;
@@ -934,8 +953,7 @@ public:
         operator + (
             const const_iterator& iterator,
             difference_type offset
-        )
-        noexcept;
+        );
 
         CMP_CONDITIONAL_INLINE
         CMP_LIBRARY_NAME
@@ -944,8 +962,7 @@ public:
         operator + (
             difference_type offset,
             const const_iterator& iterator
-        )
-        noexcept;
+        );
 
         CMP_CONDITIONAL_INLINE
         CMP_LIBRARY_NAME
@@ -990,6 +1007,11 @@ public:
     private:
         // Private Data -------------------------------------------------------
 
+        /*
+            Retreating never goes before this. It is null, i.e. there is no
+            limit, if the beginning of the text is unknown.
+        */
+        std::u16string_view::const_iterator m_begin_iterator{};
         std::u16string_view::const_iterator m_current_iterator;
         std::u16string_view::const_iterator m_end_iterator;
 
@@ -1610,6 +1632,14 @@ public:
         )
         noexcept;
 
+        CMP_CONDITIONAL_INLINE
+        const_iterator (
+            std::wstring_view::const_iterator initial_begin_iterator,
+            std::wstring_view::const_iterator initial_current_iterator,
+            std::wstring_view::const_iterator initial_end_iterator
+        )
+        noexcept;
+
         CMP_CONDITIONAL_INLINE
         ~const_iterator ()
         = default;
@@ -1695,8 +1725,7 @@ public:
         operator + (
             const const_iterator& iterator,
             difference_type offset
-        )
-        noexcept;
+        );
 
         CMP_CONDITIONAL_INLINE
         CMP_LIBRARY_NAME
@@ -1705,8 +1734,7 @@ public:
         operator + (
             difference_type offset,
             const const_iterator& iterator
-        )
-        noexcept;
+        );
 
         CMP_CONDITIONAL_INLINE
         CMP_LIBRARY_NAME
@@ -1751,6 +1779,11 @@ public:
     private:
         // Private Data -------------------------------------------------------
 
+        /*
+            Retreating never goes before this. It is null, i.e. there is no
+            limit, if the beginning of the text is unknown.
+        */
+        std::wstring_view::const_iterator m_begin_iterator{};
         std::wstring_view::const_iterator m_current_iterator;
         std::wstring_view::const_iterator m_end_iterator;
 
diff --git a/api/src/cmp/unicode/algorithms.ipp b/api/src/cmp/unicode/algorithms.ipp
index 4478722..c31de1a 100644
--- a/api/src/cmp/unicode/algorithms.ipp
+++ b/api/src/cmp/unicode/algorithms.ipp
@@ -15,9 +15,7 @@ bool
 starts_with (
     const ContentString& content,
     const Substring& substring
-)
-noexcept
-{
+) {
     cmp::by_code_point content_range{content};
     cmp::by_code_point substring_range{substring};
     auto content_iterator{content_range.cbegin()};
@@ -41,9 +39,7 @@ bool
 ends_with (
     const ContentString& content,
     const Substring& substring
-)
-noexcept
-{
+) {
     cmp::by_code_point content_range{content};
     cmp::by_code_point substring_range{substring};
     auto content_iterator{content_range.crbegin()};
diff --git a/api/src/cmp/unicode/by_code_point.cpp b/api/src/cmp/unicode/by_code_point.cpp
index e02cda7..c755578 100644
--- a/api/src/cmp/unicode/by_code_point.cpp
+++ b/api/src/cmp/unicode/by_code_point.cpp
@@ -305,6 +305,18 @@ noexcept
 {
 } // function -----------------------------------------------------------------
 
+by_code_point<char8_t>::const_iterator::const_iterator (
+    std::u8string_view::const_iterator initial_begin_iterator,
+    std::u8string_view::const_iterator initial_current_iterator,
+    std::u8string_view::const_iterator initial_end_iterator
+)
+noexcept
+    : m_begin_iterator{initial_begin_iterator}
+    , m_current_iterator{initial_current_iterator}
+    , m_end_iterator{initial_end_iterator}
+{
+} // function -----------------------------------------------------------------
+
 // Operator Overloads ---------------------------------------------------------
 
 by_code_point<char8_t>::const_iterator::reference
@@ -374,13 +386,8 @@ by_code_point<char8_t>::const_iterator
 operator + (
     const by_code_point<char8_t>::const_iterator& iterator,
     by_code_point<char8_t>::const_iterator::difference_type offset
-)
-noexcept
-{
-    by_code_point<char8_t>::const_iterator result_iterator{
-        iterator.m_current_iterator,
-        iterator.m_end_iterator
-    };
+) {
+    by_code_point<char8_t>::const_iterator result_iterator{iterator};
     result_iterator.advance(offset);
     return result_iterator;
 } // function -----------------------------------------------------------------
@@ -389,13 +396,8 @@ by_code_point<char8_t>::const_iterator
 operator + (
     by_code_point<char8_t>::const_iterator::difference_type offset,
     const by_code_point<char8_t>::const_iterator& iterator
-)
-noexcept
-{
-    by_code_point<char8_t>::const_iterator result_iterator{
-        iterator.m_current_iterator,
-        iterator.m_end_iterator
-    };
+) {
+    by_code_point<char8_t>::const_iterator result_iterator{iterator};
     result_iterator.advance(offset);
     return result_iterator;
 } // function -----------------------------------------------------------------
@@ -407,10 +409,7 @@ operator - (
 )
 noexcept
 {
-    by_code_point<char8_t>::const_iterator result_iterator{
-        iterator.m_current_iterator,
-        iterator.m_end_iterator
-    };
+    by_code_point<char8_t>::const_iterator result_iterator{iterator};
     result_iterator.retreat(offset);
     return result_iterator;
 } // function -----------------------------------------------------------------
@@ -422,10 +421,7 @@ operator - (
 )
 noexcept
 {
-    by_code_point<char8_t>::const_iterator result_iterator{
-        iterator.m_current_iterator,
-        iterator.m_end_iterator
-    };
+    by_code_point<char8_t>::const_iterator result_iterator{iterator};
     result_iterator.retreat(offset);
     return result_iterator;
 } // function -----------------------------------------------------------------
@@ -550,12 +546,33 @@ by_code_point<char8_t>::const_iterator::advance (
 void
 by_code_point<char8_t>::const_iterator::retreat ()
 {
-    char8_t code_unit{*(--m_current_iterator)};
-    if (is_standalone_byte(code_unit)) {
+    if (m_current_iterator == m_begin_iterator) {
         return;
     }
-    while (is_trailing_byte(code_unit)) {
-        code_unit = *(--m_current_iterator);
+    auto previous_code_unit_iterator{--m_current_iterator};
+    int sequence_length{1};
+    while (
+        sequence_length < 4
+            && is_trailing_byte(*m_current_iterator)
+            && m_current_iterator != m_begin_iterator
+    ) {
+        --m_current_iterator;
+        ++sequence_length;
+    }
+    int expected_length{1};
+    if ((*m_current_iterator >> 5) == 0b110) {
+        expected_length = 2;
+    } else if ((*m_current_iterator >> 4) == 0b1110) {
+        expected_length = 3;
+    } else if ((*m_current_iterator >> 3) == 0b11110) {
+        expected_length = 4;
+    }
+    if (sequence_length != expected_length) {
+        /*
+            The text is malformed. We go back by a single code unit,
+            which dereferencing the iterator will then complain about.
+        */
+        m_current_iterator = previous_code_unit_iterator;
     }
 } // function -----------------------------------------------------------------
 
@@ -601,14 +618,22 @@ by_code_point<char8_t>::const_iterator
 by_code_point<char8_t>::cbegin ()
 const noexcept
 {
-    return const_iterator{m_begin_iterator, m_end_iterator};
+    return const_iterator{
+        m_begin_iterator,
+        m_begin_iterator,
+        m_end_iterator
+    };
 } // function -----------------------------------------------------------------
 
 by_code_point<char8_t>::const_iterator
 by_code_point<char8_t>::cend ()
 const noexcept
 {
-    return const_iterator{m_end_iterator, m_end_iterator};
+    return const_iterator{
+        m_begin_iterator,
+        m_end_iterator,
+        m_end_iterator
+    };
 } // function -----------------------------------------------------------------
 
 by_code_point<char8_t>::const_reverse_iterator
@@ -696,6 +721,18 @@ noexcept
 {
 } // function -----------------------------------------------------------------
 
+by_code_point<char16_t>::const_iterator::const_iterator (
+    std::u16string_view::const_iterator initial_begin_iterator,
+    std::u16string_view::const_iterator initial_current_iterator,
+    std::u16string_view::const_iterator initial_end_iterator
+)
+noexcept
+    : m_begin_iterator{initial_begin_iterator}
+    , m_current_iterator{initial_current_iterator}
+    , m_end_iterator{initial_end_iterator}
+{
+} // function -----------------------------------------------------------------
+
 // Operator Overloads ---------------------------------------------------------
 
 by_code_point<char16_t>::const_iterator::reference
@@ -765,13 +802,8 @@ by_code_point<char16_t>::const_iterator
 operator + (
     const by_code_point<char16_t>::const_iterator& iterator,
     by_code_point<char16_t>::const_iterator::difference_type offset
-)
-noexcept
-{
-    by_code_point<char16_t>::const_iterator result_iterator{
-        iterator.m_current_iterator,
-        iterator.m_end_iterator
-    };
+) {
+    by_code_point<char16_t>::const_iterator result_iterator{iterator};
     result_iterator.advance(offset);
     return result_iterator;
 } // function -----------------------------------------------------------------
@@ -780,13 +812,8 @@ by_code_point<char16_t>::const_iterator
 operator + (
     by_code_point<char16_t>::const_iterator::difference_type offset,
     const by_code_point<char16_t>::const_iterator& iterator
-)
-noexcept
-{
-    by_code_point<char16_t>::const_iterator result_iterator{
-        iterator.m_current_iterator,
-        iterator.m_end_iterator
-    };
+) {
+    by_code_point<char16_t>::const_iterator result_iterator{iterator};
     result_iterator.advance(offset);
     return result_iterator;
 } // function -----------------------------------------------------------------
@@ -798,10 +825,7 @@ operator - (
 )
 noexcept
 {
-    by_code_point<char16_t>::const_iterator result_iterator{
-        iterator.m_current_iterator,
-        iterator.m_end_iterator
-    };
+    by_code_point<char16_t>::const_iterator result_iterator{iterator};
     result_iterator.retreat(offset);
     return result_iterator;
 } // function -----------------------------------------------------------------
@@ -813,10 +837,7 @@ operator - (
 )
 noexcept
 {
-    by_code_point<char16_t>::const_iterator result_iterator{
-        iterator.m_current_iterator,
-        iterator.m_end_iterator
-    };
+    by_code_point<char16_t>::const_iterator result_iterator{iterator};
     result_iterator.retreat(offset);
     return result_iterator;
 } // function -----------------------------------------------------------------
@@ -922,8 +943,15 @@ by_code_point<char16_t>::const_iterator::advance (
 void
 by_code_point<char16_t>::const_iterator::retreat ()
 {
+    if (m_current_iterator == m_begin_iterator) {
+        return;
+    }
     char16_t code_unit{*(--m_current_iterator)};
-    if (is_trailing_surrogate(code_unit)) {
+    if (
+        is_trailing_surrogate(code_unit)
+            && m_current_iterator != m_begin_iterator
+            && is_leading_surrogate(*(m_current_iterator - 1))
+    ) {
         --m_current_iterator;
     }
 } // function -----------------------------------------------------------------
@@ -970,14 +998,22 @@ by_code_point<char16_t>::const_iterator
 by_code_point<char16_t>::cbegin ()
 const noexcept
 {
-    return const_iterator{m_begin_iterator, m_end_iterator};
+    return const_iterator{
+        m_begin_iterator,
+        m_begin_iterator,
+        m_end_iterator
+    };
 } // function -----------------------------------------------------------------
 
 by_code_point<char16_t>::const_iterator
 by_code_point<char16_t>::cend ()
 const noexcept
 {
-    return const_iterator{m_end_iterator, m_end_iterator};
+    return const_iterator{
+        m_begin_iterator,
+        m_end_iterator,
+        m_end_iterator
+    };
 } // function -----------------------------------------------------------------
 
 by_code_point<char16_t>::const_reverse_iterator
@@ -1289,6 +1325,18 @@ noexcept
 {
 } // function -----------------------------------------------------------------
 
+by_code_point<wchar_t>::const_iterator::const_iterator (
+    std::wstring_view::const_iterator initial_begin_iterator,
+    std::wstring_view::const_iterator initial_current_iterator,
+    std::wstring_view::const_iterator initial_end_iterator
+)
+noexcept
+    : m_begin_iterator{initial_begin_iterator}
+    , m_current_iterator{initial_current_iterator}
+    , m_end_iterator{initial_end_iterator}
+{
+} // function -----------------------------------------------------------------
+
 // Operator Overloads ---------------------------------------------------------
 
 by_code_point<wchar_t>::const_iterator::reference
@@ -1358,13 +1406,8 @@ by_code_point<wchar_t>::const_iterator
 operator + (
     const by_code_point<wchar_t>::const_iterator& iterator,
     by_code_point<wchar_t>::const_iterator::difference_type offset
-)
-noexcept
-{
-    by_code_point<wchar_t>::const_iterator result_iterator{
-        iterator.m_current_iterator,
-        iterator.m_end_iterator
-    };
+) {
+    by_code_point<wchar_t>::const_iterator result_iterator{iterator};
     result_iterator.advance(offset);
     return result_iterator;
 } // function -----------------------------------------------------------------
@@ -1373,13 +1416,8 @@ by_code_point<wchar_t>::const_iterator
 operator + (
     by_code_point<wchar_t>::const_iterator::difference_type offset,
     const by_code_point<wchar_t>::const_iterator& iterator
-)
-noexcept
-{
-    by_code_point<wchar_t>::const_iterator result_iterator{
-        iterator.m_current_iterator,
-        iterator.m_end_iterator
-    };
+) {
+    by_code_point<wchar_t>::const_iterator result_iterator{iterator};
     result_iterator.advance(offset);
     return result_iterator;
 } // function -----------------------------------------------------------------
@@ -1391,10 +1429,7 @@ operator - (
 )
 noexcept
 {
-    by_code_point<wchar_t>::const_iterator result_iterator{
-        iterator.m_current_iterator,
-        iterator.m_end_iterator
-    };
+    by_code_point<wchar_t>::const_iterator result_iterator{iterator};
     result_iterator.retreat(offset);
     return result_iterator;
 } // function -----------------------------------------------------------------
@@ -1406,10 +1441,7 @@ operator - (
 )
 noexcept
 {
-    by_code_point<wchar_t>::const_iterator result_iterator{
-        iterator.m_current_iterator,
-        iterator.m_end_iterator
-    };
+    by_code_point<wchar_t>::const_iterator result_iterator{iterator};
     result_iterator.retreat(offset);
     return result_iterator;
 } // function -----------------------------------------------------------------
@@ -1524,8 +1556,15 @@ void
 by_code_point<wchar_t>::const_iterator::retreat ()
 {
     if constexpr (sizeof (wchar_t) == 2) {
+        if (m_current_iterator == m_begin_iterator) {
+            return;
+        }
         char16_t code_unit{static_cast<char16_t>(*(--m_current_iterator))};
-        if (is_trailing_surrogate(code_unit)) {
+        if (
+            is_trailing_surrogate(code_unit)
+                && m_current_iterator != m_begin_iterator
+                && is_leading_surrogate(*(m_current_iterator - 1))
+        ) {
             --m_current_iterator;
         }
     } else {
@@ -1579,14 +1618,22 @@ by_code_point<wchar_t>::const_iterator
 by_code_point<wchar_t>::cbegin ()
 const noexcept
 {
-    return const_iterator{m_begin_iterator, m_end_iterator};
+    return const_iterator{
+        m_begin_iterator,
+        m_begin_iterator,
+        m_end_iterator
+    };
 } // function -----------------------------------------------------------------
 
 by_code_point<wchar_t>::const_iterator
 by_code_point<wchar_t>::cend ()
 const noexcept
 {
-    return const_iterator{m_end_iterator, m_end_iterator};
+    return const_iterator{
+        m_begin_iterator,
+        m_end_iterator,
+        m_end_iterator
+    };
 } // function -----------------------------------------------------------------
 
 by_code_point<wchar_t>::const_reverse_iterator
-- 
2.43.0


From ac6b593e7f5cc7676de8c5c2f0227eb60048aa8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:03 +0000
Subject: [PATCH 08/54] fix: report invalid UTF-32 code points in streams as
 invalid_code_point

---
 api/src/cmp/io/text_input_stream.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/api/src/cmp/io/text_input_stream.ipp b/api/src/cmp/io/text_input_stream.ipp
index 232713e..abf1782 100644
--- a/api/src/cmp/io/text_input_stream.ipp
+++ b/api/src/cmp/io/text_input_stream.ipp
@@ -262,7 +262,7 @@ text_input_stream<InputResource>::read_utf32_code_point ()
         throw read_past_end{};
     }
     if (!is_code_point_valid(code_unit)) {
-        throw invalid_unicode_encoding{};
+        throw invalid_code_point{};
     }
     return code_unit;
 } // function -----------------------------------------------------------------
@@ -396,7 +396,7 @@ text_input_stream<InputResource>::read_utf32_bom ()
                     | static_cast<char32_t>(first_byte);
         }
         if (!is_code_point_valid(result)) {
-            throw invalid_unicode_encoding{};
+            throw invalid_code_point{};
         }
         return result;
     }
-- 
2.43.0


From 48c645b91ec3274e667d2395980dea55167f20e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:38 +0000
Subject: [PATCH 09/54] fix: format the most negative value of signed integer
 types

std::abs() of the minimum value overflows, so the digits came out wrong.
---
 api/src/cmp/unicode/formatters.ipp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/api/src/cmp/unicode/formatters.ipp b/api/src/cmp/unicode/formatters.ipp
index a862e72..95f4cd0 100644
--- a/api/src/cmp/unicode/formatters.ipp
+++ b/api/src/cmp/unicode/formatters.ipp
@@ -33,22 +33,23 @@ number_formatter::format_integer (
     } else if (format.get_sign_status() == sign_status::always_show) {
         sign_character = '+';
     }
-    if constexpr (std::is_signed_v<Input>) {
-        input = std::abs(input);
+    auto magnitude{static_cast<unsigned long long>(input)};
+    if (input < 0) {
+        magnitude = 0 - magnitude;
     }
-    while (input != 0) {
-        char character{static_cast<char>(input % format_radix)};
+    while (magnitude != 0) {
+        char character{static_cast<char>(magnitude % format_radix)};
         if (character <= 9) {
             character += '0';
         } else {
             character += 'A' - 10;
         }
         prepend_code_point(output, character);
-        input /= format_radix;
+        magnitude /= format_radix;
         ++digits_counted;
         if (digits_counted == 3) {
             digits_counted = 0;
-            if (input != 0) {
+            if (magnitude != 0) {
                 switch (format.get_thousands_separator()) {
                     case thousands_separator::comma:
                         prepend_code_point(output, ',');
-- 
2.43.0


From 511c3b0a03d6deef34c99ad2a60a5846218a2b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:38 +0000
Subject: [PATCH 10/54] fix: format the sign and the padding of floating-point
 values

The integral part of negative values was rounded away from zero while the
fraction was not (-1.5 became "-2.5"), the sign of values between -1 and 1
could be missing or wrong, and whole values were not padded when an exact
number of places was asked for.
---
 api/src/cmp/unicode/formatters.ipp | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/api/src/cmp/unicode/formatters.ipp b/api/src/cmp/unicode/formatters.ipp
index 95f4cd0..4ec5ccf 100644
--- a/api/src/cmp/unicode/formatters.ipp
+++ b/api/src/cmp/unicode/formatters.ipp
@@ -81,20 +81,37 @@ number_formatter::format_floating_point (
 ) {
     integer_format equivalent_format{
         format.get_radix(),
-        format.get_sign_status(),
+        sign_status::only_when_negative,
         format.get_thousands_separator()
     };
+    char sign_character{' '};
+    if (input < 0) {
+        sign_character = '-';
+        input = -input;
+    } else if (
+        input > 0
+            && format.get_sign_status() == sign_status::always_show
+    ) {
+        sign_character = '+';
+    }
     Output output{
         number_formatter::format_integer<Output>(
-            static_cast<long long>(std::floor(input)),
+            static_cast<unsigned long long>(std::floor(input)),
             equivalent_format
         )
     };
-    if (input < 0) {
-        input = -input;
+    if (sign_character != ' ') {
+        prepend_code_point(output, sign_character);
     }
     Input fractional_part{input - std::floor(input)};
-    if (fractional_part == 0) {
+    if (
+        fractional_part == 0
+            && (
+                format.get_radix_place_limit()
+                        != radix_place_limit::exactly_equal
+                    || format.get_radix_place_count() == 0
+            )
+    ) {
         return output;
     }
     Output fractional_part_string;
-- 
2.43.0


From 503a808d2eea2bf57cd63a4f58c72c411e19ad62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:38 +0000
Subject: [PATCH 11/54] fix: separate the places after the radix point like
 thousands

A separator was left dangling when the number of places was a multiple of
three, and padding zeros were not separated at all.
---
 api/src/cmp/unicode/formatters.ipp | 35 ++++++++++++++++--------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/api/src/cmp/unicode/formatters.ipp b/api/src/cmp/unicode/formatters.ipp
index 4ec5ccf..794c4a6 100644
--- a/api/src/cmp/unicode/formatters.ipp
+++ b/api/src/cmp/unicode/formatters.ipp
@@ -117,6 +117,23 @@ number_formatter::format_floating_point (
     Output fractional_part_string;
     unsigned int digits_counted{0};
     unsigned int radix_places_counted{0};
+    auto append_digit = [&] (char digit_character) {
+        if (digits_counted == 3) {
+            digits_counted = 0;
+            switch (format.get_thousands_separator()) {
+                case thousands_separator::comma:
+                    append_code_point(fractional_part_string, ',');
+                    break;
+                case thousands_separator::period:
+                    append_code_point(fractional_part_string, '.');
+                    break;
+                case thousands_separator::none:
+                    break;
+            }
+        }
+        append_code_point(fractional_part_string, digit_character);
+        ++digits_counted;
+    };
     while (fractional_part != 0) {
         fractional_part *= format.get_radix();
         char character{static_cast<char>(std::floor(fractional_part))};
@@ -132,25 +149,11 @@ number_formatter::format_floating_point (
         ) {
             break;
         }
-        append_code_point(fractional_part_string, character);
-        ++digits_counted;
-        if (digits_counted == 3) {
-            digits_counted = 0;
-            switch (format.get_thousands_separator()) {
-                case thousands_separator::comma:
-                    append_code_point(fractional_part_string, ',');
-                    break;
-                case thousands_separator::period:
-                    append_code_point(fractional_part_string, '.');
-                    break;
-                case thousands_separator::none:
-                    continue;
-            }
-        }
+        append_digit(character);
     }
     if (format.get_radix_place_limit() == radix_place_limit::exactly_equal) {
         while ((radix_places_counted++) < format.get_radix_place_count()) {
-            append_code_point(fractional_part_string, '0');
+            append_digit('0');
         }
     }
     append_code_point(
-- 
2.43.0


From d17a1da3cc54efd0b6ab1a2b01a36b4f4880f893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:38 +0000
Subject: [PATCH 12/54] fix: terminate when formatting fractions in an odd
 radix

A binary fraction has no finite representation in an odd radix, so without a
place limit the digit loop never ended.
---
 api/include/cmp/unicode/formatters.hpp |  1 +
 api/src/cmp/unicode/formatters.ipp     | 16 ++++++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/api/include/cmp/unicode/formatters.hpp b/api/include/cmp/unicode/formatters.hpp
index d1e18c0..ebd4756 100644
--- a/api/include/cmp/unicode/formatters.hpp
+++ b/api/include/cmp/unicode/formatters.hpp
@@ -5,6 +5,7 @@
 #define CMP_UNICODE_FORMATTERS_HPP_INCLUDED
 
 #include <cmath>
+#include <limits>
 
 #include <cmp/unicode/inclusion_assert.hpp>
 #include <cmp/unicode/algorithms.hpp>
diff --git a/api/src/cmp/unicode/formatters.ipp b/api/src/cmp/unicode/formatters.ipp
index 794c4a6..1c30572 100644
--- a/api/src/cmp/unicode/formatters.ipp
+++ b/api/src/cmp/unicode/formatters.ipp
@@ -117,6 +117,7 @@ number_formatter::format_floating_point (
     Output fractional_part_string;
     unsigned int digits_counted{0};
     unsigned int radix_places_counted{0};
+    int significant_digits_counted{0};
     auto append_digit = [&] (char digit_character) {
         if (digits_counted == 3) {
             digits_counted = 0;
@@ -150,6 +151,21 @@ number_formatter::format_floating_point (
             break;
         }
         append_digit(character);
+        if (significant_digits_counted > 0 || character != '0') {
+            ++significant_digits_counted;
+        }
+        if (
+            format.get_radix_place_limit() == radix_place_limit::none
+                && format.get_radix() % 2 != 0
+                && significant_digits_counted
+                    == std::numeric_limits<Input>::digits
+        ) {
+            /*
+                Binary fractions never terminate in an odd
+                radix, so we stop at the type's precision.
+            */
+            break;
+        }
     }
     if (format.get_radix_place_limit() == radix_place_limit::exactly_equal) {
         while ((radix_places_counted++) < format.get_radix_place_count()) {
-- 
2.43.0


From 88330629f2151ffac82ca1597ac9cf54f17815e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:38 +0000
Subject: [PATCH 13/54] fix: reject integers that do not fit the output type
 when parsing

Values outside of the range of the output type silently wrapped around (or
overflowed, which is undefined for signed types).
---
 api/include/cmp/unicode/parsers.hpp | 15 +++++-----
 api/src/cmp/unicode/parsers.cpp     | 31 +++++++++++++++++++
 api/src/cmp/unicode/parsers.ipp     | 46 ++++++++++++-----------------
 3 files changed, 58 insertions(+), 34 deletions(-)

diff --git a/api/include/cmp/unicode/parsers.hpp b/api/include/cmp/unicode/parsers.hpp
index 1d90092..f977abb 100644
--- a/api/include/cmp/unicode/parsers.hpp
+++ b/api/include/cmp/unicode/parsers.hpp
@@ -6,6 +6,7 @@
 
 #include <algorithm>
 #include <cmath>
+#include <limits>
 
 #include <cmp/unicode/inclusion_assert.hpp>
 #include <cmp/core/general.hpp>
@@ -93,17 +94,16 @@ private:
         thousands_separator format_thousands_separator
     );
 
-    template <
-        std::integral Output
-    >
+    CMP_CONDITIONAL_INLINE
     static
     void
     prepend_digit (
-        Output& power,
+        unsigned long long& power,
         unsigned int radix,
-        Output& output,
+        unsigned long long& magnitude,
         int current_digit,
-        unsigned int& digits_counted
+        unsigned int& digits_counted,
+        bool& out_of_range
     )
     noexcept;
 
@@ -145,7 +145,8 @@ public:
         thousands_separator_missing,
         digit_character_expected,
         negative_unsigned,
-        wrong_place_limit
+        wrong_place_limit,
+        value_out_of_range
     }; // enum ----------------------------------------------------------------
 
     // Constructors and Destructor --------------------------------------------
diff --git a/api/src/cmp/unicode/parsers.cpp b/api/src/cmp/unicode/parsers.cpp
index 75de8a3..8eb0a7d 100644
--- a/api/src/cmp/unicode/parsers.cpp
+++ b/api/src/cmp/unicode/parsers.cpp
@@ -112,6 +112,37 @@ number_parser::check_for_thousands_separator (
     }
 } // function -----------------------------------------------------------------
 
+void
+number_parser::prepend_digit (
+    unsigned long long& power,
+    unsigned int radix,
+    unsigned long long& magnitude,
+    int current_digit,
+    unsigned int& digits_counted,
+    bool& out_of_range
+)
+noexcept
+{
+    constexpr auto maximum{std::numeric_limits<unsigned long long>::max()};
+    /*
+        The power is zero once it has become too large to be represented,
+        after which only leading zeros can follow.
+    */
+    power = power > maximum / radix ? 0 : power * radix;
+    if (current_digit != 0) {
+        if (
+            power == 0
+                || static_cast<unsigned long long>(current_digit)
+                    > (maximum - magnitude) / power
+        ) {
+            out_of_range = true;
+        } else {
+            magnitude += current_digit * power;
+        }
+    }
+    ++digits_counted;
+} // function -----------------------------------------------------------------
+
 } // namespace ----------------------------------------------------------------
 
 // --------------------------------------------------------- cmp::parse_failed
diff --git a/api/src/cmp/unicode/parsers.ipp b/api/src/cmp/unicode/parsers.ipp
index 7c04653..12a29a2 100644
--- a/api/src/cmp/unicode/parsers.ipp
+++ b/api/src/cmp/unicode/parsers.ipp
@@ -36,16 +36,16 @@ number_parser::parse_integer (
     const auto format_sign_status{format.get_sign_status()};
 
     int current_digit{get_next_digit(*bcp_iterator, format_radix)};
-    Output output{static_cast<Output>(current_digit)};
+    unsigned long long magnitude{
+        static_cast<unsigned long long>(current_digit)
+    };
 
     ++bcp_iterator;
-    if (bcp_iterator == bcp_range.crend()) {
-        return output;
-    }
 
     bool sign_found{false};
     bool negate{false};
-    Output power{1};
+    bool out_of_range{false};
+    unsigned long long power{1};
     unsigned int digits_counted{1};
     char32_t current_character;
 
@@ -88,14 +88,18 @@ number_parser::parse_integer (
         prepend_digit(
             power,
             format_radix,
-            output,
+            magnitude,
             current_digit,
-            digits_counted
+            digits_counted,
+            out_of_range
         );
     }
+    unsigned long long maximum_magnitude{
+        static_cast<unsigned long long>(std::numeric_limits<Output>::max())
+    };
     if (negate) {
         if constexpr (std::is_signed_v<Output>) {
-            output = -output;
+            ++maximum_magnitude;
         } else {
             throw parse_failed{
                 "The input string contains a negative "
@@ -104,7 +108,13 @@ number_parser::parse_integer (
             };
         }
     }
-    return output;
+    if (out_of_range || magnitude > maximum_magnitude) {
+        throw parse_failed{
+            "The value in the input string doesn't fit in the output type.",
+            parse_failed::type::value_out_of_range
+        };
+    }
+    return static_cast<Output>(negate ? 0 - magnitude : magnitude);
 } // function -----------------------------------------------------------------
 
 template <
@@ -195,24 +205,6 @@ number_parser::parse_floating_point (
 
 // Private Functions ----------------------------------------------------------
 
-template <
-    std::integral Output
->
-void
-number_parser::prepend_digit (
-    Output& power,
-    unsigned int radix,
-    Output& output,
-    int current_digit,
-    unsigned int& digits_counted
-)
-noexcept
-{
-    power *= radix;
-    output += current_digit * power;
-    ++digits_counted;
-} // function -----------------------------------------------------------------
-
 template <
     std::floating_point Output
 >
-- 
2.43.0


From 1711d04a4883817de8a764852079e3f4e9cf0997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:38 +0000
Subject: [PATCH 14/54] fix: accept signs and thousands separators only where
 they belong

The integer parser accepted a sign between digits ("1-2") and a thousands
separator in front of the first digit (",123").
---
 api/src/cmp/unicode/parsers.ipp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/api/src/cmp/unicode/parsers.ipp b/api/src/cmp/unicode/parsers.ipp
index 12a29a2..3d32c15 100644
--- a/api/src/cmp/unicode/parsers.ipp
+++ b/api/src/cmp/unicode/parsers.ipp
@@ -44,6 +44,7 @@ number_parser::parse_integer (
 
     bool sign_found{false};
     bool negate{false};
+    bool separator_found{false};
     bool out_of_range{false};
     unsigned long long power{1};
     unsigned int digits_counted{1};
@@ -51,6 +52,10 @@ number_parser::parse_integer (
 
     for (; bcp_iterator != bcp_range.crend(); ++bcp_iterator) {
         current_character = *bcp_iterator;
+        if (sign_found && !is_sign_character(current_character)) {
+            // A sign can only be the first character of the input string.
+            report_non_digit_character();
+        }
         if (
             digits_counted == 3
                 && format_thousands_separator != thousands_separator::none
@@ -70,8 +75,12 @@ number_parser::parse_integer (
                 current_character,
                 format_thousands_separator
             );
+            separator_found = true;
             continue;
         }
+        if (separator_found && is_sign_character(current_character)) {
+            report_non_digit_character();
+        }
         if (
             check_for_sign(
                 current_character,
@@ -85,6 +94,7 @@ number_parser::parse_integer (
             report_non_digit_character();
         }
         current_digit = get_next_digit(current_character, format_radix);
+        separator_found = false;
         prepend_digit(
             power,
             format_radix,
@@ -94,6 +104,10 @@ number_parser::parse_integer (
             out_of_range
         );
     }
+    if (separator_found) {
+        // The input string starts with a thousands separator.
+        report_non_digit_character();
+    }
     unsigned long long maximum_magnitude{
         static_cast<unsigned long long>(std::numeric_limits<Output>::max())
     };
-- 
2.43.0


From fd80c06ab5192d74a6b348e09f89dbd04149239d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:38 +0000
Subject: [PATCH 15/54] fix: parse signed fractions and enforce the place
 limits of the format

"-1.5" was read as -0.5 and "-0.5" as 0.5; the number of places after the
radix point was never compared with the format; separators that
format_floating_point() puts between the places were rejected.
---
 api/include/cmp/unicode/parsers.hpp | 14 +++++
 api/src/cmp/unicode/parsers.cpp     | 30 ++++++++---
 api/src/cmp/unicode/parsers.ipp     | 84 ++++++++++++++++++-----------
 3 files changed, 91 insertions(+), 37 deletions(-)

diff --git a/api/include/cmp/unicode/parsers.hpp b/api/include/cmp/unicode/parsers.hpp
index f977abb..220dfea 100644
--- a/api/include/cmp/unicode/parsers.hpp
+++ b/api/include/cmp/unicode/parsers.hpp
@@ -60,6 +60,11 @@ private:
     void
     report_non_digit_character ();
 
+    CMP_CONDITIONAL_INLINE
+    static
+    void
+    report_wrong_place_limit ();
+
     CMP_CONDITIONAL_INLINE
     static
     int
@@ -86,6 +91,15 @@ private:
         sign_status format_sign_status
     );
 
+    CMP_CONDITIONAL_INLINE
+    static
+    bool
+    is_thousands_separator (
+        char32_t character,
+        thousands_separator format_thousands_separator
+    )
+    noexcept;
+
     CMP_CONDITIONAL_INLINE
     static
     void
diff --git a/api/src/cmp/unicode/parsers.cpp b/api/src/cmp/unicode/parsers.cpp
index 8eb0a7d..74cca39 100644
--- a/api/src/cmp/unicode/parsers.cpp
+++ b/api/src/cmp/unicode/parsers.cpp
@@ -40,6 +40,16 @@ number_parser::report_non_digit_character ()
     };
 } // function -----------------------------------------------------------------
 
+void
+number_parser::report_wrong_place_limit ()
+{
+    throw parse_failed{
+        "The input string has too few or too "
+        "many places after the radix point.",
+        parse_failed::type::wrong_place_limit
+    };
+} // function -----------------------------------------------------------------
+
 int
 number_parser::get_next_digit (
     char32_t character,
@@ -93,17 +103,25 @@ number_parser::check_for_sign (
     return false;
 } // function -----------------------------------------------------------------
 
+bool
+number_parser::is_thousands_separator (
+    char32_t character,
+    thousands_separator format_thousands_separator
+)
+noexcept
+{
+    return (format_thousands_separator
+            == thousands_separator::comma && character == ',')
+        || (format_thousands_separator
+            == thousands_separator::period && character == '.');
+} // function -----------------------------------------------------------------
+
 void
 number_parser::check_for_thousands_separator (
     char32_t character,
     thousands_separator format_thousands_separator
 ) {
-    if (
-        (format_thousands_separator
-            == thousands_separator::comma && character != ',')
-        || (format_thousands_separator
-            == thousands_separator::period && character != '.')
-    ) {
+    if (!is_thousands_separator(character, format_thousands_separator)) {
         throw parse_failed{
             "The input string did not have a thousands "
             "separator where one was expected.",
diff --git a/api/src/cmp/unicode/parsers.ipp b/api/src/cmp/unicode/parsers.ipp
index 3d32c15..321e63e 100644
--- a/api/src/cmp/unicode/parsers.ipp
+++ b/api/src/cmp/unicode/parsers.ipp
@@ -157,11 +157,22 @@ number_parser::parse_floating_point (
         format.get_sign_status(),
         format.get_thousands_separator()
     };
+    const auto format_place_limit{format.get_radix_place_limit()};
+    const auto format_place_count{format.get_radix_place_count()};
     if (radix_character_iterator == u32_input.cend()) {
-        return number_parser::parse_integer<long long>(
-            u32_input,
-            equivalent_format
-        );
+        const auto output{
+            number_parser::parse_integer<long long>(
+                u32_input,
+                equivalent_format
+            )
+        };
+        if (
+            format_place_limit == radix_place_limit::exactly_equal
+                && format_place_count > 0
+        ) {
+            report_wrong_place_limit();
+        }
+        return static_cast<Output>(output);
     } else {
         const auto integral_part_start{u32_input.data()};
         const auto integral_part_size{
@@ -178,42 +189,53 @@ number_parser::parse_floating_point (
         };
         ++radix_character_iterator;
         if (radix_character_iterator == u32_input.cend()) {
-            if (format.get_radix_place_limit() == radix_place_limit::none) {
+            if (format_place_limit == radix_place_limit::none) {
                 return output;
-            } else if (format.get_radix_place_count() > 0) {
-                throw parse_failed{
-                    "The input string had insufficient "
-                    "places after the radix point.",
-                    parse_failed::type::wrong_place_limit
-                };
+            } else if (format_place_count > 0) {
+                report_wrong_place_limit();
             }
         }
         Output root = 1;
-        int current_digit;;
+        Output fractional_part = 0;
         unsigned int digits_counted{0};
         while (radix_character_iterator != u32_input.cend()) {
-            current_digit = digit_character_to_integer(
-                *radix_character_iterator,
-                format_radix
-            );
-            if (current_digit == -1) {
-                throw parse_failed{
-                    "The input string didn't have enough "
-                    "places after the radix point.",
-                    parse_failed::type::wrong_place_limit
-                };
-            } else {
-                append_digit(
-                    root,
-                    format_radix,
-                    output,
-                    current_digit,
-                    digits_counted
-                );
+            if (
+                digits_counted > 0
+                    && digits_counted % 3 == 0
+                    && is_thousands_separator(
+                           *radix_character_iterator,
+                           format.get_thousands_separator()
+                       )
+            ) {
+                // Separators are optional here but must precede a digit.
+                ++radix_character_iterator;
+                if (radix_character_iterator == u32_input.cend()) {
+                    report_non_digit_character();
+                }
             }
+            append_digit(
+                root,
+                format_radix,
+                fractional_part,
+                get_next_digit(*radix_character_iterator, format_radix),
+                digits_counted
+            );
             ++radix_character_iterator;
         }
-        return output;
+        if (
+            (
+                format_place_limit == radix_place_limit::exactly_equal
+                    && digits_counted != format_place_count
+            ) || (
+                format_place_limit == radix_place_limit::up_to
+                    && digits_counted > format_place_count
+            )
+        ) {
+            report_wrong_place_limit();
+        }
+        return u32_input.front() == U'-'
+            ? output - fractional_part
+            : output + fractional_part;
     }
 } // function -----------------------------------------------------------------
 
-- 
2.43.0


From 777e12abebebe39585f690f572711d6df351b494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:16 +0000
Subject: [PATCH 16/54] fix: measure positions of container resources in bytes

get_position() reports bytes but set_position() took elements, so buffered
resources over elements larger than a byte (which reposition themselves by
bytes) read the wrong data, and a position that was read back could not be
set again. Positions relative to the end are now added like for files, and
negative positions are clamped to the beginning like for files.
---
 api/src/cmp/io/impl/ctr_essence.ipp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/api/src/cmp/io/impl/ctr_essence.ipp b/api/src/cmp/io/impl/ctr_essence.ipp
index a823097..bf5782e 100644
--- a/api/src/cmp/io/impl/ctr_essence.ipp
+++ b/api/src/cmp/io/impl/ctr_essence.ipp
@@ -92,16 +92,20 @@ noexcept
 
     switch (pr) {
         case position_reference::begin:
-            m_position = new_position * sizeof (element_type);
+            m_position = new_position;
             break;
         case position_reference::current:
-            m_position += new_position * sizeof (element_type);
+            m_position += new_position;
             break;
         case position_reference::end:
-            m_position = (std::size(*get_const_content_ptr()) - new_position)
-                * sizeof (element_type);
+            m_position = static_cast<std::int64_t>(
+                std::size(*get_const_content_ptr()) * sizeof (element_type)
+            ) + new_position;
             break;
     }
+    if (m_position < 0) {
+        m_position = 0;
+    }
     m_last_fill_amount = 0;
 } // function -----------------------------------------------------------------
 
-- 
2.43.0


From 5b7a5292aa1fbd5d86457ec5c4b102dfcbf1737e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:16 +0000
Subject: [PATCH 17/54] fix: read nothing from a position past the end of a
 container

The number of available bytes underflowed, which read out of bounds.
---
 api/src/cmp/io/impl/ctr_essence.ipp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/api/src/cmp/io/impl/ctr_essence.ipp b/api/src/cmp/io/impl/ctr_essence.ipp
index bf5782e..3dfba4f 100644
--- a/api/src/cmp/io/impl/ctr_essence.ipp
+++ b/api/src/cmp/io/impl/ctr_essence.ipp
@@ -138,7 +138,9 @@ ctr_essence<Container>::read_raw (
         We check if the position would spill over the end of the content
         if we actually went ahead and read the requested number of bytes.
     */
-    if (m_position + byte_count > content_size) {
+    if (static_cast<std::size_t>(m_position) >= content_size) {
+        byte_count = 0;
+    } else if (byte_count > content_size - m_position) {
         /*
             Here we know that the caller is requesting more bytes than
             there are bytes available. So we adjust the number of bytes
@@ -150,12 +152,14 @@ ctr_essence<Container>::read_raw (
     /*
         We copy the bytes from the content to the data array.
     */
-    std::memcpy(
-        data,
-        reinterpret_cast<const std::byte*>(std::data(content_ref))
-            + m_position,
-        byte_count
-    );
+    if (byte_count > 0) {
+        std::memcpy(
+            data,
+            reinterpret_cast<const std::byte*>(std::data(content_ref))
+                + m_position,
+            byte_count
+        );
+    }
 
     /*
         We advance the position by the number of bytes read.
-- 
2.43.0


From f7183701496ca391b3510c67a42f0f548c6f8f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:16 +0000
Subject: [PATCH 18/54] fix: grow containers by exactly what a write needs

A write that overlapped the end appended room for all of its bytes, leaving
trailing garbage elements, and one that ended inside of an element or began
past the end appended too little and wrote out of bounds.
---
 api/src/cmp/io/impl/ctr_essence.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/api/src/cmp/io/impl/ctr_essence.ipp b/api/src/cmp/io/impl/ctr_essence.ipp
index 3dfba4f..8b2eabf 100644
--- a/api/src/cmp/io/impl/ctr_essence.ipp
+++ b/api/src/cmp/io/impl/ctr_essence.ipp
@@ -207,8 +207,8 @@ ctr_essence<Container>::write_raw (
             than there are bytes available. So we just make room.
         */
         content_ref.resize(
-            std::size(content_ref)
-                + (byte_count / sizeof (element_type))
+            (m_position + byte_count + sizeof (element_type) - 1)
+                / sizeof (element_type)
         );
     }
 
-- 
2.43.0


From bcb772a7388925ab1dc4c338efcb7cbf6d826c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:16 +0000
Subject: [PATCH 19/54] fix: continue after the buffer when a read bypasses it

A read larger than the buffer that was preceded by a buffered read got the
same bytes twice, because the resource was still positioned at the beginning
of the buffer, and the stale buffer was used by the reads that followed.
---
 api/include/cmp/io/impl/ctr_essence.hpp          |  3 +--
 api/src/cmp/io/impl/ctr_essence.ipp              | 14 ++++++++------
 api/src/cmp/io/impl/unix_like/unix_like_file.cpp | 16 +++++++++++++---
 api/src/cmp/io/input_resource.cpp                |  1 +
 .../cmp/io/opaque_container_input_resource.ipp   |  3 +--
 api/src/cmp/io/opaque_container_io_resource.ipp  |  3 +--
 .../io/transparent_container_input_resource.ipp  |  3 +--
 .../cmp/io/transparent_container_io_resource.ipp |  3 +--
 8 files changed, 27 insertions(+), 19 deletions(-)

diff --git a/api/include/cmp/io/impl/ctr_essence.hpp b/api/include/cmp/io/impl/ctr_essence.hpp
index 2d8b6f1..1375411 100644
--- a/api/include/cmp/io/impl/ctr_essence.hpp
+++ b/api/include/cmp/io/impl/ctr_essence.hpp
@@ -69,8 +69,7 @@ protected:
     read_raw (
         std::byte* data,
         std::size_t byte_count,
-        read_request rr,
-        seekable_input_resource<std::int64_t>& resource
+        read_request rr
     );
 
     std::size_t
diff --git a/api/src/cmp/io/impl/ctr_essence.ipp b/api/src/cmp/io/impl/ctr_essence.ipp
index 8b2eabf..e65e611 100644
--- a/api/src/cmp/io/impl/ctr_essence.ipp
+++ b/api/src/cmp/io/impl/ctr_essence.ipp
@@ -116,16 +116,18 @@ std::size_t
 ctr_essence<Container>::read_raw (
     std::byte *data,
     std::size_t byte_count,
-    cmp::read_request rr,
-    seekable_input_resource<std::int64_t>& resource
+    cmp::read_request rr
 ) {
     using element_type = typename Container::value_type;
 
     const auto& content_ref{*get_const_content_ptr()};
 
-    if (rr == read_request::fill_buffer && m_last_fill_amount > 0) {
-        resource.go_forward(m_last_fill_amount);
-    }
+    /*
+        We skip what the buffer was last filled with,
+        because all of it has been read already.
+    */
+    m_position += m_last_fill_amount;
+    m_last_fill_amount = 0;
 
     /*
         We compute the number of bytes stored in the content.
@@ -171,7 +173,7 @@ ctr_essence<Container>::read_raw (
         then we go back by the number of bytes read.
     */
     if (rr == read_request::fill_buffer) {
-        resource.go_back(static_cast<std::int64_t>(byte_count));
+        m_position -= byte_count;
         m_last_fill_amount = byte_count;
     }
 
diff --git a/api/src/cmp/io/impl/unix_like/unix_like_file.cpp b/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
index e2d66de..89c12f7 100644
--- a/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
+++ b/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
@@ -138,8 +138,15 @@ file::read_raw (
 )
 noexcept
 {
-    if (rr == read_request::fill_buffer && m_last_fill_amount > 0) {
-        go_forward(m_last_fill_amount);
+    /*
+        We skip what the buffer was last filled with,
+        because all of it has been read already.
+    */
+    if (m_last_fill_amount > 0) {
+        set_position_raw(
+            static_cast<position_type>(m_last_fill_amount),
+            position_reference::current
+        );
     }
 
     std::size_t total_result;
@@ -172,7 +179,10 @@ noexcept
         then we go back by the number of bytes read.
     */
     if (rr == read_request::fill_buffer) {
-        go_back(static_cast<position_type>(total_result));
+        set_position_raw(
+            -static_cast<position_type>(total_result),
+            position_reference::current
+        );
         m_last_fill_amount = total_result;
     }
 
diff --git a/api/src/cmp/io/input_resource.cpp b/api/src/cmp/io/input_resource.cpp
index d1bdd87..a7d40e4 100644
--- a/api/src/cmp/io/input_resource.cpp
+++ b/api/src/cmp/io/input_resource.cpp
@@ -125,6 +125,7 @@ input_resource::read_buffered (
                 byte_count,
                 read_request::lean_retrieval
             );
+            m_buffer.set_read_dirty(true);
             return bytes_read;
         } else {
             /*
diff --git a/api/src/cmp/io/opaque_container_input_resource.ipp b/api/src/cmp/io/opaque_container_input_resource.ipp
index 34189b7..0e768d1 100644
--- a/api/src/cmp/io/opaque_container_input_resource.ipp
+++ b/api/src/cmp/io/opaque_container_input_resource.ipp
@@ -118,8 +118,7 @@ opaque_container_input_resource<Container>::read_raw (
     return essence_type::read_raw(
         data,
         byte_count,
-        rr,
-        *this
+        rr
     );
 } // function -----------------------------------------------------------------
 
diff --git a/api/src/cmp/io/opaque_container_io_resource.ipp b/api/src/cmp/io/opaque_container_io_resource.ipp
index d6c6e7c..c460a0d 100644
--- a/api/src/cmp/io/opaque_container_io_resource.ipp
+++ b/api/src/cmp/io/opaque_container_io_resource.ipp
@@ -142,8 +142,7 @@ opaque_container_io_resource<Container>::read_raw (
     return essence_type::read_raw(
         data,
         byte_count,
-        rr,
-        *this
+        rr
     );
 } // function -----------------------------------------------------------------
 
diff --git a/api/src/cmp/io/transparent_container_input_resource.ipp b/api/src/cmp/io/transparent_container_input_resource.ipp
index 78dad08..19761e7 100644
--- a/api/src/cmp/io/transparent_container_input_resource.ipp
+++ b/api/src/cmp/io/transparent_container_input_resource.ipp
@@ -87,8 +87,7 @@ transparent_container_input_resource<Container>::read_raw (
     return essence_type::read_raw(
         data,
         byte_count,
-        rr,
-        *this
+        rr
     );
 } // function -----------------------------------------------------------------
 
diff --git a/api/src/cmp/io/transparent_container_io_resource.ipp b/api/src/cmp/io/transparent_container_io_resource.ipp
index 2576e8d..2104f1c 100644
--- a/api/src/cmp/io/transparent_container_io_resource.ipp
+++ b/api/src/cmp/io/transparent_container_io_resource.ipp
@@ -104,8 +104,7 @@ transparent_container_io_resource<Container>::read_raw (
     return essence_type::read_raw(
         data,
         byte_count,
-        rr,
-        *this
+        rr
     );
 } // function -----------------------------------------------------------------
 
-- 
2.43.0


From fab26b8fcc48de4aebcd8c5010c9dfdb508658fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:16 +0000
Subject: [PATCH 20/54] fix: take the buffer into account when seeking from the
 current position

set_position() relative to the current position, go_back() and go_forward()
started from the beginning of the buffer, and the latter two kept serving
reads from the stale buffer.
---
 api/src/cmp/io/impl/windows/windows_file.cpp  | 16 +++++++++++++---
 api/src/cmp/io/seekable_input_resource.ipp    |  6 ++++++
 api/src/cmp/io/seekable_io_resource.ipp       |  6 ++++++
 api/src/cmp/io/seekable_transfer_resource.ipp |  4 ++--
 4 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/api/src/cmp/io/impl/windows/windows_file.cpp b/api/src/cmp/io/impl/windows/windows_file.cpp
index 9025917..b1be7c4 100644
--- a/api/src/cmp/io/impl/windows/windows_file.cpp
+++ b/api/src/cmp/io/impl/windows/windows_file.cpp
@@ -165,8 +165,15 @@ file::read_raw (
 )
 noexcept
 {
-    if (rr == read_request::fill_buffer && m_last_fill_amount > 0) {
-        go_forward(m_last_fill_amount);
+    /*
+        We skip what the buffer was last filled with,
+        because all of it has been read already.
+    */
+    if (m_last_fill_amount > 0) {
+        set_position_raw(
+            static_cast<position_type>(m_last_fill_amount),
+            position_reference::current
+        );
     }
 
     std::size_t total_result;
@@ -199,7 +206,10 @@ noexcept
         then we go back by the number of bytes read.
     */
     if (rr == read_request::fill_buffer) {
-        go_back(static_cast<position_type>(total_result));
+        set_position_raw(
+            -static_cast<position_type>(total_result),
+            position_reference::current
+        );
         m_last_fill_amount = total_result;
     }
 
diff --git a/api/src/cmp/io/seekable_input_resource.ipp b/api/src/cmp/io/seekable_input_resource.ipp
index 25b359c..c5059bc 100644
--- a/api/src/cmp/io/seekable_input_resource.ipp
+++ b/api/src/cmp/io/seekable_input_resource.ipp
@@ -33,6 +33,12 @@ seekable_input_resource<Position>::set_position (
 )
 noexcept
 {
+    if (pr == position_reference::current) {
+        /*
+            The raw position is that of the beginning of the buffer.
+        */
+        new_position += static_cast<position_type>(m_buffer.get_position());
+    }
     this->set_position_raw(new_position, pr);
     m_buffer.set_read_dirty(true);
 } // function -----------------------------------------------------------------
diff --git a/api/src/cmp/io/seekable_io_resource.ipp b/api/src/cmp/io/seekable_io_resource.ipp
index 7799a9b..7dde2f7 100644
--- a/api/src/cmp/io/seekable_io_resource.ipp
+++ b/api/src/cmp/io/seekable_io_resource.ipp
@@ -34,6 +34,12 @@ seekable_io_resource<Position>::set_position (
 noexcept
 {
     this->flush();
+    if (pr == position_reference::current) {
+        /*
+            The raw position is that of the beginning of the buffer.
+        */
+        new_position += static_cast<position_type>(transfer_resource::m_buffer.get_position());
+    }
     this->set_position_raw(new_position, pr);
     transfer_resource::m_buffer.set_read_dirty(true);
 } // function -----------------------------------------------------------------
diff --git a/api/src/cmp/io/seekable_transfer_resource.ipp b/api/src/cmp/io/seekable_transfer_resource.ipp
index c29053d..7f6b85e 100644
--- a/api/src/cmp/io/seekable_transfer_resource.ipp
+++ b/api/src/cmp/io/seekable_transfer_resource.ipp
@@ -30,7 +30,7 @@ seekable_transfer_resource<Position>::go_back (
 )
 noexcept
 {
-    set_position_raw(-count, position_reference::current);
+    set_position(-count, position_reference::current);
 } // function -----------------------------------------------------------------
 
 template <
@@ -42,7 +42,7 @@ seekable_transfer_resource<Position>::go_forward (
 )
 noexcept
 {
-    set_position_raw(count, position_reference::current);
+    set_position(count, position_reference::current);
 } // function -----------------------------------------------------------------
 
 } // namespace ----------------------------------------------------------------
-- 
2.43.0


From bf65793e51158a2ce6811abb2c7ee58815bd21db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:17 +0000
Subject: [PATCH 21/54] fix: complete short and interrupted reads and writes of
 files

After a short read the rest was read over the beginning of the destination,
a short write dropped the rest of the data, and an interrupted call was
taken for the end of the file or for a failure.
---
 .../cmp/io/impl/unix_like/unix_like_file.hpp  |  1 +
 .../cmp/io/impl/unix_like/unix_like_file.cpp  | 39 +++++++++++++++----
 2 files changed, 33 insertions(+), 7 deletions(-)

diff --git a/api/include/cmp/io/impl/unix_like/unix_like_file.hpp b/api/include/cmp/io/impl/unix_like/unix_like_file.hpp
index 8d33fea..dee5aea 100644
--- a/api/include/cmp/io/impl/unix_like/unix_like_file.hpp
+++ b/api/include/cmp/io/impl/unix_like/unix_like_file.hpp
@@ -4,6 +4,7 @@
 #ifndef CMP_IO_UNIX_LIKE_FILE_HPP_INCLUDED
 #define CMP_IO_UNIX_LIKE_FILE_HPP_INCLUDED
 
+#include <errno.h>
 #include <fcntl.h>
 #include <unistd.h>
 
diff --git a/api/src/cmp/io/impl/unix_like/unix_like_file.cpp b/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
index 89c12f7..92cc7ee 100644
--- a/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
+++ b/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
@@ -165,7 +165,10 @@ noexcept
                 native_byte_count = ssize_t_max;
                 byte_count -= ssize_t_max;
             }
-            native_bytes_read = read_block(data, native_byte_count);
+            native_bytes_read = read_block(
+                data + bytes_read,
+                native_byte_count
+            );
             bytes_read += native_bytes_read;
             if (native_bytes_read != native_byte_count) {
                 break;
@@ -212,7 +215,10 @@ noexcept
                 native_byte_count = ssize_t_max;
                 byte_count -= ssize_t_max;
             }
-            native_bytes_written = write_block(data, native_byte_count);
+            native_bytes_written = write_block(
+                data + bytes_written,
+                native_byte_count
+            );
             bytes_written += native_bytes_written;
             if (native_bytes_written != native_byte_count) {
                 break;
@@ -235,7 +241,14 @@ noexcept
     ssize_t bytes_read_last;
     ssize_t bytes_read_total{0};
     while (true) {
-        bytes_read_last = ::read(m_file_descriptor, data, byte_count);
+        bytes_read_last = ::read(
+            m_file_descriptor,
+            data + bytes_read_total,
+            byte_count - bytes_read_total
+        );
+        if (bytes_read_last == -1 && errno == EINTR) {
+            continue;
+        }
         if (bytes_read_last == -1 || bytes_read_last == 0) {
             break;
         }
@@ -255,11 +268,23 @@ file::write_block (
 )
 noexcept
 {
-    ssize_t native_bytes_written{::write(m_file_descriptor, data, byte_count)};
-    if (native_bytes_written == -1) {
-        return 0;
+    ssize_t bytes_written_last;
+    ssize_t bytes_written_total{0};
+    while (bytes_written_total != byte_count) {
+        bytes_written_last = ::write(
+            m_file_descriptor,
+            data + bytes_written_total,
+            byte_count - bytes_written_total
+        );
+        if (bytes_written_last == -1 && errno == EINTR) {
+            continue;
+        }
+        if (bytes_written_last == -1 || bytes_written_last == 0) {
+            break;
+        }
+        bytes_written_total += bytes_written_last;
     }
-    return native_bytes_written;
+    return bytes_written_total;
 } // function -----------------------------------------------------------------
 
 } // namespace ----------------------------------------------------------------
-- 
2.43.0


From 67f5da03fa8f18ca6072737b6549eb85df590a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:17 +0000
Subject: [PATCH 22/54] fix: complete short and interrupted transfers of the
 standard streams

The rest of a short write was dropped, and a failed read was reported as an
enormous number of bytes.
---
 .../cmp/io/impl/unix_like/unix_like_uin.hpp   |  1 +
 .../cmp/io/impl/unix_like/unix_like_uout.hpp  |  1 +
 .../cmp/io/impl/unix_like/unix_like_uin.cpp   |  9 +++++++-
 .../cmp/io/impl/unix_like/unix_like_uout.cpp  | 21 +++++++++++++++----
 4 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/api/include/cmp/io/impl/unix_like/unix_like_uin.hpp b/api/include/cmp/io/impl/unix_like/unix_like_uin.hpp
index e12cb49..1720bdc 100644
--- a/api/include/cmp/io/impl/unix_like/unix_like_uin.hpp
+++ b/api/include/cmp/io/impl/unix_like/unix_like_uin.hpp
@@ -4,6 +4,7 @@
 #ifndef CMP_IO_UNIX_LIKE_UIN_HPP_INCLUDED
 #define CMP_IO_UNIX_LIKE_UIN_HPP_INCLUDED
 
+#include <errno.h>
 #include <unistd.h>
 
 #include <cmp/io/inclusion_assert.hpp>
diff --git a/api/include/cmp/io/impl/unix_like/unix_like_uout.hpp b/api/include/cmp/io/impl/unix_like/unix_like_uout.hpp
index d0ee464..84eadfb 100644
--- a/api/include/cmp/io/impl/unix_like/unix_like_uout.hpp
+++ b/api/include/cmp/io/impl/unix_like/unix_like_uout.hpp
@@ -4,6 +4,7 @@
 #ifndef CMP_IO_UNIX_LIKE_UOUT_HPP_INCLUDED
 #define CMP_IO_UNIX_LIKE_UOUT_HPP_INCLUDED
 
+#include <errno.h>
 #include <unistd.h>
 
 #include <cmp/io/inclusion_assert.hpp>
diff --git a/api/src/cmp/io/impl/unix_like/unix_like_uin.cpp b/api/src/cmp/io/impl/unix_like/unix_like_uin.cpp
index 10e8db6..9485acb 100644
--- a/api/src/cmp/io/impl/unix_like/unix_like_uin.cpp
+++ b/api/src/cmp/io/impl/unix_like/unix_like_uin.cpp
@@ -36,7 +36,14 @@ stdin_resource::read_raw (
     std::size_t byte_count,
     read_request rr
 ) {
-    return ::read(STDIN_FILENO, data, byte_count);
+    ssize_t bytes_read;
+    do {
+        bytes_read = ::read(STDIN_FILENO, data, byte_count);
+    } while (bytes_read == -1 && errno == EINTR);
+    if (bytes_read == -1) {
+        return 0;
+    }
+    return bytes_read;
 } // function -----------------------------------------------------------------
 
 // --------------------------------------------------------- cmp::stdin_stream
diff --git a/api/src/cmp/io/impl/unix_like/unix_like_uout.cpp b/api/src/cmp/io/impl/unix_like/unix_like_uout.cpp
index e7143e7..b676857 100644
--- a/api/src/cmp/io/impl/unix_like/unix_like_uout.cpp
+++ b/api/src/cmp/io/impl/unix_like/unix_like_uout.cpp
@@ -36,11 +36,24 @@ stdout_resource::write_raw (
     const std::byte* data,
     std::size_t byte_count
 ) {
-    ssize_t bytes_written{::write(m_file_descriptor, data, byte_count)};
-    if (bytes_written == -1) {
-        return 0;
+    std::size_t bytes_written_total{0};
+    while (bytes_written_total != byte_count) {
+        ssize_t bytes_written{
+            ::write(
+                m_file_descriptor,
+                data + bytes_written_total,
+                byte_count - bytes_written_total
+            )
+        };
+        if (bytes_written == -1 && errno == EINTR) {
+            continue;
+        }
+        if (bytes_written == -1 || bytes_written == 0) {
+            break;
+        }
+        bytes_written_total += bytes_written;
     }
-    return bytes_written;
+    return bytes_written_total;
 } // function -----------------------------------------------------------------
 
 #if CMP_CONFIG_HEADER_ONLY == false
-- 
2.43.0


From 17fe8cf26e23a003c65390e35c6e8b4d93a396ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:52 +0000
Subject: [PATCH 23/54] fix: let reads and writes of seekable I/O resources be
 mixed

Both directions share a buffer. Reading while written data was pending
returned and lost that data, and writing after reading wrote at the wrong
position or past the end of the buffer.
---
 api/include/cmp/io/seekable_io_resource.hpp | 42 +++++++++++++++++++++
 api/src/cmp/io/file.cpp                     |  4 +-
 api/src/cmp/io/seekable_io_resource.ipp     | 33 ++++++++++++++++
 3 files changed, 77 insertions(+), 2 deletions(-)

diff --git a/api/include/cmp/io/seekable_io_resource.hpp b/api/include/cmp/io/seekable_io_resource.hpp
index b8a8d5f..cf41f0d 100644
--- a/api/include/cmp/io/seekable_io_resource.hpp
+++ b/api/include/cmp/io/seekable_io_resource.hpp
@@ -136,6 +136,48 @@ public:
         position_reference pr
     )
     noexcept override;
+
+    // Core -------------------------------------------------------------------
+
+    /**
+        Description:
+            Reads <#parameter>byte_count</#parameter> bytes from <#this/>
+            seekable I/O resource and places them in the provided
+            <#parameter>data</#parameter> array. If there is data in
+            the I/O buffer waiting to be written, it is written first.
+
+        Parameters:
+            data:
+                The array into which the read bytes will be placed.
+            byte_count:
+                The number of bytes to read.
+    */
+    std::size_t
+    read (
+        std::byte* data,
+        std::size_t byte_count
+    )
+    override;
+
+    /**
+        Description:
+            Writes <#parameter>byte_count</#parameter> bytes from the
+            <#parameter>data</#parameter> array to <#this/> seekable
+            I/O resource. If there is data in the I/O buffer that was
+            read ahead, it is discarded first.
+
+        Parameters:
+            data:
+                The array of bytes that will be written.
+            byte_count:
+                The number of bytes to write.
+    */
+    std::size_t
+    write (
+        const std::byte* data,
+        std::size_t byte_count
+    )
+    override;
 }; // class -------------------------------------------------------------------
 
 } // namespace ----------------------------------------------------------------
diff --git a/api/src/cmp/io/file.cpp b/api/src/cmp/io/file.cpp
index 4f3abd6..27c8efc 100644
--- a/api/src/cmp/io/file.cpp
+++ b/api/src/cmp/io/file.cpp
@@ -58,7 +58,7 @@ basic_file::read (
     switch (m_access_mode) {
         case read_only:
         case read_and_write: {
-            return input_resource::read(data, byte_count);
+            return seekable_io_resource::read(data, byte_count);
         }
         case write_only:
             throw invalid_access_mode{};
@@ -75,7 +75,7 @@ basic_file::write (
             throw invalid_access_mode{};
         case write_only:
         case read_and_write: {
-            return output_resource::write(data, byte_count);
+            return seekable_io_resource::write(data, byte_count);
         }
     }
 } // function -----------------------------------------------------------------
diff --git a/api/src/cmp/io/seekable_io_resource.ipp b/api/src/cmp/io/seekable_io_resource.ipp
index 7dde2f7..62ceae4 100644
--- a/api/src/cmp/io/seekable_io_resource.ipp
+++ b/api/src/cmp/io/seekable_io_resource.ipp
@@ -44,4 +44,37 @@ noexcept
     transfer_resource::m_buffer.set_read_dirty(true);
 } // function -----------------------------------------------------------------
 
+// Core -----------------------------------------------------------------------
+
+template <
+    typename Position
+>
+std::size_t
+seekable_io_resource<Position>::read (
+    std::byte* data,
+    std::size_t byte_count
+) {
+    this->flush();
+    return input_resource::read(data, byte_count);
+} // function -----------------------------------------------------------------
+
+template <
+    typename Position
+>
+std::size_t
+seekable_io_resource<Position>::write (
+    const std::byte* data,
+    std::size_t byte_count
+) {
+    auto& buffer{transfer_resource::m_buffer};
+    if (!buffer.is_write_dirty() && !buffer.is_read_dirty()) {
+        /*
+            The buffer holds data that was read ahead. We move to the
+            position that was actually reached and discard the data.
+        */
+        set_position(0, position_reference::current);
+    }
+    return output_resource::write(data, byte_count);
+} // function -----------------------------------------------------------------
+
 } // namespace ----------------------------------------------------------------
-- 
2.43.0


From c201fc7426322395ce2416ce37955f766326c9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:52 +0000
Subject: [PATCH 24/54] fix: remember the path of a file that is opened after
 construction

is_at_end() uses it and terminated the program because it was empty, or
looked at the previous file after reopening.
---
 api/src/cmp/io/impl/unix_like/unix_like_file.cpp | 1 +
 api/src/cmp/io/impl/windows/windows_file.cpp     | 1 +
 2 files changed, 2 insertions(+)

diff --git a/api/src/cmp/io/impl/unix_like/unix_like_file.cpp b/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
index 92cc7ee..5b331f9 100644
--- a/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
+++ b/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
@@ -87,6 +87,7 @@ noexcept
         flags |= O_CREAT;
     }
     m_file_descriptor = ::open(file_path.string().c_str(), flags, 0777);
+    m_file_path = file_path;
     m_access_mode = mode;
     return is_open();
 } // function -----------------------------------------------------------------
diff --git a/api/src/cmp/io/impl/windows/windows_file.cpp b/api/src/cmp/io/impl/windows/windows_file.cpp
index b1be7c4..9dda72c 100644
--- a/api/src/cmp/io/impl/windows/windows_file.cpp
+++ b/api/src/cmp/io/impl/windows/windows_file.cpp
@@ -106,6 +106,7 @@ noexcept
         FILE_ATTRIBUTE_NORMAL,
         nullptr
     );
+    m_file_path = file_path;
     m_access_mode = mode;
     return is_open();
 } // function -----------------------------------------------------------------
-- 
2.43.0


From 5f1e9099a453d6ccbe6d70d7cc4eec3a5c298251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:52 +0000
Subject: [PATCH 25/54] fix: do not carry buffered data over to the next file
 that is opened

Reopening a file object kept the read buffer (and its offset) of the
previous file.
---
 api/include/cmp/io/file.hpp                      | 11 +++++++++++
 api/src/cmp/io/file.cpp                          | 12 ++++++++++++
 api/src/cmp/io/impl/unix_like/unix_like_file.cpp |  8 ++++++--
 api/src/cmp/io/impl/windows/windows_file.cpp     |  2 ++
 4 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/api/include/cmp/io/file.hpp b/api/include/cmp/io/file.hpp
index d824bf9..c64975c 100644
--- a/api/include/cmp/io/file.hpp
+++ b/api/include/cmp/io/file.hpp
@@ -247,6 +247,17 @@ protected:
     std::filesystem::path m_file_path;
     access_mode m_access_mode;
     std::size_t m_last_fill_amount;
+
+    // Protected Functions ----------------------------------------------------
+
+    /**
+        Description:
+            Forgets everything that is in the I/O buffer.
+    */
+    CMP_CONDITIONAL_INLINE
+    void
+    discard_buffer ()
+    noexcept;
 }; // class -------------------------------------------------------------------
 
 } // namespace ----------------------------------------------------------------
diff --git a/api/src/cmp/io/file.cpp b/api/src/cmp/io/file.cpp
index 27c8efc..baed0a0 100644
--- a/api/src/cmp/io/file.cpp
+++ b/api/src/cmp/io/file.cpp
@@ -80,4 +80,16 @@ basic_file::write (
     }
 } // function -----------------------------------------------------------------
 
+// Protected Functions --------------------------------------------------------
+
+void
+basic_file::discard_buffer ()
+noexcept
+{
+    m_buffer.set_size(0);
+    m_buffer.set_read_dirty(true);
+    m_buffer.set_write_dirty(false);
+    m_last_fill_amount = 0;
+} // function -----------------------------------------------------------------
+
 } // namespace ----------------------------------------------------------------
diff --git a/api/src/cmp/io/impl/unix_like/unix_like_file.cpp b/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
index 5b331f9..884313a 100644
--- a/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
+++ b/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
@@ -64,6 +64,7 @@ noexcept
     if (is_open()) {
         close();
     }
+    discard_buffer();
     std::error_code ec;
     if (
         if_file_not_there == if_not_there::fail
@@ -97,8 +98,11 @@ file::close ()
 noexcept
 {
     this->flush();
-    ::close(m_file_descriptor);
-    m_file_descriptor = -1;
+    discard_buffer();
+    if (is_open()) {
+        ::close(m_file_descriptor);
+        m_file_descriptor = -1;
+    }
 } // function -----------------------------------------------------------------
 
 // Protected Functions --------------------------------------------------------
diff --git a/api/src/cmp/io/impl/windows/windows_file.cpp b/api/src/cmp/io/impl/windows/windows_file.cpp
index 9dda72c..54fdf24 100644
--- a/api/src/cmp/io/impl/windows/windows_file.cpp
+++ b/api/src/cmp/io/impl/windows/windows_file.cpp
@@ -73,6 +73,7 @@ noexcept
     if (is_open()) {
         close();
     }
+    discard_buffer();
     std::error_code ec;
     if (
         if_file_not_there == if_not_there::fail
@@ -116,6 +117,7 @@ file::close ()
 noexcept
 {
     this->flush();
+    discard_buffer();
     CloseHandle(m_handle);
     m_handle = INVALID_HANDLE_VALUE;
 } // function -----------------------------------------------------------------
-- 
2.43.0


From 66fad6efacb43387387a53b0ea27c0ab8f8d8c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:19 +0000
Subject: [PATCH 26/54] fix: keep the buffered data of a resource that is moved

Move assignment of the resource classes reaches the buffer through several
virtual bases, and the second move emptied it. The buffer that was moved from
also kept claiming to hold data to write.
---
 api/include/cmp/io/io_buffer.hpp | 10 ++++++---
 api/src/cmp/io/io_buffer.cpp     | 35 ++++++++++++++++++++++++++++++++
 2 files changed, 42 insertions(+), 3 deletions(-)

diff --git a/api/include/cmp/io/io_buffer.hpp b/api/include/cmp/io/io_buffer.hpp
index 2a937f2..37640da 100644
--- a/api/include/cmp/io/io_buffer.hpp
+++ b/api/include/cmp/io/io_buffer.hpp
@@ -5,6 +5,7 @@
 #define CMP_IO_IO_BUFFER_HPP_INCLUDED
 
 #include <cstring>
+#include <utility>
 #include <vector>
 
 #include <cmp/io/inclusion_assert.hpp>
@@ -95,12 +96,14 @@ public:
     io_buffer (
         io_buffer&& other
     )
-    noexcept = default;
+    noexcept;
 
     /**
         Description:
             Move-assigns an <#type>io_buffer</#type>
-            into <#this/> one.
+            into <#this/> one. This does nothing if the other one has
+            already been moved from, because defaulted move assignment
+            operators may assign a virtual base more than once.
 
         Parameters:
             other:
@@ -112,7 +115,7 @@ public:
     operator = (
         io_buffer&& other
     )
-    noexcept = default;
+    noexcept;
 
     // Accessors --------------------------------------------------------------
 
@@ -280,6 +283,7 @@ private:
     std::vector<std::byte> m_data;
     bool m_read_dirty_flag;
     bool m_write_dirty_flag;
+    bool m_moved_from_flag;
 }; // class -------------------------------------------------------------------
 
 } // namespace ----------------------------------------------------------------
diff --git a/api/src/cmp/io/io_buffer.cpp b/api/src/cmp/io/io_buffer.cpp
index 74dc0f4..bd9dadd 100644
--- a/api/src/cmp/io/io_buffer.cpp
+++ b/api/src/cmp/io/io_buffer.cpp
@@ -16,11 +16,46 @@ io_buffer::io_buffer (
     , m_position{0}
     , m_read_dirty_flag{true}
     , m_write_dirty_flag{false}
+    , m_moved_from_flag{false}
 {
     m_data.shrink_to_fit();
     m_data.resize(buffer_capacity);
 } // function -----------------------------------------------------------------
 
+// Move Operations ------------------------------------------------------------
+
+io_buffer::io_buffer (
+    io_buffer&& other
+)
+noexcept
+    : m_size{std::exchange(other.m_size, 0)}
+    , m_position{std::exchange(other.m_position, 0)}
+    , m_data{std::move(other.m_data)}
+    , m_read_dirty_flag{std::exchange(other.m_read_dirty_flag, true)}
+    , m_write_dirty_flag{std::exchange(other.m_write_dirty_flag, false)}
+    , m_moved_from_flag{std::exchange(other.m_moved_from_flag, true)}
+{
+    other.m_data.clear();
+} // function -----------------------------------------------------------------
+
+io_buffer&
+io_buffer::operator = (
+    io_buffer&& other
+)
+noexcept
+{
+    if (this != &other && !other.m_moved_from_flag) {
+        m_size = std::exchange(other.m_size, 0);
+        m_position = std::exchange(other.m_position, 0);
+        m_data = std::move(other.m_data);
+        other.m_data.clear();
+        m_read_dirty_flag = std::exchange(other.m_read_dirty_flag, true);
+        m_write_dirty_flag = std::exchange(other.m_write_dirty_flag, false);
+        m_moved_from_flag = std::exchange(other.m_moved_from_flag, true);
+    }
+    return *this;
+} // function -----------------------------------------------------------------
+
 // Accessors ------------------------------------------------------------------
 
 std::size_t
-- 
2.43.0


From 0e665a27cc08d82fbf621aa4985c7899f4826d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:45 +0000
Subject: [PATCH 27/54] fix: transfer the ownership of the file descriptor when
 a file is moved

The file that was moved from kept the descriptor and closed it, and the
descriptor of the file that was assigned to leaked together with its pending
data.
---
 .../cmp/io/impl/unix_like/unix_like_file.hpp  |  6 ++--
 .../cmp/io/impl/unix_like/unix_like_file.cpp  | 31 +++++++++++++++++++
 2 files changed, 35 insertions(+), 2 deletions(-)

diff --git a/api/include/cmp/io/impl/unix_like/unix_like_file.hpp b/api/include/cmp/io/impl/unix_like/unix_like_file.hpp
index dee5aea..2e88c46 100644
--- a/api/include/cmp/io/impl/unix_like/unix_like_file.hpp
+++ b/api/include/cmp/io/impl/unix_like/unix_like_file.hpp
@@ -8,6 +8,8 @@
 #include <fcntl.h>
 #include <unistd.h>
 
+#include <utility>
+
 #include <cmp/io/inclusion_assert.hpp>
 #include <cmp/io/file.hpp>
 
@@ -54,14 +56,14 @@ public:
     file (
         file&& other
     )
-    noexcept = default;
+    noexcept;
 
     CMP_CONDITIONAL_INLINE
     file&
     operator = (
         file&& other
     )
-    noexcept = default;
+    noexcept;
 
     // Accessors --------------------------------------------------------------
 
diff --git a/api/src/cmp/io/impl/unix_like/unix_like_file.cpp b/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
index 884313a..36158d6 100644
--- a/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
+++ b/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
@@ -35,6 +35,37 @@ file::~file ()
     close();
 } // function -----------------------------------------------------------------
 
+// Move Operations ------------------------------------------------------------
+
+file::file (
+    file&& other
+)
+noexcept
+    : transfer_resource{std::move(other)}
+    , seekable_transfer_resource<std::int64_t>{std::move(other)}
+    , seekable_input_resource<std::int64_t>{std::move(other)}
+    , seekable_output_resource<std::int64_t>{std::move(other)}
+    , basic_file{std::move(other)}
+    , m_file_descriptor{std::exchange(other.m_file_descriptor, -1)}
+{
+    other.m_last_fill_amount = 0;
+} // function -----------------------------------------------------------------
+
+file&
+file::operator = (
+    file&& other
+)
+noexcept
+{
+    if (this != &other) {
+        close();
+        basic_file::operator = (std::move(other));
+        m_file_descriptor = std::exchange(other.m_file_descriptor, -1);
+        other.m_last_fill_amount = 0;
+    }
+    return *this;
+} // function -----------------------------------------------------------------
+
 // Accessors ------------------------------------------------------------------
 
 bool
-- 
2.43.0


From 07668f76b07d994ecc6139da2bcf836bcaa12bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:59 +0000
Subject: [PATCH 28/54] fix: let copies of opaque container resources use their
 own content

A copied or moved resource went on reading and writing the content of the
one it was made from, which dangles once that one is gone.
---
 api/include/cmp/io/impl/ctr_essence.hpp       | 18 +++++++++++++++++
 .../io/opaque_container_input_resource.hpp    |  8 ++++++++
 .../cmp/io/opaque_container_io_resource.hpp   |  8 ++++++++
 .../io/opaque_container_output_resource.hpp   |  8 ++++++++
 .../io/opaque_container_input_resource.ipp    | 20 +++++++++++++++++++
 .../cmp/io/opaque_container_io_resource.ipp   | 20 +++++++++++++++++++
 .../io/opaque_container_output_resource.ipp   | 20 +++++++++++++++++++
 7 files changed, 102 insertions(+)

diff --git a/api/include/cmp/io/impl/ctr_essence.hpp b/api/include/cmp/io/impl/ctr_essence.hpp
index 1375411..439d20d 100644
--- a/api/include/cmp/io/impl/ctr_essence.hpp
+++ b/api/include/cmp/io/impl/ctr_essence.hpp
@@ -26,9 +26,21 @@ public:
         const Container* initial_content_ptr
     );
 
+    virtual
     ~ctr_essence ()
     = default;
 
+    ctr_essence (
+        const ctr_essence& other
+    )
+    = default;
+
+    ctr_essence&
+    operator = (
+        const ctr_essence& other
+    )
+    = default;
+
 protected:
     // Protected Data ---------------------------------------------------------
 
@@ -38,10 +50,16 @@ protected:
 
     // Protected Functions ----------------------------------------------------
 
+    /*
+        Resources that own their content override these two, because
+        each copy of such a resource must refer to its own content.
+    */
+    virtual
     Container*
     get_content_ptr ()
     noexcept;
 
+    virtual
     const Container*
     get_const_content_ptr ()
     const noexcept;
diff --git a/api/include/cmp/io/opaque_container_input_resource.hpp b/api/include/cmp/io/opaque_container_input_resource.hpp
index be71bc8..983a9f4 100644
--- a/api/include/cmp/io/opaque_container_input_resource.hpp
+++ b/api/include/cmp/io/opaque_container_input_resource.hpp
@@ -205,6 +205,14 @@ protected:
 
     // Protected Functions ----------------------------------------------------
 
+    Container*
+    get_content_ptr ()
+    noexcept override;
+
+    const Container*
+    get_const_content_ptr ()
+    const noexcept override;
+
     void
     set_position_raw (
         std::int64_t new_position,
diff --git a/api/include/cmp/io/opaque_container_io_resource.hpp b/api/include/cmp/io/opaque_container_io_resource.hpp
index 4c9ede5..23b4f91 100644
--- a/api/include/cmp/io/opaque_container_io_resource.hpp
+++ b/api/include/cmp/io/opaque_container_io_resource.hpp
@@ -235,6 +235,14 @@ protected:
 
     // Protected Functions ----------------------------------------------------
 
+    Container*
+    get_content_ptr ()
+    noexcept override;
+
+    const Container*
+    get_const_content_ptr ()
+    const noexcept override;
+
     void
     set_position_raw (
         std::int64_t new_position,
diff --git a/api/include/cmp/io/opaque_container_output_resource.hpp b/api/include/cmp/io/opaque_container_output_resource.hpp
index c31d4c1..96baefb 100644
--- a/api/include/cmp/io/opaque_container_output_resource.hpp
+++ b/api/include/cmp/io/opaque_container_output_resource.hpp
@@ -213,6 +213,14 @@ protected:
 
     // Protected Functions ----------------------------------------------------
 
+    Container*
+    get_content_ptr ()
+    noexcept override;
+
+    const Container*
+    get_const_content_ptr ()
+    const noexcept override;
+
     void
     set_position_raw (
         std::int64_t new_position,
diff --git a/api/src/cmp/io/opaque_container_input_resource.ipp b/api/src/cmp/io/opaque_container_input_resource.ipp
index 0e768d1..9e54a88 100644
--- a/api/src/cmp/io/opaque_container_input_resource.ipp
+++ b/api/src/cmp/io/opaque_container_input_resource.ipp
@@ -90,6 +90,26 @@ const noexcept
 
 // Protected Functions --------------------------------------------------------
 
+template <
+    typename Container
+>
+Container*
+opaque_container_input_resource<Container>::get_content_ptr ()
+noexcept
+{
+    return &m_content;
+} // function -----------------------------------------------------------------
+
+template <
+    typename Container
+>
+const Container*
+opaque_container_input_resource<Container>::get_const_content_ptr ()
+const noexcept
+{
+    return &m_content;
+} // function -----------------------------------------------------------------
+
 template <
     typename Container
 >
diff --git a/api/src/cmp/io/opaque_container_io_resource.ipp b/api/src/cmp/io/opaque_container_io_resource.ipp
index c460a0d..ea29e88 100644
--- a/api/src/cmp/io/opaque_container_io_resource.ipp
+++ b/api/src/cmp/io/opaque_container_io_resource.ipp
@@ -114,6 +114,26 @@ const noexcept
 
 // Protected Functions --------------------------------------------------------
 
+template <
+    typename Container
+>
+Container*
+opaque_container_io_resource<Container>::get_content_ptr ()
+noexcept
+{
+    return &m_content;
+} // function -----------------------------------------------------------------
+
+template <
+    typename Container
+>
+const Container*
+opaque_container_io_resource<Container>::get_const_content_ptr ()
+const noexcept
+{
+    return &m_content;
+} // function -----------------------------------------------------------------
+
 template <
     typename Container
 >
diff --git a/api/src/cmp/io/opaque_container_output_resource.ipp b/api/src/cmp/io/opaque_container_output_resource.ipp
index aecbe92..d32fbc1 100644
--- a/api/src/cmp/io/opaque_container_output_resource.ipp
+++ b/api/src/cmp/io/opaque_container_output_resource.ipp
@@ -100,6 +100,26 @@ const noexcept
 
 // Protected Functions --------------------------------------------------------
 
+template <
+    typename Container
+>
+Container*
+opaque_container_output_resource<Container>::get_content_ptr ()
+noexcept
+{
+    return &m_content;
+} // function -----------------------------------------------------------------
+
+template <
+    typename Container
+>
+const Container*
+opaque_container_output_resource<Container>::get_const_content_ptr ()
+const noexcept
+{
+    return &m_content;
+} // function -----------------------------------------------------------------
+
 template <
     typename Container
 >
-- 
2.43.0


From 6493963a2883c59d453e0ab9db50fef02f85fe87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:35 +0000
Subject: [PATCH 29/54] fix: reverse nothing when there are no bytes to reverse

---
 api/src/cmp/io/general.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/api/src/cmp/io/general.cpp b/api/src/cmp/io/general.cpp
index 36f7ccb..b363a13 100644
--- a/api/src/cmp/io/general.cpp
+++ b/api/src/cmp/io/general.cpp
@@ -14,6 +14,9 @@ invert_endianness (
 )
 noexcept
 {
+    if (byte_count == 0) {
+        return;
+    }
     std::byte* begin{data};
     std::byte* end{data + byte_count - 1};
     while (begin < end) {
-- 
2.43.0


From 31fcd3622031ebf60ac2544902f3f0c0d1a4cef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:35 +0000
Subject: [PATCH 30/54] fix: read data in the endianness of the data input
 stream

The bytes were inverted twice, so that every endianness read as native.
The streams default to native, so that the defaults match.
---
 api/include/cmp/io/data_input_stream.hpp  |  2 +-
 api/include/cmp/io/data_io_stream.hpp     |  2 +-
 api/include/cmp/io/data_output_stream.hpp |  2 +-
 api/src/cmp/io/data_input_stream.ipp      | 18 +++++-------------
 api/src/cmp/io/input_stream.ipp           |  2 +-
 5 files changed, 9 insertions(+), 17 deletions(-)

diff --git a/api/include/cmp/io/data_input_stream.hpp b/api/include/cmp/io/data_input_stream.hpp
index ee3f6e6..7d636ac 100644
--- a/api/include/cmp/io/data_input_stream.hpp
+++ b/api/include/cmp/io/data_input_stream.hpp
@@ -47,7 +47,7 @@ public:
     explicit
     data_input_stream (
         referenced_resource_type& resource,
-        std::endian endianness = std::endian::big
+        std::endian endianness = std::endian::native
     )
     noexcept;
 
diff --git a/api/include/cmp/io/data_io_stream.hpp b/api/include/cmp/io/data_io_stream.hpp
index ac251a2..e18b853 100644
--- a/api/include/cmp/io/data_io_stream.hpp
+++ b/api/include/cmp/io/data_io_stream.hpp
@@ -50,7 +50,7 @@ public:
     explicit
     data_io_stream (
         referenced_resource_type& resource,
-        std::endian endianness = std::endian::big
+        std::endian endianness = std::endian::native
     )
     noexcept;
 
diff --git a/api/include/cmp/io/data_output_stream.hpp b/api/include/cmp/io/data_output_stream.hpp
index 18a76a5..046bb0b 100644
--- a/api/include/cmp/io/data_output_stream.hpp
+++ b/api/include/cmp/io/data_output_stream.hpp
@@ -47,7 +47,7 @@ public:
     explicit
     data_output_stream (
         referenced_resource_type& resource,
-        std::endian endianness = std::endian::big
+        std::endian endianness = std::endian::native
     )
     noexcept;
 
diff --git a/api/src/cmp/io/data_input_stream.ipp b/api/src/cmp/io/data_input_stream.ipp
index 8a1d73a..b7ddf04 100644
--- a/api/src/cmp/io/data_input_stream.ipp
+++ b/api/src/cmp/io/data_input_stream.ipp
@@ -45,24 +45,16 @@ operator >> (
     std::byte data[byte_count];
 
     /*
-        Next we fill that array of bytes with raw data read from
-        the stream. We also check whether we successfully read
-        the desired number of bytes, and if we didn't then we
-        report that we tried to read past the end of the stream.
+        Next we fill that array of bytes with data read from the
+        stream, which puts them in the endianness of the system.
+        We also check whether we successfully read the desired
+        number of bytes, and if we didn't then we report that
+        we tried to read past the end of the stream.
     */
     if (stream.read(data, byte_count) < byte_count) {
         throw read_past_end{};
     }
 
-    /*
-        Then we check whether the endianness of the stream matches
-        the endianness of the system. If it doesn't, we invert the
-        endianness of the data that we just read.
-    */
-    if (stream.get_endianness() != std::endian::native) {
-        invert_endianness(data, byte_count);
-    }
-
     /*
         At this point we have an array of raw bytes that represent the data
         read from the stream, in the correct endianness for this system to
diff --git a/api/src/cmp/io/input_stream.ipp b/api/src/cmp/io/input_stream.ipp
index 6d4e953..e9a2069 100644
--- a/api/src/cmp/io/input_stream.ipp
+++ b/api/src/cmp/io/input_stream.ipp
@@ -88,7 +88,7 @@ input_stream<InputResource>::read (
 ) {
     std::size_t bytes_read{m_resource.read(data, byte_count)};
     if (m_endianness != std::endian::native) {
-        invert_endianness(data, byte_count);
+        invert_endianness(data, bytes_read);
     }
     return bytes_read;
 } // function -----------------------------------------------------------------
-- 
2.43.0


From 25373b13a47023a298ac371d537f15391f963b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:46 +0000
Subject: [PATCH 31/54] fix: compare the decimal places of negative values like
 those of positive ones

---
 api/src/cmp/core/general.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/api/src/cmp/core/general.ipp b/api/src/cmp/core/general.ipp
index c449134..9f3408c 100644
--- a/api/src/cmp/core/general.ipp
+++ b/api/src/cmp/core/general.ipp
@@ -20,7 +20,7 @@ cmp_equal (
 noexcept
 {
     double power{std::pow(10, relevant_decimal_places)};
-    return std::floor(value1 * power) == std::floor(value2 * power);
+    return std::trunc(value1 * power) == std::trunc(value2 * power);
 } // function -----------------------------------------------------------------
 
 template <
-- 
2.43.0


From ef9dd778a2b2afd47e7e4519f655d12f0e9899e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:39 +0000
Subject: [PATCH 32/54] fix: do not use more of the buffer than its configured
 capacity

---
 api/src/cmp/io/io_buffer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/api/src/cmp/io/io_buffer.cpp b/api/src/cmp/io/io_buffer.cpp
index bd9dadd..150efe8 100644
--- a/api/src/cmp/io/io_buffer.cpp
+++ b/api/src/cmp/io/io_buffer.cpp
@@ -62,7 +62,7 @@ std::size_t
 io_buffer::get_capacity ()
 const noexcept
 {
-    return m_data.capacity();
+    return m_data.size();
 } // function -----------------------------------------------------------------
 
 std::size_t
-- 
2.43.0


From 1656450707b25928e5a18a7bae3850a51ac02c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:06 +0000
Subject: [PATCH 33/54] fix: wait for all bytes of a value when they arrive in
 pieces

---
 api/src/cmp/io/input_stream.ipp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/api/src/cmp/io/input_stream.ipp b/api/src/cmp/io/input_stream.ipp
index e9a2069..6074880 100644
--- a/api/src/cmp/io/input_stream.ipp
+++ b/api/src/cmp/io/input_stream.ipp
@@ -86,7 +86,16 @@ input_stream<InputResource>::read (
     std::byte* data,
     std::size_t byte_count
 ) {
-    std::size_t bytes_read{m_resource.read(data, byte_count)};
+    std::size_t bytes_read{0};
+    while (bytes_read < byte_count) {
+        std::size_t current_bytes_read{
+            m_resource.read(data + bytes_read, byte_count - bytes_read)
+        };
+        if (current_bytes_read == 0) {
+            break;
+        }
+        bytes_read += current_bytes_read;
+    }
     if (m_endianness != std::endian::native) {
         invert_endianness(data, bytes_read);
     }
-- 
2.43.0


From 198a8365e025170a59de0f486a69b15c2b3939b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:10 +0000
Subject: [PATCH 34/54] fix: survive windows being opened or closed by a close
 event handler

---
 .../cmp/desktop_gui/impl/gtk/gtk_window.cpp   | 41 ++++++++++++-------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/api/src/cmp/desktop_gui/impl/gtk/gtk_window.cpp b/api/src/cmp/desktop_gui/impl/gtk/gtk_window.cpp
index 40899f3..17fe5a2 100755
--- a/api/src/cmp/desktop_gui/impl/gtk/gtk_window.cpp
+++ b/api/src/cmp/desktop_gui/impl/gtk/gtk_window.cpp
@@ -267,22 +267,35 @@ forward_close_event_to_window (
     auto& window_associations{
         dgui_app()->grab_native_handle().window_associations
     };
-    for (
-        auto current_association{std::begin(window_associations)};
-        current_association != std::end(window_associations);
-        ++current_association
-    ) {
-        if (current_association->first == window_handle) {
-            close_event ev{true};
-            current_association->second->handle_close_event(ev);
-            if (ev.should_close()) {
-                window_associations.erase(current_association);
-                return FALSE;
-            } else {
-                return TRUE;
-            }
+    auto find_association{
+        [&window_associations, window_handle] () {
+            return std::find_if(
+                std::begin(window_associations),
+                std::end(window_associations),
+                [window_handle] (const auto& element) {
+                    return element.first == window_handle;
+                }
+            );
         }
+    };
+    auto current_association{find_association()};
+    if (current_association == std::end(window_associations)) {
+        return FALSE;
+    }
+    close_event ev{true};
+    current_association->second->handle_close_event(ev);
+    if (!ev.should_close()) {
+        return TRUE;
+    }
+    /*
+        The event handler may have opened or closed other
+        windows, so we need to find the association again.
+    */
+    current_association = find_association();
+    if (current_association != std::end(window_associations)) {
+        window_associations.erase(current_association);
     }
+    return FALSE;
 } // function -----------------------------------------------------------------
 
 } // namespace ----------------------------------------------------------------
-- 
2.43.0


From ff526218266b355e696d49c4ce81f97f8ea8b62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:29 +0000
Subject: [PATCH 35/54] fix: survive windows being opened or closed while
 windows are updated

---
 .../impl/gtk/gtk_desktop_gui_application.cpp  | 27 +++++++++++++++----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/api/src/cmp/desktop_gui/impl/gtk/gtk_desktop_gui_application.cpp b/api/src/cmp/desktop_gui/impl/gtk/gtk_desktop_gui_application.cpp
index 8c73ba9..b2ca76b 100755
--- a/api/src/cmp/desktop_gui/impl/gtk/gtk_desktop_gui_application.cpp
+++ b/api/src/cmp/desktop_gui/impl/gtk/gtk_desktop_gui_application.cpp
@@ -1,6 +1,8 @@
 // Copyright (C) 2023 Daniel T. McGinnis
 // SPDX-License-Identifier: BSL-1.0
 
+#include <algorithm>
+
 #include <cmp/desktop_gui/impl/gtk/gtk_desktop_gui_application.hpp>
 
 namespace cmp {
@@ -88,11 +90,26 @@ desktop_gui_application::run ()
         if (g_main_context_pending(context)) {
             g_main_context_dispatch(context);
         } else {
-            for (
-                auto& current_association
-                    : m_native_handle.window_associations
-            ) {
-                impl::update_window(current_association.second);
+            /*
+                Updating a window may open, close or move windows, so
+                we go through a copy of the associations and only
+                update the windows that are still associated.
+            */
+            auto window_associations{m_native_handle.window_associations};
+            for (const auto& current_association : window_associations) {
+                auto association_iterator{
+                    std::find(
+                        std::begin(m_native_handle.window_associations),
+                        std::end(m_native_handle.window_associations),
+                        current_association
+                    )
+                };
+                if (
+                    association_iterator
+                        != std::end(m_native_handle.window_associations)
+                ) {
+                    impl::update_window(current_association.second);
+                }
             }
         }
     }
-- 
2.43.0


From a927df4b41eb1bbffdf73ad69ae23c9d72232224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:46 +0000
Subject: [PATCH 36/54] fix: forget the native window once it is closed

---
 api/src/cmp/desktop_gui/impl/gtk/gtk_window.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/api/src/cmp/desktop_gui/impl/gtk/gtk_window.cpp b/api/src/cmp/desktop_gui/impl/gtk/gtk_window.cpp
index 17fe5a2..bdd134c 100755
--- a/api/src/cmp/desktop_gui/impl/gtk/gtk_window.cpp
+++ b/api/src/cmp/desktop_gui/impl/gtk/gtk_window.cpp
@@ -293,6 +293,8 @@ forward_close_event_to_window (
     */
     current_association = find_association();
     if (current_association != std::end(window_associations)) {
+        current_association->second->grab_native_handle()
+            .gtk_application_window = NULL;
         window_associations.erase(current_association);
     }
     return FALSE;
@@ -501,6 +503,10 @@ window::hide ()
 void
 window::close ()
 {
+    if (m_native_handle.gtk_application_window == NULL) {
+        return;
+    }
+
     gtk_window_close(GTK_WINDOW(m_native_handle.gtk_application_window));
 } // function -----------------------------------------------------------------
 
-- 
2.43.0


From 18ec5563c1af03cb5c73320eae69c16ac0b7a164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:54 +0000
Subject: [PATCH 37/54] fix: let reads and writes of unseekable I/O resources
 be mixed

---
 api/include/cmp/io/io_resource.hpp | 44 ++++++++++++++++++++++++++++++
 api/src/cmp/io/io_resource.cpp     | 29 ++++++++++++++++++++
 2 files changed, 73 insertions(+)

diff --git a/api/include/cmp/io/io_resource.hpp b/api/include/cmp/io/io_resource.hpp
index 30102fd..79a1385 100644
--- a/api/include/cmp/io/io_resource.hpp
+++ b/api/include/cmp/io/io_resource.hpp
@@ -112,6 +112,50 @@ public:
         io_resource&& other
     )
     noexcept = default;
+
+    // Core -------------------------------------------------------------------
+
+    /**
+        Description:
+            Reads <#parameter>byte_count</#parameter> bytes from <#this/>
+            I/O resource and places them in the provided
+            <#parameter>data</#parameter> array. If there is data in the
+            I/O buffer waiting to be written, it is written first.
+
+        Parameters:
+            data:
+                The array into which the read bytes will be placed.
+            byte_count:
+                The number of bytes to read.
+    */
+    CMP_CONDITIONAL_INLINE
+    std::size_t
+    read (
+        std::byte* data,
+        std::size_t byte_count
+    )
+    override;
+
+    /**
+        Description:
+            Writes <#parameter>byte_count</#parameter> bytes from the
+            <#parameter>data</#parameter> array to <#this/> I/O resource.
+            If there is data in the I/O buffer that was read ahead, the
+            bytes are written without going through the I/O buffer.
+
+        Parameters:
+            data:
+                The array of bytes that will be written.
+            byte_count:
+                The number of bytes to write.
+    */
+    CMP_CONDITIONAL_INLINE
+    std::size_t
+    write (
+        const std::byte* data,
+        std::size_t byte_count
+    )
+    override;
 }; // class -------------------------------------------------------------------
 
 } // namespace ----------------------------------------------------------------
diff --git a/api/src/cmp/io/io_resource.cpp b/api/src/cmp/io/io_resource.cpp
index 8253a84..12392b9 100644
--- a/api/src/cmp/io/io_resource.cpp
+++ b/api/src/cmp/io/io_resource.cpp
@@ -16,4 +16,33 @@ io_resource::io_resource (
 {
 } // function -----------------------------------------------------------------
 
+// Core -----------------------------------------------------------------------
+
+std::size_t
+io_resource::read (
+    std::byte* data,
+    std::size_t byte_count
+) {
+    this->flush();
+    return input_resource::read(data, byte_count);
+} // function -----------------------------------------------------------------
+
+std::size_t
+io_resource::write (
+    const std::byte* data,
+    std::size_t byte_count
+) {
+    if (!m_buffer.is_write_dirty() && !m_buffer.is_read_dirty()) {
+        if (m_buffer.get_position() < m_buffer.get_size()) {
+            /*
+                The buffer holds data that was read ahead and that
+                we have no other place for, so we go around it.
+            */
+            return this->write_raw(data, byte_count);
+        }
+        m_buffer.set_read_dirty(true);
+    }
+    return output_resource::write(data, byte_count);
+} // function -----------------------------------------------------------------
+
 } // namespace ----------------------------------------------------------------
-- 
2.43.0


From 6b18b09d51a6f68e5ca005498bf6c5ba6215bb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:20 +0000
Subject: [PATCH 38/54] fix: format floating-point values whose integral part
 exceeds 64 bits

---
 api/include/cmp/unicode/formatters.hpp | 16 ++++++
 api/src/cmp/unicode/formatters.ipp     | 69 +++++++++++++++++++++++---
 2 files changed, 79 insertions(+), 6 deletions(-)

diff --git a/api/include/cmp/unicode/formatters.hpp b/api/include/cmp/unicode/formatters.hpp
index ebd4756..99fb85d 100644
--- a/api/include/cmp/unicode/formatters.hpp
+++ b/api/include/cmp/unicode/formatters.hpp
@@ -4,8 +4,10 @@
 #ifndef CMP_UNICODE_FORMATTERS_HPP_INCLUDED
 #define CMP_UNICODE_FORMATTERS_HPP_INCLUDED
 
+#include <algorithm>
 #include <cmath>
 #include <limits>
+#include <vector>
 
 #include <cmp/unicode/inclusion_assert.hpp>
 #include <cmp/unicode/algorithms.hpp>
@@ -40,6 +42,20 @@ public:
         Input input,
         const floating_point_format& format
     );
+
+private:
+    // Private Functions ------------------------------------------------------
+
+    template <
+        writable_raii_text_object Output,
+        std::floating_point Input
+    >
+    static
+    Output
+    format_integral_part (
+        Input input,
+        const integer_format& format
+    );
 }; // class -------------------------------------------------------------------
 
 } // namespace ----------------------------------------------------------------
diff --git a/api/src/cmp/unicode/formatters.ipp b/api/src/cmp/unicode/formatters.ipp
index 1c30572..fce1e72 100644
--- a/api/src/cmp/unicode/formatters.ipp
+++ b/api/src/cmp/unicode/formatters.ipp
@@ -94,12 +94,7 @@ number_formatter::format_floating_point (
     ) {
         sign_character = '+';
     }
-    Output output{
-        number_formatter::format_integer<Output>(
-            static_cast<unsigned long long>(std::floor(input)),
-            equivalent_format
-        )
-    };
+    Output output{format_integral_part<Output>(input, equivalent_format)};
     if (sign_character != ' ') {
         prepend_code_point(output, sign_character);
     }
@@ -181,6 +176,68 @@ number_formatter::format_floating_point (
     return output;
 } // function -----------------------------------------------------------------
 
+// Private Functions ----------------------------------------------------------
+
+template <
+    writable_raii_text_object Output,
+    std::floating_point Input
+>
+Output
+number_formatter::format_integral_part (
+    Input input,
+    const integer_format& format
+) {
+    int exponent;
+    Input mantissa{std::frexp(std::floor(input), &exponent)};
+    if (exponent <= std::numeric_limits<unsigned long long>::digits) {
+        return number_formatter::format_integer<Output>(
+            static_cast<unsigned long long>(std::floor(input)),
+            format
+        );
+    }
+    /*
+        The integral part doesn't fit in any integer type, so we
+        convert it 32 bits at a time, starting with the topmost.
+    */
+    const auto radix{format.get_radix()};
+    std::vector<unsigned long long> digits;
+    while (exponent > 0) {
+        const int bit_count{std::min(exponent, 32)};
+        exponent -= bit_count;
+        mantissa = std::ldexp(mantissa, bit_count);
+        auto carry{static_cast<unsigned long long>(std::floor(mantissa))};
+        mantissa -= std::floor(mantissa);
+        for (auto& digit : digits) {
+            carry += digit << bit_count;
+            digit = carry % radix;
+            carry /= radix;
+        }
+        for (; carry != 0; carry /= radix) {
+            digits.push_back(carry % radix);
+        }
+    }
+    Output output;
+    for (auto digits_left{digits.size()}; digits_left != 0; --digits_left) {
+        append_code_point(
+            output,
+            U"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"[digits[digits_left - 1]]
+        );
+        if (digits_left % 3 == 1 && digits_left != 1) {
+            switch (format.get_thousands_separator()) {
+                case thousands_separator::comma:
+                    append_code_point(output, ',');
+                    break;
+                case thousands_separator::period:
+                    append_code_point(output, '.');
+                    break;
+                case thousands_separator::none:
+                    break;
+            }
+        }
+    }
+    return output;
+} // function -----------------------------------------------------------------
+
 } // namespace ----------------------------------------------------------------
 
 // Free Functions -------------------------------------------------------------
-- 
2.43.0


From 7d735130e912b021fd55cc25b630904e5456d871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:46 +0000
Subject: [PATCH 39/54] fix: parse floating-point values whose integral part
 exceeds 64 bits

---
 api/include/cmp/unicode/parsers.hpp | 10 +++++++
 api/src/cmp/unicode/parsers.ipp     | 42 +++++++++++++++++++++++++----
 2 files changed, 47 insertions(+), 5 deletions(-)

diff --git a/api/include/cmp/unicode/parsers.hpp b/api/include/cmp/unicode/parsers.hpp
index 220dfea..0549c69 100644
--- a/api/include/cmp/unicode/parsers.hpp
+++ b/api/include/cmp/unicode/parsers.hpp
@@ -121,6 +121,16 @@ private:
     )
     noexcept;
 
+    template <
+        std::floating_point Output
+    >
+    static
+    Output
+    parse_integral_part (
+        std::u32string_view input,
+        const integer_format& format
+    );
+
     template <
         std::floating_point Output
     >
diff --git a/api/src/cmp/unicode/parsers.ipp b/api/src/cmp/unicode/parsers.ipp
index 321e63e..fd31a4e 100644
--- a/api/src/cmp/unicode/parsers.ipp
+++ b/api/src/cmp/unicode/parsers.ipp
@@ -161,7 +161,7 @@ number_parser::parse_floating_point (
     const auto format_place_count{format.get_radix_place_count()};
     if (radix_character_iterator == u32_input.cend()) {
         const auto output{
-            number_parser::parse_integer<long long>(
+            number_parser::parse_integral_part<Output>(
                 u32_input,
                 equivalent_format
             )
@@ -172,7 +172,7 @@ number_parser::parse_floating_point (
         ) {
             report_wrong_place_limit();
         }
-        return static_cast<Output>(output);
+        return output;
     } else {
         const auto integral_part_start{u32_input.data()};
         const auto integral_part_size{
@@ -183,9 +183,7 @@ number_parser::parse_floating_point (
             static_cast<std::u32string_view::size_type>(integral_part_size)
         };
         Output output{
-            static_cast<Output>(
-                parse_integer<long long>(integral_part, equivalent_format)
-            )
+            parse_integral_part<Output>(integral_part, equivalent_format)
         };
         ++radix_character_iterator;
         if (radix_character_iterator == u32_input.cend()) {
@@ -241,6 +239,40 @@ number_parser::parse_floating_point (
 
 // Private Functions ----------------------------------------------------------
 
+template <
+    std::floating_point Output
+>
+Output
+number_parser::parse_integral_part (
+    std::u32string_view input,
+    const integer_format& format
+) {
+    try {
+        return static_cast<Output>(
+            number_parser::parse_integer<long long>(input, format)
+        );
+    } catch (const parse_failed& failure) {
+        if (failure.get_type() != parse_failed::type::value_out_of_range) {
+            throw;
+        }
+        /*
+            The input is well-formed but doesn't fit in an integer type, so
+            we accumulate its digits in the floating-point type instead.
+        */
+        Output output = 0;
+        for (const auto character : input) {
+            if (is_radix_digit(character, format.get_radix())) {
+                output = output * format.get_radix()
+                    + get_next_digit(character, format.get_radix());
+            }
+        }
+        if (std::isinf(output)) {
+            throw;
+        }
+        return input.front() == U'-' ? -output : output;
+    }
+} // function -----------------------------------------------------------------
+
 template <
     std::floating_point Output
 >
-- 
2.43.0


From 71be567a5ea9ff3c0640c2a847071342cb8ba4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:52 +0000
Subject: [PATCH 40/54] fix: transfer the ownership of the handle when a file
 is moved on Windows

---
 .../cmp/io/impl/windows/windows_file.hpp      |  6 ++-
 api/src/cmp/io/impl/windows/windows_file.cpp  | 37 ++++++++++++++++++-
 2 files changed, 39 insertions(+), 4 deletions(-)

diff --git a/api/include/cmp/io/impl/windows/windows_file.hpp b/api/include/cmp/io/impl/windows/windows_file.hpp
index cbd1019..a60219d 100644
--- a/api/include/cmp/io/impl/windows/windows_file.hpp
+++ b/api/include/cmp/io/impl/windows/windows_file.hpp
@@ -6,6 +6,8 @@
 
 #include <Windows.h>
 
+#include <utility>
+
 #include <cmp/io/inclusion_assert.hpp>
 #include <cmp/io/file.hpp>
 
@@ -52,14 +54,14 @@ public:
     file (
         file&& other
     )
-    noexcept = default;
+    noexcept;
 
     CMP_CONDITIONAL_INLINE
     file&
     operator = (
         file&& other
     )
-    noexcept = default;
+    noexcept;
 
     // Accessors --------------------------------------------------------------
 
diff --git a/api/src/cmp/io/impl/windows/windows_file.cpp b/api/src/cmp/io/impl/windows/windows_file.cpp
index 54fdf24..9b071fc 100644
--- a/api/src/cmp/io/impl/windows/windows_file.cpp
+++ b/api/src/cmp/io/impl/windows/windows_file.cpp
@@ -35,6 +35,37 @@ file::~file ()
     close();
 } // function -----------------------------------------------------------------
 
+// Move Operations ------------------------------------------------------------
+
+file::file (
+    file&& other
+)
+noexcept
+    : transfer_resource{std::move(other)}
+    , seekable_transfer_resource<std::int64_t>{std::move(other)}
+    , seekable_input_resource<std::int64_t>{std::move(other)}
+    , seekable_output_resource<std::int64_t>{std::move(other)}
+    , basic_file{std::move(other)}
+    , m_handle{std::exchange(other.m_handle, INVALID_HANDLE_VALUE)}
+{
+    other.m_last_fill_amount = 0;
+} // function -----------------------------------------------------------------
+
+file&
+file::operator = (
+    file&& other
+)
+noexcept
+{
+    if (this != &other) {
+        close();
+        basic_file::operator = (std::move(other));
+        m_handle = std::exchange(other.m_handle, INVALID_HANDLE_VALUE);
+        other.m_last_fill_amount = 0;
+    }
+    return *this;
+} // function -----------------------------------------------------------------
+
 // Accessors ------------------------------------------------------------------
 
 bool
@@ -118,8 +149,10 @@ noexcept
 {
     this->flush();
     discard_buffer();
-    CloseHandle(m_handle);
-    m_handle = INVALID_HANDLE_VALUE;
+    if (is_open()) {
+        CloseHandle(m_handle);
+        m_handle = INVALID_HANDLE_VALUE;
+    }
 } // function -----------------------------------------------------------------
 
 // Protected Functions --------------------------------------------------------
-- 
2.43.0


From 066fd9548e5e2c7c4c7419553611f9ddf59870e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:52 +0000
Subject: [PATCH 41/54] fix: seek to the beginning when a position is negative
 on Windows

---
 api/src/cmp/io/impl/windows/windows_file.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/api/src/cmp/io/impl/windows/windows_file.cpp b/api/src/cmp/io/impl/windows/windows_file.cpp
index 9b071fc..26ec4ad 100644
--- a/api/src/cmp/io/impl/windows/windows_file.cpp
+++ b/api/src/cmp/io/impl/windows/windows_file.cpp
@@ -164,9 +164,6 @@ file::set_position_raw (
 )
 noexcept
 {
-    LARGE_INTEGER distance_to_move;
-    distance_to_move.QuadPart = new_position;
-
     int windows_position_reference;
     switch (pr) {
         case position_reference::begin:
@@ -183,6 +180,9 @@ noexcept
             break;
     }
 
+    LARGE_INTEGER distance_to_move;
+    distance_to_move.QuadPart = new_position;
+
     SetFilePointerEx(
         m_handle,
         distance_to_move,
-- 
2.43.0


From 06f6a1bd28f39e46ab6aac2dfc5b303c50144fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:52 +0000
Subject: [PATCH 42/54] fix: transfer every block of large reads and writes on
 Windows

---
 api/src/cmp/io/impl/windows/windows_file.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/api/src/cmp/io/impl/windows/windows_file.cpp b/api/src/cmp/io/impl/windows/windows_file.cpp
index 26ec4ad..d7579ae 100644
--- a/api/src/cmp/io/impl/windows/windows_file.cpp
+++ b/api/src/cmp/io/impl/windows/windows_file.cpp
@@ -228,7 +228,10 @@ noexcept
                 native_byte_count = dword_max;
                 byte_count -= dword_max;
             }
-            native_bytes_read = read_block(data, native_byte_count);
+            native_bytes_read = read_block(
+                data + bytes_read,
+                native_byte_count
+            );
             bytes_read += native_bytes_read;
             if (native_bytes_read != native_byte_count) {
                 break;
@@ -275,7 +278,10 @@ noexcept
                 native_byte_count = dword_max;
                 byte_count -= dword_max;
             }
-            native_bytes_written = write_block(data, native_byte_count);
+            native_bytes_written = write_block(
+                data + bytes_written,
+                native_byte_count
+            );
             bytes_written += native_bytes_written;
             if (native_bytes_written != native_byte_count) {
                 break;
-- 
2.43.0


From e56713b67292fdd4deaf985aaead4ded489f6a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:51 +0000
Subject: [PATCH 43/54] fix: report the end of input when the console cannot be
 read on Windows

---
 api/src/cmp/io/impl/windows/windows_uin.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/api/src/cmp/io/impl/windows/windows_uin.cpp b/api/src/cmp/io/impl/windows/windows_uin.cpp
index 4555e1b..e1efaf0 100644
--- a/api/src/cmp/io/impl/windows/windows_uin.cpp
+++ b/api/src/cmp/io/impl/windows/windows_uin.cpp
@@ -37,7 +37,7 @@ stdin_resource::read_raw (
     std::size_t byte_count,
     read_request rr
 ) {
-    DWORD chars_read;
+    DWORD chars_read{0};
     ReadConsoleW(
         m_handle,
         static_cast<LPVOID>(data),
-- 
2.43.0


From 3cb960272d534ee0142e0d1f53e2966a7e4e2ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:12 +0000
Subject: [PATCH 44/54] fix: transfer blocks of the standard streams that
 exceed a DWORD on Windows

---
 .../cmp/io/impl/windows/windows_uin.hpp       |  3 ++
 .../cmp/io/impl/windows/windows_uout.hpp      |  3 ++
 api/src/cmp/io/impl/windows/windows_uin.cpp   |  5 ++-
 api/src/cmp/io/impl/windows/windows_uout.cpp  | 31 +++++++++++++------
 4 files changed, 32 insertions(+), 10 deletions(-)

diff --git a/api/include/cmp/io/impl/windows/windows_uin.hpp b/api/include/cmp/io/impl/windows/windows_uin.hpp
index 7fdcae5..41b8a62 100644
--- a/api/include/cmp/io/impl/windows/windows_uin.hpp
+++ b/api/include/cmp/io/impl/windows/windows_uin.hpp
@@ -6,6 +6,9 @@
 
 #include <Windows.h>
 
+#include <algorithm>
+#include <limits>
+
 #include <cmp/io/inclusion_assert.hpp>
 #include <cmp/core/platform.hpp>
 #include <cmp/io/impl/windows/windows_uout.hpp>
diff --git a/api/include/cmp/io/impl/windows/windows_uout.hpp b/api/include/cmp/io/impl/windows/windows_uout.hpp
index 43a28e2..2e27080 100644
--- a/api/include/cmp/io/impl/windows/windows_uout.hpp
+++ b/api/include/cmp/io/impl/windows/windows_uout.hpp
@@ -6,6 +6,9 @@
 
 #include <Windows.h>
 
+#include <algorithm>
+#include <limits>
+
 #include <cmp/io/inclusion_assert.hpp>
 #include <cmp/core/platform.hpp>
 #include <cmp/io/output_resource.hpp>
diff --git a/api/src/cmp/io/impl/windows/windows_uin.cpp b/api/src/cmp/io/impl/windows/windows_uin.cpp
index e1efaf0..a76a556 100644
--- a/api/src/cmp/io/impl/windows/windows_uin.cpp
+++ b/api/src/cmp/io/impl/windows/windows_uin.cpp
@@ -37,11 +37,14 @@ stdin_resource::read_raw (
     std::size_t byte_count,
     read_request rr
 ) {
+    const DWORD dword_max{(std::numeric_limits<DWORD>::max)()};
     DWORD chars_read{0};
     ReadConsoleW(
         m_handle,
         static_cast<LPVOID>(data),
-        static_cast<DWORD>(byte_count / sizeof (WCHAR)),
+        static_cast<DWORD>(
+            (std::min<std::size_t>)(byte_count / sizeof (WCHAR), dword_max)
+        ),
         &chars_read,
         nullptr
     );
diff --git a/api/src/cmp/io/impl/windows/windows_uout.cpp b/api/src/cmp/io/impl/windows/windows_uout.cpp
index 9d89a45..497d68d 100644
--- a/api/src/cmp/io/impl/windows/windows_uout.cpp
+++ b/api/src/cmp/io/impl/windows/windows_uout.cpp
@@ -37,15 +37,28 @@ stdout_resource::write_raw (
     const std::byte* data,
     std::size_t byte_count
 ) {
-    DWORD bytes_written{0};
-    WriteFile(
-        m_handle,
-        static_cast<LPCVOID>(data),
-        static_cast<DWORD>(byte_count),
-        &bytes_written,
-        nullptr
-    );
-    return bytes_written;
+    const DWORD dword_max{(std::numeric_limits<DWORD>::max)()};
+    std::size_t bytes_written_total{0};
+    while (bytes_written_total != byte_count) {
+        DWORD bytes_written{0};
+        WriteFile(
+            m_handle,
+            static_cast<LPCVOID>(data + bytes_written_total),
+            static_cast<DWORD>(
+                (std::min<std::size_t>)(
+                    byte_count - bytes_written_total,
+                    dword_max
+                )
+            ),
+            &bytes_written,
+            nullptr
+        );
+        if (bytes_written == 0) {
+            break;
+        }
+        bytes_written_total += bytes_written;
+    }
+    return bytes_written_total;
 } // function -----------------------------------------------------------------
 
 #if CMP_CONFIG_HEADER_ONLY == false
-- 
2.43.0


From 120b305f3416e9ba3b20f575a9edc10d300cda7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:50 +0000
Subject: [PATCH 45/54] fix: survive windows being opened or closed by a close
 event handler on Windows

---
 .../impl/windows/windows_window.cpp           | 44 +++++++++++++------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/api/src/cmp/desktop_gui/impl/windows/windows_window.cpp b/api/src/cmp/desktop_gui/impl/windows/windows_window.cpp
index 95ccc35..ec5a410 100644
--- a/api/src/cmp/desktop_gui/impl/windows/windows_window.cpp
+++ b/api/src/cmp/desktop_gui/impl/windows/windows_window.cpp
@@ -1,6 +1,8 @@
 // Copyright (C) 2023 Daniel T. McGinnis
 // SPDX-License-Identifier: BSL-1.0
 
+#include <algorithm>
+
 #include <cmp/desktop_gui/impl/windows/windows_window.hpp>
 
 namespace cmp {
@@ -223,22 +225,36 @@ forward_close_event_to_window (
     auto& window_associations{
         dgui_app()->grab_native_handle().window_associations
     };
-    for (
-        auto current_association{std::begin(window_associations)};
-        current_association != std::end(window_associations);
-        ++current_association
-    ) {
-        if (current_association->first == window_handle) {
-            close_event ev{true};
-            current_association->second->handle_close_event(ev);
-            if (ev.should_close()) {
-                window_associations.erase(current_association);
-                return true;
-            } else {
-                return false;
-            }
+    auto find_association{
+        [&window_associations, window_handle] () {
+            return std::find_if(
+                std::begin(window_associations),
+                std::end(window_associations),
+                [window_handle] (const auto& element) {
+                    return element.first == window_handle;
+                }
+            );
         }
+    };
+    auto current_association{find_association()};
+    if (current_association == std::end(window_associations)) {
+        return false;
     }
+    close_event ev{true};
+    current_association->second->handle_close_event(ev);
+    if (!ev.should_close()) {
+        return false;
+    }
+    /*
+        The event handler may have opened or closed
+        windows, so we need to find the association again.
+    */
+    current_association = find_association();
+    if (current_association == std::end(window_associations)) {
+        return false;
+    }
+    window_associations.erase(current_association);
+    return true;
 } // function -----------------------------------------------------------------
 
 void
-- 
2.43.0


From 91d6867742e1f8ca9889ad3094970eea46ac05fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:56 +0000
Subject: [PATCH 46/54] fix: forget the native window once it is closed on
 Windows

---
 api/src/cmp/desktop_gui/impl/windows/windows_window.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/api/src/cmp/desktop_gui/impl/windows/windows_window.cpp b/api/src/cmp/desktop_gui/impl/windows/windows_window.cpp
index ec5a410..be49ebf 100644
--- a/api/src/cmp/desktop_gui/impl/windows/windows_window.cpp
+++ b/api/src/cmp/desktop_gui/impl/windows/windows_window.cpp
@@ -253,6 +253,7 @@ forward_close_event_to_window (
     if (current_association == std::end(window_associations)) {
         return false;
     }
+    current_association->second->grab_native_handle().window_handle = NULL;
     window_associations.erase(current_association);
     return true;
 } // function -----------------------------------------------------------------
-- 
2.43.0


From a66f879bb25e2729099da8fa1c4c06eac14252ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:07 +0000
Subject: [PATCH 47/54] fix: survive windows being opened or closed while
 windows are updated on Windows

---
 .../windows_desktop_gui_application.cpp       | 27 +++++++++++++++----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/api/src/cmp/desktop_gui/impl/windows/windows_desktop_gui_application.cpp b/api/src/cmp/desktop_gui/impl/windows/windows_desktop_gui_application.cpp
index 66ab0e2..3fd541d 100644
--- a/api/src/cmp/desktop_gui/impl/windows/windows_desktop_gui_application.cpp
+++ b/api/src/cmp/desktop_gui/impl/windows/windows_desktop_gui_application.cpp
@@ -1,6 +1,8 @@
 // Copyright (C) 2023 Daniel T. McGinnis
 // SPDX-License-Identifier: BSL-1.0
 
+#include <algorithm>
+
 #include <cmp/desktop_gui/impl/windows/windows_desktop_gui_application.hpp>
 
 namespace cmp {
@@ -74,11 +76,26 @@ desktop_gui_application::run ()
             TranslateMessage(&message);
             DispatchMessageW(&message);
         } else {
-            for (
-                auto& current_association
-                    : m_native_handle.window_associations
-            ) {
-                impl::update_window(current_association.second);
+            /*
+                Updating a window may open, close or move windows, so
+                we go through a copy of the associations and only
+                update the windows that are still associated.
+            */
+            auto window_associations{m_native_handle.window_associations};
+            for (const auto& current_association : window_associations) {
+                auto association_iterator{
+                    std::find(
+                        std::begin(m_native_handle.window_associations),
+                        std::end(m_native_handle.window_associations),
+                        current_association
+                    )
+                };
+                if (
+                    association_iterator
+                        != std::end(m_native_handle.window_associations)
+                ) {
+                    impl::update_window(current_association.second);
+                }
             }
         }
     }
-- 
2.43.0


From 4cd95ca9d136d5a62ae2150930a0a05ecdfce2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:48 +0000
Subject: [PATCH 48/54] fix: survive windows being opened or closed by a close
 event handler on macOS

---
 .../desktop_gui/impl/macos/macos_window.mm    | 44 +++++++++++++------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/api/src/cmp/desktop_gui/impl/macos/macos_window.mm b/api/src/cmp/desktop_gui/impl/macos/macos_window.mm
index 51f11cb..44328e5 100755
--- a/api/src/cmp/desktop_gui/impl/macos/macos_window.mm
+++ b/api/src/cmp/desktop_gui/impl/macos/macos_window.mm
@@ -1,6 +1,8 @@
 // Copyright (C) 2023 Daniel T. McGinnis
 // SPDX-License-Identifier: BSL-1.0
 
+#include <algorithm>
+
 #include <AppKit/NSWindow.h>
 
 #include <cmp/desktop_gui/impl/macos/macos_window.hpp>
@@ -244,22 +246,36 @@ forward_close_event_to_window (
     auto& window_associations{
         dgui_app()->grab_native_handle().window_associations
     };
-    for (
-        auto current_association{std::begin(window_associations)};
-        current_association != std::end(window_associations);
-        ++current_association
-    ) {
-        if (current_association->first == cmp_window_ptr) {
-            close_event ev{true};
-            current_association->second->handle_close_event(ev);
-            if (ev.should_close()) {
-                window_associations.erase(current_association);
-                return YES;
-            } else {
-                return NO;
-            }
+    auto find_association{
+        [&window_associations, cmp_window_ptr] () {
+            return std::find_if(
+                std::begin(window_associations),
+                std::end(window_associations),
+                [cmp_window_ptr] (const auto& element) {
+                    return element.first == cmp_window_ptr;
+                }
+            );
         }
+    };
+    auto current_association{find_association()};
+    if (current_association == std::end(window_associations)) {
+        return NO;
+    }
+    close_event ev{true};
+    current_association->second->handle_close_event(ev);
+    if (!ev.should_close()) {
+        return NO;
+    }
+    /*
+        The event handler may have opened or closed
+        windows, so we need to find the association again.
+    */
+    current_association = find_association();
+    if (current_association == std::end(window_associations)) {
+        return NO;
     }
+    window_associations.erase(current_association);
+    return YES;
 } // function -----------------------------------------------------------------
 
 } // namespace ----------------------------------------------------------------
-- 
2.43.0


From 8050f23b617c40789c163a7d956b326bf4a6b15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:48 +0000
Subject: [PATCH 49/54] fix: forget the native window once it is closed on
 macOS

---
 api/src/cmp/desktop_gui/impl/macos/macos_window.mm | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/api/src/cmp/desktop_gui/impl/macos/macos_window.mm b/api/src/cmp/desktop_gui/impl/macos/macos_window.mm
index 44328e5..cced40f 100755
--- a/api/src/cmp/desktop_gui/impl/macos/macos_window.mm
+++ b/api/src/cmp/desktop_gui/impl/macos/macos_window.mm
@@ -274,6 +274,8 @@ forward_close_event_to_window (
     if (current_association == std::end(window_associations)) {
         return NO;
     }
+    current_association->second->grab_native_handle().cmp_window_handle
+        = nullptr;
     window_associations.erase(current_association);
     return YES;
 } // function -----------------------------------------------------------------
-- 
2.43.0


From 0d5fcd05d30dcd7fcbb17b0c6a2da9862d1e31f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:12 +0000
Subject: [PATCH 50/54] fix: survive windows being opened or closed while
 windows are updated on macOS

---
 .../macos/macos_desktop_gui_application.mm    | 27 +++++++++++++++----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/api/src/cmp/desktop_gui/impl/macos/macos_desktop_gui_application.mm b/api/src/cmp/desktop_gui/impl/macos/macos_desktop_gui_application.mm
index 9acbdfd..3f5b96e 100755
--- a/api/src/cmp/desktop_gui/impl/macos/macos_desktop_gui_application.mm
+++ b/api/src/cmp/desktop_gui/impl/macos/macos_desktop_gui_application.mm
@@ -1,6 +1,8 @@
 // Copyright (C) 2023 Daniel T. McGinnis
 // SPDX-License-Identifier: BSL-1.0
 
+#include <algorithm>
+
 #include <AppKit/NSApplication.h>
 
 #include <cmp/desktop_gui/impl/macos/macos_desktop_gui_application.hpp>
@@ -127,11 +129,26 @@ desktop_gui_application::run ()
                         event
             ];
         } else {
-            for (
-                auto& current_association
-                    : m_native_handle.window_associations
-            ) {
-                impl::update_window(current_association.second);
+            /*
+                Updating a window may open, close or move windows, so
+                we go through a copy of the associations and only
+                update the windows that are still associated.
+            */
+            auto window_associations{m_native_handle.window_associations};
+            for (const auto& current_association : window_associations) {
+                auto association_iterator{
+                    std::find(
+                        std::begin(m_native_handle.window_associations),
+                        std::end(m_native_handle.window_associations),
+                        current_association
+                    )
+                };
+                if (
+                    association_iterator
+                        != std::end(m_native_handle.window_associations)
+                ) {
+                    impl::update_window(current_association.second);
+                }
             }
         }
     }
-- 
2.43.0


From 8eefc72b05506e17c6bb3ba02a5170d99bbb590e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:20 +0000
Subject: [PATCH 51/54] fix: values too large to be scaled compare equal only
 to themselves

---
 api/src/cmp/core/general.ipp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/api/src/cmp/core/general.ipp b/api/src/cmp/core/general.ipp
index 9f3408c..af928de 100644
--- a/api/src/cmp/core/general.ipp
+++ b/api/src/cmp/core/general.ipp
@@ -20,7 +20,18 @@ cmp_equal (
 noexcept
 {
     double power{std::pow(10, relevant_decimal_places)};
-    return std::trunc(value1 * power) == std::trunc(value2 * power);
+    auto scaled_value1{value1 * power};
+    auto scaled_value2{value2 * power};
+
+    /*
+        A value that is too large to be scaled has no decimal
+        places, so only the same value is equal to it.
+    */
+    if (!std::isfinite(scaled_value1) || !std::isfinite(scaled_value2)) {
+        return value1 == value2;
+    }
+
+    return std::trunc(scaled_value1) == std::trunc(scaled_value2);
 } // function -----------------------------------------------------------------
 
 template <
-- 
2.43.0


From 34ea4076ed84ce9d509cb4665bf20dd2286ec0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:46 +0000
Subject: [PATCH 52/54] fix: include what the core type traits use

---
 api/include/cmp/core/type_traits.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/api/include/cmp/core/type_traits.hpp b/api/include/cmp/core/type_traits.hpp
index 1462e75..6c7401f 100644
--- a/api/include/cmp/core/type_traits.hpp
+++ b/api/include/cmp/core/type_traits.hpp
@@ -4,6 +4,10 @@
 #ifndef CMP_CORE_TYPE_TRAITS_HPP_INCLUDED
 #define CMP_CORE_TYPE_TRAITS_HPP_INCLUDED
 
+#include <iterator>
+#include <type_traits>
+#include <utility>
+
 namespace cmp {
 
 namespace impl {
-- 
2.43.0


From 264b002d2cbec7bb1f62dc2c6d130fd8398c9bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:40 +0000
Subject: [PATCH 53/54] fix: insert a code point completely or not at all

The units of a code point were inserted one by one, so that running out of
memory in between left an incomplete encoding in the string.
---
 api/src/cmp/unicode/algorithms.ipp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/api/src/cmp/unicode/algorithms.ipp b/api/src/cmp/unicode/algorithms.ipp
index c31de1a..69693a1 100644
--- a/api/src/cmp/unicode/algorithms.ipp
+++ b/api/src/cmp/unicode/algorithms.ipp
@@ -70,6 +70,11 @@ insert_code_point (
         if (!is_code_point_valid(code_point)) {
             throw invalid_code_point{};
         }
+        // The units of a code point are inserted one by one: there must be room
+        // for all of them, lest an incomplete encoding is left in the string.
+        if (!fits_in_7_bits(code_point) && s.capacity() - s.size() < 4) {
+            s.reserve(s.size() + s.size() / 2 + 4);
+        }
         if (fits_in_7_bits(code_point)) {
             s.insert(index, 1, static_cast<char8_t>(code_point));
         } else if (code_point <= 0b0111'1111'1111) {
@@ -153,6 +158,9 @@ insert_code_point (
             s.insert(index, 1, static_cast<char16_t>(code_point));
         } else {
             code_point -= 0x10000;
+            if (s.capacity() - s.size() < 2) {
+                s.reserve(s.size() + s.size() / 2 + 2);
+            }
             s.insert(
                 index++,
                 1,
-- 
2.43.0


From 5dd3d7ba24fc7d339105a0e7be3675fa0afc65d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:18 +0000
Subject: [PATCH 54/54] fix: tell digits apart independently of the locale

The letters that are digits of a radix were determined with std::tolower, so
that in a Turkish locale I was no digit and another letter was taken for one.
---
 api/src/cmp/unicode/examiners.ipp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/api/src/cmp/unicode/examiners.ipp b/api/src/cmp/unicode/examiners.ipp
index 4727e77..e765ffc 100644
--- a/api/src/cmp/unicode/examiners.ipp
+++ b/api/src/cmp/unicode/examiners.ipp
@@ -141,11 +141,11 @@ noexcept
     if (radix < 10) {
         return character >= '0' && character < ('0' + radix);
     } else {
-        char32_t lowercase_character{
-            static_cast<char32_t>(
-                std::tolower(static_cast<int>(character))
-            )
-        };
+        // Which letters are digits must not depend on the current locale.
+        char32_t lowercase_character{character};
+        if (character >= 'A' && character <= 'Z') {
+            lowercase_character += 'a' - 'A';
+        }
         return (character >= '0' && character <= '9')
             || (
                 lowercase_character >= 'a'
-- 
2.43.0

