From eea8934f5230c75914c5ce6394022b6b8f1244ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:23 +0000
Subject: [PATCH 01/27] fix: reject trailing content that starts with '/' after
 the root value

skip_whitespace() returns false both at the end of the text and in front of
something that is not a (complete) comment, so '{}/junk' and '{} /* unterminated'
were accepted.
---
 include/parser/parser_impl.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/parser/parser_impl.hpp b/include/parser/parser_impl.hpp
index 94b601e..98810c0 100644
--- a/include/parser/parser_impl.hpp
+++ b/include/parser/parser_impl.hpp
@@ -38,7 +38,8 @@ inline std::optional<value> parser<accept_jsonc, parsing_t, accel_traits>::parse
     }
 
     // After the parsing is complete, there should be no more content other than spaces behind
-    if (skip_whitespace()) {
+    // (a '\0' is treated as the end of the text, the same as in skip_whitespace)
+    if (skip_whitespace() || (_cur != _end && *_cur != '\0')) {
         return std::nullopt;
     }
 
@@ -525,7 +526,9 @@ inline bool parser<accept_jsonc, parsing_t, accel_traits>::skip_comment() noexce
         return false;
     }
 
+    const auto comment_beg = _cur;
     if (++_cur == _end) {
+        _cur = comment_beg;
         return false;
     }
 
@@ -544,6 +547,7 @@ inline bool parser<accept_jsonc, parsing_t, accel_traits>::skip_comment() noexce
         t = comment_type::block;
         break;
     default:
+        _cur = comment_beg;
         return false;
     }
 
@@ -566,7 +570,12 @@ inline bool parser<accept_jsonc, parsing_t, accel_traits>::skip_comment() noexce
     }
 
     // _cur == _end
-    return t == comment_type::line;
+    if (t != comment_type::line) {
+        // unterminated block comment
+        _cur = comment_beg;
+        return false;
+    }
+    return true;
 }
 
 template <bool accept_jsonc, typename parsing_t, typename accel_traits>
-- 
2.43.0


From e7b1a58e81638a40a4f3464adea8f61ed59b582e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:23 +0000
Subject: [PATCH 02/27] fix: do not accept plain text between the halves of a
 surrogate pair

The accelerated skip ran before the check of pair_high, so whether
"\ud83d<text>\udca9" was accepted depended on the instruction set.
---
 include/parser/parser_impl.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/parser/parser_impl.hpp b/include/parser/parser_impl.hpp
index 98810c0..98891a4 100644
--- a/include/parser/parser_impl.hpp
+++ b/include/parser/parser_impl.hpp
@@ -317,7 +317,8 @@ inline std::optional<std::string> parser<accept_jsonc, parsing_t, accel_traits>:
 
     while (_cur != _end) {
         if constexpr (sizeof(*_cur) == 1 && accel_traits::available) {
-            if (!skip_string_literal_with_accel()) {
+            // nothing may be skipped between the two halves of a surrogate pair
+            if (!pair_high && !skip_string_literal_with_accel()) {
                 return std::nullopt;
             }
         }
-- 
2.43.0


From d784b94a68b197c3521fb2593e86926f58c5f929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:24 +0000
Subject: [PATCH 03/27] fix: reject a high surrogate followed by a \u escape
 that is no low surrogate

"\ud83d\u0041\udca9" was decoded as 'A' and U+1F4A9.
---
 include/parser/parser_impl.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/parser/parser_impl.hpp b/include/parser/parser_impl.hpp
index 98891a4..15f1469 100644
--- a/include/parser/parser_impl.hpp
+++ b/include/parser/parser_impl.hpp
@@ -439,6 +439,10 @@ inline bool parser<accept_jsonc, parsing_t, accel_traits>::skip_unicode_escape(u
         ext_cp = (((pair_high - 0xD800) << 10) | (cp - 0xDC00)) + 0x10000;
         pair_high = 0;
     }
+    else if (pair_high) {
+        // a high surrogate must be followed by a low surrogate
+        return false;
+    }
 
     // utf8
     if (ext_cp <= 0x7F) {
-- 
2.43.0


From 37279c9472ce3370f6677970cf5f29bbb03fa4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:45 +0000
Subject: [PATCH 04/27] fix: do not use packed loads on containers that are not
 contiguous

Parsing a std::deque<char> read past the end of its blocks.
---
 include/common/utils.hpp       | 11 +++++++++++
 include/parser/parser_impl.hpp |  2 +-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/common/utils.hpp b/include/common/utils.hpp
index 6a3eeeb..699ead9 100644
--- a/include/common/utils.hpp
+++ b/include/common/utils.hpp
@@ -137,6 +137,17 @@ struct has_reserve<T, std::void_t<decltype(std::declval<T&>().reserve(std::declv
 {
 };
 
+// whether the elements of T lie in one contiguous block of memory
+template <typename T, typename = void>
+struct has_data : std::false_type
+{
+};
+
+template <typename T>
+struct has_data<T, std::void_t<decltype(std::declval<const T&>().data())>> : std::true_type
+{
+};
+
 template <typename T>
 constexpr bool is_json_value = std::is_same_v<std::decay_t<T>, value> || std::is_same_v<std::decay_t<T>, array>
     || std::is_same_v<std::decay_t<T>, object>;
diff --git a/include/parser/parser_impl.hpp b/include/parser/parser_impl.hpp
index 15f1469..8ab5d08 100644
--- a/include/parser/parser_impl.hpp
+++ b/include/parser/parser_impl.hpp
@@ -316,7 +316,7 @@ inline std::optional<std::string> parser<accept_jsonc, parsing_t, accel_traits>:
     uint16_t pair_high = 0;
 
     while (_cur != _end) {
-        if constexpr (sizeof(*_cur) == 1 && accel_traits::available) {
+        if constexpr (sizeof(*_cur) == 1 && accel_traits::available && _utils::has_data<parsing_t>::value) {
             // nothing may be skipped between the two halves of a surrogate pair
             if (!pair_high && !skip_string_literal_with_accel()) {
                 return std::nullopt;
-- 
2.43.0


From 843cc9a18d04e29db69bdfc1bfd4714dd6445a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:57 +0000
Subject: [PATCH 05/27] fix: return nullopt instead of throwing for streams
 that cannot be read

parse(istream) on a failed or unseekable stream, and open() on a directory,
threw std::length_error (or bad_alloc) from the size tellg() reports there.
---
 include/parser/parser_impl.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/parser/parser_impl.hpp b/include/parser/parser_impl.hpp
index 8ab5d08..df533ca 100644
--- a/include/parser/parser_impl.hpp
+++ b/include/parser/parser_impl.hpp
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <limits>
+
 #include "parser.hpp"
 
 namespace json
@@ -624,12 +626,20 @@ inline std::optional<value> parse(const char* content)
 inline std::optional<value> parse(std::istream& istream, bool check_bom, bool with_commets)
 {
     istream.seekg(0, std::ios::end);
-    auto file_size = istream.tellg();
+    const std::streamoff file_size = istream.tellg();
 
     istream.seekg(0, std::ios::beg);
-    std::string str(file_size, '\0');
+    // not readable, not seekable, or not a regular file
+    if (!istream || file_size < 0 || file_size == std::numeric_limits<std::streamoff>::max()) {
+        return std::nullopt;
+    }
+    std::string str(static_cast<size_t>(file_size), '\0');
 
     istream.read(str.data(), file_size);
+    if (istream.bad()) {
+        return std::nullopt;
+    }
+    str.resize(static_cast<size_t>(istream.gcount()));
 
     if (check_bom) {
         using uchar = unsigned char;
-- 
2.43.0


From 9edf83e85b8bca524b2f1671e95eecebd5d06f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:34 +0000
Subject: [PATCH 06/27] fix: do not move out of the pointee when converting a
 nullable wrapper

value(wrapper_t&&) is a forwarding reference, so it also bound non-const
lvalues and emptied the caller's optional; a shared_ptr's pointee may have
other owners, so it must not be moved from either.
---
 include/common/utils.hpp | 16 ++++++++++++++++
 include/common/value.hpp |  2 +-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/include/common/utils.hpp b/include/common/utils.hpp
index 699ead9..4ce6eaf 100644
--- a/include/common/utils.hpp
+++ b/include/common/utils.hpp
@@ -86,6 +86,22 @@ constexpr bool is_nullable<
 template <typename T, typename = std::enable_if_t<is_nullable<T>>>
 using nullable_value_t = std::decay_t<decltype(*std::declval<T>())>;
 
+// the pointee of a nullable wrapper, as an rvalue only if nobody else can still use it:
+// not of an lvalue, and not of an rvalue that may share its pointee (std::shared_ptr)
+template <typename wrapper_t>
+constexpr decltype(auto) forward_pointee(wrapper_t&& wrapper)
+{
+    if constexpr (std::is_lvalue_reference_v<wrapper_t>) {
+        return *wrapper;
+    }
+    else if constexpr (std::is_copy_constructible_v<wrapper_t>) {
+        return *std::move(wrapper);
+    }
+    else {
+        return std::move(*wrapper);
+    }
+}
+
 template <typename T>
 constexpr bool is_variant = false;
 template <typename... args_t>
diff --git a/include/common/value.hpp b/include/common/value.hpp
index 2e304ba..bfb2222 100644
--- a/include/common/value.hpp
+++ b/include/common/value.hpp
@@ -143,7 +143,7 @@ public:
                 && !_utils::has_to_json_in_member<wrapper_t>::value && !_utils::has_to_json_in_templ_spec<wrapper_t>::value,
             bool> = true>
     value(wrapper_t&& wrapper)
-        : value(wrapper ? value(std::move(*wrapper)) : value())
+        : value(wrapper ? value(_utils::forward_pointee(std::forward<wrapper_t>(wrapper))) : value())
     {
     }
 
-- 
2.43.0


From 102c5e34bc9e0f398bf3fb6d38b4f387fe97278f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:08 +0000
Subject: [PATCH 07/27] fix: as<std::optional<T>>() of null and
 as<std::tuple<T>>() threw although is<>() held

A static_cast to these prefers their converting constructor, which converts
the value to T, over the conversion operator of value.
---
 include/common/utils.hpp      |  6 ++++++
 include/common/value.hpp      | 12 ++++++------
 include/common/value_impl.hpp | 16 ++++++++++++++++
 3 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/include/common/utils.hpp b/include/common/utils.hpp
index 4ce6eaf..587fbe4 100644
--- a/include/common/utils.hpp
+++ b/include/common/utils.hpp
@@ -6,6 +6,7 @@
 #include <cstddef>
 #include <iomanip>
 #include <limits>
+#include <optional>
 #include <sstream>
 #include <string>
 #include <string_view>
@@ -102,6 +103,11 @@ constexpr decltype(auto) forward_pointee(wrapper_t&& wrapper)
     }
 }
 
+template <typename T>
+constexpr bool is_optional = false;
+template <typename value_t>
+constexpr bool is_optional<std::optional<value_t>> = true;
+
 template <typename T>
 constexpr bool is_variant = false;
 template <typename... args_t>
diff --git a/include/common/value.hpp b/include/common/value.hpp
index bfb2222..e42e707 100644
--- a/include/common/value.hpp
+++ b/include/common/value.hpp
@@ -540,7 +540,7 @@ public:
         if (is_null()) {
             return std::nullopt;
         }
-        return std::optional<T>(static_cast<T>(*this));
+        return std::optional<T>(as<T>());
     }
 
     template <typename T>
@@ -549,7 +549,7 @@ public:
         if (is_null()) {
             return std::nullopt;
         }
-        return std::optional<T>(static_cast<T>(std::move(*this)));
+        return std::optional<T>(std::move(*this).template as<T>());
     }
 
     template <typename T>
@@ -558,7 +558,7 @@ public:
         if (is_null()) {
             return nullptr;
         }
-        return std::make_shared<T>(static_cast<T>(*this));
+        return std::make_shared<T>(as<T>());
     }
 
     template <typename T>
@@ -567,7 +567,7 @@ public:
         if (is_null()) {
             return nullptr;
         }
-        return std::make_shared<T>(static_cast<T>(std::move(*this)));
+        return std::make_shared<T>(std::move(*this).template as<T>());
     }
 
     template <typename T>
@@ -576,7 +576,7 @@ public:
         if (is_null()) {
             return nullptr;
         }
-        return std::make_unique<T>(static_cast<T>(*this));
+        return std::make_unique<T>(as<T>());
     }
 
     template <typename T>
@@ -585,7 +585,7 @@ public:
         if (is_null()) {
             return nullptr;
         }
-        return std::make_unique<T>(static_cast<T>(std::move(*this)));
+        return std::make_unique<T>(std::move(*this).template as<T>());
     }
 
     // Native support for converting to std::variant<Ts...>
diff --git a/include/common/value_impl.hpp b/include/common/value_impl.hpp
index 0838137..1d89a21 100644
--- a/include/common/value_impl.hpp
+++ b/include/common/value_impl.hpp
@@ -698,6 +698,14 @@ inline value_t value::as() const&
         }
         return dst;
     }
+    else if constexpr (_utils::is_optional<value_t>) {
+        // the converting constructor of std::optional would be preferred by a static_cast
+        return this->operator std::optional<typename value_t::value_type>();
+    }
+    else if constexpr (_utils::is_tuple_like<value_t>) {
+        // the converting constructor of std::tuple<T> would be preferred by a static_cast
+        return as_array().template as<value_t>();
+    }
     else {
         return static_cast<value_t>(*this);
     }
@@ -723,6 +731,14 @@ inline value_t value::as() &&
         }
         return dst;
     }
+    else if constexpr (_utils::is_optional<value_t>) {
+        // the converting constructor of std::optional would be preferred by a static_cast
+        return std::move(*this).operator std::optional<typename value_t::value_type>();
+    }
+    else if constexpr (_utils::is_tuple_like<value_t>) {
+        // the converting constructor of std::tuple<T> would be preferred by a static_cast
+        return std::as_const(*this).as_array().template as<value_t>();
+    }
     else {
         return static_cast<value_t>(*this);
     }
-- 
2.43.0


From d0afea44b5433e9e6866c74ed3c9b3079e0eb137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:12 +0000
Subject: [PATCH 08/27] fix: check the type in rvalue conversions to containers
 as in lvalue ones

static_cast<std::vector<int>>(json::value()) gave an empty vector, while the
same conversion of an lvalue throws.
---
 include/common/value.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/common/value.hpp b/include/common/value.hpp
index e42e707..97f4512 100644
--- a/include/common/value.hpp
+++ b/include/common/value.hpp
@@ -622,6 +622,7 @@ public:
             bool> = true>
     explicit operator T() &&
     {
+        (void)std::as_const(*this).as_array(); // the non-const one would turn an empty value into an array
         return std::move(as_array()).template as<T>();
     }
 
@@ -644,6 +645,7 @@ public:
             bool> = true>
     explicit operator T() &&
     {
+        (void)std::as_const(*this).as_object(); // the non-const one would turn an empty value into an object
         return std::move(as_object()).template as<T>();
     }
 
-- 
2.43.0


From 998694cb315a3697e36cc4bf5054399d8a9ecad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:36 +0000
Subject: [PATCH 09/27] fix: leave a moved-from value in a usable (null) state

A moved-from array or object kept its type over a null pointer, so that
copying, dumping or comparing it, or calling empty(), dereferenced null.
---
 include/common/value_impl.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/common/value_impl.hpp b/include/common/value_impl.hpp
index 1d89a21..c086488 100644
--- a/include/common/value_impl.hpp
+++ b/include/common/value_impl.hpp
@@ -83,7 +83,11 @@ inline value::value(const value& rhs)
 {
 }
 
-inline value::value(value&& rhs) noexcept = default;
+inline value::value(value&& rhs) noexcept
+{
+    std::swap(_type, rhs._type);
+    std::swap(_raw_data, rhs._raw_data);
+}
 
 inline value::value(bool b)
     : _type(value_type::boolean)
-- 
2.43.0


From b6fa190d57de235eb71c62507bfa2efddfec34dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:36 +0000
Subject: [PATCH 10/27] fix: allow moving an element of a value into that value

v = std::move(v["k"]) destroyed the element while it was being moved from.
---
 include/common/value_impl.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/common/value_impl.hpp b/include/common/value_impl.hpp
index c086488..a89f61f 100644
--- a/include/common/value_impl.hpp
+++ b/include/common/value_impl.hpp
@@ -871,7 +871,14 @@ inline value& value::operator=(const value& rhs)
     return *this;
 }
 
-inline value& value::operator=(value&& rhs) noexcept = default;
+inline value& value::operator=(value&& rhs) noexcept
+{
+    value temp(std::move(rhs)); // rhs may be an element of *this
+    std::swap(_type, temp._type);
+    std::swap(_raw_data, temp._raw_data);
+
+    return *this;
+}
 
 inline bool value::operator==(const value& rhs) const
 {
-- 
2.43.0


From f36a032022c1f6957bbe78802320dd7567ebc955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:36 +0000
Subject: [PATCH 11/27] fix: keep a value consistent when an allocation fails
 in assignment or as_array()/as_object()

The type was changed before the allocation that could throw, which left a
value of one type holding the data of another.
---
 include/common/value_impl.hpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/include/common/value_impl.hpp b/include/common/value_impl.hpp
index a89f61f..1f81c09 100644
--- a/include/common/value_impl.hpp
+++ b/include/common/value_impl.hpp
@@ -644,8 +644,8 @@ inline const object& value::as_object() const
 inline array& value::as_array()
 {
     if (empty()) {
-        _type = value_type::array;
         _raw_data = std::make_unique<array>();
+        _type = value_type::array;
     }
 
     if (is_array()) {
@@ -658,8 +658,8 @@ inline array& value::as_array()
 inline object& value::as_object()
 {
     if (empty()) {
-        _type = value_type::object;
         _raw_data = std::make_unique<object>();
+        _type = value_type::object;
     }
 
     if (is_object()) {
@@ -865,10 +865,7 @@ inline bool value::all() const
 
 inline value& value::operator=(const value& rhs)
 {
-    _type = rhs._type;
-    _raw_data = deep_copy(rhs._raw_data);
-
-    return *this;
+    return *this = value(rhs);
 }
 
 inline value& value::operator=(value&& rhs) noexcept
@@ -1014,8 +1011,8 @@ inline value& value::operator[](size_t pos)
 inline value& value::operator[](const std::string& key)
 {
     if (empty()) {
-        _type = value_type::object;
         _raw_data = std::make_unique<object>();
+        _type = value_type::object;
     }
 
     return as_object()[key];
@@ -1024,8 +1021,8 @@ inline value& value::operator[](const std::string& key)
 inline value& value::operator[](std::string&& key)
 {
     if (empty()) {
-        _type = value_type::object;
         _raw_data = std::make_unique<object>();
+        _type = value_type::object;
     }
 
     return as_object()[std::move(key)];
-- 
2.43.0


From 830bc7316601bf92c3b994b2bca6fb5920e1bf14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:39 +0000
Subject: [PATCH 12/27] fix: do not truncate the enum value in enum_to_string

The value was converted to int, so that an enumerator outside of int took the
name of another one, and subtracting the minimum from it could overflow.
---
 include/common/enum_reflection.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/common/enum_reflection.hpp b/include/common/enum_reflection.hpp
index a70ae04..d06be89 100644
--- a/include/common/enum_reflection.hpp
+++ b/include/common/enum_reflection.hpp
@@ -184,13 +184,21 @@ constexpr std::string_view enum_to_string(E val)
 {
     constexpr int min = enum_range<E>::min;
     constexpr int max = enum_range<E>::max;
-    constexpr int range = max - min + 1;
 
     const auto& names = enum_name_storage<E>::names;
 
-    int idx = static_cast<int>(val) - min;
-    if (idx >= 0 && idx < range) {
-        return names[idx];
+    // the underlying type may be wider than int
+    const auto num = static_cast<std::underlying_type_t<E>>(val);
+    bool in_range = false;
+    if constexpr (std::is_signed_v<std::underlying_type_t<E>>) {
+        in_range = static_cast<long long>(num) >= min && static_cast<long long>(num) <= max;
+    }
+    else if constexpr (max >= 0) {
+        in_range = static_cast<unsigned long long>(num) <= static_cast<unsigned long long>(max)
+                   && (min <= 0 || static_cast<unsigned long long>(num) >= static_cast<unsigned long long>(min));
+    }
+    if (in_range) {
+        return names[static_cast<int>(num) - min];
     }
     return {};
 }
-- 
2.43.0


From 8f8348dd509c65cdcc557715567a50b5952289de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:39 +0000
Subject: [PATCH 13/27] fix: prefer the exact enumerator name over one that
 differs by case

A value made of E::M was read back as E::m.
---
 include/common/enum_reflection.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/common/enum_reflection.hpp b/include/common/enum_reflection.hpp
index d06be89..a3c6b76 100644
--- a/include/common/enum_reflection.hpp
+++ b/include/common/enum_reflection.hpp
@@ -232,6 +232,13 @@ std::optional<E> string_to_enum(std::string_view str)
 
     const auto& names = enum_name_storage<E>::names;
 
+    // prefer the exact name, there may be enumerators that differ only by case
+    for (int i = 0; i < range; ++i) {
+        if (!names[i].empty() && names[i] == str) {
+            return static_cast<E>(i + min);
+        }
+    }
+
     for (int i = 0; i < range; ++i) {
         if (!names[i].empty()) {
             if (iequals(names[i], str)) {
-- 
2.43.0


From 32cf99f2dbb2c239e49724574e86245a0751d26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:20 +0000
Subject: [PATCH 14/27] fix: do not let the locale change the numbers made from
 floating-point values

Under e.g. a German locale value(1234567.25) dumped as 1.234.567,25 (global
C++ locale) or 1234567,250000 (C locale), neither of which is JSON.
---
 include/common/utils.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/common/utils.hpp b/include/common/utils.hpp
index 587fbe4..fafa5ab 100644
--- a/include/common/utils.hpp
+++ b/include/common/utils.hpp
@@ -6,6 +6,7 @@
 #include <cstddef>
 #include <iomanip>
 #include <limits>
+#include <locale>
 #include <optional>
 #include <sstream>
 #include <string>
@@ -509,16 +510,18 @@ inline std::string_view null_string()
 template <typename any_t>
 inline std::string to_basic_string(any_t&& arg)
 {
-#ifdef MEOJSON_KEEP_FLOATING_PRECISION
     using real_type = std::remove_reference_t<any_t>;
     if constexpr (std::is_floating_point_v<real_type>) {
         std::ostringstream oss;
+        oss.imbue(std::locale::classic()); // the JSON number format does not depend on the locale
+#ifdef MEOJSON_KEEP_FLOATING_PRECISION
         oss << std::setprecision(std::numeric_limits<real_type>::max_digits10) << arg;
+#else
+        oss << std::fixed << std::setprecision(6) << arg; // same as std::to_string
+#endif
         return oss.str();
     }
-    else
-#endif
-    {
+    else {
         return std::to_string(std::forward<any_t>(arg));
     }
 }
-- 
2.43.0


From c8f5fe1584d9363b5dd17d3ed9c6bf64c0c951c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:43 +0000
Subject: [PATCH 15/27] fix: read floating-point numbers independently of the
 locale and accept subnormal ones

std::stod expects the decimal point of the C locale, and reports subnormal
numbers as out of range.
---
 include/common/value_impl.hpp | 45 ++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 22 deletions(-)

diff --git a/include/common/value_impl.hpp b/include/common/value_impl.hpp
index 1f81c09..92ae84c 100644
--- a/include/common/value_impl.hpp
+++ b/include/common/value_impl.hpp
@@ -28,11 +28,18 @@ inline value_t parse_integer(const std::string& str, const char* target_type)
 }
 
 template <typename value_t>
-inline value_t parse_floating(const std::string& str, const char* target_type)
+inline bool try_parse_floating(const std::string& str, value_t& result) noexcept
 {
+    static_assert(std::is_floating_point_v<value_t>, "value_t must be floating point");
+#if defined(__cpp_lib_to_chars) && __cpp_lib_to_chars >= 201611L
+    // unlike std::stod, independent of the locale, and subnormal numbers are no error
+    const char* first = str.data();
+    const char* last = str.data() + str.size();
+    const auto [ptr, ec] = std::from_chars(first, last, result);
+    return ec == std::errc {} && ptr == last;
+#else
     try {
         size_t pos = 0;
-        value_t result {};
         if constexpr (std::is_same_v<value_t, float>) {
             result = std::stof(str, &pos);
         }
@@ -42,12 +49,20 @@ inline value_t parse_floating(const std::string& str, const char* target_type)
         else {
             result = std::stold(str, &pos);
         }
-
-        if (pos == str.size()) {
-            return result;
-        }
+        return pos == str.size();
     }
     catch (const std::exception&) {
+        return false;
+    }
+#endif
+}
+
+template <typename value_t>
+inline value_t parse_floating(const std::string& str, const char* target_type)
+{
+    value_t result {};
+    if (try_parse_floating(str, result)) {
+        return result;
     }
 
     throw exception("Parse error: cannot convert number '" + str + "' to " + target_type);
@@ -56,22 +71,8 @@ inline value_t parse_floating(const std::string& str, const char* target_type)
 template <typename value_t>
 inline bool can_parse_floating(const std::string& str) noexcept
 {
-    try {
-        size_t pos = 0;
-        if constexpr (std::is_same_v<value_t, float>) {
-            (void)std::stof(str, &pos);
-        }
-        else if constexpr (std::is_same_v<value_t, double>) {
-            (void)std::stod(str, &pos);
-        }
-        else {
-            (void)std::stold(str, &pos);
-        }
-        return pos == str.size();
-    }
-    catch (const std::exception&) {
-        return false;
-    }
+    value_t parsed {};
+    return try_parse_floating(str, parsed);
 }
 } // namespace _value_impl_detail
 
-- 
2.43.0


From b3b9a478ff12c6c49d8f6bf1571123e332a89f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:02 +0000
Subject: [PATCH 16/27] fix: is<T>() is not noexcept

It calls user-defined checks and allocates keys, and terminated the program
when either threw.
---
 include/common/value.hpp      | 6 +++---
 include/common/value_impl.hpp | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/common/value.hpp b/include/common/value.hpp
index 97f4512..d6f4690 100644
--- a/include/common/value.hpp
+++ b/include/common/value.hpp
@@ -327,7 +327,7 @@ public:
     bool is_object() const noexcept;
 
     template <typename value_t>
-    bool is() const noexcept;
+    bool is() const;
 
     template <typename value_t>
     bool all() const;
@@ -391,10 +391,10 @@ public:
 
 private:
     template <typename tuple_t, size_t... Is>
-    bool is_tuple_helper(std::index_sequence<Is...>) const noexcept;
+    bool is_tuple_helper(std::index_sequence<Is...>) const;
 
     template <typename... Ts>
-    bool is_variant_helper(std::variant<Ts...>*) const noexcept;
+    bool is_variant_helper(std::variant<Ts...>*) const;
 
     template <typename... Ts>
     std::variant<Ts...> to_variant_helper() const&;
diff --git a/include/common/value_impl.hpp b/include/common/value_impl.hpp
index 92ae84c..0622a86 100644
--- a/include/common/value_impl.hpp
+++ b/include/common/value_impl.hpp
@@ -262,7 +262,7 @@ inline bool value::is_object() const noexcept
 }
 
 template <typename value_t>
-inline bool value::is() const noexcept
+inline bool value::is() const
 {
     if constexpr (std::is_same_v<value, value_t>) {
         return true;
@@ -671,14 +671,14 @@ inline object& value::as_object()
 }
 
 template <typename tuple_t, size_t... Is>
-inline bool value::is_tuple_helper(std::index_sequence<Is...>) const noexcept
+inline bool value::is_tuple_helper(std::index_sequence<Is...>) const
 {
     const auto& arr = as_array();
     return (arr[Is].is<std::tuple_element_t<Is, tuple_t>>() && ...);
 }
 
 template <typename... Ts>
-inline bool value::is_variant_helper(std::variant<Ts...>*) const noexcept
+inline bool value::is_variant_helper(std::variant<Ts...>*) const
 {
     return (is<Ts>() || ...);
 }
-- 
2.43.0


From ace423b2e02195d6a8c9049641f381b140e425e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:06 +0000
Subject: [PATCH 17/27] fix: allow a reflected field named result

MEO_TOJSON declared a local variable that hid such a field and put the
object under construction into itself.
---
 include/reflection/jsonization.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/reflection/jsonization.hpp b/include/reflection/jsonization.hpp
index ba0386b..c929b5a 100644
--- a/include/reflection/jsonization.hpp
+++ b/include/reflection/jsonization.hpp
@@ -428,11 +428,11 @@ namespace json::_private_macro
 #define MEO_TOJSON(...)                                                                                                    \
     json::value to_json() const                                                                                            \
     {                                                                                                                      \
-        json::object result;                                                                                               \
+        json::object _MEOJSON_VARNAME(result);                                                                             \
         json::_jsonization_helper::dumper()._to_json(                                                                      \
-            result,                                                                                                        \
+            _MEOJSON_VARNAME(result),                                                                                      \
             _MEOJSON_EXPAND(_MEOJSON_FOR_EACH(_MEOJSON_KEY_VALUE, __VA_ARGS__)) json::_jsonization_helper::va_arg_end {}); \
-        return result;                                                                                                     \
+        return _MEOJSON_VARNAME(result);                                                                                   \
     }
 
 #define MEO_CHECKJSON(...)                                                                                                 \
-- 
2.43.0


From c04fd9b8aad1b75e524adc42cfac729f81bf6f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:12 +0000
Subject: [PATCH 18/27] fix: keep naming enumerators whose value converts to an
 int in the range

An enumerator -1 of an unsigned type is found by its name, so it needs to
have one.
---
 include/common/enum_reflection.hpp | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/include/common/enum_reflection.hpp b/include/common/enum_reflection.hpp
index a3c6b76..4cdf757 100644
--- a/include/common/enum_reflection.hpp
+++ b/include/common/enum_reflection.hpp
@@ -188,17 +188,9 @@ constexpr std::string_view enum_to_string(E val)
     const auto& names = enum_name_storage<E>::names;
 
     // the underlying type may be wider than int
-    const auto num = static_cast<std::underlying_type_t<E>>(val);
-    bool in_range = false;
-    if constexpr (std::is_signed_v<std::underlying_type_t<E>>) {
-        in_range = static_cast<long long>(num) >= min && static_cast<long long>(num) <= max;
-    }
-    else if constexpr (max >= 0) {
-        in_range = static_cast<unsigned long long>(num) <= static_cast<unsigned long long>(max)
-                   && (min <= 0 || static_cast<unsigned long long>(num) >= static_cast<unsigned long long>(min));
-    }
-    if (in_range) {
-        return names[static_cast<int>(num) - min];
+    const int num = static_cast<int>(val);
+    if (num >= min && num <= max && static_cast<E>(num) == val) {
+        return names[num - min];
     }
     return {};
 }
-- 
2.43.0


From 128f766f1b9c083353bd7047ff953df009f4d5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:37 +0000
Subject: [PATCH 19/27] fix: allow assigning to an array or object a part of
 itself

The default assignment destroyed elements while they were still read when
the right-hand side was an array or object inside of the left-hand one, and
a self-move left it empty.
---
 include/common/array_impl.hpp  | 14 ++++++++++++--
 include/common/object_impl.hpp | 14 ++++++++++++--
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/include/common/array_impl.hpp b/include/common/array_impl.hpp
index af1cf4c..44b9f1e 100644
--- a/include/common/array_impl.hpp
+++ b/include/common/array_impl.hpp
@@ -23,8 +23,18 @@ inline array::array() = default;
 inline array::array(const array& rhs) = default;
 inline array::array(array&& rhs) noexcept = default;
 inline array::~array() noexcept = default;
-inline array& array::operator=(const array&) = default;
-inline array& array::operator=(array&&) noexcept = default;
+
+inline array& array::operator=(const array& rhs)
+{
+    return *this = array(rhs);
+}
+
+inline array& array::operator=(array&& rhs) noexcept
+{
+    array temp(std::move(rhs)); // rhs may be a part of *this
+    _array_data.swap(temp._array_data);
+    return *this;
+}
 
 inline array::array(std::initializer_list<value_type> init_list)
     : _array_data(init_list)
diff --git a/include/common/object_impl.hpp b/include/common/object_impl.hpp
index b59a11b..8e300c3 100644
--- a/include/common/object_impl.hpp
+++ b/include/common/object_impl.hpp
@@ -25,8 +25,18 @@ inline object::object() = default;
 inline object::object(const object& rhs) = default;
 inline object::object(object&& rhs) noexcept = default;
 inline object::~object() = default;
-inline object& object::operator=(const object&) = default;
-inline object& object::operator=(object&&) noexcept = default;
+
+inline object& object::operator=(const object& rhs)
+{
+    return *this = object(rhs);
+}
+
+inline object& object::operator=(object&& rhs) noexcept
+{
+    object temp(std::move(rhs)); // rhs may be a part of *this
+    _object_data.swap(temp._object_data);
+    return *this;
+}
 
 inline object::object(std::initializer_list<value_type> init_list)
     : _object_data(std::make_move_iterator(init_list.begin()), std::make_move_iterator(init_list.end()))
-- 
2.43.0


From 1b1be99c2feadbbf4a954b930d187d2f41e7a670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:11 +0000
Subject: [PATCH 20/27] fix: allow merging into an object a part of it

A merged member could replace (and destroy) the member that holds the
right-hand side.
---
 include/common/object_impl.hpp | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/include/common/object_impl.hpp b/include/common/object_impl.hpp
index 8e300c3..4da8983 100644
--- a/include/common/object_impl.hpp
+++ b/include/common/object_impl.hpp
@@ -6,14 +6,8 @@ namespace json
 {
 namespace _object_impl_detail
 {
-inline void merge_object(object::raw_object& dst, const object& src)
-{
-    for (const auto& [key, val] : src) {
-        dst.insert_or_assign(key, val);
-    }
-}
-
-inline void merge_object_move(object::raw_object& dst, object& src)
+// src is taken by value: it may be a part of a member that it replaces
+inline void merge_object(object::raw_object& dst, object src)
 {
     for (auto& [key, val] : src) {
         dst.insert_or_assign(key, std::move(val));
@@ -303,7 +297,7 @@ inline object object::operator|(const object& rhs) const&
 inline object object::operator|(object&& rhs) const&
 {
     object temp = *this;
-    _object_impl_detail::merge_object_move(temp._object_data, rhs);
+    _object_impl_detail::merge_object(temp._object_data, std::move(rhs));
     return temp;
 }
 
@@ -315,7 +309,7 @@ inline object object::operator|(const object& rhs) &&
 
 inline object object::operator|(object&& rhs) &&
 {
-    _object_impl_detail::merge_object_move(_object_data, rhs);
+    _object_impl_detail::merge_object(_object_data, std::move(rhs));
     return std::move(*this);
 }
 
@@ -327,7 +321,7 @@ inline object& object::operator|=(const object& rhs)
 
 inline object& object::operator|=(object&& rhs)
 {
-    _object_impl_detail::merge_object_move(_object_data, rhs);
+    _object_impl_detail::merge_object(_object_data, std::move(rhs));
     return *this;
 }
 
-- 
2.43.0


From 5cccbab3a6de44b4539dff94b337c57fa4b20c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:23 +0000
Subject: [PATCH 21/27] fix: do not replace an empty container that already is
 of the asked kind

as_array(), as_object() and operator[] of an empty value put a new container
in its place even when it held an (empty) one of that kind, so that references
to it, such as the right-hand side of v |= v.as_object(), were left dangling.
---
 include/common/value_impl.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/common/value_impl.hpp b/include/common/value_impl.hpp
index 0622a86..12ee159 100644
--- a/include/common/value_impl.hpp
+++ b/include/common/value_impl.hpp
@@ -644,7 +644,7 @@ inline const object& value::as_object() const
 
 inline array& value::as_array()
 {
-    if (empty()) {
+    if (empty() && !is_array()) {
         _raw_data = std::make_unique<array>();
         _type = value_type::array;
     }
@@ -658,7 +658,7 @@ inline array& value::as_array()
 
 inline object& value::as_object()
 {
-    if (empty()) {
+    if (empty() && !is_object()) {
         _raw_data = std::make_unique<object>();
         _type = value_type::object;
     }
@@ -1011,7 +1011,7 @@ inline value& value::operator[](size_t pos)
 
 inline value& value::operator[](const std::string& key)
 {
-    if (empty()) {
+    if (empty() && !is_object()) {
         _raw_data = std::make_unique<object>();
         _type = value_type::object;
     }
@@ -1021,7 +1021,7 @@ inline value& value::operator[](const std::string& key)
 
 inline value& value::operator[](std::string&& key)
 {
-    if (empty()) {
+    if (empty() && !is_object()) {
         _raw_data = std::make_unique<object>();
         _type = value_type::object;
     }
-- 
2.43.0


From 730dd7b69fbb4f3f5634ce58d710c547c422fec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:26 +0000
Subject: [PATCH 22/27] fix: get() with a std::string_view default returned a
 dangling view

Where the value was no container of the right kind, the default itself was the
other operand of ?:, so that the std::string found elsewhere was converted to a
std::string_view of a temporary (and a path as default did not compile).
---
 include/common/value_impl.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/common/value_impl.hpp b/include/common/value_impl.hpp
index 12ee159..f971f85 100644
--- a/include/common/value_impl.hpp
+++ b/include/common/value_impl.hpp
@@ -447,11 +447,11 @@ inline auto value::get_helper(const value_t& default_value, first_key_t&& first,
 {
     if constexpr (std::is_constructible_v<std::string, first_key_t>) {
         return is_object() ? as_object().get_helper(default_value, std::forward<first_key_t>(first), std::forward<rest_keys_t>(rest)...)
-                           : default_value;
+                           : _utils::default_or_string(default_value);
     }
     else if constexpr (std::is_integral_v<std::decay_t<first_key_t>>) {
         return is_array() ? as_array().get_helper(default_value, std::forward<first_key_t>(first), std::forward<rest_keys_t>(rest)...)
-                          : default_value;
+                          : _utils::default_or_string(default_value);
     }
     else {
         static_assert(!sizeof(first_key_t), "Parameter must be integral or std::string constructible");
@@ -462,10 +462,10 @@ template <typename value_t, typename unique_key_t>
 inline auto value::get_helper(const value_t& default_value, unique_key_t&& first) const
 {
     if constexpr (std::is_constructible_v<std::string, unique_key_t>) {
-        return is_object() ? as_object().get_helper(default_value, std::forward<unique_key_t>(first)) : default_value;
+        return is_object() ? as_object().get_helper(default_value, std::forward<unique_key_t>(first)) : _utils::default_or_string(default_value);
     }
     else if constexpr (std::is_integral_v<std::decay_t<unique_key_t>>) {
-        return is_array() ? as_array().get_helper(default_value, std::forward<unique_key_t>(first)) : default_value;
+        return is_array() ? as_array().get_helper(default_value, std::forward<unique_key_t>(first)) : _utils::default_or_string(default_value);
     }
     else {
         static_assert(!sizeof(unique_key_t), "Parameter must be integral or std::string constructible");
-- 
2.43.0


From a1971265942cc154531fe5e5450b961da42bc895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:26 +0000
Subject: [PATCH 23/27] fix: get() with nullptr as default constructed a
 std::string from it

std::string is constructible from nullptr_t (as a null const char*), so that
get(key, nullptr) threw std::logic_error, or json::exception for a null.
---
 include/common/utils.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/common/utils.hpp b/include/common/utils.hpp
index fafa5ab..7896003 100644
--- a/include/common/utils.hpp
+++ b/include/common/utils.hpp
@@ -176,7 +176,8 @@ constexpr bool is_json_value = std::is_same_v<std::decay_t<T>, value> || std::is
     || std::is_same_v<std::decay_t<T>, object>;
 
 template <typename T>
-constexpr bool should_return_string = std::is_constructible_v<std::string, T> && !is_json_value<T>;
+constexpr bool should_return_string =
+    std::is_constructible_v<std::string, T> && !is_json_value<T> && !std::is_same_v<std::decay_t<T>, std::nullptr_t>;
 
 template <typename value_t>
 inline auto default_or_string(const value_t& default_value)
-- 
2.43.0


From d043352d9608c720a317568dd206309aede7f2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:00 +0000
Subject: [PATCH 24/27] fix: a number truncated instead of std::bad_alloc when
 allocation fails in its formatting

---
 include/common/utils.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/common/utils.hpp b/include/common/utils.hpp
index 7896003..0f97dfa 100644
--- a/include/common/utils.hpp
+++ b/include/common/utils.hpp
@@ -514,6 +514,7 @@ inline std::string to_basic_string(any_t&& arg)
     using real_type = std::remove_reference_t<any_t>;
     if constexpr (std::is_floating_point_v<real_type>) {
         std::ostringstream oss;
+        oss.exceptions(std::ios_base::badbit); // let std::bad_alloc out, instead of giving a truncated number
         oss.imbue(std::locale::classic()); // the JSON number format does not depend on the locale
 #ifdef MEOJSON_KEEP_FLOATING_PRECISION
         oss << std::setprecision(std::numeric_limits<real_type>::max_digits10) << arg;
-- 
2.43.0


From 5c3e18aec07b7b23f12c7b220516edbb9a36d7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 25/27] fix: a specialisation of json::ext::jsonization for a
 standard wrapper was ignored when reading

as<T>() of an rvalue, and casts, converted std::optional, std::shared_ptr,
std::unique_ptr, std::variant, std::pair and std::tuple natively even if the
user has specialised json::ext::jsonization for them (writing did respect it).
---
 include/common/value.hpp      | 16 ++++++++--------
 include/common/value_impl.hpp | 11 +++++++++--
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/include/common/value.hpp b/include/common/value.hpp
index d6f4690..766048c 100644
--- a/include/common/value.hpp
+++ b/include/common/value.hpp
@@ -534,7 +534,7 @@ public:
     }
 
     // Native support for converting to nullable wrappers (std::optional, std::shared_ptr, std::unique_ptr)
-    template <typename T>
+    template <typename T, std::enable_if_t<!_utils::has_from_json_in_templ_spec<std::optional<T>>::value, bool> = true>
     explicit operator std::optional<T>() const&
     {
         if (is_null()) {
@@ -543,7 +543,7 @@ public:
         return std::optional<T>(as<T>());
     }
 
-    template <typename T>
+    template <typename T, std::enable_if_t<!_utils::has_from_json_in_templ_spec<std::optional<T>>::value, bool> = true>
     explicit operator std::optional<T>() &&
     {
         if (is_null()) {
@@ -552,7 +552,7 @@ public:
         return std::optional<T>(std::move(*this).template as<T>());
     }
 
-    template <typename T>
+    template <typename T, std::enable_if_t<!_utils::has_from_json_in_templ_spec<std::shared_ptr<T>>::value, bool> = true>
     explicit operator std::shared_ptr<T>() const&
     {
         if (is_null()) {
@@ -561,7 +561,7 @@ public:
         return std::make_shared<T>(as<T>());
     }
 
-    template <typename T>
+    template <typename T, std::enable_if_t<!_utils::has_from_json_in_templ_spec<std::shared_ptr<T>>::value, bool> = true>
     explicit operator std::shared_ptr<T>() &&
     {
         if (is_null()) {
@@ -570,7 +570,7 @@ public:
         return std::make_shared<T>(std::move(*this).template as<T>());
     }
 
-    template <typename T>
+    template <typename T, std::enable_if_t<!_utils::has_from_json_in_templ_spec<std::unique_ptr<T>>::value, bool> = true>
     explicit operator std::unique_ptr<T>() const&
     {
         if (is_null()) {
@@ -579,7 +579,7 @@ public:
         return std::make_unique<T>(as<T>());
     }
 
-    template <typename T>
+    template <typename T, std::enable_if_t<!_utils::has_from_json_in_templ_spec<std::unique_ptr<T>>::value, bool> = true>
     explicit operator std::unique_ptr<T>() &&
     {
         if (is_null()) {
@@ -589,10 +589,10 @@ public:
     }
 
     // Native support for converting to std::variant<Ts...>
-    template <typename... Ts>
+    template <typename... Ts, std::enable_if_t<!_utils::has_from_json_in_templ_spec<std::variant<Ts...>>::value, bool> = true>
     explicit operator std::variant<Ts...>() const&;
 
-    template <typename... Ts>
+    template <typename... Ts, std::enable_if_t<!_utils::has_from_json_in_templ_spec<std::variant<Ts...>>::value, bool> = true>
     explicit operator std::variant<Ts...>() &&;
 
 #ifdef MEOJSON_FS_PATH_EXTENSION
diff --git a/include/common/value_impl.hpp b/include/common/value_impl.hpp
index f971f85..c32dcb1 100644
--- a/include/common/value_impl.hpp
+++ b/include/common/value_impl.hpp
@@ -736,6 +736,13 @@ inline value_t value::as() &&
         }
         return dst;
     }
+    else if constexpr (_utils::has_from_json_in_templ_spec<value_t>::value) {
+        value_t dst {};
+        if (!ext::jsonization<value_t>().from_json(*this, dst)) {
+            throw exception("Deserialization failed: from_json() returned false, " + value_info());
+        }
+        return dst;
+    }
     else if constexpr (_utils::is_optional<value_t>) {
         // the converting constructor of std::optional would be preferred by a static_cast
         return std::move(*this).operator std::optional<typename value_t::value_type>();
@@ -1194,13 +1201,13 @@ inline std::variant<Ts...> value::move_to_variant_helper() &&
 }
 
 // Implementation of variant conversion operators
-template <typename... Ts>
+template <typename... Ts, std::enable_if_t<!_utils::has_from_json_in_templ_spec<std::variant<Ts...>>::value, bool>>
 inline value::operator std::variant<Ts...>() const&
 {
     return to_variant_helper<Ts...>();
 }
 
-template <typename... Ts>
+template <typename... Ts, std::enable_if_t<!_utils::has_from_json_in_templ_spec<std::variant<Ts...>>::value, bool>>
 inline value::operator std::variant<Ts...>() &&
 {
     return std::move(*this).move_to_variant_helper<Ts...>();
-- 
2.43.0


From 81dbd58877b2da0d2ec9358c3f696ffb1fe03796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:30 +0000
Subject: [PATCH 26/27] fix: read floating-point numbers independently of the
 locale without std::from_chars too

---
 include/common/value_impl.hpp | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/include/common/value_impl.hpp b/include/common/value_impl.hpp
index c32dcb1..f097af5 100644
--- a/include/common/value_impl.hpp
+++ b/include/common/value_impl.hpp
@@ -39,17 +39,10 @@ inline bool try_parse_floating(const std::string& str, value_t& result) noexcept
     return ec == std::errc {} && ptr == last;
 #else
     try {
-        size_t pos = 0;
-        if constexpr (std::is_same_v<value_t, float>) {
-            result = std::stof(str, &pos);
-        }
-        else if constexpr (std::is_same_v<value_t, double>) {
-            result = std::stod(str, &pos);
-        }
-        else {
-            result = std::stold(str, &pos);
-        }
-        return pos == str.size();
+        std::istringstream iss(str);
+        iss.imbue(std::locale::classic()); // the JSON number format does not depend on the locale
+        iss >> result;
+        return !iss.fail() && iss.peek() == std::istringstream::traits_type::eof();
     }
     catch (const std::exception&) {
         return false;
-- 
2.43.0


From 897025d8ca7842821126775db25c33b28e8f7d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:49 +0000
Subject: [PATCH 27/27] fix: appending to an array again and again moved all
 its elements each time

---
 include/common/array_impl.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/common/array_impl.hpp b/include/common/array_impl.hpp
index 44b9f1e..94e72fa 100644
--- a/include/common/array_impl.hpp
+++ b/include/common/array_impl.hpp
@@ -1,20 +1,31 @@
 #pragma once
 
+#include <algorithm>
+
 #include "array.hpp"
 
 namespace json
 {
 namespace _array_impl_detail
 {
+// doubling at least: appending again and again must not move all the elements each time
+inline void reserve_more(array::raw_array& dst, size_t count)
+{
+    const size_t size = dst.size() + count;
+    if (size > dst.capacity()) {
+        dst.reserve((std::max)(size, dst.capacity() * 2));
+    }
+}
+
 inline void append_array(array::raw_array& dst, const array& src)
 {
-    dst.reserve(dst.size() + src.size());
+    reserve_more(dst, src.size());
     dst.insert(dst.end(), src.begin(), src.end());
 }
 
 inline void append_array_move(array::raw_array& dst, array& src)
 {
-    dst.reserve(dst.size() + src.size());
+    reserve_more(dst, src.size());
     dst.insert(dst.end(), std::make_move_iterator(src.begin()), std::make_move_iterator(src.end()));
 }
 } // namespace _array_impl_detail
-- 
2.43.0

