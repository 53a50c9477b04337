From d3b731c490289272f0243514a19af34f4eef8dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:03 +0000
Subject: [PATCH 01/36] fix: always write four hex digits in unicode escapes

Control characters and other code points below U+1000 were escaped with
two or three hex digits, which is not JSON.
---
 include/configor/json.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index e41aaa0..0eb79ea 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -82,7 +82,7 @@ struct json_hex
     friend inline std::basic_ostream<_CharTy>& operator<<(std::basic_ostream<_CharTy>& os, const json_hex& i)
     {
         os << std::setfill(_CharTy('0')) << std::hex << std::uppercase;
-        os << '\\' << 'u' << std::setw(sizeof(i.i)) << i.i;
+        os << '\\' << 'u' << std::setw(4) << i.i;
         os << std::dec << std::nouppercase;
         return os;
     }
-- 
2.43.0


From 806dbd883bd2b633b29e7774202744ce150198ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:49 +0000
Subject: [PATCH 02/36] fix: do not truncate code points when matching digits
 and literals

A character such as U+0130 was taken for the digit '0' and U+0172 for the
letter 'r', because only the low bits of the code point were compared.
---
 include/configor/json.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index 0eb79ea..38bfbae 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -326,7 +326,7 @@ public:
     {
         for (const auto ch : text)
         {
-            if (ch != std::char_traits<source_char_type>::to_char_type(current_))
+            if (static_cast<uint32_t>(ch) != current_)
             {
                 detail::fast_ostringstream ss;
                 ss << "unexpected character '" << static_cast<char>(current_) << "'";
@@ -624,9 +624,9 @@ public:
         return code;
     }
 
-    inline bool is_digit(source_char_type ch) const
+    inline bool is_digit(uint32_t ch) const
     {
-        return source_char_type('0') <= ch && ch <= source_char_type('9');
+        return '0' <= ch && ch <= '9';
     }
 
     inline void fail(const std::string& msg)
-- 
2.43.0


From a556e3fad56d3c66cac1366094c161b12f2395cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:52 +0000
Subject: [PATCH 03/36] fix: reject a sign that is not followed by a digit

It ran into an assertion, and with NDEBUG was read as a garbage number.
---
 include/configor/json.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index 38bfbae..ca78a48 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -490,6 +490,9 @@ public:
             read_next();
         }
 
+        if (!is_digit(current_))
+            fail("unexpected character in number", current_);
+
         if (current_ == '0')
         {
             read_next();
-- 
2.43.0


From 427158f334031c15e81ee8bc883c63954dfe533b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:25 +0000
Subject: [PATCH 04/36] fix: read exponents without wrapping, NaN or missing
 digits

A sign without digits was accepted, an exponent above 2^32 wrapped around,
and a zero or tiny mantissa with a large exponent became NaN or infinity.
---
 include/configor/json.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index ca78a48..8ab3799 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -586,18 +586,23 @@ public:
             read_next();
         }
 
+        if (!is_digit(current_))
+            fail("invalid exponent number, got", current_);
+
+        constexpr uint32_t max_exponent = 100000000;
+
         uint32_t exponent = static_cast<uint32_t>(current_ - '0');
         while (is_digit(read_next()))
         {
-            exponent = (exponent * 10) + static_cast<uint32_t>(current_ - '0');
+            if (exponent < max_exponent)
+                exponent = (exponent * 10) + static_cast<uint32_t>(current_ - '0');
         }
 
-        float_type power = 1;
-        for (; exponent; exponent >>= 1, base *= base)
+        // scale step by step, so that neither the power nor (zero times infinity) spoils a representable result
+        for (; exponent && number_float_ != 0; exponent >>= 1, base *= base)
             if (exponent & 1)
-                power *= base;
+                number_float_ *= base;
 
-        number_float_ *= power;
         return token_type::value_float;
     }
 
-- 
2.43.0


From d0b779b01e00f3fa027eccd8be1f4f4dcc5807e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:28 +0000
Subject: [PATCH 05/36] fix: reject integers that do not fit and read long
 decimals correctly

Integers outside the integer type wrapped around (undefined behaviour for
signed types, including the smallest integer itself), and so did the
mantissa of floats with many digits before the point or the exponent.
Fractions with many leading zeros underflowed before their exponent.
---
 include/configor/json.hpp | 121 ++++++++++++++++++++++++++++----------
 1 file changed, 89 insertions(+), 32 deletions(-)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index 8ab3799..dbf319c 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -24,6 +24,7 @@
 #include <algorithm>  // std::for_each
 #include <iomanip>    // std::setprecision
 #include <ios>        // std::noskipws, std::noshowbase, std::right
+#include <limits>     // std::numeric_limits
 
 namespace configor
 {
@@ -144,8 +145,10 @@ public:
         : basic_parser<value_type, source_char_type>(is)
         , is_negative_(false)
         , current_(0)
+        , integer_overflow_(false)
         , number_integer_(0)
         , number_float_(0)
+        , number_scale_(0)
     {
     }
 
@@ -163,7 +166,7 @@ public:
 
     virtual void get_integer(typename value_type::integer_type& out) override
     {
-        out = is_negative_ ? -number_integer_ : number_integer_;
+        out = number_integer_;
     }
 
     virtual void get_float(typename value_type::float_type& out) override
@@ -481,8 +484,11 @@ public:
 
     token_type scan_number()
     {
-        is_negative_    = false;
-        number_integer_ = 0;
+        is_negative_      = false;
+        integer_overflow_ = false;
+        number_integer_   = 0;
+        number_float_     = 0;
+        number_scale_     = 0;
 
         if (current_ == '-' || current_ == '+')
         {
@@ -510,31 +516,30 @@ public:
 
     token_type scan_integer()
     {
-        using integer_type = typename value_type::integer_type;
-
         CONFIGOR_ASSERT(is_digit(current_));
 
-        number_integer_ = static_cast<integer_type>(current_ - '0');
+        append_integer_digit();
+        append_float_digit(false);
         while (true)
         {
             const auto ch = read_next();
             if (ch == '.' || ch == 'e' || ch == 'E')
                 return scan_float();
 
-            if (is_digit(ch))
-                number_integer_ = number_integer_ * 10 + static_cast<integer_type>(ch - '0');
-            else
+            if (!is_digit(ch))
                 break;
+
+            append_integer_digit();
+            append_float_digit(false);
         }
+
+        if (integer_overflow_)
+            fail("integer out of range");
         return token_type::value_integer;
     }
 
     token_type scan_float()
     {
-        using float_type = typename value_type::float_type;
-
-        number_float_ = static_cast<float_type>(number_integer_);
-
         if (current_ == 'e' || current_ == 'E')
             return scan_exponent();
 
@@ -543,9 +548,7 @@ public:
         if (!is_digit(read_next()))
             fail("invalid float number, got", current_);
 
-        float_type fraction = static_cast<float_type>(0.1);
-        number_float_ += static_cast<float_type>(static_cast<uint32_t>(current_ - '0')) * fraction;
-
+        append_float_digit(true);
         while (true)
         {
             const auto ch = read_next();
@@ -553,20 +556,16 @@ public:
                 return scan_exponent();
 
             if (is_digit(ch))
-            {
-                fraction *= static_cast<float_type>(0.1);
-                number_float_ += static_cast<float_type>(static_cast<uint32_t>(current_ - '0')) * fraction;
-            }
+                append_float_digit(true);
             else
                 break;
         }
+        scale_float(0);
         return token_type::value_float;
     }
 
     token_type scan_exponent()
     {
-        using float_type = typename value_type::float_type;
-
         CONFIGOR_ASSERT(current_ == 'e' || current_ == 'E');
 
         read_next();
@@ -575,37 +574,93 @@ public:
         if (!invalid)
             fail("invalid exponent number, got", current_);
 
-        float_type base = 10;
+        bool negative_exponent = false;
         if (current_ == '+')
         {
             read_next();
         }
         else if (current_ == '-')
         {
-            base = static_cast<float_type>(0.1);
+            negative_exponent = true;
             read_next();
         }
 
         if (!is_digit(current_))
             fail("invalid exponent number, got", current_);
 
-        constexpr uint32_t max_exponent = 100000000;
+        constexpr int64_t max_exponent = 1000000000000000;
 
-        uint32_t exponent = static_cast<uint32_t>(current_ - '0');
+        int64_t exponent = static_cast<int64_t>(current_ - '0');
         while (is_digit(read_next()))
         {
             if (exponent < max_exponent)
-                exponent = (exponent * 10) + static_cast<uint32_t>(current_ - '0');
+                exponent = (exponent * 10) + static_cast<int64_t>(current_ - '0');
         }
 
-        // scale step by step, so that neither the power nor (zero times infinity) spoils a representable result
-        for (; exponent && number_float_ != 0; exponent >>= 1, base *= base)
-            if (exponent & 1)
-                number_float_ *= base;
-
+        scale_float(negative_exponent ? -exponent : exponent);
         return token_type::value_float;
     }
 
+    // append the current digit to the integer, which is kept negative while the number is,
+    // so that both ends of the range can be reached
+    void append_integer_digit()
+    {
+        using integer_type = typename value_type::integer_type;
+        using limits       = std::numeric_limits<integer_type>;
+
+        const auto digit = static_cast<integer_type>(current_ - '0');
+        if (integer_overflow_)
+            return;
+
+        if (is_negative_)
+            integer_overflow_ = number_integer_ < limits::min() / 10
+                                || static_cast<integer_type>(number_integer_ * 10) < limits::min() + digit;
+        else
+            integer_overflow_ = number_integer_ > (limits::max() - digit) / 10;
+
+        if (!integer_overflow_)
+            number_integer_ = static_cast<integer_type>(is_negative_ ? number_integer_ * 10 - digit
+                                                                     : number_integer_ * 10 + digit);
+    }
+
+    // append the current digit to the float, digits that exceed its precision only count for the scale
+    void append_float_digit(bool fraction)
+    {
+        using float_type = typename value_type::float_type;
+
+        if (number_float_ < 100 / std::numeric_limits<float_type>::epsilon())
+        {
+            number_float_ = number_float_ * 10 + static_cast<float_type>(current_ - '0');
+            if (fraction)
+                --number_scale_;
+        }
+        else if (!fraction)
+        {
+            ++number_scale_;
+        }
+    }
+
+    // apply the decimal exponent step by step, so that no intermediate result leaves the range before the final one
+    void scale_float(int64_t exponent)
+    {
+        using float_type = typename value_type::float_type;
+
+        exponent += number_scale_;
+
+        float_type base  = 10;
+        uint64_t   steps = static_cast<uint64_t>(exponent < 0 ? -exponent : exponent);
+        for (; steps && number_float_ != 0; steps >>= 1, base *= base)
+        {
+            if (steps & 1)
+            {
+                if (exponent < 0)
+                    number_float_ /= base;
+                else
+                    number_float_ *= base;
+            }
+        }
+    }
+
     uint32_t read_escaped_codepoint()
     {
         uint32_t code = 0;
@@ -653,8 +708,10 @@ public:
 private:
     bool                              is_negative_;
     uint32_t                          current_;
+    bool                              integer_overflow_;
     typename value_type::integer_type number_integer_;
     typename value_type::float_type   number_float_;
+    int64_t                           number_scale_;
 };
 
 //
-- 
2.43.0


From db57b53801d5ed8e26e8ee1c6bb589fd6edeaf66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:02 +0000
Subject: [PATCH 06/36] fix: end a block comment at the first */ even after
 more asterisks

'/***/' and '/* x **/' were not terminated, so the text was rejected.
---
 include/configor/json.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index dbf319c..d881246 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -304,7 +304,10 @@ public:
             {
                 if (read_next() == '*')
                 {
-                    if (read_next() == '/')
+                    while (read_next() == '*')
+                        continue;
+
+                    if (current_ == '/')
                     {
                         // end of comment
                         read_next();
-- 
2.43.0


From 7b0df6d774e560db4b02d911db62112f568d5cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:06 +0000
Subject: [PATCH 07/36] fix: skip consecutive comments without recursion

Every comment nested two more calls, so a text with many comments
overflowed the stack.
---
 include/configor/json.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index d881246..975cb9a 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -265,12 +265,14 @@ public:
 
     void skip_spaces()
     {
-        while (current_ == ' ' || current_ == '\t' || current_ == '\n' || current_ == '\r')
-            read_next();
-
-        // skip comments
-        if (current_ == '/')
+        while (true)
         {
+            while (current_ == ' ' || current_ == '\t' || current_ == '\n' || current_ == '\r')
+                read_next();
+
+            if (current_ != '/')
+                break;
+
             skip_comments();
         }
     }
@@ -287,7 +289,6 @@ public:
                 if (current_ == '\n' || current_ == '\r')
                 {
                     // end of comment
-                    skip_spaces();
                     break;
                 }
 
@@ -320,7 +321,6 @@ public:
                     fail("unexpected eof while reading comment");
                 }
             }
-            skip_spaces();
         }
         else
         {
-- 
2.43.0


From ea48c85418f680af4178e5a1d237f3c1db13272f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:10 +0000
Subject: [PATCH 08/36] fix: end comments at the end of a null-terminated
 source

An adapter that reports its end with a null character, as the tests do,
never ended a comment and parsing did not terminate.
---
 include/configor/json.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index 975cb9a..fb245d6 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -292,7 +292,7 @@ public:
                     break;
                 }
 
-                if (this->is_.eof())
+                if (this->is_.eof() || current_ == '\0')
                 {
                     break;
                 }
@@ -316,7 +316,7 @@ public:
                     }
                 }
 
-                if (this->is_.eof())
+                if (this->is_.eof() || current_ == '\0')
                 {
                     fail("unexpected eof while reading comment");
                 }
-- 
2.43.0


From e918e05098ff07e7cb6320006c9b913cfe42ef1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:39 +0000
Subject: [PATCH 09/36] fix: always write floats as JSON numbers that read back
 as floats

NaN and infinities were written as text that is not JSON, floats from 2^63
on were converted to int64_t (undefined behaviour), and a fraction hidden
by the precision left an integer behind.
---
 include/configor/json.hpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index fb245d6..e2fb0ad 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -22,6 +22,7 @@
 #include "configor.hpp"
 
 #include <algorithm>  // std::for_each
+#include <cmath>      // std::ceil, std::floor, std::fabs, std::isfinite
 #include <iomanip>    // std::setprecision
 #include <ios>        // std::noskipws, std::noshowbase, std::right
 #include <limits>     // std::numeric_limits
@@ -930,14 +931,28 @@ public:
 
     virtual void put_float(typename value_type::float_type f) override
     {
-        if (std::ceil(f) == std::floor(f))
+        if (!std::isfinite(f))
+        {
+            throw configor_serialization_error("float number is not finite");
+        }
+
+        // floats from 2^63 on do not fit in int64_t
+        if (std::ceil(f) == std::floor(f) && std::fabs(f) < static_cast<typename value_type::float_type>(1ull << 63))
         {
             // integer
             this->os_ << static_cast<int64_t>(f) << ".0";
         }
         else
         {
-            this->os_ << f;
+            fast_basic_ostringstream<target_char_type> ss;
+            ss.copyfmt(this->os_);
+            ss << f;
+            this->os_ << ss.str();
+
+            // keep it a float even if the precision hides the fraction
+            const auto has = [&](char ch) { return ss.str().find(target_char_type(ch)) != std::string::npos; };
+            if (!has('.') && !has('e'))
+                output({ '.', '0' });
         }
     }
 
-- 
2.43.0


From 3b1ddaee52dbed6329a09eb4225e61362c2fd891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:04 +0000
Subject: [PATCH 10/36] fix: do not sign-extend characters in the pass-through
 decoder

Escaping a character above 0x7F wrote garbage surrogates for it.
---
 include/configor/details/encoding.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/configor/details/encoding.hpp b/include/configor/details/encoding.hpp
index 7ca64fa..eb0bab3 100644
--- a/include/configor/details/encoding.hpp
+++ b/include/configor/details/encoding.hpp
@@ -94,7 +94,7 @@ public:
 
     static bool decode(istream_type& is, uint32_t& codepoint)
     {
-        codepoint = static_cast<uint32_t>(static_cast<char_type>(is.get()));
+        codepoint = static_cast<uint32_t>(is.get());
         return !is.eof();
     }
 };
-- 
2.43.0


From 235e9e82e42ba1e5775254b91bf9e3cd873833ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:07 +0000
Subject: [PATCH 11/36] fix: reject an escaped trail surrogate without a lead
 surrogate

It was put into the string as ill-formed Unicode.
---
 include/configor/json.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index e2fb0ad..27b4668 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -457,6 +457,10 @@ public:
                         }
                         codepoint = encoding::unicode::decode_surrogates(lead_surrogate, trail_surrogate);
                     }
+                    else if (encoding::unicode::is_trail_surrogate(codepoint))
+                    {
+                        fail("trail surrogate must follow a lead surrogate, but got", codepoint);
+                    }
 
                     this->target_encoder_(oss, codepoint);
                     if (!oss.good())
-- 
2.43.0


From 9150af8bc12f7550cf536cd2ebcada30b99836f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:08 +0000
Subject: [PATCH 12/36] fix: reject ill-formed UTF-8 when decoding

Overlong sequences, stray and missing continuation bytes, surrogates and
sequences of more than four bytes were decoded to some other character.
---
 include/configor/details/encoding.hpp | 45 ++++++++++++++++-----------
 1 file changed, 26 insertions(+), 19 deletions(-)

diff --git a/include/configor/details/encoding.hpp b/include/configor/details/encoding.hpp
index eb0bab3..c21ae66 100644
--- a/include/configor/details/encoding.hpp
+++ b/include/configor/details/encoding.hpp
@@ -169,38 +169,45 @@ public:
             0x00000000, 0x00003080, 0x000E2080, 0x03C82080, 0xFA082080, 0x82082080,
         };
 
+        // the smallest codepoint that needs as many extra bytes
+        static const std::array<std::uint32_t, 4> utf8_min_codepoints = { 0x0, 0x80, 0x800, 0x10000 };
+
         // peek one byte and check eof
         const auto first_byte = static_cast<uint8_t>(is.peek());
 
         if (is.eof())
             return false;
 
-        codepoint = 0;
+        // wider characters may not hide a byte in their low bits
+        using unsigned_type  = typename std::make_unsigned<char_type>::type;
+        const auto read_byte = [&] { return static_cast<unsigned_type>(traits_type::to_char_type(is.get())); };
+
+        codepoint = read_byte();
 
         // read bytes
         const auto extra_bytes_to_read = utf8_extra_bytes[first_byte];
-        switch (extra_bytes_to_read)
+        if ((codepoint != first_byte) || (first_byte >= 0x80 && extra_bytes_to_read == 0) || extra_bytes_to_read > 3)
         {
-        case 5:
-            codepoint += static_cast<uint32_t>(static_cast<uint8_t>(is.get()));
-            codepoint <<= 6;
-        case 4:
-            codepoint += static_cast<uint32_t>(static_cast<uint8_t>(is.get()));
-            codepoint <<= 6;
-        case 3:
-            codepoint += static_cast<uint32_t>(static_cast<uint8_t>(is.get()));
-            codepoint <<= 6;
-        case 2:
-            codepoint += static_cast<uint32_t>(static_cast<uint8_t>(is.get()));
-            codepoint <<= 6;
-        case 1:
-            codepoint += static_cast<uint32_t>(static_cast<uint8_t>(is.get()));
+            // not a leading byte
+            is.setstate(std::ios_base::failbit);
+            return true;
+        }
+
+        for (auto i = extra_bytes_to_read; i > 0; --i)
+        {
+            const auto byte = static_cast<uint32_t>(read_byte());
+            if ((byte & ~static_cast<uint32_t>(0x3F)) != 0x80)
+            {
+                // not a continuation byte
+                is.setstate(std::ios_base::failbit);
+                return true;
+            }
             codepoint <<= 6;
-        case 0:
-            codepoint += static_cast<uint32_t>(static_cast<uint8_t>(is.get()));
+            codepoint += byte;
         }
         codepoint -= utf8_offsets[extra_bytes_to_read];
-        if (codepoint > 0x10FFFF)
+        if (codepoint > 0x10FFFF || codepoint < utf8_min_codepoints[extra_bytes_to_read]
+            || unicode::is_lead_surrogate(codepoint) || unicode::is_trail_surrogate(codepoint))
         {
             is.setstate(std::ios_base::failbit);
         }
-- 
2.43.0


From afd9e63853b0ee8c29a6b1826d937d43ffe4e77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:12 +0000
Subject: [PATCH 13/36] fix: reject unpaired surrogates when decoding UTF-16
 and UTF-32

Units above 0xFFFF in wide UTF-16 text were truncated to another character,
and surrogates were passed on as characters.
---
 include/configor/details/encoding.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/configor/details/encoding.hpp b/include/configor/details/encoding.hpp
index c21ae66..ba16cad 100644
--- a/include/configor/details/encoding.hpp
+++ b/include/configor/details/encoding.hpp
@@ -247,7 +247,7 @@ public:
 
     static bool decode(istream_type& is, uint32_t& codepoint)
     {
-        codepoint = static_cast<uint32_t>(static_cast<uint16_t>(is.get()));
+        codepoint = static_cast<uint32_t>(is.get());
 
         if (is.eof())
             return false;
@@ -255,7 +255,7 @@ public:
         if (unicode::is_lead_surrogate(codepoint))
         {
             uint32_t lead_surrogate  = codepoint;
-            uint32_t trail_surrogate = static_cast<uint32_t>(static_cast<uint16_t>(is.get()));
+            uint32_t trail_surrogate = static_cast<uint32_t>(is.get());
 
             if (unicode::is_trail_surrogate(trail_surrogate))
             {
@@ -266,8 +266,7 @@ public:
                 is.setstate(std::ios_base::failbit);
             }
         }
-
-        if (codepoint > 0x10FFFF)
+        else if (codepoint > 0xFFFF || unicode::is_trail_surrogate(codepoint))
         {
             is.setstate(std::ios_base::failbit);
         }
@@ -302,7 +301,7 @@ public:
         if (is.eof())
             return false;
 
-        if (codepoint > 0x10FFFF)
+        if (codepoint > 0x10FFFF || unicode::is_lead_surrogate(codepoint) || unicode::is_trail_surrogate(codepoint))
         {
             is.setstate(std::ios_base::failbit);
         }
-- 
2.43.0


From f3b7d009360697042bcc1c5e857363857af11d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:57 +0000
Subject: [PATCH 14/36] fix: do not drop a peeked null character from a C file

Zero marked the absence of a peeked character, so a null character in a
string was skipped instead of being rejected as it is from other sources.
---
 include/configor/details/stream.hpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/include/configor/details/stream.hpp b/include/configor/details/stream.hpp
index a99761e..3b58b0b 100644
--- a/include/configor/details/stream.hpp
+++ b/include/configor/details/stream.hpp
@@ -347,6 +347,7 @@ public:
 
     explicit fast_cfile_istreambuf(std::FILE* file)
         : file_(file)
+        , has_last_char_(false)
         , last_char_(0)
     {
     }
@@ -354,16 +355,17 @@ public:
 protected:
     virtual int_type underflow() override
     {
-        if (last_char_ != 0)
+        if (has_last_char_)
             return last_char_;
-        last_char_ = std::fgetc(file_);
+        last_char_     = std::fgetc(file_);
+        has_last_char_ = true;
         return last_char_;
     }
 
     virtual int_type uflow() override
     {
-        int_type c = underflow();
-        last_char_ = 0;
+        int_type c     = underflow();
+        has_last_char_ = false;
         return c;
     }
 
@@ -376,6 +378,7 @@ protected:
 
 private:
     std::FILE* file_;
+    bool       has_last_char_;
     int_type   last_char_;
 };
 
@@ -390,6 +393,7 @@ public:
 
     explicit fast_cfile_istreambuf(std::FILE* file)
         : file_(file)
+        , has_last_char_(false)
         , last_char_(0)
     {
     }
@@ -397,16 +401,17 @@ public:
 protected:
     virtual int_type underflow() override
     {
-        if (last_char_ != 0)
+        if (has_last_char_)
             return last_char_;
-        last_char_ = std::fgetwc(file_);
+        last_char_     = std::fgetwc(file_);
+        has_last_char_ = true;
         return last_char_;
     }
 
     virtual int_type uflow() override
     {
-        int_type c = underflow();
-        last_char_ = 0;
+        int_type c     = underflow();
+        has_last_char_ = false;
         return c;
     }
 
@@ -419,6 +424,7 @@ protected:
 
 private:
     std::FILE* file_;
+    bool       has_last_char_;
     int_type   last_char_;
 };
 
-- 
2.43.0


From 683de173df99eb8cad15d22d4aa9950c286dcd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:03 +0000
Subject: [PATCH 15/36] fix: deliver every character of an input adapter
 exactly once

A peeked null character was lost, characters above 0x7F were sign-extended,
and a bulk read after a peek reported one character less than it read (and
overran the buffer when asked for none).
---
 include/configor/details/stream.hpp | 34 ++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/include/configor/details/stream.hpp b/include/configor/details/stream.hpp
index 3b58b0b..50e9622 100644
--- a/include/configor/details/stream.hpp
+++ b/include/configor/details/stream.hpp
@@ -155,6 +155,7 @@ private:
     public:
         explicit streambuf(basic_iadapter<char_type>& adapter)
             : adapter_(adapter)
+            , has_last_char_(false)
             , last_char_(0)
         {
         }
@@ -162,35 +163,48 @@ private:
     protected:
         virtual int_type underflow() override
         {
-            if (last_char_ != 0)
-                return last_char_;
-            last_char_ = traits_type::to_char_type(adapter_.read());
+            if (!has_last_char_)
+            {
+                // the end of data is reported as a character
+                const char_type ch = adapter_.read();
+                last_char_ =
+                    (ch == traits_type::to_char_type(traits_type::eof())) ? traits_type::eof() : traits_type::to_int_type(ch);
+                has_last_char_ = true;
+            }
             return last_char_;
         }
 
         virtual int_type uflow() override
         {
-            int_type c = underflow();
-            last_char_ = 0;
+            int_type c     = underflow();
+            has_last_char_ = false;
             return c;
         }
 
         virtual std::streamsize xsgetn(char_type* s, std::streamsize num) override
         {
-            if (last_char_ != 0)
+            if (num <= 0)
+                return 0;
+
+            std::streamsize remains = num;
+            if (has_last_char_)
             {
+                if (last_char_ == traits_type::eof())
+                    return 0;
+
                 // read last char
-                s[0]       = traits_type::to_char_type(last_char_);
-                last_char_ = 0;
+                s[0]           = traits_type::to_char_type(last_char_);
+                has_last_char_ = false;
                 ++s;
-                --num;
+                --remains;
             }
-            adapter_.read(s, static_cast<size_t>(num));
+            adapter_.read(s, static_cast<size_t>(remains));
             return num;
         }
 
     private:
         basic_iadapter<char_type>& adapter_;
+        bool                       has_last_char_;
         int_type                   last_char_;
     };
 
-- 
2.43.0


From 21fa5455d194e43cab796d7f6de95b149eac4075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:08 +0000
Subject: [PATCH 16/36] fix: call the error handler for a failure on the first
 character

The first character was decoded before the handler was in charge, so the
exception escaped past it.
---
 include/configor/details/parser.hpp |  2 ++
 include/configor/json.hpp           | 13 ++++++-------
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/configor/details/parser.hpp b/include/configor/details/parser.hpp
index 74555fa..8a7f41e 100644
--- a/include/configor/details/parser.hpp
+++ b/include/configor/details/parser.hpp
@@ -56,6 +56,7 @@ public:
     {
         try
         {
+            begin();
             do_parse(c, token_type::uninitialized);
             if (scan() != token_type::end_of_input)
                 fail(token_type::end_of_input);
@@ -87,6 +88,7 @@ public:
     }
 
 protected:
+    virtual void       begin() {}
     virtual token_type scan() = 0;
 
     virtual void get_integer(typename value_type::integer_type& out) = 0;
diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index 27b4668..e9c050b 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -158,13 +158,6 @@ public:
         std::for_each(options.begin(), options.end(), [&](const option& option) { option(*this); });
     }
 
-    virtual void parse(value_type& c) override
-    {
-        // read first char
-        read_next();
-        basic_parser<value_type, source_char_type>::parse(c);
-    }
-
     virtual void get_integer(typename value_type::integer_type& out) override
     {
         out = number_integer_;
@@ -180,6 +173,12 @@ public:
         scan_string(out);
     }
 
+    virtual void begin() override
+    {
+        // read first char
+        read_next();
+    }
+
     virtual token_type scan() override
     {
         skip_spaces();
-- 
2.43.0


From da3ee0ffde2cebb0d2f7c630086d8c8c90a5bd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:14 +0000
Subject: [PATCH 17/36] fix: record every exception in the recording error
 handler

Exceptions of other libraries, such as std::bad_alloc, escaped from it.
---
 include/configor/details/exception.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/configor/details/exception.hpp b/include/configor/details/exception.hpp
index f4a6cda..4862699 100644
--- a/include/configor/details/exception.hpp
+++ b/include/configor/details/exception.hpp
@@ -146,7 +146,7 @@ public:
                 std::rethrow_exception(eptr);
             }
         }
-        catch (const configor_exception& e)
+        catch (const std::exception& e)
         {
             this->error = e.what();
         }
-- 
2.43.0


From 1413fd084a4e3a79051925c7b0d38dff3a6ee16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:58 +0000
Subject: [PATCH 18/36] fix: report output that could not be written

Dumping to a stream that refuses or throws returned normally with text
missing, since the failure only showed in a private stream.
---
 include/configor/details/serializer.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/configor/details/serializer.hpp b/include/configor/details/serializer.hpp
index 6eba96f..f74b2fb 100644
--- a/include/configor/details/serializer.hpp
+++ b/include/configor/details/serializer.hpp
@@ -60,6 +60,9 @@ public:
         {
             do_dump(c);
             next(token_type::end_of_input);
+
+            if (!os_.good())
+                throw configor_serialization_error("writing to the output failed");
         }
         catch (...)
         {
-- 
2.43.0


From a0120f6fa5e82aaca9ecb68476024f7f89a48ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:04 +0000
Subject: [PATCH 19/36] fix: free the storage of a string, array or object that
 fails to construct

---
 include/configor/details/value.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/configor/details/value.hpp b/include/configor/details/value.hpp
index 97c9bbe..84af409 100644
--- a/include/configor/details/value.hpp
+++ b/include/configor/details/value.hpp
@@ -1103,7 +1103,15 @@ private:
         static allocator_type<_Ty> allocator;
 
         auto ptr = allocator_traits::allocate(allocator, 1);
-        allocator_traits::construct(allocator, ptr, std::forward<_Args>(args)...);
+        try
+        {
+            allocator_traits::construct(allocator, ptr, std::forward<_Args>(args)...);
+        }
+        catch (...)
+        {
+            allocator_traits::deallocate(allocator, ptr, 1);
+            throw;
+        }
         return ptr;
     }
 
-- 
2.43.0


From edb09ea69e18bf5cc91c5747c27a625bd568b7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:10 +0000
Subject: [PATCH 20/36] fix: leave a null value behind when a reset fails

The value kept the new type with a dangling pointer, which was freed again.
---
 include/configor/details/value.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/configor/details/value.hpp b/include/configor/details/value.hpp
index 84af409..a5754dc 100644
--- a/include/configor/details/value.hpp
+++ b/include/configor/details/value.hpp
@@ -1024,8 +1024,9 @@ public:
     static void reset(value_type& v, _Args&&... args)
     {
         destroy(v);
-        v.type(_Ty);
+        v.type(value_constant::null);
         construct<_Ty>(v, std::forward<_Args>(args)...);
+        v.type(_Ty);
     }
 
     template <value_constant::type _Ty, typename... _Args>
-- 
2.43.0


From 5431bcd1f300c86fa2bceede7ef94dd935974b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:15 +0000
Subject: [PATCH 21/36] fix: do not leak when a conversion to a value throws

The constructor now delegates, so that the destructor runs.
---
 include/configor/details/value.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/configor/details/value.hpp b/include/configor/details/value.hpp
index a5754dc..11ed6b2 100644
--- a/include/configor/details/value.hpp
+++ b/include/configor/details/value.hpp
@@ -156,8 +156,7 @@ public:
               typename std::enable_if<!is_value<_UTy>::value && detail::has_to_value<basic_value, _UTy>::value,
                                       int>::type = 0>
     basic_value(_CompatibleTy&& value)
-        : type_{ value_constant::null }
-        , data_{}
+        : basic_value(nullptr)
     {
         binder_type<_UTy>::to_value(*this, std::forward<_CompatibleTy>(value));
     }
-- 
2.43.0


From 30044ea6ea0715eeec0ebee66d0554ba3708375f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:21 +0000
Subject: [PATCH 22/36] fix: let list builders own their elements

A json::object or json::array that is kept in a variable referred to an
initializer list that no longer exists.
---
 include/configor/details/value.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/configor/details/value.hpp b/include/configor/details/value.hpp
index 11ed6b2..428ef0d 100644
--- a/include/configor/details/value.hpp
+++ b/include/configor/details/value.hpp
@@ -28,6 +28,7 @@
 #include <sstream>      // std::stringstream
 #include <type_traits>  // std::enable_if, std::is_same, std::is_integral, std::is_floating_point
 #include <utility>      // std::swap, std::forward, std::declval
+#include <vector>       // std::vector
 
 namespace configor
 {
@@ -1150,7 +1151,7 @@ public:
         }
 
     private:
-        std::initializer_list<pair_type> list_;
+        std::vector<pair_type> list_;
     };
 
     struct array
@@ -1169,7 +1170,7 @@ public:
         }
 
     private:
-        std::initializer_list<value_type> list_;
+        std::vector<value_type> list_;
     };
 };
 }  // namespace detail
-- 
2.43.0


From a138ea96678f7ccd320f33c28ec71a4c73c49fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:26 +0000
Subject: [PATCH 23/36] fix: replace the content of a map when converting from
 a value

Entries that the map already held were kept, unlike in other containers.
---
 include/configor/details/conversion.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/configor/details/conversion.hpp b/include/configor/details/conversion.hpp
index e3bcba9..218b6db 100644
--- a/include/configor/details/conversion.hpp
+++ b/include/configor/details/conversion.hpp
@@ -449,6 +449,7 @@ template <typename _ValTy, typename _KeyTy, typename _Ty,
                                   int>::type = 0>
 void from_value(const _ValTy& c, std::map<_KeyTy, _Ty>& v)
 {
+    v.clear();
     for (auto iter = c.cbegin(); iter != c.cend(); iter++)
     {
         v.emplace(iter.key(), iter.value().template get<_Ty>());
@@ -474,6 +475,7 @@ template <typename _ValTy, typename _KeyTy, typename _Ty,
                                   int>::type = 0>
 void from_value(const _ValTy& c, std::unordered_map<_KeyTy, _Ty>& v)
 {
+    v.clear();
     for (auto iter = c.cbegin(); iter != c.cend(); iter++)
     {
         v.emplace(iter.key(), iter.value().template get<_Ty>());
-- 
2.43.0


From 52a49ae00eb7016d077a8b8639b1291cde369040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:32 +0000
Subject: [PATCH 24/36] fix: throw for indices that cannot be erased or created

Erasing past the end was undefined, and so was writing to the largest
index of an empty array, for which nothing was inserted.
---
 include/configor/details/value.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/configor/details/value.hpp b/include/configor/details/value.hpp
index 428ef0d..75a0fb1 100644
--- a/include/configor/details/value.hpp
+++ b/include/configor/details/value.hpp
@@ -360,6 +360,10 @@ public:
         {
             throw configor_invalid_key("cannot use erase() with non-array value");
         }
+        if (index >= data().vector->size())
+        {
+            throw std::out_of_range("erase() index out of range");
+        }
         data().vector->erase(data().vector->begin() + static_cast<difference_type>(index));
     }
 
@@ -722,6 +726,10 @@ public:
 
         if (index >= data().vector->size())
         {
+            if (index >= data().vector->max_size())
+            {
+                throw std::out_of_range("operator[] index out of range");
+            }
             data().vector->insert(data().vector->end(), index - data().vector->size() + 1, basic_value());
         }
         return (*data().vector)[index];
-- 
2.43.0


From a73a934256a9ee6feea3c97238300e41fa39c83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:28 +0000
Subject: [PATCH 25/36] fix: indent correctly below 65535 levels

---
 include/configor/details/serializer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/configor/details/serializer.hpp b/include/configor/details/serializer.hpp
index f74b2fb..4a67d88 100644
--- a/include/configor/details/serializer.hpp
+++ b/include/configor/details/serializer.hpp
@@ -319,7 +319,7 @@ private:
 
 private:
     uint8_t     step_;
-    uint16_t    depth_;
+    size_t      depth_;
     char_type   indent_char_;
     string_type indent_string_;
 };
-- 
2.43.0


From babaf6a05169675c65439295ab8e6b3665041adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:12 +0000
Subject: [PATCH 26/36] fix: reject wide strings with a character that equals
 WEOF when dumping

---
 include/configor/details/stream.hpp | 9 ++++++++-
 include/configor/json.hpp           | 4 ++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/configor/details/stream.hpp b/include/configor/details/stream.hpp
index 50e9622..621bbe9 100644
--- a/include/configor/details/stream.hpp
+++ b/include/configor/details/stream.hpp
@@ -274,6 +274,12 @@ public:
     {
     }
 
+    // false if reading stopped at a character that equals the end of file
+    inline bool exhausted() const
+    {
+        return index_ >= str_.size();
+    }
+
 protected:
     virtual int_type underflow() override
     {
@@ -285,7 +291,8 @@ protected:
     virtual int_type uflow() override
     {
         int_type c = underflow();
-        ++index_;
+        if (c != traits_type::eof())
+            ++index_;
         return c;
     }
 
diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index e9c050b..eaddc49 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -1045,6 +1045,10 @@ public:
             }
             }
         }
+        if (!buf.exhausted())
+        {
+            fail("unexpected character", codepoint);
+        }
         output('\"');
     }
 
-- 
2.43.0


From 854a2618b5a3ed4df99d077d6d054272236cc561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:06 +0000
Subject: [PATCH 27/36] fix: reject an object key without colon and value

---
 include/configor/details/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/configor/details/parser.hpp b/include/configor/details/parser.hpp
index 8a7f41e..9e19dd7 100644
--- a/include/configor/details/parser.hpp
+++ b/include/configor/details/parser.hpp
@@ -184,7 +184,7 @@ protected:
 
                 token = scan();
                 if (token != token_type::name_separator)
-                    break;
+                    fail(token, token_type::name_separator);
 
                 _ValTy object;
                 do_parse(object, token);
-- 
2.43.0


From c010e284fd1283cdace9caa0e2bf521ff86680aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:02 +0000
Subject: [PATCH 28/36] fix: compare nested values without doubling the work at
 each level

---
 include/configor/details/value.hpp | 127 +++++++++++++++++++----------
 1 file changed, 84 insertions(+), 43 deletions(-)

diff --git a/include/configor/details/value.hpp b/include/configor/details/value.hpp
index 75a0fb1..82b2e40 100644
--- a/include/configor/details/value.hpp
+++ b/include/configor/details/value.hpp
@@ -894,50 +894,9 @@ public:
 
     // lt functions
 
-    friend bool operator<(const basic_value& lhs, const basic_value& rhs)
+    friend inline bool operator<(const basic_value& lhs, const basic_value& rhs)
     {
-        const auto lhs_type = lhs.type();
-        const auto rhs_type = rhs.type();
-
-        if (lhs_type == rhs_type)
-        {
-            switch (lhs_type)
-            {
-            case value_constant::array:
-                return (*lhs.data().vector) < (*rhs.data().vector);
-
-            case value_constant::object:
-                return (*lhs.data().object) < (*rhs.data().object);
-
-            case value_constant::null:
-                return false;
-
-            case value_constant::string:
-                return (*lhs.data().string) < (*rhs.data().string);
-
-            case value_constant::boolean:
-                return (lhs.data().boolean < rhs.data().boolean);
-
-            case value_constant::integer:
-                return (lhs.data().integer < rhs.data().integer);
-
-            case value_constant::floating:
-                return (lhs.data().floating < rhs.data().floating);
-
-            default:
-                return false;
-            }
-        }
-        else if (lhs_type == value_constant::integer && rhs_type == value_constant::floating)
-        {
-            return (static_cast<float_type>(lhs.data().integer) < rhs.data().floating);
-        }
-        else if (lhs_type == value_constant::floating && rhs_type == value_constant::integer)
-        {
-            return (lhs.data().floating < static_cast<float_type>(rhs.data().integer));
-        }
-
-        return false;
+        return compare(lhs, rhs) < 0;
     }
 
     template <typename _ScalarTy, typename = typename std::enable_if<std::is_scalar<_ScalarTy>::value>::type>
@@ -1009,6 +968,88 @@ public:
         return basic_value(lhs) >= rhs;
     }
 
+private:
+    // negative if lhs is less than rhs, positive if rhs is less than lhs, otherwise zero
+    // every element is visited once, comparing elements with < in both directions doubles the work at each level
+
+    static int compare(const basic_value& lhs, const basic_value& rhs)
+    {
+        const auto lhs_type = lhs.type();
+        const auto rhs_type = rhs.type();
+
+        if (lhs_type == rhs_type)
+        {
+            switch (lhs_type)
+            {
+            case value_constant::array:
+                return compare_range(*lhs.data().vector, *rhs.data().vector);
+
+            case value_constant::object:
+                return compare_range(*lhs.data().object, *rhs.data().object);
+
+            case value_constant::null:
+                return 0;
+
+            case value_constant::string:
+                return compare_scalar(*lhs.data().string, *rhs.data().string);
+
+            case value_constant::boolean:
+                return compare_scalar(lhs.data().boolean, rhs.data().boolean);
+
+            case value_constant::integer:
+                return compare_scalar(lhs.data().integer, rhs.data().integer);
+
+            case value_constant::floating:
+                return compare_scalar(lhs.data().floating, rhs.data().floating);
+
+            default:
+                return 0;
+            }
+        }
+        else if (lhs_type == value_constant::integer && rhs_type == value_constant::floating)
+        {
+            return compare_scalar(static_cast<float_type>(lhs.data().integer), rhs.data().floating);
+        }
+        else if (lhs_type == value_constant::floating && rhs_type == value_constant::integer)
+        {
+            return compare_scalar(lhs.data().floating, static_cast<float_type>(rhs.data().integer));
+        }
+
+        return 0;
+    }
+
+    template <typename _Ty>
+    static inline int compare_scalar(const _Ty& lhs, const _Ty& rhs)
+    {
+        return (lhs < rhs) ? -1 : ((rhs < lhs) ? 1 : 0);
+    }
+
+    static inline int compare_element(const basic_value& lhs, const basic_value& rhs)
+    {
+        return compare(lhs, rhs);
+    }
+
+    static inline int compare_element(const typename object_type::value_type& lhs,
+                                      const typename object_type::value_type& rhs)
+    {
+        const int result = compare_scalar(lhs.first, rhs.first);
+        return result ? result : compare(lhs.second, rhs.second);
+    }
+
+    template <typename _RangeTy>
+    static int compare_range(const _RangeTy& lhs, const _RangeTy& rhs)
+    {
+        auto left  = lhs.begin();
+        auto right = rhs.begin();
+        for (; left != lhs.end() && right != rhs.end(); ++left, ++right)
+        {
+            const int result = compare_element(*left, *right);
+            if (result)
+                return result;
+        }
+        return (left != lhs.end()) ? 1 : ((right != rhs.end()) ? -1 : 0);
+    }
+
 private:
     value_constant::type type_;
     data_type            data_;
-- 
2.43.0


From c498ade818014a2952253f58be8015645c810180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:56 +0000
Subject: [PATCH 29/36] fix: allocation failures while building strings and
 floats are not lost

---
 include/configor/json.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index eaddc49..2011f93 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -353,6 +353,7 @@ public:
 
         detail::fast_string_ostreambuf<target_char_type> buf{ out };
         std::basic_ostream<target_char_type>             oss{ &buf };
+        oss.exceptions(std::ios_base::badbit);  // do not lose allocation failures
         while (true)
         {
             read_next();
@@ -949,6 +950,7 @@ public:
         {
             fast_basic_ostringstream<target_char_type> ss;
             ss.copyfmt(this->os_);
+            ss.exceptions(std::ios_base::badbit);  // do not lose allocation failures
             ss << f;
             this->os_ << ss.str();
 
-- 
2.43.0


From b5cf4d64c77b11db065b60bf3a0e5a346d6b6d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:41 +0000
Subject: [PATCH 30/36] fix: read errors of C files are reported

---
 include/configor/details/stream.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/configor/details/stream.hpp b/include/configor/details/stream.hpp
index 621bbe9..766f0ff 100644
--- a/include/configor/details/stream.hpp
+++ b/include/configor/details/stream.hpp
@@ -380,6 +380,8 @@ protected:
             return last_char_;
         last_char_     = std::fgetc(file_);
         has_last_char_ = true;
+        if (last_char_ == traits_type::eof() && !std::feof(file_))
+            throw std::ios_base::failure("failed to read file");
         return last_char_;
     }
 
@@ -426,6 +428,8 @@ protected:
             return last_char_;
         last_char_     = std::fgetwc(file_);
         has_last_char_ = true;
+        if (last_char_ == traits_type::eof() && !std::feof(file_))
+            throw std::ios_base::failure("failed to read file");
         return last_char_;
     }
 
-- 
2.43.0


From b977921e9cc4b01b4fee8fd2136f34a0393ec1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:45 +0000
Subject: [PATCH 31/36] fix: let a recording error handler swallow exceptions
 not derived from std::exception

---
 include/configor/details/exception.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/configor/details/exception.hpp b/include/configor/details/exception.hpp
index 4862699..936a62a 100644
--- a/include/configor/details/exception.hpp
+++ b/include/configor/details/exception.hpp
@@ -150,6 +150,10 @@ public:
         {
             this->error = e.what();
         }
+        catch (...)
+        {
+            this->error = "unknown exception";
+        }
     }
 
     std::string error;
-- 
2.43.0


From 5703fb39e0ca22826d2690ab1953da6ea3765451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:52 +0000
Subject: [PATCH 32/36] fix: move parsed members into their object instead of
 copying them

Every enclosing object copied the member it had just parsed, so that nested
objects took memory and time quadratic in their depth.
---
 include/configor/details/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/configor/details/parser.hpp b/include/configor/details/parser.hpp
index 9e19dd7..ffa2c9f 100644
--- a/include/configor/details/parser.hpp
+++ b/include/configor/details/parser.hpp
@@ -188,7 +188,7 @@ protected:
 
                 _ValTy object;
                 do_parse(object, token);
-                c.data().object->emplace(key, object);
+                c.data().object->emplace(std::move(key), std::move(object));
 
                 // read ','
                 token = scan();
-- 
2.43.0


From 880c48c83c451ef8732172c0d61c6a99cf4a666c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:14 +0000
Subject: [PATCH 33/36] fix: block reads from strings, C strings and C files
 advance and honour a character read ahead

---
 include/configor/details/stream.hpp | 36 +++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/include/configor/details/stream.hpp b/include/configor/details/stream.hpp
index 766f0ff..de31a1b 100644
--- a/include/configor/details/stream.hpp
+++ b/include/configor/details/stream.hpp
@@ -298,7 +298,10 @@ protected:
 
     virtual std::streamsize xsgetn(char_type* s, std::streamsize num) override
     {
+        if (num <= 0)
+            return 0;
         const auto copied = str_.copy(s, static_cast<size_t>(num), index_);
+        index_ += copied;
         return static_cast<std::streamsize>(copied);
     }
 
@@ -340,11 +343,12 @@ protected:
 
     virtual std::streamsize xsgetn(char_type* s, std::streamsize num) override
     {
-        if (index_ + static_cast<size_t>(num) >= size_)
-            num = static_cast<std::streamsize>(size_ - index_);
-        if (num == 0)
+        if (num <= 0 || index_ >= size_)
             return 0;
-        traits_type::copy(s, buffer_, static_cast<size_t>(num));
+        if (static_cast<size_t>(num) > size_ - index_)
+            num = static_cast<std::streamsize>(size_ - index_);
+        traits_type::copy(s, buffer_ + index_, static_cast<size_t>(num));
+        index_ += static_cast<size_t>(num);
         return num;
     }
 
@@ -394,9 +398,15 @@ protected:
 
     virtual std::streamsize xsgetn(char_type* s, std::streamsize num) override
     {
-        if (std::fgets(s, static_cast<int>(num), file_) == nullptr)
-            return 0;
-        return num;
+        std::streamsize count = 0;
+        for (; count < num; ++count)
+        {
+            const int_type c = uflow();
+            if (c == traits_type::eof())
+                break;
+            s[count] = traits_type::to_char_type(c);
+        }
+        return count;
     }
 
 private:
@@ -442,9 +452,15 @@ protected:
 
     virtual std::streamsize xsgetn(char_type* s, std::streamsize num) override
     {
-        if (std::fgetws(s, static_cast<int>(num), file_) == nullptr)
-            return 0;
-        return num;
+        std::streamsize count = 0;
+        for (; count < num; ++count)
+        {
+            const int_type c = uflow();
+            if (c == traits_type::eof())
+                break;
+            s[count] = traits_type::to_char_type(c);
+        }
+        return count;
     }
 
 private:
-- 
2.43.0


From 5d6575abfbf4670bcb7ed062b87e618bcf0e10d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:05 +0000
Subject: [PATCH 34/36] fix: parsing and dumping leave the locale of the
 caller's stream buffer alone

---
 include/configor/details/parser.hpp     | 3 ++-
 include/configor/details/serializer.hpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/configor/details/parser.hpp b/include/configor/details/parser.hpp
index ffa2c9f..f025509 100644
--- a/include/configor/details/parser.hpp
+++ b/include/configor/details/parser.hpp
@@ -43,13 +43,14 @@ public:
     using target_char_type = typename value_type::char_type;
 
     basic_parser(std::basic_istream<source_char_type>& is)
-        : is_(is.rdbuf())
+        : is_(nullptr)
         , err_handler_(nullptr)
         , source_decoder_(nullptr)
         , target_encoder_(nullptr)
     {
         is_.unsetf(std::ios_base::skipws);
         is_.imbue(std::locale(std::locale::classic(), is.getloc(), std::locale::collate | std::locale::ctype));
+        is_.rdbuf(is.rdbuf());  // after imbue, which would change the locale of the buffer
     }
 
     virtual void parse(value_type& c)
diff --git a/include/configor/details/serializer.hpp b/include/configor/details/serializer.hpp
index 4a67d88..83030b7 100644
--- a/include/configor/details/serializer.hpp
+++ b/include/configor/details/serializer.hpp
@@ -45,13 +45,14 @@ public:
     using target_char_type = _TargetCharTy;
 
     explicit basic_serializer(std::basic_ostream<target_char_type>& os)
-        : os_(os.rdbuf())
+        : os_(nullptr)
         , err_handler_(nullptr)
         , source_decoder_(nullptr)
         , target_encoder_(nullptr)
     {
         os_.setf(os.flags(), std::ios_base::floatfield);
         os_.imbue(std::locale(std::locale::classic(), os.getloc(), std::locale::collate | std::locale::ctype));
+        os_.rdbuf(os.rdbuf());  // after imbue, which would change the locale of the buffer
     }
 
     virtual void dump(const value_type& c)
-- 
2.43.0


From ecc8b1f2d03212a86c0a47d7a3d2004e70632c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:33 +0000
Subject: [PATCH 35/36] fix: refuse to escape what is not a codepoint instead
 of writing other surrogates

---
 include/configor/json.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index 2011f93..832bd3a 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -1030,6 +1030,11 @@ public:
                         // BMP: U+007F...U+FFFF
                         this->os_ << make_json_hex(static_cast<uint16_t>(codepoint));
                     }
+                    else if (codepoint > 0x10FFFF)
+                    {
+                        // not a codepoint, a decoder that ignores the encoding passes it
+                        this->os_.setstate(std::ios_base::failbit);
+                    }
                     else
                     {
                         // supplementary planes: U+10000...U+10FFFF
-- 
2.43.0


From 4738279b663bf544567c58f862821369c6029884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:04 +0000
Subject: [PATCH 36/36] fix: parse simple escapes into values of char16_t and
 char32_t

They were written with the formatted output of a char, which needs a
character facet that the standard library has for char and wchar_t only:
parsing threw std::bad_cast.
---
 include/configor/json.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index 832bd3a..89c29d1 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -413,28 +413,28 @@ public:
                 switch (read_next())
                 {
                 case '\"':
-                    oss << '\"';
+                    oss.put('\"');
                     break;
                 case '\\':
-                    oss << '\\';
+                    oss.put('\\');
                     break;
                 case '/':
-                    oss << '/';
+                    oss.put('/');
                     break;
                 case 'b':
-                    oss << '\b';
+                    oss.put('\b');
                     break;
                 case 'f':
-                    oss << '\f';
+                    oss.put('\f');
                     break;
                 case 'n':
-                    oss << '\n';
+                    oss.put('\n');
                     break;
                 case 'r':
-                    oss << '\r';
+                    oss.put('\r');
                     break;
                 case 't':
-                    oss << '\t';
+                    oss.put('\t');
                     break;
 
                 case 'u':
-- 
2.43.0

