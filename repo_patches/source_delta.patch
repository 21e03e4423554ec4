From ebb04c43f58ac30e82b69c12ae6d19041ada9e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:40 +0000
Subject: [PATCH 01/68] fix: do not classify negative characters as decimal
 digits

For signed character types, XOR'ing a negative value with '0' stays negative,
and thus less than 10. Compare against the range of digits instead.
---
 fly/types/string/detail/classifier.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fly/types/string/detail/classifier.hpp b/fly/types/string/detail/classifier.hpp
index 0f444fc..84adce0 100644
--- a/fly/types/string/detail/classifier.hpp
+++ b/fly/types/string/detail/classifier.hpp
@@ -169,6 +169,7 @@ private:
 
     static constexpr auto const s_null_terminator = FLY_CHR(CharType, '\0');
     static constexpr auto const s_zero = FLY_CHR(CharType, '0');
+    static constexpr auto const s_nine = FLY_CHR(CharType, '9');
     static constexpr auto const s_upper_a = FLY_CHR(CharType, 'A');
     static constexpr auto const s_upper_z = FLY_CHR(CharType, 'Z');
     static constexpr auto const s_upper_f = FLY_CHR(CharType, 'F');
@@ -260,7 +261,7 @@ constexpr CharType BasicClassifier<CharType>::to_lower(CharType ch)
 template <fly::StandardCharacter CharType>
 constexpr bool BasicClassifier<CharType>::is_digit(CharType ch)
 {
-    return (ch ^ s_zero) < 10;
+    return (ch >= s_zero) && (ch <= s_nine);
 }
 
 //==================================================================================================
-- 
2.43.0


From 6243d9f9f2c6e82b057de98994fb65253c1347de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:40 +0000
Subject: [PATCH 02/68] fix: continue replace_all behind the replaced text

Searching from the beginning again never terminates if the replacement
contains the searched string.
---
 fly/types/string/string.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fly/types/string/string.hpp b/fly/types/string/string.hpp
index 2da7973..52393ba 100644
--- a/fly/types/string/string.hpp
+++ b/fly/types/string/string.hpp
@@ -573,7 +573,7 @@ void BasicString<CharType>::replace_all(string_type &target, view_type search, c
     while (!search.empty() && (index != string_type::npos))
     {
         target.replace(index, search.size(), 1, replace);
-        index = target.find(search);
+        index = target.find(search, index + 1);
     }
 }
 
@@ -586,7 +586,7 @@ void BasicString<CharType>::replace_all(string_type &target, view_type search, v
     while (!search.empty() && (index != string_type::npos))
     {
         target.replace(index, search.size(), replace);
-        index = target.find(search);
+        index = target.find(search, index + replace.size());
     }
 }
 
-- 
2.43.0


From 501a367fa05e16b77b82ff8e38487217a304a941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:40 +0000
Subject: [PATCH 03/68] fix: match every wildcard segment against its own part
 of the source

The segments of a wildcard string were allowed to overlap each other and the
required prefix and suffix, e.g. "a*a" matched "a", and "b*b" matched "ab"
style sources with a single b.
---
 fly/types/string/string.hpp | 44 +++++++++++++++++++++++++++----------
 1 file changed, 32 insertions(+), 12 deletions(-)

diff --git a/fly/types/string/string.hpp b/fly/types/string/string.hpp
index 52393ba..aeedc32 100644
--- a/fly/types/string/string.hpp
+++ b/fly/types/string/string.hpp
@@ -605,27 +605,47 @@ bool BasicString<CharType>::wildcard_match(view_type source, view_type search)
     bool result = !search.empty();
 
     std::vector<string_type> const segments = split(search, s_wildcard);
-    size_type index = 0;
 
-    if (!segments.empty())
+    if (segments.empty() || !result)
     {
-        if (result && (search.front() != s_wildcard))
+        return result;
+    }
+
+    auto first = segments.begin();
+    auto last = segments.end();
+
+    if (search.front() != s_wildcard)
+    {
+        if (search.find(s_wildcard) == view_type::npos)
         {
-            result = source.starts_with(segments.front());
+            return source == search;
         }
-        if (result && (search.back() != s_wildcard))
+
+        if ((result = source.starts_with(*first)))
         {
-            result = source.ends_with(segments.back());
+            source.remove_prefix(first->size());
+            ++first;
         }
+    }
+    if (result && (search.back() != s_wildcard))
+    {
+        --last;
 
-        for (auto it = segments.begin(); result && (it != segments.end()); ++it)
+        if ((result = source.ends_with(*last)))
         {
-            index = source.find(*it, index);
+            source.remove_suffix(last->size());
+        }
+    }
 
-            if (index == string_type::npos)
-            {
-                result = false;
-            }
+    for (auto it = first; result && (it != last); ++it)
+    {
+        if (auto const index = source.find(*it); index == view_type::npos)
+        {
+            result = false;
+        }
+        else
+        {
+            source.remove_prefix(index + it->size());
         }
     }
 
-- 
2.43.0


From 4988a75af3383ed454c1a014df2987048e81e0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:47 +0000
Subject: [PATCH 04/68] fix: do not wrap around when peeking at a large lexer
 offset

---
 fly/types/string/lexer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fly/types/string/lexer.hpp b/fly/types/string/lexer.hpp
index f99464d..d343303 100644
--- a/fly/types/string/lexer.hpp
+++ b/fly/types/string/lexer.hpp
@@ -189,7 +189,7 @@ constexpr void BasicLexer<CharType>::set_position(std::size_t position)
 template <StandardCharacter CharType>
 constexpr std::optional<CharType> BasicLexer<CharType>::peek(std::size_t offset)
 {
-    if ((m_index + offset) >= m_size)
+    if ((m_index >= m_size) || (offset >= (m_size - m_index)))
     {
         return std::nullopt;
     }
-- 
2.43.0


From 02654104768522a558ccf4fba7aea00de872103c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:47 +0000
Subject: [PATCH 05/68] fix: do not wrap numbers which are too large for the
 lexer

Numbers which do not fit into std::uintmax_t were reduced modulo 2^64, e.g.
allowing IP addresses, ports, and format positions to be parsed from
nonsensical numbers.
---
 fly/types/string/lexer.hpp | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/fly/types/string/lexer.hpp b/fly/types/string/lexer.hpp
index d343303..e5eaca7 100644
--- a/fly/types/string/lexer.hpp
+++ b/fly/types/string/lexer.hpp
@@ -6,6 +6,7 @@
 #include "fly/types/string/literals.hpp"
 
 #include <cstdint>
+#include <limits>
 #include <optional>
 
 namespace fly {
@@ -107,7 +108,8 @@ public:
      * advance the current position to the next character until a character is either not available
      * or not a decimal digit. Convert the retrieved characters to an unsigned number.
      *
-     * @return If consumed, the parsed decimal number. Otherwise, an uninitialized value.
+     * @return If consumed and representable, the parsed decimal number. Otherwise, an uninitialized
+     *         value.
      */
     constexpr std::optional<std::uintmax_t> consume_number();
 
@@ -116,7 +118,8 @@ public:
      * advance the current position to the next character until a character is either not available
      * or not a hexadecimal digit. Convert the retrieved characters to an unsigned number.
      *
-     * @return If consumed, the parsed hexadecimal number. Otherwise, an uninitialized value.
+     * @return If consumed and representable, the parsed hexadecimal number. Otherwise, an
+     *         uninitialized value.
      */
     constexpr std::optional<std::uintmax_t> consume_hex_number();
 
@@ -226,30 +229,40 @@ constexpr bool BasicLexer<CharType>::consume_if(CharType ch)
 template <StandardCharacter CharType>
 constexpr std::optional<std::uintmax_t> BasicLexer<CharType>::consume_number()
 {
+    constexpr auto max = std::numeric_limits<std::uintmax_t>::max();
+
     bool parsed_number = false;
+    bool overflowed = false;
     std::uintmax_t number = 0;
 
     while (auto ch = consume_if(classifier::is_digit))
     {
+        auto const digit = static_cast<std::uintmax_t>(ch.value() - s_zero);
+
         parsed_number = true;
+        overflowed = overflowed || (number > ((max - digit) / 10));
 
         number *= 10;
-        number += static_cast<std::uintmax_t>(ch.value() - s_zero);
+        number += digit;
     }
 
-    return parsed_number ? std::optional<std::uintmax_t>(number) : std::nullopt;
+    return (parsed_number && !overflowed) ? std::optional<std::uintmax_t>(number) : std::nullopt;
 }
 
 //==================================================================================================
 template <StandardCharacter CharType>
 constexpr std::optional<std::uintmax_t> BasicLexer<CharType>::consume_hex_number()
 {
+    constexpr auto max = std::numeric_limits<std::uintmax_t>::max();
+
     bool parsed_number = false;
+    bool overflowed = false;
     std::uintmax_t number = 0;
 
     while (auto ch = consume_if(classifier::is_x_digit))
     {
         parsed_number = true;
+        overflowed = overflowed || (number > (max / 16));
         number *= 16;
 
         if ((ch.value() >= s_upper_a) && (ch.value() <= s_upper_f))
@@ -266,7 +279,7 @@ constexpr std::optional<std::uintmax_t> BasicLexer<CharType>::consume_hex_number
         }
     }
 
-    return parsed_number ? std::optional<std::uintmax_t>(number) : std::nullopt;
+    return (parsed_number && !overflowed) ? std::optional<std::uintmax_t>(number) : std::nullopt;
 }
 
 //==================================================================================================
-- 
2.43.0


From b121a394da5143101e3ea76138a4dcba54641592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:42 +0000
Subject: [PATCH 06/68] fix: reject IPv6 strings with misplaced colons

Single colons at the beginning or end of the string, or next to the shorthand
for zeros, were ignored, as was a shorthand which does not replace any zeros.
---
 fly/net/ipv6_address.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/fly/net/ipv6_address.hpp b/fly/net/ipv6_address.hpp
index 62d97c6..6a41a8d 100644
--- a/fly/net/ipv6_address.hpp
+++ b/fly/net/ipv6_address.hpp
@@ -176,6 +176,11 @@ constexpr std::optional<IPv6Address> IPv6Address::from_string(std::string_view a
 
                 index_after_short_form = index;
             }
+            else if ((index == 0) || (index_after_short_form == index) || !lexer.peek())
+            {
+                // A single colon must separate two hexadectets.
+                return std::nullopt;
+            }
         }
         else if (auto const segment = lexer.consume_hex_number(); segment && (*segment <= s_max16))
         {
@@ -188,7 +193,7 @@ constexpr std::optional<IPv6Address> IPv6Address::from_string(std::string_view a
         }
     } while (lexer.peek() && (index < s_address_size));
 
-    if (lexer.peek() || ((index != s_address_size) && !index_after_short_form))
+    if (lexer.peek() || ((index != s_address_size) != index_after_short_form.has_value()))
     {
         return std::nullopt;
     }
-- 
2.43.0


From 953f0573b3bf086645f7e14f8032bdec58929844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:35 +0000
Subject: [PATCH 07/68] fix: index the Base64 code table with unsigned bytes

Bytes of 0x80 and above were sign extended, reading outside of the table.
---
 fly/coders/base64/base64_coder.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fly/coders/base64/base64_coder.cpp b/fly/coders/base64/base64_coder.cpp
index 9dad34d..12d6660 100644
--- a/fly/coders/base64/base64_coder.cpp
+++ b/fly/coders/base64/base64_coder.cpp
@@ -83,10 +83,10 @@ namespace {
     std::conditional_t<AllowPadding::value, std::size_t, bool>
     decode_chunk(std::ios::char_type const *encoded, std::ios::char_type *decoded)
     {
-        auto const code0 = s_base64_codes[static_cast<std::size_t>(encoded[0])];
-        auto const code1 = s_base64_codes[static_cast<std::size_t>(encoded[1])];
-        auto const code2 = s_base64_codes[static_cast<std::size_t>(encoded[2])];
-        auto const code3 = s_base64_codes[static_cast<std::size_t>(encoded[3])];
+        auto const code0 = s_base64_codes[static_cast<std::uint8_t>(encoded[0])];
+        auto const code1 = s_base64_codes[static_cast<std::uint8_t>(encoded[1])];
+        auto const code2 = s_base64_codes[static_cast<std::uint8_t>(encoded[2])];
+        auto const code3 = s_base64_codes[static_cast<std::uint8_t>(encoded[3])];
 
         // All 6 bits of the first code, first 2 bits of the second code.
         decoded[0] = static_cast<std::ios::char_type>((code0 << 2) | ((code1 >> 4) & 0x03));
-- 
2.43.0


From 107f43ab9979aa54330a649630ee21274469cdff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:35 +0000
Subject: [PATCH 08/68] fix: only zero the unused bytes of the last Base64
 chunk

The number of bytes already in the buffer was used as the number of bytes to
zero, overrunning the buffer if it was more than half full.
---
 fly/coders/base64/base64_coder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fly/coders/base64/base64_coder.cpp b/fly/coders/base64/base64_coder.cpp
index 12d6660..ec92a09 100644
--- a/fly/coders/base64/base64_coder.cpp
+++ b/fly/coders/base64/base64_coder.cpp
@@ -147,7 +147,7 @@ bool Base64Coder::encode_internal(std::istream &decoded, std::ostream &encoded)
         if (auto const remainder = bytes % s_decoded_chunk_size; remainder > 0)
         {
             auto const end = static_cast<std::size_t>(decoding - m_decoded.data()) + remainder;
-            ::memset(m_decoded.data() + end, '\0', end);
+            ::memset(m_decoded.data() + end, '\0', s_decoded_chunk_size - remainder);
 
             encode_chunk(decoding, m_encoded.data());
 
-- 
2.43.0


From 8f2b339b67a0e4446395b442a0bc09a2fa618050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:35 +0000
Subject: [PATCH 09/68] fix: allow Base64 padding at the end of a full read
 buffer

The last read was only recognized if it did not fill the buffer, thus padded
data whose size is a multiple of the buffer size was refused.
---
 fly/coders/base64/base64_coder.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fly/coders/base64/base64_coder.cpp b/fly/coders/base64/base64_coder.cpp
index ec92a09..7663014 100644
--- a/fly/coders/base64/base64_coder.cpp
+++ b/fly/coders/base64/base64_coder.cpp
@@ -167,6 +167,12 @@ bool Base64Coder::decode_internal(std::istream &encoded, std::ostream &decoded)
         encoded.read(m_encoded.data(), static_cast<std::streamsize>(m_encoded.size()));
         auto const bytes = static_cast<std::size_t>(encoded.gcount());
 
+        // If the last read filled the buffer exactly, the end of the stream is yet to be noticed.
+        if (encoded)
+        {
+            encoded.peek();
+        }
+
         if ((bytes % s_encoded_chunk_size) != 0)
         {
             decoded.setstate(std::ios::failbit);
-- 
2.43.0


From e5a3f8855f4ba43a41f7e7fe82e5b2a36f2f46e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:10 +0000
Subject: [PATCH 10/68] fix: write only the requested bits, at any position of
 the bit stream buffer

---
 fly/types/bit_stream/bit_stream_writer.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/fly/types/bit_stream/bit_stream_writer.hpp b/fly/types/bit_stream/bit_stream_writer.hpp
index 26abf10..d6047b8 100644
--- a/fly/types/bit_stream/bit_stream_writer.hpp
+++ b/fly/types/bit_stream/bit_stream_writer.hpp
@@ -6,6 +6,7 @@
 #include "fly/types/numeric/endian.hpp"
 
 #include <bit>
+#include <limits>
 #include <ostream>
 
 namespace fly {
@@ -100,6 +101,12 @@ private:
 template <detail::BitStreamInteger DataType>
 void BitStreamWriter::write_bits(DataType bits, byte_type size)
 {
+    // Only the least-significant bits are to be written, ignore any higher bits.
+    if (size < std::numeric_limits<DataType>::digits)
+    {
+        bits &= bit_mask<DataType>(static_cast<DataType>(size));
+    }
+
     // If there are more bits to write than are available in the byte buffer, break the bits into
     // two chunks.
     if (size > m_position)
@@ -107,8 +114,12 @@ void BitStreamWriter::write_bits(DataType bits, byte_type size)
         byte_type const rshift = size - m_position;
 
         // Fill the remainder of the byte buffer with as many bits as are available, and flush it
-        // onto the stream.
-        m_buffer |= static_cast<buffer_type>(bits) >> rshift;
+        // onto the stream. If there is no remainder, the shift width may be as wide as the buffer.
+        if (m_position > 0)
+        {
+            m_buffer |= static_cast<buffer_type>(bits) >> rshift;
+        }
+
         flush_buffer();
 
         // Then update the input bits to retain only those bits that have not been written yet.
-- 
2.43.0


From 0d550af27d09ca112830af0ca4dbe15d27fb9a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:27 +0000
Subject: [PATCH 11/68] fix: refuse Huffman configurations which cannot encode
 the input

---
 fly/coders/huffman/huffman_encoder.cpp | 27 +++++++++++++++++++++++---
 fly/coders/huffman/huffman_encoder.hpp |  4 +++-
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/fly/coders/huffman/huffman_encoder.cpp b/fly/coders/huffman/huffman_encoder.cpp
index 7b78b07..2d93a76 100644
--- a/fly/coders/huffman/huffman_encoder.cpp
+++ b/fly/coders/huffman/huffman_encoder.cpp
@@ -36,6 +36,16 @@ bool HuffmanEncoder::encode_binary(std::istream &decoded, fly::BitStreamWriter &
         LOGW("Maximum Huffman code length {} is too large for code_type", m_max_code_length);
         return false;
     }
+    else if (m_max_code_length == 0)
+    {
+        LOGW("Maximum Huffman code length must be non-zero");
+        return false;
+    }
+    else if (m_chunk_size == 0)
+    {
+        LOGW("Huffman chunk size must be non-zero");
+        return false;
+    }
 
     encode_header(encoded);
 
@@ -45,7 +55,12 @@ bool HuffmanEncoder::encode_binary(std::istream &decoded, fly::BitStreamWriter &
     while ((chunk_size = read_stream(decoded)) > 0)
     {
         create_tree(chunk_size);
-        create_codes();
+
+        if (!create_codes())
+        {
+            LOGW("Maximum Huffman code length {} is too small", m_max_code_length);
+            return false;
+        }
 
         encode_codes(encoded);
         encode_symbols(chunk_size, encoded);
@@ -112,7 +127,7 @@ void HuffmanEncoder::create_tree(std::uint32_t chunk_size)
 }
 
 //==================================================================================================
-void HuffmanEncoder::create_codes()
+bool HuffmanEncoder::create_codes()
 {
     std::stack<HuffmanNode const *> pending;
     std::stack<HuffmanNode const *> path;
@@ -158,12 +173,18 @@ void HuffmanEncoder::create_codes()
         }
     }
 
-    if (max_code_length > m_max_code_length)
+    if (m_huffman_codes_size > (1_u32 << m_max_code_length))
+    {
+        // There are not enough codes of the maximum code length to represent every symbol.
+        return false;
+    }
+    else if (max_code_length > m_max_code_length)
     {
         limit_code_lengths();
     }
 
     convert_to_canonical_form();
+    return true;
 }
 
 //==================================================================================================
diff --git a/fly/coders/huffman/huffman_encoder.hpp b/fly/coders/huffman/huffman_encoder.hpp
index 04ea766..933528a 100644
--- a/fly/coders/huffman/huffman_encoder.hpp
+++ b/fly/coders/huffman/huffman_encoder.hpp
@@ -112,8 +112,10 @@ private:
     /**
      * Create a list of Huffman codes from the generated Huffman tree. The list of codes will be in
      * canonical form.
+     *
+     * @return True if every symbol could be assigned a code within the maximum code length.
      */
-    void create_codes();
+    bool create_codes();
 
     /**
      * Insert a new Huffman code into the list of already sorted codes.
-- 
2.43.0


From a54bbc1044f8511e469092737c6bcc1af856520d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:42 +0000
Subject: [PATCH 12/68] fix: reject Huffman codes which are not a prefix code
 or are not fully available

---
 fly/coders/huffman/huffman_decoder.cpp | 29 +++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/fly/coders/huffman/huffman_decoder.cpp b/fly/coders/huffman/huffman_decoder.cpp
index 998d32c..77e7cdf 100644
--- a/fly/coders/huffman/huffman_decoder.cpp
+++ b/fly/coders/huffman/huffman_decoder.cpp
@@ -167,6 +167,20 @@ bool HuffmanDecoder::decode_codes(fly::BitStreamReader &encoded, length_type &ma
         }
     }
 
+    // The codes must satisfy the Kraft-McMillan inequality, or they would exceed the prefix table.
+    std::uint64_t kraft = 0;
+
+    for (length_type length = 0; length < counts_size; ++length)
+    {
+        kraft += static_cast<std::uint64_t>(counts[length]) << (m_max_code_length - length);
+    }
+
+    if (kraft > (1_u64 << m_max_code_length))
+    {
+        LOGW("Decoded code lengths which do not form a prefix code");
+        return false;
+    }
+
     // Decode the symbols.
     for (length_type length = 0; length < counts_size; ++length)
     {
@@ -211,6 +225,12 @@ bool HuffmanDecoder::decode_codes(fly::BitStreamReader &encoded, length_type &ma
 //==================================================================================================
 void HuffmanDecoder::convert_to_prefix_table(length_type max_code_length)
 {
+    // Forget codes from any previous chunk, a prefix may not be used in the current chunk.
+    for (std::size_t i = 0; i < (1_zu << max_code_length); ++i)
+    {
+        m_prefix_table[i] = HuffmanCode();
+    }
+
     for (std::uint16_t i = 0; i < m_huffman_codes_size; ++i)
     {
         HuffmanCode const code = std::move(m_huffman_codes[i]);
@@ -233,12 +253,19 @@ bool HuffmanDecoder::decode_symbols(
     std::ostream &decoded) const
 {
     std::uint32_t bytes = 0;
+    byte_type peeked;
     code_type prefix;
 
-    while ((bytes < chunk_size) && (encoded.peek_bits(prefix, max_code_length) != 0))
+    while ((bytes < chunk_size) && ((peeked = encoded.peek_bits(prefix, max_code_length)) != 0))
     {
         HuffmanCode const &code = m_prefix_table[prefix];
 
+        if ((code.m_length == 0) || (code.m_length > peeked))
+        {
+            LOGW("Decoded invalid code of length {} from {} bits", code.m_length, peeked);
+            return false;
+        }
+
         m_chunk_buffer[bytes++] = code.m_symbol;
         encoded.discard_bits(code.m_length);
     }
-- 
2.43.0


From 491978478d5fb6d7cd4ac09b06565cdc710bcf30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:08 +0000
Subject: [PATCH 13/68] fix: do not lose the task a worker has taken when the
 task manager stops

A worker which had already removed a task from the queue dropped it if the task
manager was stopped in between. The task's sequenced task runner then waited
for that task forever, also after the task manager was started again.
---
 fly/task/task_manager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fly/task/task_manager.cpp b/fly/task/task_manager.cpp
index ce5925c..6915bee 100644
--- a/fly/task/task_manager.cpp
+++ b/fly/task/task_manager.cpp
@@ -120,7 +120,7 @@ void TaskManager::worker_thread()
 
     while (m_keep_running.load())
     {
-        if (m_tasks.pop(task_holder, s_delay) && m_keep_running.load())
+        if (m_tasks.pop(task_holder, s_delay))
         {
             if (auto task_runner = task_holder.m_weak_task_runner.lock(); task_runner)
             {
-- 
2.43.0


From 5d58a37a497e86843647ccf0204aa1427f7ff0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:10 +0000
Subject: [PATCH 14/68] fix: release a dropped task without holding the task
 queue's mutex

The worker kept a task whose task runner was gone until it took the next task,
and then released it while holding the mutex of the task queue. If releasing
the task posted another task, the worker blocked itself forever.
---
 fly/task/task_manager.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fly/task/task_manager.cpp b/fly/task/task_manager.cpp
index 6915bee..f0a49f9 100644
--- a/fly/task/task_manager.cpp
+++ b/fly/task/task_manager.cpp
@@ -116,10 +116,10 @@ void TaskManager::post_task_with_delay(
 //==================================================================================================
 void TaskManager::worker_thread()
 {
-    TaskHolder task_holder;
-
     while (m_keep_running.load())
     {
+        TaskHolder task_holder;
+
         if (m_tasks.pop(task_holder, s_delay))
         {
             if (auto task_runner = task_holder.m_weak_task_runner.lock(); task_runner)
-- 
2.43.0


From 535a374d60df461e5fc7dbaf3c82f28cc0cf54d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:37 +0000
Subject: [PATCH 15/68] fix: refuse tasks for a busy sequenced task runner
 whose task manager is gone

A sequenced task runner with an unfinished task queued further tasks, and
reported that they were posted, although its task manager was deleted and they
could never run.
---
 fly/task/task_runner.cpp | 8 +++++++-
 fly/task/task_runner.hpp | 5 +++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/fly/task/task_runner.cpp b/fly/task/task_runner.cpp
index befbd4e..a8dccb0 100644
--- a/fly/task/task_runner.cpp
+++ b/fly/task/task_runner.cpp
@@ -42,6 +42,12 @@ bool TaskRunner::post_task_to_task_manager_with_delay(
     return false;
 }
 
+//==================================================================================================
+bool TaskRunner::has_task_manager() const
+{
+    return !m_weak_task_manager.expired();
+}
+
 //==================================================================================================
 void TaskRunner::execute(TaskLocation &&location, Task &&task)
 {
@@ -145,7 +151,7 @@ bool SequencedTaskRunner::maybe_post_task(TaskLocation &&location, Task &&task)
         m_has_running_task = posted_or_queued;
     }
 
-    if (task != nullptr)
+    if ((task != nullptr) && has_task_manager())
     {
         m_pending_tasks.push({std::move(location), std::move(task)});
         posted_or_queued = true;
diff --git a/fly/task/task_runner.hpp b/fly/task/task_runner.hpp
index 7cb7c17..e0768ae 100644
--- a/fly/task/task_runner.hpp
+++ b/fly/task/task_runner.hpp
@@ -344,6 +344,11 @@ protected:
         std::chrono::milliseconds delay,
         Task &&task);
 
+    /**
+     * @return True if the task manager has not been deleted.
+     */
+    bool has_task_manager() const;
+
 private:
     /**
      * Container to wrap around a generic callable type to allow perfect forwarding into lambdas.
-- 
2.43.0


From c2db2f7fe6009d14e9433b95c3425717320291dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:51 +0000
Subject: [PATCH 16/68] fix: store posted tasks by value

A callable passed as an lvalue to a task runner was stored by reference, which
dangled once the poster's variable went out of scope before the task ran.
---
 fly/task/task_runner.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fly/task/task_runner.hpp b/fly/task/task_runner.hpp
index e0768ae..0a69da7 100644
--- a/fly/task/task_runner.hpp
+++ b/fly/task/task_runner.hpp
@@ -356,7 +356,7 @@ private:
     template <typename TaskType>
     struct TaskHolder
     {
-        TaskType m_task;
+        std::decay_t<TaskType> m_task;
     };
 
     /**
-- 
2.43.0


From 827f82a934da495e6e7b56d8825eb90f18c972f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:51 +0000
Subject: [PATCH 17/68] fix: hand out delayed tasks without holding the delayed
 task mutex

If releasing a delayed task whose task runner is gone posted another delayed
task, the timer thread blocked itself forever.
---
 fly/task/task_manager.cpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/fly/task/task_manager.cpp b/fly/task/task_manager.cpp
index f0a49f9..6a8d9df 100644
--- a/fly/task/task_manager.cpp
+++ b/fly/task/task_manager.cpp
@@ -139,6 +139,7 @@ void TaskManager::timer_thread()
     while (m_keep_running.load())
     {
         auto now = std::chrono::steady_clock::now();
+        std::vector<TaskHolder> elapsed_tasks;
         {
             std::unique_lock<std::mutex> lock(m_delayed_tasks_mutex);
 
@@ -146,14 +147,7 @@ void TaskManager::timer_thread()
             {
                 if (it->m_schedule <= now)
                 {
-                    if (auto task_runner = it->m_weak_task_runner.lock(); task_runner)
-                    {
-                        TaskLocation location = std::move(it->m_location);
-                        Task task = std::move(it->m_task);
-
-                        task_runner->post_task_internal(std::move(location), std::move(task));
-                    }
-
+                    elapsed_tasks.push_back(std::move(*it));
                     it = m_delayed_tasks.erase(it);
                 }
                 else
@@ -163,6 +157,17 @@ void TaskManager::timer_thread()
             }
         }
 
+        for (auto &elapsed_task : elapsed_tasks)
+        {
+            if (auto task_runner = elapsed_task.m_weak_task_runner.lock(); task_runner)
+            {
+                TaskLocation location = std::move(elapsed_task.m_location);
+                Task task = std::move(elapsed_task.m_task);
+
+                task_runner->post_task_internal(std::move(location), std::move(task));
+            }
+        }
+
         std::this_thread::sleep_for(s_delay);
     }
 }
-- 
2.43.0


From 4b65be3f28500a9db569f7dc82aadfe191e0fcd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:18 +0000
Subject: [PATCH 18/68] fix: keep the registered logger when another one of the
 same name is refused

The destructor of the refused logger removed the name from the registry, so the
first logger could no longer be looked up, and its name could be used again.
---
 fly/logger/detail/registry.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/fly/logger/detail/registry.cpp b/fly/logger/detail/registry.cpp
index 85ceb7f..23fede6 100644
--- a/fly/logger/detail/registry.cpp
+++ b/fly/logger/detail/registry.cpp
@@ -65,7 +65,8 @@ bool Registry::register_logger(std::shared_ptr<fly::logger::Logger> logger)
 {
     std::lock_guard<std::mutex> lock(m_registry_mutex);
 
-    if (m_registry.find(logger->name()) != m_registry.end())
+    if (auto it = m_registry.find(logger->name());
+        (it != m_registry.end()) && !it->second.expired())
     {
         return false;
     }
@@ -83,7 +84,13 @@ void Registry::unregister_logger(std::string const &name)
     }
 
     std::lock_guard<std::mutex> lock(m_registry_mutex);
-    m_registry.erase(name);
+
+    // Another logger with this name may be alive: either it caused the logger which is being
+    // destroyed now to be refused, or it has since taken over the name.
+    if (auto it = m_registry.find(name); (it != m_registry.end()) && it->second.expired())
+    {
+        m_registry.erase(it);
+    }
 }
 
 //==================================================================================================
-- 
2.43.0


From 4bcf89f4ae722d9300a8f2957717f932e05b93c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:58 +0000
Subject: [PATCH 19/68] fix: remove the watches of a path monitor before
 closing its descriptor

---
 fly/path/nix/path_monitor_impl.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fly/path/nix/path_monitor_impl.cpp b/fly/path/nix/path_monitor_impl.cpp
index 571bf93..5017d56 100644
--- a/fly/path/nix/path_monitor_impl.cpp
+++ b/fly/path/nix/path_monitor_impl.cpp
@@ -36,6 +36,10 @@ PathMonitorImpl::PathMonitorImpl(
 //==================================================================================================
 PathMonitorImpl::~PathMonitorImpl()
 {
+    // The watches must be removed while their descriptor is still open, otherwise it may by then belong
+    // to someone else.
+    remove_all_paths();
+
     if (m_monitor_descriptor != -1)
     {
         ::close(m_monitor_descriptor);
-- 
2.43.0


From 86623a6c1e804ae874da8d335dd64fbd14a860dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:58 +0000
Subject: [PATCH 20/68] fix: remove the last file of a directory and its watch
 in one step

---
 fly/path/path_monitor.cpp | 41 ++++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/fly/path/path_monitor.cpp b/fly/path/path_monitor.cpp
index 94dd82c..c3a7dba 100644
--- a/fly/path/path_monitor.cpp
+++ b/fly/path/path_monitor.cpp
@@ -131,33 +131,34 @@ bool PathMonitor::add_file(std::filesystem::path const &file, PathEventCallback
 //==================================================================================================
 bool PathMonitor::remove_file(std::filesystem::path const &file)
 {
-    bool prune_path = false;
-    {
-        std::lock_guard<std::mutex> lock(m_mutex);
-        auto path_it = m_path_info.find(file.parent_path());
+    std::lock_guard<std::mutex> lock(m_mutex);
+    auto path_it = m_path_info.find(file.parent_path());
 
-        if (path_it == m_path_info.end())
-        {
-            LOGW("Wasn't monitoring {}", file);
-            return false;
-        }
+    if (path_it == m_path_info.end())
+    {
+        LOGW("Wasn't monitoring {}", file);
+        return false;
+    }
 
-        PathInfo *info = path_it->second.get();
-        auto file_it = info->m_file_handlers.find(file.filename());
+    PathInfo *info = path_it->second.get();
+    auto file_it = info->m_file_handlers.find(file.filename());
 
-        if (file_it == info->m_file_handlers.end())
-        {
-            LOGW("Wasn't monitoring {}", file);
-            return false;
-        }
+    if (file_it == info->m_file_handlers.end())
+    {
+        LOGW("Wasn't monitoring {}", file);
+        return false;
+    }
 
-        LOGD("Stopped monitoring {}", file);
-        info->m_file_handlers.erase(file_it);
+    LOGD("Stopped monitoring {}", file);
+    info->m_file_handlers.erase(file_it);
 
-        prune_path = info->m_file_handlers.empty() && !(info->m_path_handler);
+    if (info->m_file_handlers.empty() && !(info->m_path_handler))
+    {
+        LOGI("Removed monitor for {}", file.parent_path());
+        m_path_info.erase(path_it);
     }
 
-    return prune_path ? remove_path(file.parent_path()) : true;
+    return true;
 }
 
 //==================================================================================================
-- 
2.43.0


From b8c1fe8090a9a3f33df078b513d26fe7ea08533a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:58 +0000
Subject: [PATCH 21/68] fix: monitor a directory named with a trailing
 separator only once

---
 fly/path/path_monitor.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/fly/path/path_monitor.cpp b/fly/path/path_monitor.cpp
index c3a7dba..509c5cf 100644
--- a/fly/path/path_monitor.cpp
+++ b/fly/path/path_monitor.cpp
@@ -11,6 +11,16 @@
 
 namespace fly::path {
 
+namespace {
+
+    // A directory is the same with and without a trailing separator.
+    std::filesystem::path directory_key(std::filesystem::path const &path)
+    {
+        return path.has_filename() ? path : path.parent_path();
+    }
+
+} // namespace
+
 //==================================================================================================
 std::shared_ptr<PathMonitor> PathMonitor::create(
     std::shared_ptr<fly::task::SequencedTaskRunner> task_runner,
@@ -59,7 +69,7 @@ bool PathMonitor::add_path(std::filesystem::path const &path, PathEventCallback
     {
         std::lock_guard<std::mutex> lock(m_mutex);
 
-        if (PathInfo *info = get_or_create_path_info(path); info != nullptr)
+        if (PathInfo *info = get_or_create_path_info(directory_key(path)); info != nullptr)
         {
             LOGD("Monitoring all files in {}", path);
             info->m_path_handler = callback;
@@ -76,7 +86,7 @@ bool PathMonitor::remove_path(std::filesystem::path const &path)
 {
     std::lock_guard<std::mutex> lock(m_mutex);
 
-    if (auto it = m_path_info.find(path); it != m_path_info.end())
+    if (auto it = m_path_info.find(directory_key(path)); it != m_path_info.end())
     {
         LOGI("Removed monitor for {}", path);
         m_path_info.erase(it);
-- 
2.43.0


From 7af5462298902d97e2cc853e5faa4afd6a38fa12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:13 +0000
Subject: [PATCH 22/68] fix: monitor a directory again after it was deleted and
 recreated

---
 fly/path/nix/path_monitor_impl.cpp | 21 ++++++++++++++++++++-
 fly/path/nix/path_monitor_impl.hpp |  7 +++++++
 fly/path/path_monitor.cpp          | 10 +++++++++-
 3 files changed, 36 insertions(+), 2 deletions(-)

diff --git a/fly/path/nix/path_monitor_impl.cpp b/fly/path/nix/path_monitor_impl.cpp
index 5017d56..63eca2f 100644
--- a/fly/path/nix/path_monitor_impl.cpp
+++ b/fly/path/nix/path_monitor_impl.cpp
@@ -106,7 +106,11 @@ bool PathMonitorImpl::read_events()
         {
             event = reinterpret_cast<inotify_event *>(event_data);
 
-            if (event->len > 0)
+            if (event->mask & IN_IGNORED)
+            {
+                handle_removed_watch(event);
+            }
+            else if (event->len > 0)
             {
                 handle_event(event);
             }
@@ -159,6 +163,21 @@ void PathMonitorImpl::handle_event(inotify_event const *event) const
     }
 }
 
+//==================================================================================================
+void PathMonitorImpl::handle_removed_watch(inotify_event const *event)
+{
+    for (auto const &value : m_path_info)
+    {
+        auto *info = static_cast<PathInfoImpl *>(value.second.get());
+
+        if (info->m_watch_descriptor == event->wd)
+        {
+            LOGW("No longer able to monitor {}", value.first);
+            info->m_watch_descriptor = -1;
+        }
+    }
+}
+
 //==================================================================================================
 PathEvent PathMonitorImpl::convert_to_event(std::uint32_t mask) const
 {
diff --git a/fly/path/nix/path_monitor_impl.hpp b/fly/path/nix/path_monitor_impl.hpp
index a9e27ad..0313cd6 100644
--- a/fly/path/nix/path_monitor_impl.hpp
+++ b/fly/path/nix/path_monitor_impl.hpp
@@ -92,6 +92,13 @@ private:
      */
     void handle_event(inotify_event const *event) const;
 
+    /**
+     * Handle the removal of a watch by the system, e.g. because the watched directory was deleted.
+     *
+     * @param event The inotify event to handle.
+     */
+    void handle_removed_watch(inotify_event const *event);
+
     /**
      * Convert an inotify event mask to a PathEvent.
      *
diff --git a/fly/path/path_monitor.cpp b/fly/path/path_monitor.cpp
index 509c5cf..c0d7037 100644
--- a/fly/path/path_monitor.cpp
+++ b/fly/path/path_monitor.cpp
@@ -176,7 +176,9 @@ PathMonitor::PathInfo *PathMonitor::get_or_create_path_info(std::filesystem::pat
 {
     PathInfo *info = nullptr;
 
-    if (auto it = m_path_info.find(path); it != m_path_info.end())
+    auto it = m_path_info.find(path);
+
+    if ((it != m_path_info.end()) && it->second->is_valid())
     {
         info = it->second.get();
     }
@@ -186,6 +188,12 @@ PathMonitor::PathInfo *PathMonitor::get_or_create_path_info(std::filesystem::pat
 
         if (created_info && created_info->is_valid())
         {
+            if (it != m_path_info.end())
+            {
+                created_info->m_path_handler = std::move(it->second->m_path_handler);
+                created_info->m_file_handlers = std::move(it->second->m_file_handlers);
+            }
+
             info = created_info.get();
             m_path_info[path] = std::move(created_info);
         }
-- 
2.43.0


From 854991e14bde411a8bcfb9bb5d9895acaba7b9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:45 +0000
Subject: [PATCH 23/68] fix: a configuration manager dropped while its file
 changes deadlocked on its path monitor

---
 fly/config/config_manager.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/fly/config/config_manager.cpp b/fly/config/config_manager.cpp
index da40c90..a776b12 100644
--- a/fly/config/config_manager.cpp
+++ b/fly/config/config_manager.cpp
@@ -81,16 +81,16 @@ bool ConfigManager::start()
 
     std::weak_ptr<ConfigManager> weak_self = shared_from_this();
 
-    auto callback = [weak_self](std::filesystem::path, fly::path::PathEvent) {
-        if (auto self = weak_self.lock(); self)
-        {
-            auto task = [](std::shared_ptr<ConfigManager> nested_self) {
-                nested_self->update_config();
+    // N.B. The path monitor is locked while it invokes this callback, thus the callback must not hold
+    // a strong reference to this configuration manager: its destructor would use the path monitor.
+    auto callback =
+        [task_runner = m_task_runner, weak_self](std::filesystem::path, fly::path::PathEvent) {
+            auto task = [](std::shared_ptr<ConfigManager> self) {
+                self->update_config();
             };
 
-            self->m_task_runner->post_task(FROM_HERE, std::move(weak_self), std::move(task));
-        }
-    };
+            task_runner->post_task(FROM_HERE, weak_self, std::move(task));
+        };
 
     return m_monitor->add_file(m_path, callback);
 }
-- 
2.43.0


From db3c209eec0b739c1e62b9cc3eb21a8a12b8acb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:45 +0000
Subject: [PATCH 24/68] fix: configurations kept stale values when their file
 became something other than key-value pairs

---
 fly/config/config_manager.cpp | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/fly/config/config_manager.cpp b/fly/config/config_manager.cpp
index a776b12..a66589f 100644
--- a/fly/config/config_manager.cpp
+++ b/fly/config/config_manager.cpp
@@ -132,28 +132,26 @@ void ConfigManager::update_config()
         m_values = nullptr;
     }
 
-    if (m_values.is_object() || m_values.is_null())
-    {
-        for (auto it = m_configs.begin(); it != m_configs.end();)
-        {
-            std::shared_ptr<Config> config = it->second.lock();
-
-            if (config)
-            {
-                config->update(m_values[it->first]);
-                ++it;
-            }
-            else
-            {
-                it = m_configs.erase(it);
-            }
-        }
-    }
-    else
+    if (!m_values.is_object() && !m_values.is_null())
     {
         LOGW("Parsed non key-value pairs file, ignoring update");
         m_values = nullptr;
     }
+
+    for (auto it = m_configs.begin(); it != m_configs.end();)
+    {
+        std::shared_ptr<Config> config = it->second.lock();
+
+        if (config)
+        {
+            config->update(m_values[it->first]);
+            ++it;
+        }
+        else
+        {
+            it = m_configs.erase(it);
+        }
+    }
 }
 
 } // namespace fly::config
-- 
2.43.0


From 7e2436cb97378427cdadd9a386017c1f92def4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:14 +0000
Subject: [PATCH 25/68] fix: reject a malformed comment that follows a comma

---
 fly/parser/json_parser.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/fly/parser/json_parser.cpp b/fly/parser/json_parser.cpp
index eb645d1..379fcbe 100644
--- a/fly/parser/json_parser.cpp
+++ b/fly/parser/json_parser.cpp
@@ -287,18 +287,16 @@ JsonParser::ParseState JsonParser::consume_comma(Token end_token)
     {
         return ParseState::Invalid;
     }
-    else if (state_for_object_or_array(end_token) == ParseState::StopParsing)
-    {
-        if (m_allow_trailing_comma)
-        {
-            return ParseState::StopParsing;
-        }
 
+    ParseState const state = state_for_object_or_array(end_token);
+
+    if ((state == ParseState::StopParsing) && !m_allow_trailing_comma)
+    {
         JLOG("Found trailing comma, but Features::AllowTrailingComma is not enabled");
         return ParseState::Invalid;
     }
 
-    return ParseState::KeepParsing;
+    return state;
 }
 
 //==================================================================================================
-- 
2.43.0


From aac1b5ac85720d3dbc4f37e1c5cde263067a9b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:14 +0000
Subject: [PATCH 26/68] fix: allow comments between an object's key and its
 colon

---
 fly/parser/json_parser.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fly/parser/json_parser.cpp b/fly/parser/json_parser.cpp
index 379fcbe..221ccaf 100644
--- a/fly/parser/json_parser.cpp
+++ b/fly/parser/json_parser.cpp
@@ -269,7 +269,10 @@ std::optional<fly::Json> JsonParser::parse_value()
 //==================================================================================================
 JsonParser::ParseState JsonParser::consume_token(Token token)
 {
-    consume_whitespace();
+    if (consume_whitespace_and_comments() == ParseState::Invalid)
+    {
+        return ParseState::Invalid;
+    }
 
     if (Token const parsed = get<Token>(); parsed != token)
     {
-- 
2.43.0


From f730591413564ff96520685dd23f7b3c0cbc5775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:14 +0000
Subject: [PATCH 27/68] fix: do not accept a vertical tab as JSON whitespace

---
 fly/parser/json_parser.cpp | 1 -
 fly/parser/json_parser.hpp | 1 -
 2 files changed, 2 deletions(-)

diff --git a/fly/parser/json_parser.cpp b/fly/parser/json_parser.cpp
index 221ccaf..79b1de8 100644
--- a/fly/parser/json_parser.cpp
+++ b/fly/parser/json_parser.cpp
@@ -469,7 +469,6 @@ bool JsonParser::is_whitespace(Token token) const
     {
         case Token::Tab:
         case Token::NewLine:
-        case Token::VerticalTab:
         case Token::CarriageReturn:
         case Token::Space:
             return true;
diff --git a/fly/parser/json_parser.hpp b/fly/parser/json_parser.hpp
index 5bb80a2..984666c 100644
--- a/fly/parser/json_parser.hpp
+++ b/fly/parser/json_parser.hpp
@@ -51,7 +51,6 @@ public:
 
         Tab = 0x09, // \t
         NewLine = 0x0a, // \n
-        VerticalTab = 0x0b, // \v
         CarriageReturn = 0x0d, // \r
         Space = 0x20, // <space>
 
-- 
2.43.0


From 8188c0e4f3631bae5c2aef9dbbf44870a5751136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:53 +0000
Subject: [PATCH 28/68] fix: leave a null JSON value alone when the operation
 that would promote it fails

---
 fly/types/json/json.cpp |  4 ++--
 fly/types/json/json.hpp | 16 +++++++++++++---
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/fly/types/json/json.cpp b/fly/types/json/json.cpp
index 103bf46..59b0cb6 100644
--- a/fly/types/json/json.cpp
+++ b/fly/types/json/json.cpp
@@ -713,8 +713,8 @@ void Json::swap(reference json)
 //==================================================================================================
 void Json::merge(fly::Json &other)
 {
-    auto &this_storage = get_or_promote<json_object_type>("JSON type invalid for merging");
     auto &other_storage = other.get<json_object_type>("Other JSON type invalid for merging");
+    auto &this_storage = get_or_promote<json_object_type>("JSON type invalid for merging");
 
     this_storage.merge(other_storage);
 }
@@ -722,8 +722,8 @@ void Json::merge(fly::Json &other)
 //==================================================================================================
 void Json::merge(fly::Json &&other)
 {
-    auto &this_storage = get_or_promote<json_object_type>("JSON type invalid for merging");
     auto &other_storage = other.get<json_object_type>("Other JSON type invalid for merging");
+    auto &this_storage = get_or_promote<json_object_type>("JSON type invalid for merging");
 
     this_storage.merge(std::move(other_storage));
 }
diff --git a/fly/types/json/json.hpp b/fly/types/json/json.hpp
index 82e63de..b830b74 100644
--- a/fly/types/json/json.hpp
+++ b/fly/types/json/json.hpp
@@ -1810,8 +1810,11 @@ Json::const_reference Json::at(T key) const
 template <JsonStringLike T>
 Json::reference Json::operator[](T key)
 {
+    // Convert the key first, so that a null value is not promoted if the key is invalid.
+    auto key_string = convert_to_string(std::move(key));
+
     auto &storage = get_or_promote<json_object_type>("JSON type invalid for operator[key]");
-    return storage[convert_to_string(std::move(key))];
+    return storage[std::move(key_string)];
 }
 
 //==================================================================================================
@@ -1854,8 +1857,12 @@ std::pair<Json::iterator, bool> Json::insert_or_assign(Key key, Json &&value)
 template <JsonStringLike Key, typename Value>
 std::pair<Json::iterator, bool> Json::emplace(Key key, Value &&value)
 {
+    // Convert the arguments first, so that a null value is not promoted if they are invalid.
+    auto key_string = convert_to_string(std::move(key));
+    Json json(std::forward<Value>(value));
+
     auto &storage = get_or_promote<json_object_type>("JSON type invalid for object emplacement");
-    auto result = storage.emplace(convert_to_string(std::move(key)), std::forward<Value>(value));
+    auto result = storage.emplace(std::move(key_string), std::move(json));
 
     auto it = end();
     it.m_iterator = result.first;
@@ -1867,8 +1874,11 @@ std::pair<Json::iterator, bool> Json::emplace(Key key, Value &&value)
 template <typename... Args>
 Json::reference Json::emplace_back(Args &&...args)
 {
+    // Create the value first, so that a null value is not promoted if the arguments are invalid.
+    Json value(std::forward<Args>(args)...);
+
     auto &storage = get_or_promote<json_array_type>("JSON type invalid for array emplacement");
-    return storage.emplace_back(std::forward<Args>(args)...);
+    return storage.emplace_back(std::move(value));
 }
 
 //==================================================================================================
-- 
2.43.0


From a041a2d36085edf5262c5e78c154984d94eec173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:28 +0000
Subject: [PATCH 29/68] fix: refuse to move a JSON iterator by the smallest
 possible offset

---
 fly/types/json/detail/json_iterator.hpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/fly/types/json/detail/json_iterator.hpp b/fly/types/json/detail/json_iterator.hpp
index 73aca05..840b4a4 100644
--- a/fly/types/json/detail/json_iterator.hpp
+++ b/fly/types/json/detail/json_iterator.hpp
@@ -5,9 +5,9 @@
 #include "fly/types/json/json_exception.hpp"
 #include "fly/types/string/string.hpp"
 
-#include <cmath>
 #include <cstdint>
 #include <iterator>
+#include <limits>
 #include <type_traits>
 #include <variant>
 
@@ -742,6 +742,13 @@ auto JsonIterator<JsonType>::operator+=(difference_type offset) -> JsonIterator
 template <fly::SameAs<Json> JsonType>
 auto JsonIterator<JsonType>::operator-=(difference_type offset) -> JsonIterator &
 {
+    // The smallest offset cannot be negated, and is out-of-range for any JSON value.
+    if (offset == std::numeric_limits<difference_type>::min())
+    {
+        validate_iterator();
+        throw OutOfRangeJsonException(*m_json, offset);
+    }
+
     return *this += -offset;
 }
 
@@ -854,20 +861,21 @@ template <typename T>
 void JsonIterator<JsonType>::validate_offset(T const &it, difference_type offset) const
 
 {
-    difference_type distance = 0;
+    bool out_of_range = false;
 
+    // N.B. The offset is not negated because the smallest offset does not have a positive value.
     if (offset >= 0)
     {
         JsonIterator const end = m_json->end();
-        distance = std::distance(it, std::get<T>(end.m_iterator));
+        out_of_range = offset > std::distance(it, std::get<T>(end.m_iterator));
     }
     else
     {
         JsonIterator const begin = m_json->begin();
-        distance = std::distance(std::get<T>(begin.m_iterator), it);
+        out_of_range = offset < -std::distance(std::get<T>(begin.m_iterator), it);
     }
 
-    if (std::abs(offset) > distance)
+    if (out_of_range)
     {
         throw OutOfRangeJsonException(*m_json, offset);
     }
-- 
2.43.0


From 7918ca2fe449dbb2ceaefb53a8244f997f3a1f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:00 +0000
Subject: [PATCH 30/68] fix: compare signed and unsigned JSON integers by value

---
 fly/types/json/json.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fly/types/json/json.cpp b/fly/types/json/json.cpp
index 59b0cb6..2226ee7 100644
--- a/fly/types/json/json.cpp
+++ b/fly/types/json/json.cpp
@@ -747,7 +747,7 @@ bool operator==(Json::const_reference json1, Json::const_reference json2)
         }
         else if constexpr (JsonNumber<S1> && JsonNumber<S2>)
         {
-            return value1 == static_cast<S1>(value2);
+            return std::cmp_equal(value1, value2);
         }
         else if constexpr (fly::SameAs<S1, S2>)
         {
@@ -789,7 +789,7 @@ bool operator<(Json::const_reference json1, Json::const_reference json2)
         }
         else if constexpr (JsonNumber<S1> && JsonNumber<S2>)
         {
-            return value1 < static_cast<S1>(value2);
+            return std::cmp_less(value1, value2);
         }
         else if constexpr (fly::SameAs<S1, S2>)
         {
-- 
2.43.0


From abc49e0b83640a64e0bf112984a42f0304536519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:31 +0000
Subject: [PATCH 31/68] fix: hash JSON numbers that are equal to the same value

---
 fly/types/json/json.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fly/types/json/json.hpp b/fly/types/json/json.hpp
index b830b74..d10adb2 100644
--- a/fly/types/json/json.hpp
+++ b/fly/types/json/json.hpp
@@ -2205,6 +2205,12 @@ struct std::hash<fly::Json>
 
                 return result;
             }
+            else if constexpr (fly::JsonNumber<S>)
+            {
+                // Numbers of different types may be equal, thus must have the same hash.
+                std::hash<fly::json_floating_point_type> hasher {};
+                return hasher(static_cast<fly::json_floating_point_type>(storage));
+            }
             else
             {
                 std::hash<std::remove_cvref_t<S>> hasher {};
-- 
2.43.0


From 57879c410b34018afb1137500ee4468e8de89e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:30 +0000
Subject: [PATCH 32/68] fix: do not drop characters outside of the ASCII range
 when formatting

A char with a negative value was treated as a negative integer, which has no character
representation, rather than as the code unit it is.
---
 fly/types/string/formatters.hpp | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/fly/types/string/formatters.hpp b/fly/types/string/formatters.hpp
index 882fa6d..2267da7 100644
--- a/fly/types/string/formatters.hpp
+++ b/fly/types/string/formatters.hpp
@@ -202,6 +202,16 @@ struct Formatter<T, CharType> : public detail::BasicFormatSpecifier<CharType>
     template <typename FormatContext>
     inline void format(T value, FormatContext &context)
     {
+        // A character of the format string's own type is always representable.
+        if constexpr (fly::SameAs<T, CharType>)
+        {
+            if (m_type == FormatSpecifier::Type::Character)
+            {
+                append_character(value, context);
+                return;
+            }
+        }
+
         if constexpr (std::is_signed_v<T>)
         {
             using U = std::make_unsigned_t<std::remove_cvref_t<T>>;
@@ -368,6 +378,20 @@ private:
             return;
         }
 
+        append_character(static_cast<CharType>(value), context);
+    }
+
+    /**
+     * Append a character, and any padding it requires, to the buffer.
+     *
+     * @tparam FormatContext The type of the formatting context.
+     *
+     * @param value The character to append.
+     * @param context The context holding the formatting state.
+     */
+    template <typename FormatContext>
+    void append_character(CharType value, FormatContext &context)
+    {
         std::size_t const width = FormatSpecifier::width(context, 0);
         std::size_t const padding_size = width > 1 ? width - 1 : 0;
         auto const padding_char = m_fill.value_or(s_space);
@@ -382,13 +406,13 @@ private:
         switch (m_alignment)
         {
             case FormatSpecifier::Alignment::Left:
-                *context.out()++ = static_cast<CharType>(value);
+                *context.out()++ = value;
                 append_padding(padding_size);
                 break;
 
             case FormatSpecifier::Alignment::Right:
                 append_padding(padding_size);
-                *context.out()++ = static_cast<CharType>(value);
+                *context.out()++ = value;
                 break;
 
             case FormatSpecifier::Alignment::Center:
@@ -398,14 +422,14 @@ private:
                     (padding_size % 2 == 0) ? left_padding : left_padding + 1;
 
                 append_padding(left_padding);
-                *context.out()++ = static_cast<CharType>(value);
+                *context.out()++ = value;
                 append_padding(right_padding);
                 break;
             }
 
             case FormatSpecifier::Alignment::Default:
                 append_padding(padding_size);
-                *context.out()++ = static_cast<CharType>(value);
+                *context.out()++ = value;
                 break;
         }
     }
-- 
2.43.0


From ab616b9bd4894f8817bed4fa67edc45b11d9771b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:30 +0000
Subject: [PATCH 33/68] fix: format floating-point values which need many
 digits

The conversion buffer only had room for as many characters as the type has binary digits; longer
results (such as {:f} of 1e60 or {:.60f}) were formatted as indeterminate characters.
---
 fly/types/string/formatters.hpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/fly/types/string/formatters.hpp b/fly/types/string/formatters.hpp
index 2267da7..516a4ed 100644
--- a/fly/types/string/formatters.hpp
+++ b/fly/types/string/formatters.hpp
@@ -18,6 +18,7 @@
 #include <string>
 #include <system_error>
 #include <type_traits>
+#include <vector>
 
 #if !defined(FLY_COMPILER_SUPPORTS_FP_CHARCONV)
 #    include <iomanip>
@@ -796,10 +797,7 @@ private:
      */
     FloatConversionResult convert_value(T value, int precision)
     {
-        static thread_local std::array<char, std::numeric_limits<T>::digits> s_buffer;
-
-        char *begin = s_buffer.data();
-        char *end = begin + s_buffer.size();
+        static thread_local std::vector<char> s_buffer(std::numeric_limits<T>::max_exponent10 + 32);
 
         std::chars_format fmt = std::chars_format::general;
         char exponent = '\0';
@@ -822,7 +820,20 @@ private:
                 break;
         }
 
-        auto const to_chars_result = std::to_chars(begin, end, value, fmt, precision);
+        auto convert = [&]() {
+            char *buffer = s_buffer.data();
+            return std::to_chars(buffer, buffer + s_buffer.size(), value, fmt, precision);
+        };
+
+        auto to_chars_result = convert();
+
+        while (to_chars_result.ec == std::errc::value_too_large)
+        {
+            s_buffer.resize(s_buffer.size() * 2);
+            to_chars_result = convert();
+        }
+
+        char *begin = s_buffer.data();
 
         FloatConversionResult conversion_result;
         conversion_result.m_digits =
-- 
2.43.0


From 7b3fc13de4c32f2e50692ff4c91f798cb9c18f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:30 +0000
Subject: [PATCH 34/68] fix: append zeroes by significant digits in alternate
 form of general floats

Leading zeroes were counted as significant digits, so {:#g} of 0.5 lost its last zero.
---
 fly/types/string/formatters.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/fly/types/string/formatters.hpp b/fly/types/string/formatters.hpp
index 516a4ed..3559443 100644
--- a/fly/types/string/formatters.hpp
+++ b/fly/types/string/formatters.hpp
@@ -860,8 +860,16 @@ private:
 
             if (m_type == FormatSpecifier::Type::General)
             {
-                auto const digits = conversion_result.m_digits.size() -
-                    static_cast<std::size_t>(!conversion_result.m_append_decimal);
+                // Zeroes which precede the first non-zero digit are not significant, unless the
+                // value itself is zero.
+                std::size_t digits = 0;
+                bool significant = value == 0;
+
+                for (auto ch : conversion_result.m_digits)
+                {
+                    significant = significant || ((ch != '0') && (ch != '.'));
+                    digits += static_cast<std::size_t>(significant && (ch != '.'));
+                }
 
                 if (static_cast<std::size_t>(precision) > digits)
                 {
-- 
2.43.0


From cc70a2323f76185598aa8b32f5d98b779d48578e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:30 +0000
Subject: [PATCH 35/68] fix: ignore alternate form and zero-padding for
 infinity and NaN

These were formatted as, for example, "inf." and "000inf", unlike std::format.
---
 fly/types/string/formatters.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fly/types/string/formatters.hpp b/fly/types/string/formatters.hpp
index 3559443..6662b00 100644
--- a/fly/types/string/formatters.hpp
+++ b/fly/types/string/formatters.hpp
@@ -557,6 +557,9 @@ struct Formatter<T, CharType> : public detail::BasicFormatSpecifier<CharType>
             ++prefix_size;
         }
 
+        // Infinity and NaN do not have digits to pad with zeros.
+        bool const zero_padding = m_zero_padding && std::isfinite(value);
+
         int const precision = static_cast<int>(FormatSpecifier::precision(context, 6));
         FloatConversionResult const result = convert_value(value, precision);
 
@@ -660,7 +663,7 @@ struct Formatter<T, CharType> : public detail::BasicFormatSpecifier<CharType>
             }
 
             case FormatSpecifier::Alignment::Default:
-                if (m_zero_padding)
+                if (zero_padding)
                 {
                     append_prefix();
                     append_padding(padding_size, s_zero);
@@ -839,7 +842,7 @@ private:
         conversion_result.m_digits =
             std::string_view(begin, static_cast<std::size_t>(to_chars_result.ptr - begin));
 
-        if (m_alternate_form)
+        if (m_alternate_form && std::isfinite(value))
         {
             conversion_result.m_append_decimal = true;
 
-- 
2.43.0


From f463b95971d1da238ee1d92252d889bb8428ef6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:46 +0000
Subject: [PATCH 36/68] fix: format the right parameter when a user-defined
 type has options

The options of a formatter which inherits a standard formatter were copied to the replacement
field together with the (default) position, so that the first parameter was formatted instead.
---
 fly/types/string/detail/format_string.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fly/types/string/detail/format_string.hpp b/fly/types/string/detail/format_string.hpp
index 61ddbb5..5b49ac6 100644
--- a/fly/types/string/detail/format_string.hpp
+++ b/fly/types/string/detail/format_string.hpp
@@ -209,6 +209,7 @@ constexpr void BasicFormatString<CharType, ParameterTypes...>::parse_user_define
 
             if constexpr (fly::DerivedFrom<Formatter, FormatSpecifier>)
             {
+                formatter.m_position = specifier.m_position;
                 formatter.copy_formatting_options_into(specifier);
             }
         }
-- 
2.43.0


From 25df5e5fa9a5b7426d0520136e353795ced95fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:46 +0000
Subject: [PATCH 37/68] fix: infer the presentation type of formatters which
 inherit a standard formatter

Without an explicit type, such a value had no presentation type: integers were formatted in base
20, and options for numeric types were refused.
---
 fly/types/string/detail/format_specifier.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/fly/types/string/detail/format_specifier.hpp b/fly/types/string/detail/format_specifier.hpp
index 2b29472..e5dca15 100644
--- a/fly/types/string/detail/format_specifier.hpp
+++ b/fly/types/string/detail/format_specifier.hpp
@@ -512,6 +512,13 @@ constexpr void BasicFormatSpecifier<CharType>::parse(FormatParseContext &context
 {
     m_was_parsed_as_standard_formatter = true;
 
+    // The presentation type of user-defined types is only known once the formatter which the
+    // user-defined formatter inherits from is known.
+    if (m_type == Type::None)
+    {
+        infer_type(context);
+    }
+
     parse_fill_and_alignment(context);
     parse_sign(context);
     parse_alternate_form_and_zero_padding(context);
-- 
2.43.0


From 7a0375d91e1f0ff0121e04c7456d47dfa11c6dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:46 +0000
Subject: [PATCH 38/68] fix: refuse positions and widths which are too large to
 be represented

Such numbers were skipped: the field was treated as if it had no position or no width at all.
---
 fly/types/string/detail/format_parse_context.hpp | 5 +++++
 fly/types/string/detail/format_specifier.hpp     | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/fly/types/string/detail/format_parse_context.hpp b/fly/types/string/detail/format_parse_context.hpp
index 97d3a59..b68da53 100644
--- a/fly/types/string/detail/format_parse_context.hpp
+++ b/fly/types/string/detail/format_parse_context.hpp
@@ -132,6 +132,7 @@ constexpr BasicFormatParseContext<CharType>::BasicFormatParseContext(
 template <fly::StandardCharacter CharType>
 constexpr std::size_t BasicFormatParseContext<CharType>::next_position()
 {
+    std::size_t const starting_position = m_lexer.position();
     std::size_t position = 0;
 
     if (auto specified_position = m_lexer.consume_number(); specified_position)
@@ -139,6 +140,10 @@ constexpr std::size_t BasicFormatParseContext<CharType>::next_position()
         m_expect_all_positions_specified = true;
         position = static_cast<std::size_t>(*specified_position);
     }
+    else if (m_lexer.position() != starting_position)
+    {
+        on_error("Argument position exceeds number of provided arguments");
+    }
     else
     {
         m_expect_no_positions_specified = true;
diff --git a/fly/types/string/detail/format_specifier.hpp b/fly/types/string/detail/format_specifier.hpp
index e5dca15..bf5a2b5 100644
--- a/fly/types/string/detail/format_specifier.hpp
+++ b/fly/types/string/detail/format_specifier.hpp
@@ -599,10 +599,16 @@ BasicFormatSpecifier<CharType>::parse_alternate_form_and_zero_padding(FormatPars
 template <fly::StandardCharacter CharType>
 constexpr void BasicFormatSpecifier<CharType>::parse_width(FormatParseContext &context)
 {
+    auto const starting_position = context.lexer().position();
+
     if (auto width = context.lexer().consume_number(); width)
     {
         m_width = static_cast<std::size_t>(*width);
     }
+    else if (context.lexer().position() != starting_position)
+    {
+        context.on_error("Width is too large");
+    }
     else if (context.lexer().consume_if(s_left_brace))
     {
         if (auto nested = parse_nested_specifier(context); nested)
-- 
2.43.0


From 3c28f44b84f48799b50a433d6274bac1953692bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:01 +0000
Subject: [PATCH 39/68] fix: allow options of inherited formatters in
 compile-time format strings

The default constructor of formatters was not constexpr, so options for user-defined types whose
formatter inherits a standard formatter did not compile with immediate functions.
---
 fly/types/string/detail/format_specifier.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fly/types/string/detail/format_specifier.hpp b/fly/types/string/detail/format_specifier.hpp
index bf5a2b5..9a325a6 100644
--- a/fly/types/string/detail/format_specifier.hpp
+++ b/fly/types/string/detail/format_specifier.hpp
@@ -488,7 +488,7 @@ private:
     using FormatSpecifier::m_case;                                                                 \
     using FormatSpecifier::m_parameter_type;                                                       \
                                                                                                    \
-    Formatter()                                                                                    \
+    constexpr Formatter()                                                                          \
     {                                                                                              \
         m_parameter_type = parameter_type;                                                         \
     }                                                                                              \
-- 
2.43.0


From 07b540388e01a9430913c039e1c964a46e919120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:30 +0000
Subject: [PATCH 40/68] fix: do not drop assignment operators adjacent to
 others from INI names and values

---
 fly/parser/ini_parser.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/fly/parser/ini_parser.cpp b/fly/parser/ini_parser.cpp
index a7b4c5a..6038bf2 100644
--- a/fly/parser/ini_parser.cpp
+++ b/fly/parser/ini_parser.cpp
@@ -3,8 +3,6 @@
 #include "fly/logger/logger.hpp"
 #include "fly/types/string/string.hpp"
 
-#include <vector>
-
 namespace fly::parser {
 
 #define ILOG(format, ...) LOGW("[line {}]: " format, line() __VA_OPT__(, ) __VA_ARGS__)
@@ -120,18 +118,21 @@ std::optional<std::string> IniParser::on_section(std::string &section)
 std::optional<std::pair<std::string, std::string>>
 IniParser::on_name_value_pair(std::string const &name_value)
 {
-    static constexpr std::uint32_t s_size = 2;
-
-    std::vector<std::string> pair = fly::String::split(name_value, '=', s_size);
-
-    if (pair.size() == s_size)
+    if (auto assignment = name_value.find('='); assignment != std::string::npos)
     {
-        std::string name(std::move(pair[0])), value(std::move(pair[1]));
+        std::string name = name_value.substr(0, assignment);
+        std::string value = name_value.substr(assignment + 1);
 
         fly::String::trim(name);
         fly::String::trim(value);
 
-        if ((trim_value(name, '\'') != TrimResult::Untrimmed) ||
+        if (name.empty() || value.empty())
+        {
+            ILOG("Value names and values must not be empty");
+            return std::nullopt;
+        }
+        else if (
+            (trim_value(name, '\'') != TrimResult::Untrimmed) ||
             (trim_value(name, '\"') != TrimResult::Untrimmed))
         {
             ILOG("Value names must not be quoted");
-- 
2.43.0


From a5f8eb41ec31d3406f450b2501fc64a1d5722470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:30 +0000
Subject: [PATCH 41/68] fix: refuse a lone quote as an INI value

---
 fly/parser/ini_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fly/parser/ini_parser.cpp b/fly/parser/ini_parser.cpp
index 6038bf2..43994b5 100644
--- a/fly/parser/ini_parser.cpp
+++ b/fly/parser/ini_parser.cpp
@@ -166,7 +166,7 @@ IniParser::TrimResult IniParser::trim_value(std::string &str, char start, char e
     bool starts_with_char = str.starts_with(start);
     bool ends_with_char = str.ends_with(end);
 
-    if (starts_with_char && ends_with_char)
+    if (starts_with_char && ends_with_char && (str.size() > 1))
     {
         str = str.substr(1, str.size() - 2);
         return TrimResult::Trimmed;
-- 
2.43.0


From 9552a6973a28b4dfdabc3c571cb344c835d0352f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:32 +0000
Subject: [PATCH 42/68] fix: refuse to parse files which end in the middle of a
 code unit

---
 fly/parser/parser.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fly/parser/parser.hpp b/fly/parser/parser.hpp
index 0df8bd5..b0cd804 100644
--- a/fly/parser/parser.hpp
+++ b/fly/parser/parser.hpp
@@ -214,6 +214,12 @@ std::optional<std::string> Parser::ensure_utf8(std::istream &stream) const
         {
             std::uint8_t const shift = 8 * (s_char_size - i - 1);
             character |= static_cast<char_type>(stream.get() & 0xff) << shift;
+
+            if (!stream && (i > 0))
+            {
+                // The stream ended in the middle of a code unit.
+                return std::nullopt;
+            }
         }
 
         if (stream)
-- 
2.43.0


From de25865d4852c285e51864f92f3b4dbc7898718b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:32 +0000
Subject: [PATCH 43/68] fix: fail to parse paths which cannot be read rather
 than throwing

---
 fly/parser/parser.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/fly/parser/parser.cpp b/fly/parser/parser.cpp
index 52579ba..074c8bf 100644
--- a/fly/parser/parser.cpp
+++ b/fly/parser/parser.cpp
@@ -93,10 +93,20 @@ std::optional<fly::Json> Parser::parse_stream(std::istream &&stream)
     m_line = 1;
     m_column = 0;
 
+    std::optional<fly::Json> result;
     m_stream_buffer = stream.rdbuf();
-    auto result = parse_internal();
-    m_stream_buffer = nullptr;
 
+    try
+    {
+        result = parse_internal();
+    }
+    catch (std::ios_base::failure const &)
+    {
+        // The path was opened but cannot be read, e.g. it is a directory.
+        result = std::nullopt;
+    }
+
+    m_stream_buffer = nullptr;
     return result;
 }
 
-- 
2.43.0


From 8d0f37fa2195fdf93aac45ee78750c436d716059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:54 +0000
Subject: [PATCH 44/68] fix: keep the previous system CPU usage when no time
 has elapsed

---
 fly/system/nix/system_monitor_impl.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fly/system/nix/system_monitor_impl.cpp b/fly/system/nix/system_monitor_impl.cpp
index a9ccbe8..bbea13d 100644
--- a/fly/system/nix/system_monitor_impl.cpp
+++ b/fly/system/nix/system_monitor_impl.cpp
@@ -93,7 +93,10 @@ void SystemMonitorImpl::update_system_cpu_usage()
             (system - m_prev_system_system_time);
         auto const total = active + (idle - m_prev_system_idle_time);
 
-        m_system_cpu_usage.store(100.0 * active / total);
+        if (total > 0)
+        {
+            m_system_cpu_usage.store(100.0 * active / total);
+        }
     }
 
     m_prev_system_user_time = user;
-- 
2.43.0


From 8dc6e8de4af3511ddc49277e05005cc3adf0de4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:58 +0000
Subject: [PATCH 45/68] fix: close the handle owned by a socket before
 move-assigning another socket to it

---
 fly/net/socket/detail/base_socket.cpp | 18 ++++++++++++------
 fly/net/socket/listen_socket.cpp      |  5 +++--
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/fly/net/socket/detail/base_socket.cpp b/fly/net/socket/detail/base_socket.cpp
index 2ee43f4..150f429 100644
--- a/fly/net/socket/detail/base_socket.cpp
+++ b/fly/net/socket/detail/base_socket.cpp
@@ -65,13 +65,19 @@ BaseSocket<EndpointType>::~BaseSocket() noexcept
 template <fly::net::IPEndpoint EndpointType>
 BaseSocket<EndpointType> &BaseSocket<EndpointType>::operator=(BaseSocket &&socket) noexcept
 {
-    m_weak_socket_service = std::move(socket.m_weak_socket_service);
-    m_config = std::move(socket.m_config);
-    m_socket_handle = socket.m_socket_handle;
-    m_socket_id = socket.m_socket_id;
-    m_mode = socket.m_mode;
+    if (this != &socket)
+    {
+        // Do not leak the handle currently owned by this socket.
+        close();
 
-    socket.m_socket_handle = fly::net::detail::invalid_socket();
+        m_weak_socket_service = std::move(socket.m_weak_socket_service);
+        m_config = std::move(socket.m_config);
+        m_socket_handle = socket.m_socket_handle;
+        m_socket_id = socket.m_socket_id;
+        m_mode = socket.m_mode;
+
+        socket.m_socket_handle = fly::net::detail::invalid_socket();
+    }
 
     return *this;
 }
diff --git a/fly/net/socket/listen_socket.cpp b/fly/net/socket/listen_socket.cpp
index 4351752..5d45862 100644
--- a/fly/net/socket/listen_socket.cpp
+++ b/fly/net/socket/listen_socket.cpp
@@ -8,6 +8,8 @@
 #include "fly/net/socket/socket_service.hpp"
 #include "fly/net/socket/tcp_socket.hpp"
 
+#include <utility>
+
 namespace fly::net {
 
 //==================================================================================================
@@ -69,8 +71,7 @@ auto ListenSocket<EndpointType>::create_socket(
 template <IPEndpoint EndpointType>
 ListenSocket<EndpointType> &ListenSocket<EndpointType>::operator=(ListenSocket &&socket) noexcept
 {
-    m_is_listening = socket.m_is_listening;
-    socket.m_is_listening = false;
+    m_is_listening = std::exchange(socket.m_is_listening, false);
 
     return static_cast<ListenSocket &>(BaseSocket::operator=(std::move(socket)));
 }
-- 
2.43.0


From 7d1fff168c00b2d2c991495bf2672440978d393d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:58 +0000
Subject: [PATCH 46/68] fix: closed sockets are neither connected nor listening

---
 fly/net/socket/detail/base_socket.cpp |  4 ++--
 fly/net/socket/detail/base_socket.hpp |  2 +-
 fly/net/socket/listen_socket.cpp      |  8 ++++++++
 fly/net/socket/listen_socket.hpp      |  6 +++++-
 fly/net/socket/tcp_socket.cpp         | 12 ++++++++++--
 fly/net/socket/tcp_socket.hpp         |  6 +++++-
 6 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/fly/net/socket/detail/base_socket.cpp b/fly/net/socket/detail/base_socket.cpp
index 150f429..6cda70a 100644
--- a/fly/net/socket/detail/base_socket.cpp
+++ b/fly/net/socket/detail/base_socket.cpp
@@ -58,7 +58,7 @@ BaseSocket<EndpointType>::BaseSocket(BaseSocket &&socket) noexcept :
 template <fly::net::IPEndpoint EndpointType>
 BaseSocket<EndpointType>::~BaseSocket() noexcept
 {
-    close();
+    BaseSocket::close();
 }
 
 //==================================================================================================
@@ -68,7 +68,7 @@ BaseSocket<EndpointType> &BaseSocket<EndpointType>::operator=(BaseSocket &&socke
     if (this != &socket)
     {
         // Do not leak the handle currently owned by this socket.
-        close();
+        BaseSocket::close();
 
         m_weak_socket_service = std::move(socket.m_weak_socket_service);
         m_config = std::move(socket.m_config);
diff --git a/fly/net/socket/detail/base_socket.hpp b/fly/net/socket/detail/base_socket.hpp
index a266482..00721cc 100644
--- a/fly/net/socket/detail/base_socket.hpp
+++ b/fly/net/socket/detail/base_socket.hpp
@@ -89,7 +89,7 @@ public:
     /**
      * If this socket is valid, close this socket.
      */
-    void close();
+    virtual void close();
 
     /**
      * Bind this socket to a local endpoint.
diff --git a/fly/net/socket/listen_socket.cpp b/fly/net/socket/listen_socket.cpp
index 5d45862..f59935b 100644
--- a/fly/net/socket/listen_socket.cpp
+++ b/fly/net/socket/listen_socket.cpp
@@ -128,6 +128,14 @@ bool ListenSocket<EndpointType>::accept_async(AcceptCompletion &&callback)
     return false;
 }
 
+//==================================================================================================
+template <IPEndpoint EndpointType>
+void ListenSocket<EndpointType>::close()
+{
+    m_is_listening = false;
+    BaseSocket::close();
+}
+
 //==================================================================================================
 template <IPEndpoint EndpointType>
 void ListenSocket<EndpointType>::ready_to_accept(AcceptCompletion &&callback)
diff --git a/fly/net/socket/listen_socket.hpp b/fly/net/socket/listen_socket.hpp
index 7a9ceb5..36afb17 100644
--- a/fly/net/socket/listen_socket.hpp
+++ b/fly/net/socket/listen_socket.hpp
@@ -97,7 +97,11 @@ public:
      */
     bool accept_async(AcceptCompletion &&callback);
 
-    using BaseSocket::close;
+    /**
+     * If this socket is valid, close this socket. The socket is left in a non-listening state.
+     */
+    void close() override;
+
     using BaseSocket::handle;
     using BaseSocket::io_mode;
 
diff --git a/fly/net/socket/tcp_socket.cpp b/fly/net/socket/tcp_socket.cpp
index 386bcaf..0df46b0 100644
--- a/fly/net/socket/tcp_socket.cpp
+++ b/fly/net/socket/tcp_socket.cpp
@@ -39,7 +39,7 @@ TcpSocket<EndpointType>::TcpSocket(
     socket_type socket_handle,
     IOMode mode) noexcept :
     BaseSocket(std::move(config), socket_handle, mode),
-    m_connected_state(ConnectedState::Connected)
+    m_connected_state(is_open() ? ConnectedState::Connected : ConnectedState::Disconnected)
 {
 }
 
@@ -50,7 +50,7 @@ TcpSocket<EndpointType>::TcpSocket(
     std::shared_ptr<NetworkConfig> config,
     socket_type socket_handle) noexcept :
     BaseSocket(service, std::move(config), socket_handle),
-    m_connected_state(ConnectedState::Connected)
+    m_connected_state(is_open() ? ConnectedState::Connected : ConnectedState::Disconnected)
 {
 }
 
@@ -310,6 +310,14 @@ bool TcpSocket<EndpointType>::receive_async(ReceiveCompletion &&callback)
     return false;
 }
 
+//==================================================================================================
+template <IPEndpoint EndpointType>
+void TcpSocket<EndpointType>::close()
+{
+    m_connected_state.store(ConnectedState::Disconnected);
+    BaseSocket::close();
+}
+
 //==================================================================================================
 template <IPEndpoint EndpointType>
 void TcpSocket<EndpointType>::ready_to_send(
diff --git a/fly/net/socket/tcp_socket.hpp b/fly/net/socket/tcp_socket.hpp
index 2e03003..43bd25a 100644
--- a/fly/net/socket/tcp_socket.hpp
+++ b/fly/net/socket/tcp_socket.hpp
@@ -201,7 +201,11 @@ public:
      */
     bool receive_async(ReceiveCompletion &&callback);
 
-    using BaseSocket::close;
+    /**
+     * If this socket is valid, close this socket. The socket is left in a disconnected state.
+     */
+    void close() override;
+
     using BaseSocket::handle;
     using BaseSocket::hostname_to_address;
     using BaseSocket::is_open;
-- 
2.43.0


From 1df541d51e071f2313f99cf7a0cd66a648759997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:58 +0000
Subject: [PATCH 47/68] fix: do not close sockets when sending an empty message

---
 fly/net/socket/tcp_socket.cpp | 4 ++--
 fly/net/socket/udp_socket.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/fly/net/socket/tcp_socket.cpp b/fly/net/socket/tcp_socket.cpp
index 0df46b0..42a226b 100644
--- a/fly/net/socket/tcp_socket.cpp
+++ b/fly/net/socket/tcp_socket.cpp
@@ -239,9 +239,9 @@ template <IPEndpoint EndpointType>
 std::size_t TcpSocket<EndpointType>::send(std::string_view message)
 {
     bool would_block = false;
-    std::size_t bytes_sent = detail::send(handle(), std::move(message), would_block);
+    std::size_t bytes_sent = detail::send(handle(), message, would_block);
 
-    if (bytes_sent == 0)
+    if ((bytes_sent == 0) && !message.empty())
     {
         SLOGW(handle(), "Error sending, closing");
         close();
diff --git a/fly/net/socket/udp_socket.cpp b/fly/net/socket/udp_socket.cpp
index f5b1acb..9677101 100644
--- a/fly/net/socket/udp_socket.cpp
+++ b/fly/net/socket/udp_socket.cpp
@@ -74,9 +74,9 @@ size_t UdpSocket<EndpointType>::send(EndpointType const &endpoint, std::string_v
     bool would_block = false;
 
     std::size_t bytes_sent =
-        detail::send_to(handle(), endpoint, std::move(message), packet_size(), would_block);
+        detail::send_to(handle(), endpoint, message, packet_size(), would_block);
 
-    if (bytes_sent == 0)
+    if ((bytes_sent == 0) && !message.empty())
     {
         SLOGW(handle(), "Error sending to {}, closing", endpoint);
         close();
-- 
2.43.0


From 3d2a5f52b06057981ba46b3ca1a75e5f7f782640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:58 +0000
Subject: [PATCH 48/68] fix: close sockets when sending fails after part of the
 message was sent

---
 fly/net/socket/tcp_socket.cpp | 2 +-
 fly/net/socket/udp_socket.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/fly/net/socket/tcp_socket.cpp b/fly/net/socket/tcp_socket.cpp
index 42a226b..5abaa4c 100644
--- a/fly/net/socket/tcp_socket.cpp
+++ b/fly/net/socket/tcp_socket.cpp
@@ -241,7 +241,7 @@ std::size_t TcpSocket<EndpointType>::send(std::string_view message)
     bool would_block = false;
     std::size_t bytes_sent = detail::send(handle(), message, would_block);
 
-    if ((bytes_sent == 0) && !message.empty())
+    if ((bytes_sent < message.size()) && ((bytes_sent == 0) || !would_block))
     {
         SLOGW(handle(), "Error sending, closing");
         close();
diff --git a/fly/net/socket/udp_socket.cpp b/fly/net/socket/udp_socket.cpp
index 9677101..fdd11bb 100644
--- a/fly/net/socket/udp_socket.cpp
+++ b/fly/net/socket/udp_socket.cpp
@@ -76,7 +76,7 @@ size_t UdpSocket<EndpointType>::send(EndpointType const &endpoint, std::string_v
     std::size_t bytes_sent =
         detail::send_to(handle(), endpoint, message, packet_size(), would_block);
 
-    if ((bytes_sent == 0) && !message.empty())
+    if ((bytes_sent < message.size()) && ((bytes_sent == 0) || !would_block))
     {
         SLOGW(handle(), "Error sending to {}, closing", endpoint);
         close();
-- 
2.43.0


From b94c2cc9be7b6ee3a8e07ce8ae0d39fb57cd8b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:58 +0000
Subject: [PATCH 49/68] fix: do not treat the receipt of an empty datagram as
 an error

---
 .../socket/detail/nix/socket_operations.cpp   | 25 ++++++++-----------
 fly/net/socket/detail/socket_operations.hpp   |  4 +--
 .../socket/detail/win/socket_operations.cpp   | 25 ++++++++-----------
 fly/net/socket/udp_socket.cpp                 | 20 +++++++--------
 4 files changed, 32 insertions(+), 42 deletions(-)

diff --git a/fly/net/socket/detail/nix/socket_operations.cpp b/fly/net/socket/detail/nix/socket_operations.cpp
index 37c8ad2..2113b88 100644
--- a/fly/net/socket/detail/nix/socket_operations.cpp
+++ b/fly/net/socket/detail/nix/socket_operations.cpp
@@ -479,7 +479,7 @@ std::string recv(fly::net::socket_type handle, std::size_t packet_size, bool &wo
 
 //==================================================================================================
 template <fly::net::IPEndpoint EndpointType>
-std::string recv_from(
+std::optional<std::string> recv_from(
     fly::net::socket_type handle,
     EndpointType &endpoint,
     std::size_t packet_size,
@@ -494,32 +494,27 @@ std::string recv_from(
     ssize_t const status =
         ::recvfrom(handle, result.data(), result.size(), 0, base(address), &address_size);
 
-    if (status > 0)
-    {
-        result.resize(static_cast<std::size_t>(status));
-        endpoint = address_to_endpoint(address);
-    }
-    else
+    if (status == -1)
     {
-        if (status == -1)
-        {
-            would_block = fly::system::get_error_code() == EWOULDBLOCK;
-            SLOGS(handle, "Error receiving");
-        }
+        would_block = fly::system::get_error_code() == EWOULDBLOCK;
+        SLOGS(handle, "Error receiving");
 
-        result.clear();
+        return std::nullopt;
     }
 
+    result.resize(static_cast<std::size_t>(status));
+    endpoint = address_to_endpoint(address);
+
     return result;
 }
 
-template std::string recv_from(
+template std::optional<std::string> recv_from(
     fly::net::socket_type handle,
     IPv4Endpoint &endpoint,
     std::size_t packet_size,
     bool &would_block);
 
-template std::string recv_from(
+template std::optional<std::string> recv_from(
     fly::net::socket_type handle,
     IPv6Endpoint &endpoint,
     std::size_t packet_size,
diff --git a/fly/net/socket/detail/socket_operations.hpp b/fly/net/socket/detail/socket_operations.hpp
index a3814d5..4bec1a0 100644
--- a/fly/net/socket/detail/socket_operations.hpp
+++ b/fly/net/socket/detail/socket_operations.hpp
@@ -190,10 +190,10 @@ std::string recv(fly::net::socket_type handle, std::size_t packet_size, bool &wo
  * @param packet_size The maxiumum message size to receive.
  * @param would_block Location to store if the operation would have blocked.
  *
- * @return The message received.
+ * @return If successful, the (possibly empty) message received. Otherwise, an uninitialized value.
  */
 template <fly::net::IPEndpoint EndpointType>
-std::string recv_from(
+std::optional<std::string> recv_from(
     fly::net::socket_type handle,
     EndpointType &endpoint,
     std::size_t packet_size,
diff --git a/fly/net/socket/detail/win/socket_operations.cpp b/fly/net/socket/detail/win/socket_operations.cpp
index 199b239..4d771f3 100644
--- a/fly/net/socket/detail/win/socket_operations.cpp
+++ b/fly/net/socket/detail/win/socket_operations.cpp
@@ -497,7 +497,7 @@ std::string recv(fly::net::socket_type handle, std::size_t packet_size, bool &wo
 
 //==================================================================================================
 template <fly::net::IPEndpoint EndpointType>
-std::string recv_from(
+std::optional<std::string> recv_from(
     fly::net::socket_type handle,
     EndpointType &endpoint,
     std::size_t packet_size,
@@ -512,32 +512,27 @@ std::string recv_from(
     int const size = static_cast<int>(packet_size);
     int const status = ::recvfrom(handle, result.data(), size, 0, base(address), &address_size);
 
-    if (status > 0)
+    if (status == SOCKET_ERROR)
     {
-        result.resize(static_cast<std::size_t>(status));
-        endpoint = address_to_endpoint(address);
-    }
-    else
-    {
-        if (status == SOCKET_ERROR)
-        {
-            would_block = fly::system::get_error_code() == WSAEWOULDBLOCK;
-            SLOGS(handle, "Error receiving");
-        }
+        would_block = fly::system::get_error_code() == WSAEWOULDBLOCK;
+        SLOGS(handle, "Error receiving");
 
-        result.clear();
+        return std::nullopt;
     }
 
+    result.resize(static_cast<std::size_t>(status));
+    endpoint = address_to_endpoint(address);
+
     return result;
 }
 
-template std::string recv_from(
+template std::optional<std::string> recv_from(
     fly::net::socket_type handle,
     IPv4Endpoint &endpoint,
     std::size_t packet_size,
     bool &would_block);
 
-template std::string recv_from(
+template std::optional<std::string> recv_from(
     fly::net::socket_type handle,
     IPv6Endpoint &endpoint,
     std::size_t packet_size,
diff --git a/fly/net/socket/udp_socket.cpp b/fly/net/socket/udp_socket.cpp
index fdd11bb..bd33248 100644
--- a/fly/net/socket/udp_socket.cpp
+++ b/fly/net/socket/udp_socket.cpp
@@ -151,19 +151,18 @@ std::string UdpSocket<EndpointType>::receive()
     EndpointType endpoint;
     bool would_block = false;
 
-    std::string const received = detail::recv_from(handle(), endpoint, packet_size(), would_block);
+    auto const received = detail::recv_from(handle(), endpoint, packet_size(), would_block);
 
-    if (received.size() == 0)
+    if (!received)
     {
         SLOGW(handle(), "Error receiving, closing");
         close();
-    }
-    else
-    {
-        SLOGD(handle(), "Received {} bytes from {}", received.size(), endpoint);
+
+        return std::string();
     }
 
-    return received;
+    SLOGD(handle(), "Received {} bytes from {}", received->size(), endpoint);
+    return *received;
 }
 
 //==================================================================================================
@@ -237,12 +236,13 @@ void UdpSocket<EndpointType>::ready_to_receive(ReceiveCompletion &&callback, std
     EndpointType endpoint;
     bool would_block = false;
 
-    std::string const current_received =
+    auto const current_received =
         detail::recv_from(handle(), endpoint, packet_size(), would_block);
-    received += current_received;
 
-    if (!current_received.empty())
+    if (current_received)
     {
+        received += *current_received;
+
         SLOGD(handle(), "Received {} bytes from {}", received.size(), endpoint);
         std::invoke(std::move(callback), std::move(received));
     }
-- 
2.43.0


From 4ca08bbde5c6caeace4903ed24af226642248dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:58 +0000
Subject: [PATCH 50/68] fix: refuse asynchronous operations on closed sockets

---
 fly/net/socket/listen_socket.cpp | 2 +-
 fly/net/socket/listen_socket.hpp | 3 ++-
 fly/net/socket/tcp_socket.cpp    | 4 ++--
 fly/net/socket/tcp_socket.hpp    | 4 ++--
 fly/net/socket/udp_socket.cpp    | 4 ++--
 fly/net/socket/udp_socket.hpp    | 7 ++++---
 6 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/fly/net/socket/listen_socket.cpp b/fly/net/socket/listen_socket.cpp
index f59935b..ca82a40 100644
--- a/fly/net/socket/listen_socket.cpp
+++ b/fly/net/socket/listen_socket.cpp
@@ -114,7 +114,7 @@ std::optional<TcpSocket<EndpointType>> ListenSocket<EndpointType>::accept()
 template <IPEndpoint EndpointType>
 bool ListenSocket<EndpointType>::accept_async(AcceptCompletion &&callback)
 {
-    if (auto service = socket_service(); service && callback)
+    if (auto service = socket_service(); service && callback && is_open())
     {
         service->notify_when_readable(
             this->shared_from_this(),
diff --git a/fly/net/socket/listen_socket.hpp b/fly/net/socket/listen_socket.hpp
index 36afb17..9631c7c 100644
--- a/fly/net/socket/listen_socket.hpp
+++ b/fly/net/socket/listen_socket.hpp
@@ -93,7 +93,7 @@ public:
      *
      * @param callback The callback to invoke when the operation has completed.
      *
-     * @return True if the socket service and the provided callback are valid.
+     * @return True if the socket is open and the socket service and provided callback are valid.
      */
     bool accept_async(AcceptCompletion &&callback);
 
@@ -104,6 +104,7 @@ public:
 
     using BaseSocket::handle;
     using BaseSocket::io_mode;
+    using BaseSocket::is_open;
 
 private:
     friend SocketService;
diff --git a/fly/net/socket/tcp_socket.cpp b/fly/net/socket/tcp_socket.cpp
index 5abaa4c..f56d05a 100644
--- a/fly/net/socket/tcp_socket.cpp
+++ b/fly/net/socket/tcp_socket.cpp
@@ -258,7 +258,7 @@ std::size_t TcpSocket<EndpointType>::send(std::string_view message)
 template <IPEndpoint EndpointType>
 bool TcpSocket<EndpointType>::send_async(std::string_view message, SendCompletion &&callback)
 {
-    if (auto service = socket_service(); service && callback)
+    if (auto service = socket_service(); service && callback && is_open())
     {
         service->notify_when_writable(
             this->shared_from_this(),
@@ -296,7 +296,7 @@ std::string TcpSocket<EndpointType>::receive()
 template <IPEndpoint EndpointType>
 bool TcpSocket<EndpointType>::receive_async(ReceiveCompletion &&callback)
 {
-    if (auto service = socket_service(); service && callback)
+    if (auto service = socket_service(); service && callback && is_open())
     {
         service->notify_when_readable(
             this->shared_from_this(),
diff --git a/fly/net/socket/tcp_socket.hpp b/fly/net/socket/tcp_socket.hpp
index 43bd25a..b4188ac 100644
--- a/fly/net/socket/tcp_socket.hpp
+++ b/fly/net/socket/tcp_socket.hpp
@@ -175,7 +175,7 @@ public:
      * @param message The message to transmit.
      * @param callback The callback to invoke when the operation has completed.
      *
-     * @return True if the socket service and the provided callback are valid.
+     * @return True if the socket is open and the socket service and provided callback are valid.
      */
     bool send_async(std::string_view message, SendCompletion &&callback);
 
@@ -197,7 +197,7 @@ public:
      *
      * @param callback The callback to invoke when the operation has completed.
      *
-     * @return True if the socket service and the provided callback are valid.
+     * @return True if the socket is open and the socket service and provided callback are valid.
      */
     bool receive_async(ReceiveCompletion &&callback);
 
diff --git a/fly/net/socket/udp_socket.cpp b/fly/net/socket/udp_socket.cpp
index bd33248..94199ee 100644
--- a/fly/net/socket/udp_socket.cpp
+++ b/fly/net/socket/udp_socket.cpp
@@ -110,7 +110,7 @@ bool UdpSocket<EndpointType>::send_async(
     std::string_view message,
     SendCompletion &&callback)
 {
-    if (auto service = socket_service(); service && callback)
+    if (auto service = socket_service(); service && callback && is_open())
     {
         service->notify_when_writable(
             this->shared_from_this(),
@@ -169,7 +169,7 @@ std::string UdpSocket<EndpointType>::receive()
 template <IPEndpoint EndpointType>
 bool UdpSocket<EndpointType>::receive_async(ReceiveCompletion &&callback)
 {
-    if (auto service = socket_service(); service && callback)
+    if (auto service = socket_service(); service && callback && is_open())
     {
         service->notify_when_readable(
             this->shared_from_this(),
diff --git a/fly/net/socket/udp_socket.hpp b/fly/net/socket/udp_socket.hpp
index fff8807..358fe8b 100644
--- a/fly/net/socket/udp_socket.hpp
+++ b/fly/net/socket/udp_socket.hpp
@@ -98,7 +98,7 @@ public:
      * @param message The message to transmit.
      * @param callback The callback to invoke when the operation has completed.
      *
-     * @return True if the socket service and the provided callback are valid.
+     * @return True if the socket is open and the socket service and provided callback are valid.
      */
     bool
     send_async(EndpointType const &endpoint, std::string_view message, SendCompletion &&callback);
@@ -117,7 +117,7 @@ public:
      * @param message The message to transmit.
      * @param callback The callback to invoke when the operation has completed.
      *
-     * @return True if the socket service and the provided callback are valid.
+     * @return True if the socket is open and the socket service and provided callback are valid.
      */
     bool send_async(
         std::string_view hostname,
@@ -143,13 +143,14 @@ public:
      *
      * @param callback The callback to invoke when the operation has completed.
      *
-     * @return True if the socket service and the provided callback are valid.
+     * @return True if the socket is open and the socket service and provided callback are valid.
      */
     bool receive_async(ReceiveCompletion &&callback);
 
     using BaseSocket::close;
     using BaseSocket::handle;
     using BaseSocket::hostname_to_address;
+    using BaseSocket::is_open;
 
 private:
     friend SocketService;
-- 
2.43.0


From c2b2a609f518f33a049f1cc2f55e655f3305f75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:58 +0000
Subject: [PATCH 51/68] fix: support polling socket handles which are not less
 than FD_SETSIZE

---
 .../socket/detail/nix/socket_operations.cpp   | 35 +++++++++++--------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/fly/net/socket/detail/nix/socket_operations.cpp b/fly/net/socket/detail/nix/socket_operations.cpp
index 2113b88..34c2aff 100644
--- a/fly/net/socket/detail/nix/socket_operations.cpp
+++ b/fly/net/socket/detail/nix/socket_operations.cpp
@@ -14,6 +14,7 @@
 
 #include <algorithm>
 #include <type_traits>
+#include <vector>
 
 namespace fly::net {
 
@@ -526,36 +527,42 @@ void select(
     std::set<fly::net::socket_type> &writing_handles,
     std::set<fly::net::socket_type> &reading_handles)
 {
-    fd_set write_set, read_set;
-    FD_ZERO(&write_set);
-    FD_ZERO(&read_set);
+    socket_type const max_handle = std::max(
+        writing_handles.empty() ? invalid_socket() : *writing_handles.rbegin(),
+        reading_handles.empty() ? invalid_socket() : *reading_handles.rbegin());
+
+    // A single fd_set may only hold handles less than FD_SETSIZE, so use as many as are needed.
+    std::size_t const set_count = static_cast<std::size_t>(max_handle + 1) / FD_SETSIZE + 1;
+    std::vector<fd_set> write_set(set_count), read_set(set_count);
+
+    for (std::size_t i = 0; i < set_count; ++i)
+    {
+        FD_ZERO(&write_set[i]);
+        FD_ZERO(&read_set[i]);
+    }
 
     for (fly::net::socket_type handle : writing_handles)
     {
-        FD_SET(handle, &write_set);
+        FD_SET(handle % FD_SETSIZE, &write_set[handle / FD_SETSIZE]);
     }
     for (fly::net::socket_type handle : reading_handles)
     {
-        FD_SET(handle, &read_set);
+        FD_SET(handle % FD_SETSIZE, &read_set[handle / FD_SETSIZE]);
     }
 
-    socket_type const max_handle = std::max(
-        writing_handles.empty() ? invalid_socket() : *writing_handles.rbegin(),
-        reading_handles.empty() ? invalid_socket() : *reading_handles.rbegin());
-
     suseconds_t const usec = static_cast<suseconds_t>(timeout.count());
     timeval tv {0, usec};
 
-    int const status = ::select(max_handle + 1, &read_set, &write_set, nullptr, &tv);
+    int const status = ::select(max_handle + 1, read_set.data(), write_set.data(), nullptr, &tv);
 
     if (status > 0)
     {
-        auto is_not_set = [](fd_set *set, socket_type handle) {
-            return !FD_ISSET(handle, set);
+        auto is_not_set = [](std::vector<fd_set> const &sets, socket_type handle) {
+            return !FD_ISSET(handle % FD_SETSIZE, &sets[handle / FD_SETSIZE]);
         };
 
-        std::erase_if(writing_handles, std::bind(is_not_set, &write_set, std::placeholders::_1));
-        std::erase_if(reading_handles, std::bind(is_not_set, &read_set, std::placeholders::_1));
+        std::erase_if(writing_handles, [&](auto handle) { return is_not_set(write_set, handle); });
+        std::erase_if(reading_handles, [&](auto handle) { return is_not_set(read_set, handle); });
     }
     else
     {
-- 
2.43.0


From d59f70aa06f4ac9b119043907f7918def0f7774a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:38 +0000
Subject: [PATCH 52/68] fix: resume blocked socket operations before other
 operations pending on the same socket

---
 fly/net/socket/listen_socket.cpp  |  8 ++++++-
 fly/net/socket/socket_service.cpp | 29 ++++++++++++++++++++++---
 fly/net/socket/socket_service.hpp | 36 ++++++++++++++++++++++++-------
 fly/net/socket/tcp_socket.cpp     |  6 ++++--
 fly/net/socket/udp_socket.cpp     |  6 ++++--
 5 files changed, 69 insertions(+), 16 deletions(-)

diff --git a/fly/net/socket/listen_socket.cpp b/fly/net/socket/listen_socket.cpp
index ca82a40..09cd4c9 100644
--- a/fly/net/socket/listen_socket.cpp
+++ b/fly/net/socket/listen_socket.cpp
@@ -154,7 +154,13 @@ void ListenSocket<EndpointType>::ready_to_accept(AcceptCompletion &&callback)
     else if (would_block)
     {
         SLOGD(handle(), "Accept would block - will try again later");
-        accept_async(std::move(callback));
+
+        socket_service()->notify_when_readable(
+            this->shared_from_this(),
+            [callback = std::move(callback)](std::shared_ptr<ListenSocket> self) mutable {
+                self->ready_to_accept(std::move(callback));
+            },
+            true);
     }
     else
     {
diff --git a/fly/net/socket/socket_service.cpp b/fly/net/socket/socket_service.cpp
index a23f8f7..fb6d8f2 100644
--- a/fly/net/socket/socket_service.cpp
+++ b/fly/net/socket/socket_service.cpp
@@ -61,8 +61,18 @@ void SocketService::remove_socket(socket_type handle)
 }
 
 //==================================================================================================
-void SocketService::notify_when_writable(socket_type handle, Notification &&callback)
+void SocketService::notify_when_writable(
+    socket_type handle,
+    Notification &&callback,
+    bool resume)
 {
+    if (resume)
+    {
+        // Already being invoked by the polling task, which will re-arm itself for this request.
+        m_write_requests.emplace(m_write_requests.begin(), handle, std::move(callback));
+        return;
+    }
+
     auto task = [handle, callback = std::move(callback)](std::shared_ptr<SocketService> self) {
         const bool should_poll = self->m_write_requests.empty() && self->m_read_requests.empty();
         self->m_write_requests.emplace_back(handle, std::move(callback));
@@ -78,8 +88,18 @@ void SocketService::notify_when_writable(socket_type handle, Notification &&call
 }
 
 //==================================================================================================
-void SocketService::notify_when_readable(socket_type handle, Notification &&callback)
+void SocketService::notify_when_readable(
+    socket_type handle,
+    Notification &&callback,
+    bool resume)
 {
+    if (resume)
+    {
+        // Already being invoked by the polling task, which will re-arm itself for this request.
+        m_read_requests.emplace(m_read_requests.begin(), handle, std::move(callback));
+        return;
+    }
+
     auto task = [handle, callback = std::move(callback)](std::shared_ptr<SocketService> self) {
         const bool should_poll = self->m_write_requests.empty() && self->m_read_requests.empty();
         self->m_read_requests.emplace_back(handle, std::move(callback));
@@ -119,8 +139,11 @@ void SocketService::poll()
                     return handle == request.m_handle;
                 });
 
-            std::invoke(std::move(it->m_callback));
+            // The callback may resume its operation, which adds another request to the list.
+            Notification callback = std::move(it->m_callback);
             pending.erase(it);
+
+            std::invoke(std::move(callback));
         }
     };
 
diff --git a/fly/net/socket/socket_service.hpp b/fly/net/socket/socket_service.hpp
index edb7c49..3611041 100644
--- a/fly/net/socket/socket_service.hpp
+++ b/fly/net/socket/socket_service.hpp
@@ -76,9 +76,14 @@ public:
      *
      * @param socket The socket to monitor.
      * @param callback The callback to invoke when the socket is ready for writing.
+     * @param resume True if the callback resumes an operation which was interrupted while being
+     *        notified by this service, and thus must precede all operations pending on the socket.
      */
     template <Socket SocketType, SocketNotification<SocketType> Callback>
-    void notify_when_writable(std::shared_ptr<SocketType> const &socket, Callback &&callback);
+    void notify_when_writable(
+        std::shared_ptr<SocketType> const &socket,
+        Callback &&callback,
+        bool resume = false);
 
     /**
      * Monitor a socket handle for readiness to be read from.
@@ -97,9 +102,14 @@ public:
      *
      * @param socket The socket to monitor.
      * @param callback The callback to invoke when the socket is ready for reading.
+     * @param resume True if the callback resumes an operation which was interrupted while being
+     *        notified by this service, and thus must precede all operations pending on the socket.
      */
     template <Socket SocketType, SocketNotification<SocketType> Callback>
-    void notify_when_readable(std::shared_ptr<SocketType> const &socket, Callback &&callback);
+    void notify_when_readable(
+        std::shared_ptr<SocketType> const &socket,
+        Callback &&callback,
+        bool resume = false);
 
 private:
     using Notification = std::function<void()>;
@@ -130,8 +140,9 @@ private:
      *
      * @param handle The socket handle to monitor.
      * @param callback The callback to invoke when the socket is ready for writing.
+     * @param resume True if the request must precede all requests already pending on the handle.
      */
-    void notify_when_writable(socket_type handle, Notification &&callback);
+    void notify_when_writable(socket_type handle, Notification &&callback, bool resume);
 
     /**
      * Monitor a socket handle for readiness to be read from. Once queued, if the polling task is
@@ -142,8 +153,9 @@ private:
      *
      * @param handle The socket handle to monitor.
      * @param callback The callback to invoke when the socket is ready for reading.
+     * @param resume True if the request must precede all requests already pending on the handle.
      */
-    void notify_when_readable(socket_type handle, Notification &&callback);
+    void notify_when_readable(socket_type handle, Notification &&callback, bool resume);
 
     /**
      * Wrap a callback in a lambda to be protected by the provied strong socket pointer. The strong
@@ -186,18 +198,26 @@ std::shared_ptr<SocketType> SocketService::create_socket()
 template <Socket SocketType, SocketNotification<SocketType> Callback>
 void SocketService::notify_when_writable(
     std::shared_ptr<SocketType> const &socket,
-    Callback &&callback)
+    Callback &&callback,
+    bool resume)
 {
-    notify_when_writable(socket->handle(), wrap_callback(socket, std::forward<Callback>(callback)));
+    notify_when_writable(
+        socket->handle(),
+        wrap_callback(socket, std::forward<Callback>(callback)),
+        resume);
 }
 
 //==================================================================================================
 template <Socket SocketType, SocketNotification<SocketType> Callback>
 void SocketService::notify_when_readable(
     std::shared_ptr<SocketType> const &socket,
-    Callback &&callback)
+    Callback &&callback,
+    bool resume)
 {
-    notify_when_readable(socket->handle(), wrap_callback(socket, std::forward<Callback>(callback)));
+    notify_when_readable(
+        socket->handle(),
+        wrap_callback(socket, std::forward<Callback>(callback)),
+        resume);
 }
 
 //==================================================================================================
diff --git a/fly/net/socket/tcp_socket.cpp b/fly/net/socket/tcp_socket.cpp
index f56d05a..d0067dd 100644
--- a/fly/net/socket/tcp_socket.cpp
+++ b/fly/net/socket/tcp_socket.cpp
@@ -346,7 +346,8 @@ void TcpSocket<EndpointType>::ready_to_send(
             [message, callback = std::move(callback), bytes_sent, total_bytes](
                 std::shared_ptr<TcpSocket> self) mutable {
                 self->ready_to_send(message, std::move(callback), bytes_sent, total_bytes);
-            });
+            },
+            true);
     }
     else
     {
@@ -380,7 +381,8 @@ void TcpSocket<EndpointType>::ready_to_receive(ReceiveCompletion &&callback, std
             [callback = std::move(callback),
              received = std::move(received)](std::shared_ptr<TcpSocket> self) mutable {
                 self->ready_to_receive(std::move(callback), std::move(received));
-            });
+            },
+            true);
     }
     else
     {
diff --git a/fly/net/socket/udp_socket.cpp b/fly/net/socket/udp_socket.cpp
index 94199ee..1aa8f75 100644
--- a/fly/net/socket/udp_socket.cpp
+++ b/fly/net/socket/udp_socket.cpp
@@ -218,7 +218,8 @@ void UdpSocket<EndpointType>::ready_to_send(
                     std::move(callback),
                     bytes_sent,
                     total_bytes);
-            });
+            },
+            true);
     }
     else
     {
@@ -255,7 +256,8 @@ void UdpSocket<EndpointType>::ready_to_receive(ReceiveCompletion &&callback, std
             [callback = std::move(callback),
              received = std::move(received)](std::shared_ptr<UdpSocket> self) mutable {
                 self->ready_to_receive(std::move(callback), std::move(received));
-            });
+            },
+            true);
     }
     else
     {
-- 
2.43.0


From 0eefecfbfe3e0c70b5a0955cd79a50f95bebc650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:37 +0000
Subject: [PATCH 53/68] fix: determine the handle of a socket to monitor on the
 sequence of the socket service

---
 fly/net/socket/detail/base_socket.cpp | 16 ++++----
 fly/net/socket/detail/base_socket.hpp |  3 +-
 fly/net/socket/socket_service.cpp     | 55 ++++++++++++++++---------
 fly/net/socket/socket_service.hpp     | 59 ++++++++++++++++++++++++---
 4 files changed, 97 insertions(+), 36 deletions(-)

diff --git a/fly/net/socket/detail/base_socket.cpp b/fly/net/socket/detail/base_socket.cpp
index 6cda70a..7251121 100644
--- a/fly/net/socket/detail/base_socket.cpp
+++ b/fly/net/socket/detail/base_socket.cpp
@@ -47,11 +47,10 @@ template <fly::net::IPEndpoint EndpointType>
 BaseSocket<EndpointType>::BaseSocket(BaseSocket &&socket) noexcept :
     m_weak_socket_service(std::move(socket.m_weak_socket_service)),
     m_config(std::move(socket.m_config)),
-    m_socket_handle(socket.m_socket_handle),
+    m_socket_handle(socket.m_socket_handle.exchange(fly::net::detail::invalid_socket())),
     m_socket_id(socket.m_socket_id),
     m_mode(socket.m_mode)
 {
-    socket.m_socket_handle = fly::net::detail::invalid_socket();
 }
 
 //==================================================================================================
@@ -72,11 +71,9 @@ BaseSocket<EndpointType> &BaseSocket<EndpointType>::operator=(BaseSocket &&socke
 
         m_weak_socket_service = std::move(socket.m_weak_socket_service);
         m_config = std::move(socket.m_config);
-        m_socket_handle = socket.m_socket_handle;
+        m_socket_handle = socket.m_socket_handle.exchange(fly::net::detail::invalid_socket());
         m_socket_id = socket.m_socket_id;
         m_mode = socket.m_mode;
-
-        socket.m_socket_handle = fly::net::detail::invalid_socket();
     }
 
     return *this;
@@ -151,15 +148,16 @@ std::optional<EndpointType> BaseSocket<EndpointType>::local_endpoint() const
 template <fly::net::IPEndpoint EndpointType>
 void BaseSocket<EndpointType>::close()
 {
-    if (is_open())
+    socket_type const handle = m_socket_handle.exchange(fly::net::detail::invalid_socket());
+
+    if (handle != fly::net::detail::invalid_socket())
     {
         if (auto service = socket_service(); service)
         {
-            service->remove_socket(m_socket_handle);
+            service->remove_socket(handle);
         }
 
-        fly::net::detail::close(m_socket_handle);
-        m_socket_handle = fly::net::detail::invalid_socket();
+        fly::net::detail::close(handle);
     }
 }
 
diff --git a/fly/net/socket/detail/base_socket.hpp b/fly/net/socket/detail/base_socket.hpp
index 00721cc..37dcea5 100644
--- a/fly/net/socket/detail/base_socket.hpp
+++ b/fly/net/socket/detail/base_socket.hpp
@@ -3,6 +3,7 @@
 #include "fly/net/socket/concepts.hpp"
 #include "fly/net/socket/types.hpp"
 
+#include <atomic>
 #include <cstdint>
 #include <memory>
 #include <optional>
@@ -182,7 +183,7 @@ private:
 
     std::shared_ptr<fly::net::NetworkConfig> m_config;
 
-    socket_type m_socket_handle;
+    std::atomic<socket_type> m_socket_handle;
     std::uint64_t m_socket_id;
     fly::net::IOMode m_mode;
 };
diff --git a/fly/net/socket/socket_service.cpp b/fly/net/socket/socket_service.cpp
index fb6d8f2..42bbf7c 100644
--- a/fly/net/socket/socket_service.cpp
+++ b/fly/net/socket/socket_service.cpp
@@ -62,25 +62,20 @@ void SocketService::remove_socket(socket_type handle)
 
 //==================================================================================================
 void SocketService::notify_when_writable(
-    socket_type handle,
+    HandleProvider &&handle,
     Notification &&callback,
     bool resume)
 {
     if (resume)
     {
         // Already being invoked by the polling task, which will re-arm itself for this request.
-        m_write_requests.emplace(m_write_requests.begin(), handle, std::move(callback));
+        add_request(m_write_requests, handle, std::move(callback), resume);
         return;
     }
 
-    auto task = [handle, callback = std::move(callback)](std::shared_ptr<SocketService> self) {
-        const bool should_poll = self->m_write_requests.empty() && self->m_read_requests.empty();
-        self->m_write_requests.emplace_back(handle, std::move(callback));
-
-        if (should_poll)
-        {
-            self->poll();
-        }
+    auto task = [handle = std::move(handle), callback = std::move(callback), resume](
+                    std::shared_ptr<SocketService> self) mutable {
+        self->add_request(self->m_write_requests, handle, std::move(callback), resume);
     };
 
     std::weak_ptr<SocketService> weak_self = shared_from_this();
@@ -89,31 +84,51 @@ void SocketService::notify_when_writable(
 
 //==================================================================================================
 void SocketService::notify_when_readable(
-    socket_type handle,
+    HandleProvider &&handle,
     Notification &&callback,
     bool resume)
 {
     if (resume)
     {
         // Already being invoked by the polling task, which will re-arm itself for this request.
-        m_read_requests.emplace(m_read_requests.begin(), handle, std::move(callback));
+        add_request(m_read_requests, handle, std::move(callback), resume);
         return;
     }
 
-    auto task = [handle, callback = std::move(callback)](std::shared_ptr<SocketService> self) {
-        const bool should_poll = self->m_write_requests.empty() && self->m_read_requests.empty();
-        self->m_read_requests.emplace_back(handle, std::move(callback));
-
-        if (should_poll)
-        {
-            self->poll();
-        }
+    auto task = [handle = std::move(handle), callback = std::move(callback), resume](
+                    std::shared_ptr<SocketService> self) mutable {
+        self->add_request(self->m_read_requests, handle, std::move(callback), resume);
     };
 
     std::weak_ptr<SocketService> weak_self = shared_from_this();
     m_task_runner->post_task(FROM_HERE, weak_self, std::move(task));
 }
 
+//==================================================================================================
+void SocketService::add_request(
+    std::vector<Request> &requests,
+    HandleProvider const &handle_provider,
+    Notification &&callback,
+    bool resume)
+{
+    auto const handle = handle_provider();
+
+    if (!handle || (*handle == detail::invalid_socket()))
+    {
+        return;
+    }
+
+    bool const should_poll = !resume && m_write_requests.empty() && m_read_requests.empty();
+
+    auto const position = resume ? requests.begin() : requests.end();
+    requests.emplace(position, *handle, std::move(callback));
+
+    if (should_poll)
+    {
+        poll();
+    }
+}
+
 //==================================================================================================
 void SocketService::poll()
 {
diff --git a/fly/net/socket/socket_service.hpp b/fly/net/socket/socket_service.hpp
index 3611041..93305bd 100644
--- a/fly/net/socket/socket_service.hpp
+++ b/fly/net/socket/socket_service.hpp
@@ -5,6 +5,7 @@
 
 #include <functional>
 #include <memory>
+#include <optional>
 #include <vector>
 
 namespace fly::task {
@@ -113,6 +114,7 @@ public:
 
 private:
     using Notification = std::function<void()>;
+    using HandleProvider = std::function<std::optional<socket_type>()>;
 
     struct Request
     {
@@ -138,11 +140,11 @@ private:
      * Note: The provided callback will be triggered directly on the sequence that is monitoring all
      * sockets. Thus, the callback should not perform any blocking operations.
      *
-     * @param handle The socket handle to monitor.
+     * @param handle Provides the socket handle to monitor.
      * @param callback The callback to invoke when the socket is ready for writing.
      * @param resume True if the request must precede all requests already pending on the handle.
      */
-    void notify_when_writable(socket_type handle, Notification &&callback, bool resume);
+    void notify_when_writable(HandleProvider &&handle, Notification &&callback, bool resume);
 
     /**
      * Monitor a socket handle for readiness to be read from. Once queued, if the polling task is
@@ -151,11 +153,40 @@ private:
      * Note: The provided callback will be triggered directly on the sequence that is monitoring all
      * sockets. Thus, the callback should not perform any blocking operations.
      *
-     * @param handle The socket handle to monitor.
+     * @param handle Provides the socket handle to monitor.
      * @param callback The callback to invoke when the socket is ready for reading.
      * @param resume True if the request must precede all requests already pending on the handle.
      */
-    void notify_when_readable(socket_type handle, Notification &&callback, bool resume);
+    void notify_when_readable(HandleProvider &&handle, Notification &&callback, bool resume);
+
+    /**
+     * Wrap a socket in a lambda to provide its current handle. The handle is only known for sure on
+     * the sequence that is monitoring all sockets, where an operation that was queued earlier might
+     * have closed the socket.
+     *
+     * @tparam SocketType Type of the socket to monitor.
+     *
+     * @param socket The socket to monitor.
+     *
+     * @return The wrapped socket.
+     */
+    template <Socket SocketType>
+    HandleProvider wrap_handle(std::shared_ptr<SocketType> const &socket);
+
+    /**
+     * Add a request to a list of pending requests, unless the socket to monitor has been closed. If
+     * there were no pending requests, start polling.
+     *
+     * @param requests The list of pending requests.
+     * @param handle_provider Provides the socket handle to monitor.
+     * @param callback The callback to invoke when the socket is ready.
+     * @param resume True if the request must precede all requests already pending on the handle.
+     */
+    void add_request(
+        std::vector<Request> &requests,
+        HandleProvider const &handle_provider,
+        Notification &&callback,
+        bool resume);
 
     /**
      * Wrap a callback in a lambda to be protected by the provied strong socket pointer. The strong
@@ -202,7 +233,7 @@ void SocketService::notify_when_writable(
     bool resume)
 {
     notify_when_writable(
-        socket->handle(),
+        wrap_handle(socket),
         wrap_callback(socket, std::forward<Callback>(callback)),
         resume);
 }
@@ -215,11 +246,27 @@ void SocketService::notify_when_readable(
     bool resume)
 {
     notify_when_readable(
-        socket->handle(),
+        wrap_handle(socket),
         wrap_callback(socket, std::forward<Callback>(callback)),
         resume);
 }
 
+//==================================================================================================
+template <Socket SocketType>
+auto SocketService::wrap_handle(std::shared_ptr<SocketType> const &socket) -> HandleProvider
+{
+    std::weak_ptr<SocketType> weak_socket = socket;
+
+    return [weak_socket = std::move(weak_socket)]() -> std::optional<socket_type> {
+        if (std::shared_ptr<SocketType> strong_socket = weak_socket.lock(); strong_socket)
+        {
+            return strong_socket->handle();
+        }
+
+        return std::nullopt;
+    };
+}
+
 //==================================================================================================
 template <Socket SocketType, SocketNotification<SocketType> Callback>
 auto SocketService::wrap_callback(std::shared_ptr<SocketType> const &socket, Callback &&callback)
-- 
2.43.0


From 7c2e6e3042a64b3e8e2a6ad161a25b5e7694e5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:56 +0000
Subject: [PATCH 54/68] fix: report failures to write to the stream of a
 BitStreamWriter

---
 fly/types/bit_stream/bit_stream_writer.cpp | 5 ++++-
 fly/types/bit_stream/bit_stream_writer.hpp | 7 ++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/fly/types/bit_stream/bit_stream_writer.cpp b/fly/types/bit_stream/bit_stream_writer.cpp
index 9482d70..a06f712 100644
--- a/fly/types/bit_stream/bit_stream_writer.cpp
+++ b/fly/types/bit_stream/bit_stream_writer.cpp
@@ -48,7 +48,10 @@ bool BitStreamWriter::finish()
 //==================================================================================================
 void BitStreamWriter::flush_header(byte_type remainder)
 {
-    m_stream_buffer->pubseekpos(0);
+    if (m_stream_buffer->pubseekpos(0) == std::streampos(std::streamoff(-1)))
+    {
+        m_stream.setstate(std::ios::badbit);
+    }
 
     byte_type const header =
         (detail::s_magic << detail::s_magic_shift) | (remainder << detail::s_remainder_shift);
diff --git a/fly/types/bit_stream/bit_stream_writer.hpp b/fly/types/bit_stream/bit_stream_writer.hpp
index d6047b8..403b767 100644
--- a/fly/types/bit_stream/bit_stream_writer.hpp
+++ b/fly/types/bit_stream/bit_stream_writer.hpp
@@ -141,9 +141,14 @@ void BitStreamWriter::flush(DataType const &buffer, byte_type bytes)
     {
         DataType const data = endian_swap_if_non_native<std::endian::big>(buffer);
 
-        m_stream_buffer->sputn(
+        auto const bytes_written = m_stream_buffer->sputn(
             reinterpret_cast<std::ios::char_type const *>(&data),
             static_cast<std::streamsize>(bytes));
+
+        if (bytes_written != static_cast<std::streamsize>(bytes))
+        {
+            m_stream.setstate(std::ios::badbit);
+        }
     }
 }
 
-- 
2.43.0


From 688ddac6019f27f5e64ab6ee7f9fa1bddb0d10e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:56 +0000
Subject: [PATCH 55/68] fix: report failures to read or write the files of an
 encoder or decoder

---
 fly/coders/coder.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/fly/coders/coder.cpp b/fly/coders/coder.cpp
index feb8304..4048dd9 100644
--- a/fly/coders/coder.cpp
+++ b/fly/coders/coder.cpp
@@ -86,6 +86,10 @@ bool Encoder::encode_file(
         if (input && output)
         {
             successful = encode_internal(input, output);
+
+            // Data may have been lost while reading the input, or while flushing the output.
+            output.close();
+            successful = successful && !input.bad() && output.good();
         }
     }
 
@@ -144,6 +148,10 @@ bool Decoder::decode_file(
         if (input && output)
         {
             successful = decode_internal(input, output);
+
+            // Data may have been lost while reading the input, or while flushing the output.
+            output.close();
+            successful = successful && !input.bad() && output.good();
         }
     }
 
-- 
2.43.0


From a3dfd170a2554fc23398a8355a06357fe84bcaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:56 +0000
Subject: [PATCH 56/68] fix: do not throw from an encoder or decoder when the
 size of a file is not known

---
 fly/coders/coder.cpp | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/fly/coders/coder.cpp b/fly/coders/coder.cpp
index 4048dd9..86aef3c 100644
--- a/fly/coders/coder.cpp
+++ b/fly/coders/coder.cpp
@@ -7,6 +7,7 @@
 #include <chrono>
 #include <fstream>
 #include <sstream>
+#include <system_error>
 
 namespace fly::coders {
 
@@ -95,10 +96,15 @@ bool Encoder::encode_file(
 
     if (successful)
     {
-        log_encoder_stats(
-            start,
-            std::filesystem::file_size(decoded),
-            std::filesystem::file_size(encoded));
+        std::error_code error;
+
+        auto const decoded_size = std::filesystem::file_size(decoded, error);
+        auto const encoded_size = error ? 0 : std::filesystem::file_size(encoded, error);
+
+        if (!error)
+        {
+            log_encoder_stats(start, decoded_size, encoded_size);
+        }
     }
 
     return successful;
@@ -157,10 +163,15 @@ bool Decoder::decode_file(
 
     if (successful)
     {
-        log_decoder_stats(
-            start,
-            std::filesystem::file_size(encoded),
-            std::filesystem::file_size(decoded));
+        std::error_code error;
+
+        auto const decoded_size = std::filesystem::file_size(decoded, error);
+        auto const encoded_size = error ? 0 : std::filesystem::file_size(encoded, error);
+
+        if (!error)
+        {
+            log_decoder_stats(start, encoded_size, decoded_size);
+        }
     }
 
     return successful;
-- 
2.43.0


From 8ccd272e24491b49a4fcb20a342c05c625312e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:13 +0000
Subject: [PATCH 57/68] fix: do not start a new log file when the size of the
 current one is not known

---
 fly/logger/detail/file_sink.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fly/logger/detail/file_sink.cpp b/fly/logger/detail/file_sink.cpp
index b518296..228caf4 100644
--- a/fly/logger/detail/file_sink.cpp
+++ b/fly/logger/detail/file_sink.cpp
@@ -38,7 +38,9 @@ bool FileSink::stream(fly::logger::Log &&log)
         m_log_stream << log << std::flush;
         std::error_code error;
 
-        if (std::filesystem::file_size(m_log_file, error) > m_logger_config->max_log_file_size())
+        auto const size = std::filesystem::file_size(m_log_file, error);
+
+        if (!error && (size > m_logger_config->max_log_file_size()))
         {
             return create_log_file();
         }
-- 
2.43.0


From 93e87d49ceb29617ec69b00075c1f04f0a69121d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:13 +0000
Subject: [PATCH 58/68] fix: report that a record could not be written to a log
 file

---
 fly/logger/detail/file_sink.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fly/logger/detail/file_sink.cpp b/fly/logger/detail/file_sink.cpp
index 228caf4..a7e7f43 100644
--- a/fly/logger/detail/file_sink.cpp
+++ b/fly/logger/detail/file_sink.cpp
@@ -36,6 +36,12 @@ bool FileSink::stream(fly::logger::Log &&log)
     if (m_log_stream.good())
     {
         m_log_stream << log << std::flush;
+
+        if (!m_log_stream.good())
+        {
+            return false;
+        }
+
         std::error_code error;
 
         auto const size = std::filesystem::file_size(m_log_file, error);
-- 
2.43.0


From e8e1bb7e6aac0346909b4be357564d02a00d08e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:13 +0000
Subject: [PATCH 59/68] fix: do not throw from a file logger when a compressed
 log file cannot be removed

---
 fly/logger/detail/file_sink.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/fly/logger/detail/file_sink.cpp b/fly/logger/detail/file_sink.cpp
index a7e7f43..92483d2 100644
--- a/fly/logger/detail/file_sink.cpp
+++ b/fly/logger/detail/file_sink.cpp
@@ -71,10 +71,11 @@ bool FileSink::create_log_file()
 
             fly::coders::HuffmanEncoder encoder(m_coder_config);
 
-            if (encoder.encode_file(m_log_file, compressed_log_file))
-            {
-                std::filesystem::remove(m_log_file);
-            }
+            bool const compressed = encoder.encode_file(m_log_file, compressed_log_file);
+
+            // If the log file could not be compressed, an incomplete compressed file is of no use.
+            std::error_code error;
+            std::filesystem::remove(compressed ? m_log_file : compressed_log_file, error);
         }
     }
 
-- 
2.43.0


From 97a13fb8311bf42faeb87798bf219380495c73f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:13 +0000
Subject: [PATCH 60/68] fix: do not lose log files when compressing one creates
 log points itself

---
 fly/logger/detail/file_sink.cpp | 74 ++++++++++++++++++++-------------
 fly/logger/detail/file_sink.hpp | 11 ++++-
 2 files changed, 56 insertions(+), 29 deletions(-)

diff --git a/fly/logger/detail/file_sink.cpp b/fly/logger/detail/file_sink.cpp
index 92483d2..b5051f1 100644
--- a/fly/logger/detail/file_sink.cpp
+++ b/fly/logger/detail/file_sink.cpp
@@ -33,50 +33,45 @@ bool FileSink::initialize()
 //==================================================================================================
 bool FileSink::stream(fly::logger::Log &&log)
 {
-    if (m_log_stream.good())
+    if (!m_log_stream.good())
     {
-        m_log_stream << log << std::flush;
+        return false;
+    }
 
-        if (!m_log_stream.good())
-        {
-            return false;
-        }
+    m_log_stream << log << std::flush;
 
-        std::error_code error;
+    if (!m_log_stream.good())
+    {
+        return false;
+    }
 
-        auto const size = std::filesystem::file_size(m_log_file, error);
+    // Compressing a log file may itself create log points, if this sink belongs to the default logger.
+    // Those are streamed to the new log file, which is not rotated until the compression is complete.
+    if (m_compressing)
+    {
+        return true;
+    }
 
-        if (!error && (size > m_logger_config->max_log_file_size()))
-        {
-            return create_log_file();
-        }
+    std::error_code error;
+    auto const size = std::filesystem::file_size(m_log_file, error);
 
-        return true;
+    if (!error && (size > m_logger_config->max_log_file_size()))
+    {
+        return create_log_file();
     }
 
-    return false;
+    return true;
 }
 
 //==================================================================================================
 bool FileSink::create_log_file()
 {
+    std::filesystem::path full_log_file;
+
     if (m_log_stream.is_open())
     {
         m_log_stream.close();
-
-        if (m_logger_config->compress_log_files())
-        {
-            std::filesystem::path compressed_log_file = m_log_file;
-            compressed_log_file.replace_extension(".log.enc");
-
-            fly::coders::HuffmanEncoder encoder(m_coder_config);
-
-            bool const compressed = encoder.encode_file(m_log_file, compressed_log_file);
-
-            // If the log file could not be compressed, an incomplete compressed file is of no use.
-            std::error_code error;
-            std::filesystem::remove(compressed ? m_log_file : compressed_log_file, error);
-        }
+        full_log_file = m_log_file;
     }
 
     std::string const random = fly::String::generate_random_string(10);
@@ -89,7 +84,30 @@ bool FileSink::create_log_file()
     m_log_file = m_log_directory / std::move(file_name);
 
     m_log_stream.open(m_log_file, std::ios::out);
+
+    if (!full_log_file.empty() && m_logger_config->compress_log_files())
+    {
+        m_compressing = true;
+        compress_log_file(full_log_file);
+        m_compressing = false;
+    }
+
     return m_log_stream.good();
 }
 
+//==================================================================================================
+void FileSink::compress_log_file(std::filesystem::path const &log_file) const
+{
+    std::filesystem::path compressed_log_file = log_file;
+    compressed_log_file.replace_extension(".log.enc");
+
+    fly::coders::HuffmanEncoder encoder(m_coder_config);
+    bool const compressed = encoder.encode_file(log_file, compressed_log_file);
+
+    // Only one of the files is needed. If the log file could not be compressed, whatever had been
+    // written to the compressed file is of no use.
+    std::error_code error;
+    std::filesystem::remove(compressed ? log_file : compressed_log_file, error);
+}
+
 } // namespace fly::logger::detail
diff --git a/fly/logger/detail/file_sink.hpp b/fly/logger/detail/file_sink.hpp
index 929ad86..7658cb2 100644
--- a/fly/logger/detail/file_sink.hpp
+++ b/fly/logger/detail/file_sink.hpp
@@ -59,12 +59,20 @@ public:
 
 private:
     /**
-     * Create a log file. If a log file is already open, close it.
+     * Create a log file. If a log file is already open, close it, and compress it if needed once the
+     * new log file is open.
      *
      * @return True if the log file could be created.
      */
     bool create_log_file();
 
+    /**
+     * Compress a log file which is complete. The log file is removed if it could be compressed.
+     *
+     * @param log_file Path to the log file.
+     */
+    void compress_log_file(std::filesystem::path const &log_file) const;
+
     std::shared_ptr<fly::logger::LoggerConfig> m_logger_config;
     std::shared_ptr<fly::coders::CoderConfig> m_coder_config;
 
@@ -72,6 +80,7 @@ private:
     std::filesystem::path m_log_file;
     std::ofstream m_log_stream;
     std::uint32_t m_log_index {0};
+    bool m_compressing {false};
 };
 
 } // namespace fly::logger::detail
-- 
2.43.0


From 983ecec383eea892f338d4ebf7af8edbcdaa84cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:40 +0000
Subject: [PATCH 61/68] fix: deliver signals which arrive while the signal
 handler is replaced

---
 fly/system/system.cpp | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/fly/system/system.cpp b/fly/system/system.cpp
index ba24550..45f4d93 100644
--- a/fly/system/system.cpp
+++ b/fly/system/system.cpp
@@ -4,18 +4,31 @@
 #include "fly/types/string/format.hpp"
 
 #include <array>
+#include <atomic>
 #include <csignal>
+#include <forward_list>
+#include <functional>
 #include <system_error>
+#include <utility>
 
 namespace fly::system {
 
 namespace {
 
-    SignalHandler s_signal_handler = nullptr;
+    // A signal may arrive at any time and on any thread, in particular while the signal handler is being
+    // replaced. So the current signal handler is exchanged atomically.
+    std::atomic<SignalHandler const *> s_signal_handler {nullptr};
 
     void handle_signal(int signal)
     {
-        std::invoke(s_signal_handler, signal);
+        std::invoke(*s_signal_handler.load(), signal);
+    }
+
+    SignalHandler const *retain_signal_handler(SignalHandler &&handler)
+    {
+        // Handlers are never destroyed because a signal which arrived before may still be using them.
+        static auto *const s_handlers = new std::forward_list<SignalHandler>();
+        return &s_handlers->emplace_front(std::move(handler));
     }
 
 } // namespace
@@ -44,7 +57,11 @@ void set_signal_handler(SignalHandler handler)
 #endif
 
     auto handler_or_default = handler ? handle_signal : SIG_DFL;
-    s_signal_handler = std::move(handler);
+
+    if (handler)
+    {
+        s_signal_handler.store(retain_signal_handler(std::move(handler)));
+    }
 
     for (int signal : s_signals)
     {
-- 
2.43.0


From 2caffcfcf571d1e2ff16b7f8ffb4dddd25a7aa71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:56 +0000
Subject: [PATCH 62/68] fix: write styling escape sequences regardless of the
 stream's formatting

---
 fly/logger/detail/nix/styler_proxy_impl.cpp | 47 +++++++++++----------
 fly/logger/detail/nix/styler_proxy_impl.hpp |  4 +-
 2 files changed, 28 insertions(+), 23 deletions(-)

diff --git a/fly/logger/detail/nix/styler_proxy_impl.cpp b/fly/logger/detail/nix/styler_proxy_impl.cpp
index 9da8f3d..5cd5b0a 100644
--- a/fly/logger/detail/nix/styler_proxy_impl.cpp
+++ b/fly/logger/detail/nix/styler_proxy_impl.cpp
@@ -22,6 +22,9 @@ StylerProxyImpl::StylerProxyImpl(
         {
             apply_cursors(std::move(cursors));
         }
+
+        // Unformatted, as the escape sequences are not subject to the formatting state of the stream.
+        m_stream.write(m_escape.data(), static_cast<std::streamsize>(m_escape.size()));
     }
 }
 
@@ -30,7 +33,7 @@ StylerProxyImpl::~StylerProxyImpl()
 {
     if (m_did_apply_style_or_color)
     {
-        m_stream << "\x1b[0m";
+        m_stream.write("\x1b[0m", 4);
     }
 }
 
@@ -42,25 +45,25 @@ void StylerProxyImpl::stream_value<fly::logger::Style>(fly::logger::Style const
     switch (modifier)
     {
         case fly::logger::Style::Default:
-            m_stream << 0;
+            m_escape += '0';
             break;
         case fly::logger::Style::Bold:
-            m_stream << 1;
+            m_escape += '1';
             break;
         case fly::logger::Style::Dim:
-            m_stream << 2;
+            m_escape += '2';
             break;
         case fly::logger::Style::Italic:
-            m_stream << 3;
+            m_escape += '3';
             break;
         case fly::logger::Style::Underline:
-            m_stream << 4;
+            m_escape += '4';
             break;
         case fly::logger::Style::Blink:
-            m_stream << 5;
+            m_escape += '5';
             break;
         case fly::logger::Style::Strike:
-            m_stream << 9;
+            m_escape += '9';
             break;
     }
 }
@@ -74,11 +77,11 @@ void StylerProxyImpl::stream_value<fly::logger::Color>(fly::logger::Color const
         // https://en.wikipedia.org/wiki/ANSI_escape_code#3/4_bit
         if (modifier.m_plane == fly::logger::Color::Foreground)
         {
-            m_stream << "3";
+            m_escape += "3";
         }
         else
         {
-            m_stream << "4";
+            m_escape += "4";
         }
     }
     else
@@ -86,15 +89,15 @@ void StylerProxyImpl::stream_value<fly::logger::Color>(fly::logger::Color const
         // https://en.wikipedia.org/wiki/ANSI_escape_code#8-bit
         if (modifier.m_plane == fly::logger::Color::Foreground)
         {
-            m_stream << "38;5;";
+            m_escape += "38;5;";
         }
         else
         {
-            m_stream << "48;5;";
+            m_escape += "48;5;";
         }
     }
 
-    m_stream << static_cast<std::uint32_t>(modifier.m_color);
+    m_escape += std::to_string(modifier.m_color);
 }
 
 //==================================================================================================
@@ -102,21 +105,21 @@ template <>
 void StylerProxyImpl::stream_value<fly::logger::Cursor>(fly::logger::Cursor const &modifier)
 {
     // https://en.wikipedia.org/wiki/ANSI_escape_code#Terminal_output_sequences
-    m_stream << "\x1b[" << static_cast<std::uint32_t>(modifier.m_distance);
+    m_escape += "\x1b[" + std::to_string(modifier.m_distance);
 
     switch (modifier.m_direction)
     {
         case fly::logger::Cursor::Up:
-            m_stream << 'A';
+            m_escape += 'A';
             break;
         case fly::logger::Cursor::Down:
-            m_stream << 'B';
+            m_escape += 'B';
             break;
         case fly::logger::Cursor::Forward:
-            m_stream << 'C';
+            m_escape += 'C';
             break;
         case fly::logger::Cursor::Backward:
-            m_stream << 'D';
+            m_escape += 'D';
             break;
     }
 }
@@ -126,7 +129,7 @@ void StylerProxyImpl::apply_styles_and_colors(
     std::stack<fly::logger::Style> &&styles,
     std::stack<fly::logger::Color> &&colors)
 {
-    m_stream << "\x1b[";
+    m_escape += "\x1b[";
 
     bool first_modifier = true;
 
@@ -134,7 +137,7 @@ void StylerProxyImpl::apply_styles_and_colors(
     {
         if (!first_modifier)
         {
-            m_stream << ';';
+            m_escape += ';';
         }
 
         stream_value(styles.top());
@@ -144,13 +147,13 @@ void StylerProxyImpl::apply_styles_and_colors(
     {
         if (!first_modifier)
         {
-            m_stream << ';';
+            m_escape += ';';
         }
 
         stream_value(colors.top());
     }
 
-    m_stream << 'm';
+    m_escape += 'm';
 }
 
 //==================================================================================================
diff --git a/fly/logger/detail/nix/styler_proxy_impl.hpp b/fly/logger/detail/nix/styler_proxy_impl.hpp
index 4efca1d..410c782 100644
--- a/fly/logger/detail/nix/styler_proxy_impl.hpp
+++ b/fly/logger/detail/nix/styler_proxy_impl.hpp
@@ -5,6 +5,7 @@
 
 #include <ostream>
 #include <stack>
+#include <string>
 
 namespace fly::logger::detail {
 
@@ -40,7 +41,7 @@ public:
 
 private:
     /**
-     * Stream a modifier value as its ANSI escape sequence.
+     * Append the ANSI escape sequence of a modifier value to be written to the stream.
      *
      * @tparam Modifier The type of the modifier to stream.
      *
@@ -66,6 +67,7 @@ private:
      */
     void apply_cursors(std::stack<fly::logger::Cursor> &&cursors);
 
+    std::string m_escape;
     bool m_did_apply_style_or_color {false};
 };
 
-- 
2.43.0


From 21aa3151c6ac8c86231d82b6ebd9f363e3faed37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:07 +0000
Subject: [PATCH 63/68] fix: do not print the terminator of an assertion's
 message

---
 fly/assert/detail/assert_enabled.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fly/assert/detail/assert_enabled.hpp b/fly/assert/detail/assert_enabled.hpp
index d1e838d..3992a78 100644
--- a/fly/assert/detail/assert_enabled.hpp
+++ b/fly/assert/detail/assert_enabled.hpp
@@ -199,7 +199,7 @@ void Assertion::assertion_failed(char const (&message)[N], CaptureTypes &&...cap
         Capture {std::forward<CaptureTypes>(captures)}...};
 
     m_capture_names = m_capture_names.subspan(1);
-    log_assertion({message, N}, parameters);
+    log_assertion({message, N - 1}, parameters);
 }
 
 } // namespace fly::detail
-- 
2.43.0


From f19ab1e7ea6740de7a46011c067ffaf606d9c50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:07 +0000
Subject: [PATCH 64/68] fix: let a styler take effect each time it is streamed

---
 fly/logger/styler.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/fly/logger/styler.cpp b/fly/logger/styler.cpp
index d878b91..656874c 100644
--- a/fly/logger/styler.cpp
+++ b/fly/logger/styler.cpp
@@ -16,11 +16,18 @@ detail::StylerProxy &operator<<(std::ostream &stream, Styler const &styler)
     // instances. Otherwise, this method would require an lvalue reference.
     Styler &mutable_styler = const_cast<Styler &>(styler);
 
+    // A styler may be streamed several times, so its modifiers are copied, and the manipulation of the
+    // previous time is reverted before the next one is applied.
+    auto styles = styler.m_styles;
+    auto colors = styler.m_colors;
+    auto cursors = styler.m_cursors;
+
+    mutable_styler.m_proxy.reset();
     mutable_styler.m_proxy = std::make_unique<detail::StylerProxyImpl>(
         stream,
-        std::move(mutable_styler.m_styles),
-        std::move(mutable_styler.m_colors),
-        std::move(mutable_styler.m_cursors));
+        std::move(styles),
+        std::move(colors),
+        std::move(cursors));
 
     return *(styler.m_proxy);
 }
-- 
2.43.0


From 09f87146bbf32896d2739c6616b4176e290233ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:54 +0000
Subject: [PATCH 65/68] fix: refuse integer literals which do not fit 64 bits

---
 fly/types/numeric/detail/literal_parser.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/fly/types/numeric/detail/literal_parser.hpp b/fly/types/numeric/detail/literal_parser.hpp
index a349ea1..d05ff7f 100644
--- a/fly/types/numeric/detail/literal_parser.hpp
+++ b/fly/types/numeric/detail/literal_parser.hpp
@@ -50,8 +50,15 @@ struct Aggregator<T, Base, Digit, Literals...>
 {
     static constexpr T aggregate(T aggregated)
     {
-        return Aggregator<T, Base, Literals...>::aggregate(
-            aggregated * Base + parse_and_validate_literal());
+        constexpr T literal = parse_and_validate_literal();
+
+        // Signed overflow is refused by the compiler, but unsigned values would silently wrap around.
+        if (aggregated > ((std::numeric_limits<T>::max() - literal) / Base))
+        {
+            throw "Literal is not representable";
+        }
+
+        return Aggregator<T, Base, Literals...>::aggregate(aggregated * Base + literal);
     }
 
 private:
-- 
2.43.0


From 54f36326104adabb4fe3460fe8ed761ca834ecc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:38 +0000
Subject: [PATCH 66/68] fix: bit stream readers survive streams which cannot be
 read

A file buffer reports a read error by throwing, which the reader's noexcept constructor turned
into std::terminate, e.g. when decoding a directory. Set the stream's bad bit instead, as the
standard's input functions do.
---
 fly/types/bit_stream/bit_stream_reader.cpp | 19 ++++++++++++++--
 fly/types/bit_stream/bit_stream_reader.hpp | 25 ++++++++++++++++------
 2 files changed, 36 insertions(+), 8 deletions(-)

diff --git a/fly/types/bit_stream/bit_stream_reader.cpp b/fly/types/bit_stream/bit_stream_reader.cpp
index f0cc7db..20ef88f 100644
--- a/fly/types/bit_stream/bit_stream_reader.cpp
+++ b/fly/types/bit_stream/bit_stream_reader.cpp
@@ -44,7 +44,7 @@ bool BitStreamReader::fully_consumed() const
 {
     if (m_position == 0)
     {
-        return m_stream_buffer->sgetc() == EOF;
+        return end_of_stream();
     }
 
     return false;
@@ -77,7 +77,7 @@ void BitStreamReader::refill_buffer()
 
         m_buffer |= buffer >> (detail::s_most_significant_bit_position - bits_read);
 
-        if (m_stream_buffer->sgetc() == EOF)
+        if (end_of_stream())
         {
             // At end-of-file, discard any encoded zero-filled bits.
             m_position -= m_remainder;
@@ -86,4 +86,19 @@ void BitStreamReader::refill_buffer()
     }
 }
 
+//==================================================================================================
+bool BitStreamReader::end_of_stream() const
+{
+    try
+    {
+        return m_stream_buffer->sgetc() == EOF;
+    }
+    catch (std::ios_base::failure const &)
+    {
+        m_stream.setstate(std::ios::badbit);
+    }
+
+    return true;
+}
+
 } // namespace fly
diff --git a/fly/types/bit_stream/bit_stream_reader.hpp b/fly/types/bit_stream/bit_stream_reader.hpp
index 048961b..935d2ea 100644
--- a/fly/types/bit_stream/bit_stream_reader.hpp
+++ b/fly/types/bit_stream/bit_stream_reader.hpp
@@ -137,6 +137,11 @@ private:
     template <detail::BitStreamInteger DataType>
     byte_type fill(DataType &buffer, byte_type bytes);
 
+    /**
+     * @return True if there are no more bytes to read from the stream.
+     */
+    bool end_of_stream() const;
+
     std::istream &m_stream;
 
     byte_type m_header {0};
@@ -238,12 +243,20 @@ byte_type BitStreamReader::fill(DataType &buffer, byte_type bytes)
 {
     if (m_stream)
     {
-        std::streamsize const bytes_read = m_stream_buffer->sgetn(
-            reinterpret_cast<std::ios::char_type *>(&buffer),
-            static_cast<std::streamsize>(bytes));
-
-        buffer = endian_swap_if_non_native<std::endian::big>(buffer);
-        return static_cast<byte_type>(bytes_read);
+        try
+        {
+            std::streamsize const bytes_read = m_stream_buffer->sgetn(
+                reinterpret_cast<std::ios::char_type *>(&buffer),
+                static_cast<std::streamsize>(bytes));
+
+            buffer = endian_swap_if_non_native<std::endian::big>(buffer);
+            return static_cast<byte_type>(bytes_read);
+        }
+        catch (std::ios_base::failure const &)
+        {
+            // The stream was opened but cannot be read, e.g. it is a directory.
+            m_stream.setstate(std::ios::badbit);
+        }
     }
 
     return 0;
-- 
2.43.0


From 81e90f2fe61ad8023604a97959e87fd4c0c516a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:38 +0000
Subject: [PATCH 67/68] fix: refuse non-UTF-8 files which could not be read to
 their end

A read error between two code units was taken for the end of the file.
---
 fly/parser/parser.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fly/parser/parser.hpp b/fly/parser/parser.hpp
index b0cd804..768870d 100644
--- a/fly/parser/parser.hpp
+++ b/fly/parser/parser.hpp
@@ -233,6 +233,12 @@ std::optional<std::string> Parser::ensure_utf8(std::istream &stream) const
         }
     }
 
+    if (stream.bad())
+    {
+        // The stream could not be read to its end.
+        return std::nullopt;
+    }
+
     return fly::BasicString<char_type>::template convert<std::string>(contents);
 }
 
-- 
2.43.0


From 2a5e3fdef17b7ab13e1bf771f08d039ecc9bb3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:38 +0000
Subject: [PATCH 68/68] fix: refuse files whose first bytes could not be put
 back

When a file cannot seek, the bytes which were examined for a byte order mark were skipped.
---
 fly/parser/parser.cpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/fly/parser/parser.cpp b/fly/parser/parser.cpp
index 074c8bf..d5b6a38 100644
--- a/fly/parser/parser.cpp
+++ b/fly/parser/parser.cpp
@@ -25,7 +25,19 @@ namespace {
     template <std::size_t Size>
     bool check_bom(std::istream &stream, std::istream::char_type const *bom)
     {
-        if (static_cast<std::istream::char_type>(stream.peek()) == bom[0])
+        std::istream::int_type const symbol = stream.peek();
+
+        if (symbol == std::istream::traits_type::eof())
+        {
+            if (!stream.fail())
+            {
+                // The stream is empty. It can still be parsed.
+                stream.clear();
+            }
+
+            return false;
+        }
+        else if (static_cast<std::istream::char_type>(symbol) == bom[0])
         {
             std::istream::char_type data[Size];
             stream.read(data, Size);
@@ -57,6 +69,12 @@ std::optional<fly::Json> Parser::parse_file(std::filesystem::path const &path)
     Encoding encoding = parse_byte_order_mark(stream);
     std::optional<std::string> utf8_contents;
 
+    if (!stream)
+    {
+        // The bytes examined for a byte order mark could not be put back.
+        return std::nullopt;
+    }
+
     switch (encoding)
     {
         case Encoding::UTF8:
-- 
2.43.0

