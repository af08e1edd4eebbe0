From 9531f691319a689d96f6fdc79d6f052b5c5cbe80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:22 +0000
Subject: [PATCH 01/70] fix: write field resolutions in the text header with
 enough digits to read back exactly

---
 cloudini_lib/src/cloudini.cpp | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/cloudini_lib/src/cloudini.cpp b/cloudini_lib/src/cloudini.cpp
index e8301fb..493ac69 100644
--- a/cloudini_lib/src/cloudini.cpp
+++ b/cloudini_lib/src/cloudini.cpp
@@ -17,8 +17,10 @@
 #include "cloudini_lib/cloudini.hpp"
 
 #include <algorithm>
+#include <cstdlib>
 #include <cstring>
 #include <limits>
+#include <locale>
 #include <sstream>
 #include <stdexcept>
 
@@ -162,6 +164,27 @@ CompressionOption CompressionOptionFromString(std::string_view str) {
   throw std::runtime_error("Invalid CompressionOption string: " + std::string(str));
 }
 
+namespace {
+
+// Shortest decimal representation that reads back as exactly the same float
+// (the default stream precision of 6 digits does not).
+std::string FloatToText(float value) {
+  std::string text;
+  for (int precision = 6; precision <= std::numeric_limits<float>::max_digits10; ++precision) {
+    std::ostringstream stream;
+    stream.imbue(std::locale::classic());
+    stream.precision(precision);
+    stream << value;
+    text = stream.str();
+    if (std::strtof(text.c_str(), nullptr) == value) {
+      break;
+    }
+  }
+  return text;
+}
+
+}  // namespace
+
 std::string EncodingInfoToYAML(const EncodingInfo& info) {
   std::ostringstream yaml;
   yaml << "version: " << static_cast<int>(info.version) << "\n";
@@ -181,7 +204,7 @@ std::string EncodingInfoToYAML(const EncodingInfo& info) {
     yaml << "    offset: " << field.offset << "\n";
     yaml << "    type: " << ToString(field.type) << "\n";
     if (field.resolution.has_value()) {
-      yaml << "    resolution: " << field.resolution.value() << "\n";
+      yaml << "    resolution: " << FloatToText(field.resolution.value()) << "\n";
     } else {
       yaml << "    resolution: null\n";
     }
-- 
2.43.0


From 1be5db67d75c0bf3b967294bf66e663d53bbd4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:56 +0000
Subject: [PATCH 02/70] fix: account for the run lengths of delta-RLE sections
 in the worst-case compressed size

---
 cloudini_lib/src/cloudini.cpp     | 6 +++---
 cloudini_lib/src/codec_common.cpp | 4 +++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/cloudini_lib/src/cloudini.cpp b/cloudini_lib/src/cloudini.cpp
index 493ac69..f6a3101 100644
--- a/cloudini_lib/src/cloudini.cpp
+++ b/cloudini_lib/src/cloudini.cpp
@@ -286,9 +286,9 @@ size_t MaxCompressedSize(const EncodingInfo& info, size_t points_count, bool inc
     points_left -= points_in_chunk;
     size_t max_chunk_input_size = points_in_chunk * max_serialized_point_size;
     if (detail::UsesV5Codec(info)) {
-      // V5 adaptive integer sections add mode/header bytes. Adaptive sections
-      // compete using their full encoded size, so any selected mode remains
-      // bounded by the delta-varint section plus this fixed slack.
+      // V5 adaptive integer sections add mode/header bytes. The mode is selected on
+      // the first points only, so the section is bounded by the worst case of any
+      // mode (see MaxSerializedFieldSize) plus this fixed slack.
       max_chunk_input_size += info.fields.size() * 32u + 1024u;
     }
 
diff --git a/cloudini_lib/src/codec_common.cpp b/cloudini_lib/src/codec_common.cpp
index f447ac3..5ffefe8 100644
--- a/cloudini_lib/src/codec_common.cpp
+++ b/cloudini_lib/src/codec_common.cpp
@@ -34,7 +34,9 @@ size_t MaxSerializedFieldSize(const PointField& field, EncodingOptions encoding_
     case FieldType::UINT32:
     case FieldType::INT64:
     case FieldType::UINT64:
-      return 10;  // worst-case signed varint64 size
+      // Worst-case signed varint64 size (10), plus the run length that follows it
+      // when a V5 delta-RLE section degenerates into runs of a single value.
+      return 11;
     case FieldType::FLOAT32:
       if (encoding_opt == EncodingOptions::LOSSY && field.resolution.has_value()) {
         return 10;  // quantized int64 delta as varint
-- 
2.43.0


From d1a4940b9d53b0620f8b423b0aa8929410709aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:18 +0000
Subject: [PATCH 03/70] fix: bound decompressed chunks by the worst-case first
 stage size instead of the raw cloud size

---
 cloudini_lib/src/cloudini.cpp     | 17 +++++++----------
 cloudini_lib/src/codec_common.cpp | 12 ++++++++++++
 cloudini_lib/src/codec_common.hpp |  3 +++
 3 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/cloudini_lib/src/cloudini.cpp b/cloudini_lib/src/cloudini.cpp
index f6a3101..23dc173 100644
--- a/cloudini_lib/src/cloudini.cpp
+++ b/cloudini_lib/src/cloudini.cpp
@@ -277,20 +277,13 @@ size_t MaxCompressedSize(const EncodingInfo& info, size_t points_count, bool inc
   constexpr size_t chunk_points = detail::kPointsPerChunk;
   const size_t chunks_count = (points_count / chunk_points) + ((points_count % chunk_points) ? 1 : 0);
 
-  const size_t max_serialized_point_size = detail::MaxSerializedPointSize(info);
   size_t total_size = include_header ? (kMagicHeaderLength + 2 + 1 + EncodingInfoToYAML(info).size() + 1) : 0;
 
   size_t points_left = points_count;
   for (size_t chunk_idx = 0; chunk_idx < chunks_count; ++chunk_idx) {
     const size_t points_in_chunk = std::min(points_left, chunk_points);
     points_left -= points_in_chunk;
-    size_t max_chunk_input_size = points_in_chunk * max_serialized_point_size;
-    if (detail::UsesV5Codec(info)) {
-      // V5 adaptive integer sections add mode/header bytes. The mode is selected on
-      // the first points only, so the section is bounded by the worst case of any
-      // mode (see MaxSerializedFieldSize) plus this fixed slack.
-      max_chunk_input_size += info.fields.size() * 32u + 1024u;
-    }
+    const size_t max_chunk_input_size = detail::MaxStage1ChunkSize(info, points_in_chunk);
 
     total_size += sizeof(uint32_t);  // chunk size prefix
     switch (info.compression_opt) {
@@ -692,8 +685,12 @@ void PointcloudDecoder::decode(const EncodingInfo& info, ConstBufferView compres
 
 void PointcloudDecoder::decodeChunk(
     const EncodingInfo& info, ConstBufferView chunk_data, BufferView& output_buffer, size_t expected_points) {
-  const size_t max_decompressed_size =
-      static_cast<size_t>(info.width) * static_cast<size_t>(info.height) * info.point_step;
+  // The first stage may expand the data, therefore its size is not limited by the size of
+  // the decoded points. When the number of points of the chunk is unknown (version 2), the
+  // chunk contains the entire cloud.
+  const size_t points_in_chunk =
+      (expected_points > 0) ? expected_points : static_cast<size_t>(info.width) * static_cast<size_t>(info.height);
+  const size_t max_decompressed_size = detail::MaxStage1ChunkSize(info, points_in_chunk);
   ConstBufferView encoded_view = detail::DecompressChunk(
       info.compression_opt, chunk_data, decompressed_buffer_, max_decompressed_size);
 
diff --git a/cloudini_lib/src/codec_common.cpp b/cloudini_lib/src/codec_common.cpp
index 5ffefe8..6446c14 100644
--- a/cloudini_lib/src/codec_common.cpp
+++ b/cloudini_lib/src/codec_common.cpp
@@ -21,6 +21,7 @@
 #include <limits>
 #include <stdexcept>
 
+#include "v5_codec.hpp"
 #include "lz4.h"
 #include "zstd.h"
 
@@ -68,6 +69,17 @@ size_t MaxSerializedPointSize(const EncodingInfo& info) {
   return max_point_size;
 }
 
+size_t MaxStage1ChunkSize(const EncodingInfo& info, size_t points_in_chunk) {
+  size_t max_size = points_in_chunk * MaxSerializedPointSize(info);
+  if (UsesV5Codec(info)) {
+    // V5 adaptive integer sections add mode/header bytes. The mode is selected on
+    // the first points only, so the section is bounded by the worst case of any
+    // mode (see MaxSerializedFieldSize) plus this fixed slack.
+    max_size += info.fields.size() * 32u + 1024u;
+  }
+  return max_size;
+}
+
 size_t LeadingLossyFloatFieldCount(const EncodingInfo& info) {
   if (info.encoding_opt != EncodingOptions::LOSSY) {
     return 0;
diff --git a/cloudini_lib/src/codec_common.hpp b/cloudini_lib/src/codec_common.hpp
index 104feb0..b3bd405 100644
--- a/cloudini_lib/src/codec_common.hpp
+++ b/cloudini_lib/src/codec_common.hpp
@@ -30,6 +30,9 @@ constexpr size_t kPointsPerChunk = 32 * 1024;
 size_t MaxSerializedFieldSize(const PointField& field, EncodingOptions encoding_opt);
 size_t MaxSerializedPointSize(const EncodingInfo& info);
 
+// Upper bound of the size of a chunk after the first stage (before LZ4/ZSTD).
+size_t MaxStage1ChunkSize(const EncodingInfo& info, size_t points_in_chunk);
+
 size_t LeadingLossyFloatFieldCount(const EncodingInfo& info);
 
 size_t AppendLeadingLossyFloatEncoder(
-- 
2.43.0


From 53e5eb8e0c9c95f43e30a5a84c4cca15d8f1ec36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:31 +0000
Subject: [PATCH 04/70] fix: encode a difference of INT64_MIN as a value
 instead of the NaN marker

---
 cloudini_lib/include/cloudini_lib/encoding_utils.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/cloudini_lib/include/cloudini_lib/encoding_utils.hpp b/cloudini_lib/include/cloudini_lib/encoding_utils.hpp
index 0eb976c..636adae 100644
--- a/cloudini_lib/include/cloudini_lib/encoding_utils.hpp
+++ b/cloudini_lib/include/cloudini_lib/encoding_utils.hpp
@@ -56,6 +56,12 @@ inline size_t encodeVarint64(int64_t value, uint8_t* ptr) {
   uint64_t val = static_cast<uint64_t>((value << 1) ^ (value >> 63));  // Zig-zag encoding
   val++;                                                               // reserving value 0 for NaN
   uint8_t* ptr_start = ptr;
+  if (val == 0) {
+    // Only for INT64_MIN: the increment wrapped around. Write 2^64 explicitly, to avoid using the NaN marker.
+    memset(ptr, 0x80, 9);
+    ptr[9] = 0x02;
+    return 10;
+  }
   while (val > 0x7F) {
     *ptr = (static_cast<uint8_t>((val & 0x7F) | 0x80));
     val >>= 7;
@@ -124,6 +130,11 @@ inline size_t decodeVarint(const uint8_t* buf, size_t max_size, int64_t& val) {
       uint8_t byte = *ptr;
       ptr++;
       const uint8_t payload = byte & 0x7f;
+      if (shift == 63 && byte == 0x02 && uval == 0) {
+        // 2^64 represents INT64_MIN (see encodeVarint64)
+        val = std::numeric_limits<int64_t>::min();
+        return static_cast<size_t>(ptr - buf);
+      }
       if (shift >= 64 || (shift == 63 && payload > 1)) {
         throw std::runtime_error("decodeVarint: value overflow");
       }
-- 
2.43.0


From 524778c634dae94916adc74a48ff4627f77cc721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:24 +0000
Subject: [PATCH 05/70] fix: honor kDecodeButSkipStore in the V5 adaptive
 integer sections

---
 cloudini_lib/src/v5_codec.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/cloudini_lib/src/v5_codec.cpp b/cloudini_lib/src/v5_codec.cpp
index 9f41f3a..dd961f9 100644
--- a/cloudini_lib/src/v5_codec.cpp
+++ b/cloudini_lib/src/v5_codec.cpp
@@ -767,6 +767,11 @@ void decodeV5AdaptiveIntSection(
   if (input.empty()) {
     throw std::runtime_error("V5 adaptive int: missing mode byte");
   }
+  auto store_value = [&](size_t index, uint64_t value) {
+    if (field.offset != kDecodeButSkipStore) {
+      writeRawBitsToPoint(value, field.bytes_per_value, output_base + index * point_step + field.offset);
+    }
+  };
   const uint8_t mode_byte = input.data()[0];
   input.trim_front(1);
   if (mode_byte > static_cast<uint8_t>(AdaptiveIntMode::DeltaRle)) {
@@ -784,9 +789,7 @@ void decodeV5AdaptiveIntSection(
         input.trim_front(consumed);
         const int64_t value = prev + diff;
         prev = value;
-        writeRawBitsToPoint(
-            static_cast<uint64_t>(value), field.bytes_per_value,
-            output_base + i * point_step + field.offset);
+        store_value(i, static_cast<uint64_t>(value));
       }
     } break;
 
@@ -817,7 +820,7 @@ void decodeV5AdaptiveIntSection(
         if (idx >= palette.size()) {
           throw std::runtime_error("V5 adaptive int: palette index out of range");
         }
-        writeRawBitsToPoint(palette[idx], field.bytes_per_value, output_base + i * point_step + field.offset);
+        store_value(i, palette[idx]);
       }
       input.trim_front(index_bytes);
     } break;
@@ -837,7 +840,7 @@ void decodeV5AdaptiveIntSection(
           throw std::runtime_error("V5 adaptive int: RLE run exceeds point count");
         }
         for (uint64_t k = 0; k < run_len; ++k) {
-          writeRawBitsToPoint(value, field.bytes_per_value, output_base + out_index * point_step + field.offset);
+          store_value(out_index, value);
           ++out_index;
         }
       }
@@ -862,9 +865,7 @@ void decodeV5AdaptiveIntSection(
         for (uint64_t k = 0; k < run_len; ++k) {
           const int64_t value = prev + diff;
           prev = value;
-          writeRawBitsToPoint(
-              static_cast<uint64_t>(value), field.bytes_per_value,
-              output_base + out_index * point_step + field.offset);
+          store_value(out_index, static_cast<uint64_t>(value));
           ++out_index;
         }
       }
-- 
2.43.0


From af993ee1c7064afba5214916e9afb97184b3e685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:24 +0000
Subject: [PATCH 06/70] fix: reject run lengths that overflow the V5 chunk
 point count

---
 cloudini_lib/src/v5_codec.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cloudini_lib/src/v5_codec.cpp b/cloudini_lib/src/v5_codec.cpp
index dd961f9..0993984 100644
--- a/cloudini_lib/src/v5_codec.cpp
+++ b/cloudini_lib/src/v5_codec.cpp
@@ -836,7 +836,7 @@ void decodeV5AdaptiveIntSection(
         const uint64_t value = readRawBits(input.data(), field.bytes_per_value);
         input.trim_front(field.bytes_per_value);
         const uint64_t run_len = readUVarint(input);
-        if (out_index + run_len > expected_points) {
+        if (run_len > expected_points - out_index) {
           throw std::runtime_error("V5 adaptive int: RLE run exceeds point count");
         }
         for (uint64_t k = 0; k < run_len; ++k) {
@@ -859,7 +859,7 @@ void decodeV5AdaptiveIntSection(
         const auto consumed = decodeVarint(input.data(), input.size(), diff);
         input.trim_front(consumed);
         const uint64_t run_len = readUVarint(input);
-        if (out_index + run_len > expected_points) {
+        if (run_len > expected_points - out_index) {
           throw std::runtime_error("V5 adaptive int: Delta-RLE run exceeds point count");
         }
         for (uint64_t k = 0; k < run_len; ++k) {
-- 
2.43.0


From 9fd4e7a29516ebadf98d249a5cd717431c4d958d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:24 +0000
Subject: [PATCH 07/70] fix: check the remaining input in every field decoder
 before reading it

---
 cloudini_lib/include/cloudini_lib/field_decoder.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/cloudini_lib/include/cloudini_lib/field_decoder.hpp b/cloudini_lib/include/cloudini_lib/field_decoder.hpp
index c690275..913fbb5 100644
--- a/cloudini_lib/include/cloudini_lib/field_decoder.hpp
+++ b/cloudini_lib/include/cloudini_lib/field_decoder.hpp
@@ -60,7 +60,9 @@ class FieldDecoderCopy : public FieldDecoder {
   }
 
   void decode(ConstBufferView& input, BufferView dest_point_view) override {
-    // Bounds validated by PointcloudDecoder's per-point check + trim_front's own check
+    if (input.size() < field_size_) {
+      throw std::runtime_error("FieldDecoderCopy: truncated input");
+    }
     if (offset_ != kDecodeButSkipStore) {
       memcpy(dest_point_view.data() + offset_, input.data(), field_size_);
     }
@@ -329,7 +331,9 @@ class FieldDecoderFloatN_Lossy : public FieldDecoder {
 //------------------------------------------------------------------------------------------
 template <typename FloatType>
 inline void FieldDecoderFloat_Lossy<FloatType>::decode(ConstBufferView& input, BufferView dest_point_view) {
-  // Bounds validated by PointcloudDecoder's per-point min_encoded_point_bytes_ check
+  if (input.empty()) {
+    throw std::runtime_error("FieldDecoderFloat_Lossy: truncated input");
+  }
   if (input.data()[0] == 0) {
     constexpr auto nan_value = std::numeric_limits<FloatType>::quiet_NaN();
     if (offset_ != kDecodeButSkipStore) {
@@ -354,7 +358,9 @@ inline void FieldDecoderFloat_Lossy<FloatType>::decode(ConstBufferView& input, B
 
 template <typename FloatType>
 inline void FieldDecoderFloat_XOR<FloatType>::decode(ConstBufferView& input, BufferView dest_point_view) {
-  // Bounds validated by PointcloudDecoder's per-point check + trim_front's own check
+  if (input.size() < sizeof(IntType)) {
+    throw std::runtime_error("FieldDecoderFloat_XOR: truncated input");
+  }
   IntType residual = 0;
   memcpy(&residual, input.data(), sizeof(IntType));
   input.trim_front(sizeof(IntType));
-- 
2.43.0


From 5239f6b326794ab870de1aed3f73b4915a6ab685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:24 +0000
Subject: [PATCH 08/70] fix: reject invalid bit windows in the Gorilla float
 decoder

---
 cloudini_lib/include/cloudini_lib/field_decoder.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cloudini_lib/include/cloudini_lib/field_decoder.hpp b/cloudini_lib/include/cloudini_lib/field_decoder.hpp
index 913fbb5..5f3ad59 100644
--- a/cloudini_lib/include/cloudini_lib/field_decoder.hpp
+++ b/cloudini_lib/include/cloudini_lib/field_decoder.hpp
@@ -273,6 +273,9 @@ inline void FieldDecoderFloat_Gorilla<FloatType>::decode(ConstBufferView& input,
       IntType xor_val;
       if (control == 0) {
         // Reuse previous window.
+        if (prev_leading_ == kLeadingSentinel) {
+          throw std::runtime_error("FieldDecoderFloat_Gorilla: no previous window to reuse");
+        }
         const uint8_t meaningful = static_cast<uint8_t>(kTypeBits - prev_leading_ - prev_trailing_);
         const uint64_t bits = getBits(meaningful, input);
         xor_val = static_cast<IntType>(bits << prev_trailing_);
@@ -280,6 +283,9 @@ inline void FieldDecoderFloat_Gorilla<FloatType>::decode(ConstBufferView& input,
         // New window: read leading(5), meaningful-1(6), meaningful bits.
         const uint8_t stored_leading = static_cast<uint8_t>(getBits(5, input));
         const uint8_t meaningful = static_cast<uint8_t>(getBits(6, input) + 1);
+        if (stored_leading + meaningful > static_cast<int>(kTypeBits)) {
+          throw std::runtime_error("FieldDecoderFloat_Gorilla: invalid window");
+        }
         const uint64_t bits = getBits(meaningful, input);
         const uint8_t trailing = static_cast<uint8_t>(kTypeBits - stored_leading - meaningful);
         xor_val = static_cast<IntType>(bits << trailing);
-- 
2.43.0


From ec5f150428ecf58b8303e144bf0cfc0296a30aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:24 +0000
Subject: [PATCH 09/70] fix: refuse to decode fields that are not contained in
 the point

---
 cloudini_lib/src/cloudini.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cloudini_lib/src/cloudini.cpp b/cloudini_lib/src/cloudini.cpp
index 23dc173..60f6a71 100644
--- a/cloudini_lib/src/cloudini.cpp
+++ b/cloudini_lib/src/cloudini.cpp
@@ -652,6 +652,16 @@ void PointcloudDecoder::decode(const EncodingInfo& info, ConstBufferView compres
   // read the header
   updateDecoders(info);
 
+  // the fields must be inside the point, otherwise decoding would write outside of the output
+  if (!compressed_data.empty()) {
+    for (const auto& field : info.fields) {
+      if (field.offset != kDecodeButSkipStore &&
+          static_cast<size_t>(field.offset) + static_cast<size_t>(SizeOf(field.type)) > info.point_step) {
+        throw std::runtime_error("Field '" + field.name + "' does not fit in the point");
+      }
+    }
+  }
+
   // check if the first bytes are the magic header. if they are, skip them
   if (compressed_data.size() >= static_cast<size_t>(kMagicHeaderLength) &&
       memcmp(compressed_data.data(), kMagicHeader, kMagicHeaderLength) == 0) {
-- 
2.43.0


From 83c36eda8a3f4411e5fb23fe4e0e61c41824a67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:45 +0000
Subject: [PATCH 10/70] fix: read the version of the text description as a
 number instead of a character

---
 .../include/cloudini_lib/yaml_parser.hpp      | 22 ++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/cloudini_lib/include/cloudini_lib/yaml_parser.hpp b/cloudini_lib/include/cloudini_lib/yaml_parser.hpp
index 6abbe20..a9f3da7 100644
--- a/cloudini_lib/include/cloudini_lib/yaml_parser.hpp
+++ b/cloudini_lib/include/cloudini_lib/yaml_parser.hpp
@@ -1,12 +1,14 @@
 #pragma once
 
 #include <cctype>
+#include <limits>
 #include <map>
 #include <memory>
 #include <sstream>
 #include <stdexcept>
 #include <string>
 #include <string_view>
+#include <type_traits>
 #include <variant>
 #include <vector>
 
@@ -100,12 +102,22 @@ class Node {
   template <typename T>
   static T parseScalar(const std::string& str) {
     std::istringstream iss(str);
-    T value;
-    iss >> value;
-    if (iss.fail()) {
-      throw std::runtime_error("Failed to convert scalar: " + str);
+    if constexpr (std::is_integral_v<T> && sizeof(T) == 1) {
+      // 8 bit integers are numbers too, operator>> would read a single character
+      int value = 0;
+      iss >> value;
+      if (iss.fail() || value < std::numeric_limits<T>::min() || value > std::numeric_limits<T>::max()) {
+        throw std::runtime_error("Failed to convert scalar: " + str);
+      }
+      return static_cast<T>(value);
+    } else {
+      T value;
+      iss >> value;
+      if (iss.fail()) {
+        throw std::runtime_error("Failed to convert scalar: " + str);
+      }
+      return value;
     }
-    return value;
   }
 };
 
-- 
2.43.0


From 1b11dce51308082d2ac8d3a8f9cd102de6b580ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:04 +0000
Subject: [PATCH 11/70] fix: do not mistake a binary header whose width starts
 with a newline byte for a text header

---
 cloudini_lib/src/cloudini.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cloudini_lib/src/cloudini.cpp b/cloudini_lib/src/cloudini.cpp
index 60f6a71..002e29d 100644
--- a/cloudini_lib/src/cloudini.cpp
+++ b/cloudini_lib/src/cloudini.cpp
@@ -392,10 +392,18 @@ EncodingInfo DecodeHeader(ConstBufferView& input) {
 
   // YAML payload starts with newline followed by a non-brace; legacy binary
   // payload starts with the brace of an inline schema.
+  // A binary header may start with a newline as well (low byte of the width), but it
+  // doesn't contain any text with the mandatory key "version".
+  std::string_view yaml_str;
+  size_t null_pos = std::string_view::npos;
+  bool is_yaml = false;
   if (input.size() >= 2 && input.data()[0] == '\n' && input.data()[1] != '{') {
+    yaml_str = std::string_view(reinterpret_cast<const char*>(input.data()) + 1, input.size() - 1);
+    null_pos = yaml_str.find('\0');
+    is_yaml = yaml_str.substr(0, null_pos).find("version:") != std::string_view::npos;
+  }
+  if (is_yaml) {
     input.trim_front(1);  // consume newline
-    std::string_view yaml_str(reinterpret_cast<const char*>(input.data()), input.size());
-    size_t null_pos = yaml_str.find('\0');
     if (null_pos == std::string::npos) {
       throw std::runtime_error("Malformed YAML header: missing null terminator");
     }
-- 
2.43.0


From b2fc23b1f909f628e4d3185889cb73ad10ad90d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:45 +0000
Subject: [PATCH 12/70] fix: quote field names that the text header would not
 preserve

---
 cloudini_lib/src/cloudini.cpp | 75 +++++++++++++++++++++++++++++++++--
 1 file changed, 71 insertions(+), 4 deletions(-)

diff --git a/cloudini_lib/src/cloudini.cpp b/cloudini_lib/src/cloudini.cpp
index 002e29d..8ec5cb6 100644
--- a/cloudini_lib/src/cloudini.cpp
+++ b/cloudini_lib/src/cloudini.cpp
@@ -183,6 +183,73 @@ std::string FloatToText(float value) {
   return text;
 }
 
+// Text that the parser would not return unchanged (blank at the ends, comment or control
+// characters, quotes) is written as a YAML double-quoted scalar. '#' must be escaped too,
+// because the parser removes comments first.
+std::string QuoteTextIfNeeded(const std::string& text) {
+  auto is_special = [](char c) { return static_cast<unsigned char>(c) < 0x20 || c == 0x7F || c == '#'; };
+  const bool needed = text.empty() || text.front() == ' ' || text.back() == ' ' || text.front() == '"' ||
+                      std::any_of(text.begin(), text.end(), is_special);
+  if (!needed) {
+    return text;
+  }
+  constexpr char kHex[] = "0123456789abcdef";
+  std::string quoted = "\"";
+  for (const char c : text) {
+    if (is_special(c)) {
+      const auto byte = static_cast<unsigned char>(c);
+      quoted += "\\x";
+      quoted += kHex[byte >> 4];
+      quoted += kHex[byte & 0x0F];
+    } else {
+      if (c == '"' || c == '\\') {
+        quoted += '\\';
+      }
+      quoted += c;
+    }
+  }
+  quoted += '"';
+  return quoted;
+}
+
+// Inverse of QuoteTextIfNeeded
+std::string UnquoteText(const std::string& text) {
+  if (text.size() < 2 || text.front() != '"' || text.back() != '"') {
+    return text;
+  }
+  auto hex_digit = [&text](size_t pos) -> unsigned {
+    const char c = (pos < text.size()) ? text[pos] : '\0';
+    if (c >= '0' && c <= '9') {
+      return static_cast<unsigned>(c - '0');
+    }
+    if (c >= 'a' && c <= 'f') {
+      return static_cast<unsigned>(c - 'a' + 10);
+    }
+    if (c >= 'A' && c <= 'F') {
+      return static_cast<unsigned>(c - 'A' + 10);
+    }
+    throw std::runtime_error("Invalid escape sequence in: " + text);
+  };
+  std::string unquoted;
+  const size_t end = text.size() - 1;
+  for (size_t i = 1; i < end; ++i) {
+    if (text[i] != '\\') {
+      unquoted += text[i];
+      continue;
+    }
+    ++i;
+    if (text[i] == 'x') {
+      unquoted += static_cast<char>((hex_digit(i + 1) << 4) | hex_digit(i + 2));
+      i += 2;
+    } else if (i < end && (text[i] == '"' || text[i] == '\\')) {
+      unquoted += text[i];
+    } else {
+      throw std::runtime_error("Invalid escape sequence in: " + text);
+    }
+  }
+  return unquoted;
+}
+
 }  // namespace
 
 std::string EncodingInfoToYAML(const EncodingInfo& info) {
@@ -194,13 +261,13 @@ std::string EncodingInfoToYAML(const EncodingInfo& info) {
   yaml << "encoding_opt: " << ToString(info.encoding_opt) << "\n";
   yaml << "compression_opt: " << ToString(info.compression_opt) << "\n";
   if (!info.encoding_config.empty()) {
-    yaml << "encoding_config: " << info.encoding_config << "\n";
+    yaml << "encoding_config: " << QuoteTextIfNeeded(info.encoding_config) << "\n";
   }
 
   yaml << "fields:\n";
 
   for (const auto& field : info.fields) {
-    yaml << "  - name: " << field.name << "\n";
+    yaml << "  - name: " << QuoteTextIfNeeded(field.name) << "\n";
     yaml << "    offset: " << field.offset << "\n";
     yaml << "    type: " << ToString(field.type) << "\n";
     if (field.resolution.has_value()) {
@@ -228,7 +295,7 @@ EncodingInfo EncodingInfoFromYAML(std::string_view yaml) {
 
   // encoding_config might be empty in older versions
   if (!root["encoding_config"].isNull() && root["encoding_config"].isString()) {
-    info.encoding_config = root["encoding_config"].as<std::string>();
+    info.encoding_config = UnquoteText(root["encoding_config"].as<std::string>());
   }
 
   // Parse fields array
@@ -237,7 +304,7 @@ EncodingInfo EncodingInfoFromYAML(std::string_view yaml) {
     for (size_t i = 0; i < fields_node.size(); ++i) {
       const auto& field_node = fields_node[i];
       PointField field;
-      field.name = field_node["name"].as<std::string>();
+      field.name = UnquoteText(field_node["name"].as<std::string>());
       field.offset = field_node["offset"].as<uint32_t>();
       field.type = FieldTypeFromString(field_node["type"].as<std::string_view>());
 
-- 
2.43.0


From a4de20b3a724d691fa8d660b729fc3e922461d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:27 +0000
Subject: [PATCH 13/70] fix: report trailing characters and negative values in
 the numbers of the text description

---
 .../include/cloudini_lib/yaml_parser.hpp      | 15 ++++++-----
 cloudini_lib/src/cloudini.cpp                 | 25 ++++++++++++++++---
 2 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/cloudini_lib/include/cloudini_lib/yaml_parser.hpp b/cloudini_lib/include/cloudini_lib/yaml_parser.hpp
index a9f3da7..47fea5e 100644
--- a/cloudini_lib/include/cloudini_lib/yaml_parser.hpp
+++ b/cloudini_lib/include/cloudini_lib/yaml_parser.hpp
@@ -102,20 +102,23 @@ class Node {
   template <typename T>
   static T parseScalar(const std::string& str) {
     std::istringstream iss(str);
+    auto check = [&](bool valid) {
+      // the entire text must be the number
+      if (iss.fail() || !(iss >> std::ws).eof() || !valid) {
+        throw std::runtime_error("Failed to convert scalar: " + str);
+      }
+    };
     if constexpr (std::is_integral_v<T> && sizeof(T) == 1) {
       // 8 bit integers are numbers too, operator>> would read a single character
       int value = 0;
       iss >> value;
-      if (iss.fail() || value < std::numeric_limits<T>::min() || value > std::numeric_limits<T>::max()) {
-        throw std::runtime_error("Failed to convert scalar: " + str);
-      }
+      check(value >= std::numeric_limits<T>::min() && value <= std::numeric_limits<T>::max());
       return static_cast<T>(value);
     } else {
       T value;
       iss >> value;
-      if (iss.fail()) {
-        throw std::runtime_error("Failed to convert scalar: " + str);
-      }
+      // operator>> accepts negative numbers for unsigned types
+      check(!std::is_unsigned_v<T> || str.find('-') == std::string::npos);
       return value;
     }
   }
diff --git a/cloudini_lib/src/cloudini.cpp b/cloudini_lib/src/cloudini.cpp
index 8ec5cb6..6737a64 100644
--- a/cloudini_lib/src/cloudini.cpp
+++ b/cloudini_lib/src/cloudini.cpp
@@ -102,6 +102,19 @@ const char* ToString(const CompressionOption& opt) {
   }
 }
 
+namespace {
+
+int IntegerFromString(std::string_view str) {
+  size_t parsed_chars = 0;
+  const int val = std::stoi(std::string(str), &parsed_chars);
+  if (parsed_chars != str.size()) {
+    throw std::runtime_error("Invalid number: " + std::string(str));
+  }
+  return val;
+}
+
+}  // namespace
+
 EncodingOptions EncodingOptionsFromString(std::string_view str) {
   if (str == "NONE") {
     return EncodingOptions::NONE;
@@ -110,7 +123,7 @@ EncodingOptions EncodingOptionsFromString(std::string_view str) {
   } else if (str == "LOSSLESS") {
     return EncodingOptions::LOSSLESS;
   } else {
-    int val = std::stoi(std::string(str));
+    const int val = IntegerFromString(str);
     if (val >= static_cast<int>(EncodingOptions::NONE) && val <= static_cast<int>(EncodingOptions::LOSSLESS)) {
       return static_cast<EncodingOptions>(val);
     }
@@ -140,7 +153,7 @@ FieldType FieldTypeFromString(std::string_view str) {
   } else if (str == "UINT64") {
     return FieldType::UINT64;
   } else {
-    int val = std::stoi(std::string(str));
+    const int val = IntegerFromString(str);
     if (val >= static_cast<int>(FieldType::UNKNOWN) && val <= static_cast<int>(FieldType::UINT64)) {
       return static_cast<FieldType>(val);
     }
@@ -156,7 +169,7 @@ CompressionOption CompressionOptionFromString(std::string_view str) {
   } else if (str == "ZSTD") {
     return CompressionOption::ZSTD;
   } else {
-    int val = std::stoi(std::string(str));
+    const int val = IntegerFromString(str);
     if (val >= static_cast<int>(CompressionOption::NONE) && val <= static_cast<int>(CompressionOption::ZSTD)) {
       return static_cast<CompressionOption>(val);
     }
@@ -310,7 +323,11 @@ EncodingInfo EncodingInfoFromYAML(std::string_view yaml) {
 
       std::string res_str = field_node["resolution"].as<std::string>();
       if (res_str != "null") {
-        field.resolution = std::stof(res_str);
+        size_t parsed_chars = 0;
+        field.resolution = std::stof(res_str, &parsed_chars);
+        if (parsed_chars != res_str.size()) {
+          throw std::runtime_error("Invalid resolution: " + res_str);
+        }
       }
       info.fields.push_back(field);
     }
-- 
2.43.0


From e48135351788b3209cc7763c97a0a808d1adc683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:01 +0000
Subject: [PATCH 14/70] fix: refuse to encode versions that the library can't
 write

---
 cloudini_lib/src/cloudini.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cloudini_lib/src/cloudini.cpp b/cloudini_lib/src/cloudini.cpp
index 6737a64..69f5b4c 100644
--- a/cloudini_lib/src/cloudini.cpp
+++ b/cloudini_lib/src/cloudini.cpp
@@ -536,6 +536,10 @@ EncodingInfo DecodeHeader(ConstBufferView& input) {
 }
 
 PointcloudEncoder::PointcloudEncoder(const EncodingInfo& info) : info_(info) {
+  // versions older than 3 can be decoded only, newer ones don't exist yet
+  if (info_.version < 3 || info_.version > kEncodingVersion) {
+    throw std::runtime_error("Unsupported encoding version: " + std::to_string(info_.version));
+  }
   EncodeHeader(info_, header_);
 
   if (!detail::UsesV5Codec(info_)) {
-- 
2.43.0


From 281d1c007145f5c4e02c63e6adb4fa42749dd2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:17 +0000
Subject: [PATCH 15/70] fix: refuse to encode with resolutions that are not
 positive finite numbers

---
 cloudini_lib/src/cloudini.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cloudini_lib/src/cloudini.cpp b/cloudini_lib/src/cloudini.cpp
index 69f5b4c..127f940 100644
--- a/cloudini_lib/src/cloudini.cpp
+++ b/cloudini_lib/src/cloudini.cpp
@@ -17,6 +17,7 @@
 #include "cloudini_lib/cloudini.hpp"
 
 #include <algorithm>
+#include <cmath>
 #include <cstdlib>
 #include <cstring>
 #include <limits>
@@ -540,6 +541,15 @@ PointcloudEncoder::PointcloudEncoder(const EncodingInfo& info) : info_(info) {
   if (info_.version < 3 || info_.version > kEncodingVersion) {
     throw std::runtime_error("Unsupported encoding version: " + std::to_string(info_.version));
   }
+  if (info_.encoding_opt == EncodingOptions::LOSSY) {
+    for (const auto& field : info_.fields) {
+      const bool is_float = field.type == FieldType::FLOAT32 || field.type == FieldType::FLOAT64;
+      if (is_float && field.resolution && !(std::isnormal(*field.resolution) && *field.resolution > 0.0F)) {
+        throw std::runtime_error("Field '" + field.name + "' requires a finite resolution with value > 0.0");
+      }
+    }
+  }
+
   EncodeHeader(info_, header_);
 
   if (!detail::UsesV5Codec(info_)) {
-- 
2.43.0


From 521a7826b7bea316c3d1abb9a1100eba66e67b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:32 +0000
Subject: [PATCH 16/70] fix: refuse to encode with options that don't exist

---
 cloudini_lib/src/cloudini.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cloudini_lib/src/cloudini.cpp b/cloudini_lib/src/cloudini.cpp
index 127f940..7da4324 100644
--- a/cloudini_lib/src/cloudini.cpp
+++ b/cloudini_lib/src/cloudini.cpp
@@ -541,6 +541,9 @@ PointcloudEncoder::PointcloudEncoder(const EncodingInfo& info) : info_(info) {
   if (info_.version < 3 || info_.version > kEncodingVersion) {
     throw std::runtime_error("Unsupported encoding version: " + std::to_string(info_.version));
   }
+  if (info_.encoding_opt > EncodingOptions::LOSSLESS || info_.compression_opt > CompressionOption::ZSTD) {
+    throw std::runtime_error("Unsupported encoding or compression option");
+  }
   if (info_.encoding_opt == EncodingOptions::LOSSY) {
     for (const auto& field : info_.fields) {
       const bool is_float = field.type == FieldType::FLOAT32 || field.type == FieldType::FLOAT64;
-- 
2.43.0


From 5272667ccf2dc151f4b7ad65ef4a732fa5cb262f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:59 +0000
Subject: [PATCH 17/70] fix: read subnormal resolutions from the text
 description

---
 cloudini_lib/src/cloudini.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/cloudini_lib/src/cloudini.cpp b/cloudini_lib/src/cloudini.cpp
index 7da4324..378b83b 100644
--- a/cloudini_lib/src/cloudini.cpp
+++ b/cloudini_lib/src/cloudini.cpp
@@ -17,6 +17,7 @@
 #include "cloudini_lib/cloudini.hpp"
 
 #include <algorithm>
+#include <cerrno>
 #include <cmath>
 #include <cstdlib>
 #include <cstring>
@@ -197,6 +198,18 @@ std::string FloatToText(float value) {
   return text;
 }
 
+// Inverse of FloatToText. Unlike std::stof, it accepts subnormal numbers
+float FloatFromText(const std::string& text) {
+  char* end = nullptr;
+  errno = 0;
+  const float value = std::strtof(text.c_str(), &end);
+  const bool out_of_range = (errno == ERANGE) && (value == 0.0F || std::isinf(value));
+  if (text.empty() || end != text.c_str() + text.size() || out_of_range) {
+    throw std::runtime_error("Invalid number: " + text);
+  }
+  return value;
+}
+
 // Text that the parser would not return unchanged (blank at the ends, comment or control
 // characters, quotes) is written as a YAML double-quoted scalar. '#' must be escaped too,
 // because the parser removes comments first.
@@ -324,11 +337,7 @@ EncodingInfo EncodingInfoFromYAML(std::string_view yaml) {
 
       std::string res_str = field_node["resolution"].as<std::string>();
       if (res_str != "null") {
-        size_t parsed_chars = 0;
-        field.resolution = std::stof(res_str, &parsed_chars);
-        if (parsed_chars != res_str.size()) {
-          throw std::runtime_error("Invalid resolution: " + res_str);
-        }
+        field.resolution = FloatFromText(res_str);
       }
       info.fields.push_back(field);
     }
-- 
2.43.0


From bad23cd88b1345e3821d0681a69068badcd8c248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:34 +0000
Subject: [PATCH 18/70] fix: refuse to encode fields that are not contained in
 the point

---
 cloudini_lib/src/cloudini.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cloudini_lib/src/cloudini.cpp b/cloudini_lib/src/cloudini.cpp
index 378b83b..99cb28d 100644
--- a/cloudini_lib/src/cloudini.cpp
+++ b/cloudini_lib/src/cloudini.cpp
@@ -660,6 +660,12 @@ size_t PointcloudEncoder::encode(ConstBufferView cloud_data, BufferView& output,
   if (cloud_data.size() % info_.point_step != 0) {
     throw std::runtime_error("Input cloud_data size is not a multiple of point_step");
   }
+  // all the fields must be inside the point, otherwise encoding would read outside of the input
+  for (const auto& field : info_.fields) {
+    if (static_cast<size_t>(field.offset) + static_cast<size_t>(SizeOf(field.type)) > info_.point_step) {
+      throw std::runtime_error("Field '" + field.name + "' does not fit in the point");
+    }
+  }
   const size_t points_count = cloud_data.size() / info_.point_step;
   // Use header_.size() directly to avoid redundant YAML serialization inside MaxCompressedSize
   const size_t required_capacity = MaxCompressedSize(info_, points_count, false) + (write_header ? header_.size() : 0);
-- 
2.43.0


From b7b7f2f422815f468a3ed29d67c65e5caf08ed18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:06 +0000
Subject: [PATCH 19/70] fix: check that a CDR message has the 4 bytes of its
 header before reading them

---
 cloudini_lib/include/cloudini_lib/contrib/nanocdr.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cloudini_lib/include/cloudini_lib/contrib/nanocdr.hpp b/cloudini_lib/include/cloudini_lib/contrib/nanocdr.hpp
index e73b72a..334412a 100644
--- a/cloudini_lib/include/cloudini_lib/contrib/nanocdr.hpp
+++ b/cloudini_lib/include/cloudini_lib/contrib/nanocdr.hpp
@@ -249,7 +249,11 @@ inline void swapEndianness(T& val) {
   }
 }
 
-inline Decoder::Decoder(ConstBuffer buffer, CdrVersion default_cdr) : buffer_(buffer), origin_(buffer.data() + 4) {
+inline Decoder::Decoder(ConstBuffer buffer, CdrVersion default_cdr) : buffer_(buffer) {
+  if (buffer_.size() < 4) {
+    throw std::runtime_error("Invalid CDR header: not enough data");
+  }
+  origin_ = buffer_.data() + 4;
   const auto* ptr = buffer_.data();
   uint8_t dummy = ptr[0];
   if (dummy != 0) {
-- 
2.43.0


From f8c5b11d4e58d520e72546fbcb59e10d0a52eb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:06 +0000
Subject: [PATCH 20/70] fix: write the size of the compressed data with the
 endianness of the message

---
 cloudini_lib/src/ros_msg_utils.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cloudini_lib/src/ros_msg_utils.cpp b/cloudini_lib/src/ros_msg_utils.cpp
index 2978571..1658120 100644
--- a/cloudini_lib/src/ros_msg_utils.cpp
+++ b/cloudini_lib/src/ros_msg_utils.cpp
@@ -202,7 +202,11 @@ void convertPointCloud2ToCompressedCloud(
   const size_t compressed_size = cloud_encoder.encode(pc_info.data, compressed_data_view, true);
 
   // we can finally write the actual size of the compressed data
-  memcpy(compressed_dds_msg.data() + cloud_size_memory_offset, &compressed_size, sizeof(uint32_t));
+  uint32_t compressed_size_field = static_cast<uint32_t>(compressed_size);
+  if (cdr_encoder.header().endianness != nanocdr::getCurrentEndianness()) {
+    nanocdr::swapEndianness(compressed_size_field);
+  }
+  memcpy(compressed_dds_msg.data() + cloud_size_memory_offset, &compressed_size_field, sizeof(uint32_t));
 
   // Resize the output buffer to the actual size used
   compressed_dds_msg.resize(prev_size + compressed_size);
-- 
2.43.0


From d21ff6c81099e50bfc70a16c0e92caebf4783ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:20 +0000
Subject: [PATCH 21/70] fix: do not loop forever on version 2 data when the
 points don't consume any byte

---
 cloudini_lib/src/v4_codec.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cloudini_lib/src/v4_codec.cpp b/cloudini_lib/src/v4_codec.cpp
index 726e6e1..2c1a7d2 100644
--- a/cloudini_lib/src/v4_codec.cpp
+++ b/cloudini_lib/src/v4_codec.cpp
@@ -111,7 +111,11 @@ void DecodeV4Stage1Chunk(
       if (encoded_view.size() < min_encoded_point_bytes) {
         throw std::runtime_error("Truncated encoded data: not enough bytes for a complete point");
       }
+      const size_t prev_size = encoded_view.size();
       decode_point();
+      if (encoded_view.size() == prev_size) {
+        throw std::runtime_error("Encoded data contains bytes that don't belong to any field");
+      }
     }
   }
 }
-- 
2.43.0


From de7c857b0764e00f8dc15cfff2220b124794e307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:42 +0000
Subject: [PATCH 22/70] fix: ignore a position triple that is not contained in
 the point when preprocessing a message

---
 cloudini_lib/src/ros_msg_utils.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cloudini_lib/src/ros_msg_utils.cpp b/cloudini_lib/src/ros_msg_utils.cpp
index 1658120..51483f8 100644
--- a/cloudini_lib/src/ros_msg_utils.cpp
+++ b/cloudini_lib/src/ros_msg_utils.cpp
@@ -264,7 +264,8 @@ void applyVizLossyPreprocessing(RosPointCloud2& pc_info) {
       f1.resolution.has_value() && f2.resolution.has_value() &&
       f0.resolution.value() == f1.resolution.value() &&
       f0.resolution.value() == f2.resolution.value() &&
-      f1.offset == f0.offset + 4u && f2.offset == f0.offset + 8u;
+      f1.offset == f0.offset + 4u && f2.offset == f0.offset + 8u &&
+      static_cast<uint64_t>(f0.offset) + 12u <= pc_info.point_step;
   if (!has_triple) {
     return;
   }
-- 
2.43.0


From 6eb179620ce3f5f18a55285f64edc10dda4217c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:39 +0000
Subject: [PATCH 23/70] fix: do not let exceptions escape from
 cldn_DecodeCompressedMessage

---
 cloudini_lib/src/wasm_functions.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cloudini_lib/src/wasm_functions.cpp b/cloudini_lib/src/wasm_functions.cpp
index 78079b3..560ec53 100644
--- a/cloudini_lib/src/wasm_functions.cpp
+++ b/cloudini_lib/src/wasm_functions.cpp
@@ -122,10 +122,9 @@ uint32_t cldn_ConvertCompressedMsgToPointCloud2Msg(
 uint32_t cldn_DecodeCompressedMessage(uintptr_t encoded_dds_ptr, uint32_t encoded_dds_size, uintptr_t output_data) {
   const uint8_t* dds_data = reinterpret_cast<const uint8_t*>(encoded_dds_ptr);
 
-  Cloudini::ConstBufferView dds_data_view(dds_data, encoded_dds_size);
-  const auto pcl_msg = cloudini_ros::getDeserializedPointCloudMessage(dds_data_view);
-
   try {
+    Cloudini::ConstBufferView dds_data_view(dds_data, encoded_dds_size);
+    const auto pcl_msg = cloudini_ros::getDeserializedPointCloudMessage(dds_data_view);
     uintptr_t compressed_data_ptr = reinterpret_cast<uintptr_t>(pcl_msg.data.data());
     uint32_t decoded_size = cldn_DecodeCompressedData(compressed_data_ptr, pcl_msg.data.size(), output_data);
 
-- 
2.43.0


From edc605d70713dc35e0293f48a744cf6b3445626e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:39 +0000
Subject: [PATCH 24/70] fix: do not decode more data than
 cldn_GetDecompressedSize announces

---
 cloudini_lib/src/wasm_functions.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/cloudini_lib/src/wasm_functions.cpp b/cloudini_lib/src/wasm_functions.cpp
index 560ec53..f6a85ed 100644
--- a/cloudini_lib/src/wasm_functions.cpp
+++ b/cloudini_lib/src/wasm_functions.cpp
@@ -125,6 +125,18 @@ uint32_t cldn_DecodeCompressedMessage(uintptr_t encoded_dds_ptr, uint32_t encode
   try {
     Cloudini::ConstBufferView dds_data_view(dds_data, encoded_dds_size);
     const auto pcl_msg = cloudini_ros::getDeserializedPointCloudMessage(dds_data_view);
+
+    // The output was allocated using cldn_GetDecompressedSize, i.e. from the dimensions in the
+    // message. Those in the header of the compressed data must not exceed them.
+    Cloudini::ConstBufferView header_view = pcl_msg.data;
+    const Cloudini::EncodingInfo info = Cloudini::DecodeHeader(header_view);
+    const uint64_t announced_size = cldn_GetDecompressedSize(encoded_dds_ptr, encoded_dds_size);
+    const uint64_t points_count = static_cast<uint64_t>(info.width) * info.height;
+    if (info.point_step != 0 && points_count > announced_size / info.point_step) {
+      EM_ASM({ console.error('The compressed data is larger than the size in the message.'); });
+      return 0;
+    }
+
     uintptr_t compressed_data_ptr = reinterpret_cast<uintptr_t>(pcl_msg.data.data());
     uint32_t decoded_size = cldn_DecodeCompressedData(compressed_data_ptr, pcl_msg.data.size(), output_data);
 
-- 
2.43.0


From 32e5b1a747c15e459105916d12544ec5cd446458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:39 +0000
Subject: [PATCH 25/70] fix: do not divide by a point_step of zero in
 cldn_EncodePointcloudMessage

---
 cloudini_lib/src/wasm_functions.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cloudini_lib/src/wasm_functions.cpp b/cloudini_lib/src/wasm_functions.cpp
index f6a85ed..8f9d65c 100644
--- a/cloudini_lib/src/wasm_functions.cpp
+++ b/cloudini_lib/src/wasm_functions.cpp
@@ -199,6 +199,9 @@ uint32_t cldn_EncodePointcloudMessage(
     if (pc_info.data.size() != expected_size) {
       return 0;
     }
+    if (encoding_info.point_step == 0) {
+      return 0;
+    }
     Cloudini::PointcloudEncoder pc_encoder(encoding_info);
     const size_t points_count = pc_info.data.size() / encoding_info.point_step;
     const size_t max_size = Cloudini::MaxCompressedSize(encoding_info, points_count, true);
-- 
2.43.0


From 01b7a00401dc6c9cd640d0ab5af14dcda2660602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:11 +0000
Subject: [PATCH 26/70] fix: report clouds whose size overflows 32 bits in the
 C interface

---
 cloudini_lib/src/wasm_functions.cpp | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/cloudini_lib/src/wasm_functions.cpp b/cloudini_lib/src/wasm_functions.cpp
index 8f9d65c..040a1de 100644
--- a/cloudini_lib/src/wasm_functions.cpp
+++ b/cloudini_lib/src/wasm_functions.cpp
@@ -18,10 +18,26 @@
 
 #include <emscripten.h>
 
+#include <limits>
+#include <stdexcept>
+
 #include "cloudini_lib/cloudini.hpp"
 #include "cloudini_lib/ros_message_definitions.hpp"
 #include "cloudini_lib/ros_msg_utils.hpp"
 
+namespace {
+
+// Size of the point cloud data. It must fit in the uint32_t used by this interface
+uint32_t cloudDataSize(uint32_t width, uint32_t height, uint32_t point_step) {
+  const uint64_t points_count = static_cast<uint64_t>(width) * height;
+  if (point_step != 0 && points_count > std::numeric_limits<uint32_t>::max() / point_step) {
+    throw std::runtime_error("The point cloud is too large");
+  }
+  return static_cast<uint32_t>(points_count * point_step);
+}
+
+}  // namespace
+
 uint32_t cldn_GetHeaderAsYAML(uintptr_t encoded_data_ptr, uint32_t encoded_data_size, uintptr_t output_yaml_ptr) {
   try {
     const uint8_t* encoded_data = reinterpret_cast<const uint8_t*>(encoded_data_ptr);
@@ -73,7 +89,7 @@ uint32_t cldn_ComputeCompressedSize(uintptr_t dds_msg_ptr, uint32_t dds_msg_size
     Cloudini::PointcloudEncoder pc_encoder(encoding_info);
 
     // Verify data size matches expected size
-    const size_t expected_size = pc_info.width * pc_info.height * pc_info.point_step;
+    const size_t expected_size = cloudDataSize(pc_info.width, pc_info.height, pc_info.point_step);
 
     if (pc_info.data.size() != expected_size) {
       // Check if dimensions are valid
@@ -94,7 +110,7 @@ uint32_t cldn_GetDecompressedSize(uintptr_t encoded_dds_ptr, uint32_t encoded_dd
     const uint8_t* compressed_data = reinterpret_cast<const uint8_t*>(encoded_dds_ptr);
     Cloudini::ConstBufferView raw_dds_msg(compressed_data, encoded_dds_size);
     auto compressed_cloud = cloudini_ros::getDeserializedPointCloudMessage(raw_dds_msg);
-    return compressed_cloud.height * compressed_cloud.width * compressed_cloud.point_step;
+    return cloudDataSize(compressed_cloud.width, compressed_cloud.height, compressed_cloud.point_step);
   } catch (const std::exception& e) {
     EM_ASM({ console.error('Exception in cldn_GetDecompressedSize:', UTF8ToString($0)); }, e.what());
     return 0;
@@ -163,11 +179,12 @@ uint32_t cldn_DecodeCompressedData(uintptr_t encoded_data_ptr, uint32_t encoded_
     return 0;
   }
 
-  size_t decoded_size = info.width * info.height * info.point_step;
+  size_t decoded_size = 0;
   uint8_t* decoded_data = reinterpret_cast<uint8_t*>(output_data);
-  Cloudini::BufferView decoded_view(decoded_data, decoded_size);
 
   try {
+    decoded_size = cloudDataSize(info.width, info.height, info.point_step);
+    Cloudini::BufferView decoded_view(decoded_data, decoded_size);
     Cloudini::PointcloudDecoder decoder;
     decoder.decode(info, encoded_view, decoded_view);
   } catch (std::exception& ex) {
@@ -194,7 +211,7 @@ uint32_t cldn_EncodePointcloudMessage(
     }
 
     // Verify data size matches expected size
-    const size_t expected_size = pc_info.width * pc_info.height * pc_info.point_step;
+    const size_t expected_size = cloudDataSize(pc_info.width, pc_info.height, pc_info.point_step);
 
     if (pc_info.data.size() != expected_size) {
       return 0;
@@ -234,7 +251,7 @@ uint32_t cldn_EncodePointcloudData(
     const Cloudini::EncodingInfo encoding_info = Cloudini::EncodingInfoFromYAML(header_as_yaml);
 
     // Verify data size matches expected size
-    uint32_t expected_size = encoding_info.width * encoding_info.height * encoding_info.point_step;
+    uint32_t expected_size = cloudDataSize(encoding_info.width, encoding_info.height, encoding_info.point_step);
 
     if (pc_data_size != expected_size) {
       EM_ASM({ console.error('Data size mismatch: expected', $0, 'but got', $1); }, expected_size, pc_data_size);
-- 
2.43.0


From 82e27ade14fabe50c661c90c2cb0a079070442a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:27 +0000
Subject: [PATCH 27/70] fix: decode clouds of more than 4 GiB into a vector

---
 cloudini_lib/include/cloudini_lib/cloudini.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudini_lib/include/cloudini_lib/cloudini.hpp b/cloudini_lib/include/cloudini_lib/cloudini.hpp
index a2beac8..1ba7f79 100644
--- a/cloudini_lib/include/cloudini_lib/cloudini.hpp
+++ b/cloudini_lib/include/cloudini_lib/cloudini.hpp
@@ -227,7 +227,7 @@ class PointcloudDecoder {
   void decode(const EncodingInfo& info, ConstBufferView compressed_data, BufferView output);
 
   void decode(const EncodingInfo& info, ConstBufferView compressed_data, std::vector<uint8_t>& output) {
-    output.resize(info.width * info.height * info.point_step);
+    output.resize(static_cast<size_t>(info.width) * info.height * info.point_step);
     BufferView output_view(output.data(), output.size());
     decode(info, compressed_data, output_view);
   }
-- 
2.43.0


From 7dae420e4a42b8026d8a9f56ebf0a2cdaebd1f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:27 +0000
Subject: [PATCH 28/70] fix: reject messages whose cloud size overflows 32 bits

---
 cloudini_lib/src/ros_msg_utils.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cloudini_lib/src/ros_msg_utils.cpp b/cloudini_lib/src/ros_msg_utils.cpp
index 51483f8..42888d8 100644
--- a/cloudini_lib/src/ros_msg_utils.cpp
+++ b/cloudini_lib/src/ros_msg_utils.cpp
@@ -134,7 +134,11 @@ Cloudini::EncodingInfo toEncodingInfo(const RosPointCloud2& pc_info) {
 
 void convertCompressedCloudToPointCloud2(const RosPointCloud2& pc_info, std::vector<uint8_t>& pc2_dds_msg) {
   // We need to reserve enough space in the output buffer
-  const size_t cloud_data_size = pc_info.width * pc_info.height * pc_info.point_step;
+  const uint64_t points_count = static_cast<uint64_t>(pc_info.width) * pc_info.height;
+  if (pc_info.point_step != 0 && points_count > std::numeric_limits<uint32_t>::max() / pc_info.point_step) {
+    throw std::runtime_error("convertCompressedCloudToPointCloud2: the cloud is too large for a message");
+  }
+  const size_t cloud_data_size = static_cast<size_t>(points_count * pc_info.point_step);
 
   pc2_dds_msg.clear();
   nanocdr::Encoder cdr_encoder(pc_info.cdr_header, pc2_dds_msg);
-- 
2.43.0


From c960ed64de29b06495f12aab453e445681e6d48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:49 +0000
Subject: [PATCH 29/70] fix: read the whole PCD header, including comments,
 blank lines and all 8 byte types

---
 cloudini_lib/src/pcl_conversion.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/cloudini_lib/src/pcl_conversion.cpp b/cloudini_lib/src/pcl_conversion.cpp
index da61953..e6b9613 100644
--- a/cloudini_lib/src/pcl_conversion.cpp
+++ b/cloudini_lib/src/pcl_conversion.cpp
@@ -28,10 +28,14 @@ std::vector<std::string_view> splitString(std::string_view str, char delimiter =
   std::string_view::size_type end = 0;
 
   while ((end = str.find(delimiter, start)) != std::string_view::npos) {
-    tokens.push_back(str.substr(start, end - start));
+    if (end > start) {
+      tokens.push_back(str.substr(start, end - start));
+    }
     start = end + 1;
   }
-  tokens.push_back(str.substr(start));
+  if (start < str.size()) {
+    tokens.push_back(str.substr(start));
+  }
   return tokens;
 }
 
@@ -42,8 +46,7 @@ std::map<std::string, FieldType> ReadEncodingInfoFromPCD(std::istream& stream) {
   std::vector<std::string> fields_size;
   std::vector<std::string> fields_type;
 
-  do {
-    std::getline(stream, line);
+  while (std::getline(stream, line)) {
     line = line.substr(0, line.find('#'));   // Remove comments
     line = line.substr(0, line.find('\r'));  // Remove carriage return if present
     line = line.substr(0, line.find('\n'));  // Remove newline if present
@@ -62,7 +65,7 @@ std::map<std::string, FieldType> ReadEncodingInfoFromPCD(std::istream& stream) {
     } else if (line_key == "DATA") {
       break;
     }
-  } while (!line.empty());
+  }
 
   const size_t num_fields = fields_name.size();
 
@@ -76,7 +79,7 @@ std::map<std::string, FieldType> ReadEncodingInfoFromPCD(std::istream& stream) {
     const std::string name = std::string(fields_name[i]);
     const int bytes = std::stoi(std::string(fields_size[i]));
     FieldType type = FieldType::UNKNOWN;
-    if (fields_type[i] == "F" && bytes == 4) {
+    if (fields_type[i] == "F") {
       if (bytes == 4) {
         type = FieldType::FLOAT32;
       } else if (bytes == 8) {
@@ -89,6 +92,8 @@ std::map<std::string, FieldType> ReadEncodingInfoFromPCD(std::istream& stream) {
         type = FieldType::INT16;
       } else if (bytes == 4) {
         type = FieldType::INT32;
+      } else if (bytes == 8) {
+        type = FieldType::INT64;
       }
     } else if (fields_type[i] == "U") {
       if (bytes == 1) {
-- 
2.43.0


From 9e4629d5f1f59ef4c576e921ca46952e01d26250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:49 +0000
Subject: [PATCH 30/70] fix: recognize the 64 bit integer fields of PCL clouds

---
 cloudini_lib/src/pcl_conversion.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cloudini_lib/src/pcl_conversion.cpp b/cloudini_lib/src/pcl_conversion.cpp
index e6b9613..ba71ea6 100644
--- a/cloudini_lib/src/pcl_conversion.cpp
+++ b/cloudini_lib/src/pcl_conversion.cpp
@@ -167,6 +167,13 @@ EncodingInfo ConvertToEncodingInfo(const pcl::PCLPointCloud2& cloud, double reso
       case pcl::PCLPointField::UINT32:
         point_field.type = FieldType::UINT32;
         break;
+      // The 64 bits integers are not defined by older versions of PCL
+      case static_cast<uint8_t>(FieldType::INT64):
+        point_field.type = FieldType::INT64;
+        break;
+      case static_cast<uint8_t>(FieldType::UINT64):
+        point_field.type = FieldType::UINT64;
+        break;
       default:
         point_field.type = FieldType::UNKNOWN;
         break;
-- 
2.43.0


From 30e2399a8534d93ff375af44830e16606ab7250d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:49 +0000
Subject: [PATCH 31/70] fix: decode PCL clouds of more than 4 GiB

---
 cloudini_lib/include/cloudini_lib/pcl_conversion.hpp | 2 +-
 cloudini_lib/src/pcl_conversion.cpp                  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cloudini_lib/include/cloudini_lib/pcl_conversion.hpp b/cloudini_lib/include/cloudini_lib/pcl_conversion.hpp
index d46e2fd..6d2bada 100644
--- a/cloudini_lib/include/cloudini_lib/pcl_conversion.hpp
+++ b/cloudini_lib/include/cloudini_lib/pcl_conversion.hpp
@@ -128,7 +128,7 @@ inline void PointcloudDecode(ConstBufferView serialized_data, pcl::PointCloud<Po
   // decode the header
   EncodingInfo header_info = DecodeHeader(serialized_data);
   // resize the cloud to the decoded size
-  cloud.points.resize(header_info.width * header_info.height);
+  cloud.points.resize(static_cast<size_t>(header_info.width) * header_info.height);
   cloud.width = header_info.width;
   cloud.height = header_info.height;
 
diff --git a/cloudini_lib/src/pcl_conversion.cpp b/cloudini_lib/src/pcl_conversion.cpp
index ba71ea6..fea085d 100644
--- a/cloudini_lib/src/pcl_conversion.cpp
+++ b/cloudini_lib/src/pcl_conversion.cpp
@@ -264,7 +264,7 @@ void PCLPointCloudDecode(ConstBufferView serialized_data, pcl::PCLPointCloud2& c
   cloud.is_bigendian = false;
 
   // Resize data
-  cloud.data.resize(cloud.width * cloud.height * cloud.point_step);
+  cloud.data.resize(static_cast<size_t>(cloud.width) * cloud.height * cloud.point_step);
 
   // Convert fields
   cloud.fields.clear();
-- 
2.43.0


From b3b6021622d60ec36fc4eeb9085f72f690efd475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:49 +0000
Subject: [PATCH 32/70] fix: decode into PCL points that have a different size
 than the encoded ones

---
 cloudini_lib/include/cloudini_lib/pcl_conversion.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cloudini_lib/include/cloudini_lib/pcl_conversion.hpp b/cloudini_lib/include/cloudini_lib/pcl_conversion.hpp
index 6d2bada..a24b587 100644
--- a/cloudini_lib/include/cloudini_lib/pcl_conversion.hpp
+++ b/cloudini_lib/include/cloudini_lib/pcl_conversion.hpp
@@ -155,6 +155,9 @@ inline void PointcloudDecode(ConstBufferView serialized_data, pcl::PointCloud<Po
     }
   }
 
+  // the points must be written with the layout of PointT
+  header_info.point_step = sizeof(PointT);
+
   // decode the data
   BufferView output_view(reinterpret_cast<uint8_t*>(cloud.points.data()), cloud.points.size() * sizeof(PointT));
   PointcloudDecoder decoder;
-- 
2.43.0


From 0382fd05b26de3c9e9f8a255647d301bf59f6c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:24 +0000
Subject: [PATCH 33/70] fix: map the 64 bit integer types in the Python decoder

---
 cloudini_py/cloudini_decoder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cloudini_py/cloudini_decoder.py b/cloudini_py/cloudini_decoder.py
index de6a7af..329f65c 100644
--- a/cloudini_py/cloudini_decoder.py
+++ b/cloudini_py/cloudini_decoder.py
@@ -343,9 +343,11 @@ class CloudiniDecoder:
             'UINT8': np.uint8,
             'UINT16': np.uint16,
             'UINT32': np.uint32,
+            'UINT64': np.uint64,
             'INT8': np.int8,
             'INT16': np.int16,
             'INT32': np.int32,
+            'INT64': np.int64,
         }
 
         # Create structured dtype from fields
-- 
2.43.0


From 103aedc004497452cfa6caad2264293042454b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:24 +0000
Subject: [PATCH 34/70] fix: read quoted field names in the Python decoder

---
 cloudini_py/cloudini_decoder.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/cloudini_py/cloudini_decoder.py b/cloudini_py/cloudini_decoder.py
index 329f65c..12fafb6 100644
--- a/cloudini_py/cloudini_decoder.py
+++ b/cloudini_py/cloudini_decoder.py
@@ -9,6 +9,8 @@ Copyright 2025 Davide Faconti
 Licensed under the Apache License, Version 2.0
 """
 
+import re
+
 import numpy as np
 from wasmtime import Store, Module, Linker, WasiConfig, Func, Engine, Config
 
@@ -211,6 +213,20 @@ class CloudiniDecoder:
             pass
         return value
 
+    @staticmethod
+    def _parse_yaml_text(value: str) -> str:
+        """Remove the quotes and the escape sequences of a double-quoted YAML scalar."""
+        value = value.strip(' ')
+        if len(value) < 2 or value[0] != '"' or value[-1] != '"':
+            return value
+
+        def unescape(match):
+            if match.group(1) is not None:
+                return chr(int(match.group(1), 16))
+            return match.group(2)
+
+        return re.sub(r'\\(?:x([0-9a-fA-F]{2})|(.))', unescape, value[1:-1])
+
     def get_header_info(self, compressed_msg: bytes) -> dict:
         """
         Extract header information from compressed message.
@@ -257,7 +273,7 @@ class CloudiniDecoder:
                     if stripped.startswith('- name:'):
                         if current_field:
                             fields.append(current_field)
-                        current_field = {'name': stripped.split(':', 1)[1].strip()}
+                        current_field = {'name': self._parse_yaml_text(line.split(':', 1)[1])}
                     elif stripped and ':' in stripped and not stripped.startswith('-'):
                         # Field property
                         key, value = stripped.split(':', 1)
-- 
2.43.0


From 08d9dfa75497287a1145bf287c69a6b1a4805359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:46 +0000
Subject: [PATCH 35/70] fix: allocate as much memory as the YAML header needs
 in the Python decoder

---
 .../include/cloudini_lib/wasm_functions.h      |  3 ++-
 cloudini_lib/src/wasm_functions.cpp            |  6 ++++--
 cloudini_py/cloudini_decoder.py                | 18 ++++++++++++++----
 3 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/cloudini_lib/include/cloudini_lib/wasm_functions.h b/cloudini_lib/include/cloudini_lib/wasm_functions.h
index f01eda3..544fcee 100644
--- a/cloudini_lib/include/cloudini_lib/wasm_functions.h
+++ b/cloudini_lib/include/cloudini_lib/wasm_functions.h
@@ -29,7 +29,8 @@
 
 extern "C" {
 
-// retrieves a YAML representation of Cloudini::EncodingInfo
+// retrieves a YAML representation of Cloudini::EncodingInfo.
+// If output_yaml_ptr is null, nothing is written, and only the size is returned.
 uint32_t cldn_GetHeaderAsYAML(uintptr_t encoded_data_ptr, uint32_t encoded_data_size, uintptr_t output_yaml_ptr);
 
 // function to use when the input is a raw DDS message containing "point_cloud_interfaces/CompressedPointCloud2"
diff --git a/cloudini_lib/src/wasm_functions.cpp b/cloudini_lib/src/wasm_functions.cpp
index 040a1de..6898858 100644
--- a/cloudini_lib/src/wasm_functions.cpp
+++ b/cloudini_lib/src/wasm_functions.cpp
@@ -46,10 +46,12 @@ uint32_t cldn_GetHeaderAsYAML(uintptr_t encoded_data_ptr, uint32_t encoded_data_
     Cloudini::EncodingInfo info = Cloudini::DecodeHeader(encoded_view);
     std::string json_str = Cloudini::EncodingInfoToYAML(info);
 
-    // Copy the YAML string to the output buffer
+    // Copy the YAML string to the output buffer (if there is one)
     char* output_yaml = reinterpret_cast<char*>(output_yaml_ptr);
     size_t yaml_size = json_str.size();
-    std::memcpy(output_yaml, json_str.data(), yaml_size);
+    if (output_yaml != nullptr) {
+      std::memcpy(output_yaml, json_str.data(), yaml_size);
+    }
 
     return yaml_size;
   } catch (const std::exception& e) {
diff --git a/cloudini_py/cloudini_decoder.py b/cloudini_py/cloudini_decoder.py
index 12fafb6..c790ca2 100644
--- a/cloudini_py/cloudini_decoder.py
+++ b/cloudini_py/cloudini_decoder.py
@@ -237,14 +237,23 @@ class CloudiniDecoder:
         Returns:
             Dictionary with header info including 'fields' list
         """
-        # Allocate memory for input and output
+        # Allocate memory for input
         input_ptr = self.allocate(len(compressed_msg))
-        yaml_buffer_size = 4096  # Should be enough for YAML header
-        yaml_ptr = self.allocate(yaml_buffer_size)
+        if input_ptr == 0:
+            raise RuntimeError("Failed to allocate memory for input message")
+        yaml_ptr = 0
 
         try:
             self.write_bytes(input_ptr, compressed_msg)
 
+            # Get the size of the YAML first, to allocate its memory
+            yaml_size = self.get_header_as_yaml(self.store, input_ptr, len(compressed_msg), 0)
+            if yaml_size == 0:
+                return {}
+            yaml_ptr = self.allocate(yaml_size)
+            if yaml_ptr == 0:
+                raise RuntimeError("Failed to allocate memory for the header")
+
             # Get header as YAML
             yaml_size = self.get_header_as_yaml(self.store, input_ptr, len(compressed_msg), yaml_ptr)
             if yaml_size == 0:
@@ -300,7 +309,8 @@ class CloudiniDecoder:
 
         finally:
             self.deallocate(input_ptr)
-            self.deallocate(yaml_ptr)
+            if yaml_ptr:
+                self.deallocate(yaml_ptr)
 
     def extract_data_from_pc2_msg(self, pc2_msg: bytes, header_info: dict) -> np.ndarray:
         """
-- 
2.43.0


From 522bb0bd0c4cd822e1845e8792a15569c8428576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:46 +0000
Subject: [PATCH 36/70] fix: allocate as much memory as the decoded cloud needs
 in the Python decoder

---
 cloudini_py/cloudini_decoder.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/cloudini_py/cloudini_decoder.py b/cloudini_py/cloudini_decoder.py
index c790ca2..cf4ed37 100644
--- a/cloudini_py/cloudini_decoder.py
+++ b/cloudini_py/cloudini_decoder.py
@@ -110,8 +110,9 @@ class CloudiniDecoder:
         # Get the cloudini functions
         self.decode_compressed_msg = exports.get('cldn_DecodeCompressedMessage')
         self.get_header_as_yaml = exports.get('cldn_GetHeaderAsYAMLFromDDS')
+        self.get_decompressed_size = exports.get('cldn_GetDecompressedSize')
 
-        if not all([self.decode_compressed_msg, self.get_header_as_yaml]):
+        if not all([self.decode_compressed_msg, self.get_header_as_yaml, self.get_decompressed_size]):
             raise RuntimeError("Could not find required Cloudini functions in WASM module")
 
         # Initialize WASM module (call constructors)
@@ -122,7 +123,9 @@ class CloudiniDecoder:
         # Simple allocator offset (start at 2MB to avoid stack/heap)
         self.alloc_offset = 2 * 1024 * 1024
 
-        self.output_ptr = self.allocate(32 * 1024 * 1024) # allocate 32 megabytes as worst case scenario
+        # Output buffer, enlarged when a message needs more memory
+        self.output_ptr = 0
+        self.output_capacity = 0
 
         print("WASM module loaded successfully!")
 
@@ -141,6 +144,18 @@ class CloudiniDecoder:
         if self.free:
             self.free(self.store, ptr)
 
+    def reserve_output(self, size: int):
+        """Enlarge the output buffer, if it is smaller than the given size."""
+        if self.output_ptr and size <= self.output_capacity:
+            return
+        if self.output_ptr:
+            self.deallocate(self.output_ptr)
+        self.output_capacity = 0
+        self.output_ptr = self.allocate(max(size, 1))
+        if self.output_ptr == 0:
+            raise RuntimeError("Failed to allocate memory for the decoded point cloud")
+        self.output_capacity = size
+
     def write_bytes(self, ptr: int, data: bytes):
         """Write bytes to WASM memory."""
         self.memory.write(self.store, data, ptr)
@@ -169,6 +184,8 @@ class CloudiniDecoder:
             # Write compressed message to WASM memory
             self.write_bytes(input_ptr, compressed_msg)
 
+            # Make sure that there is enough memory for the decoded data
+            self.reserve_output(self.get_decompressed_size(self.store, input_ptr, len(compressed_msg)))
 
             # Convert compressed message to PointCloud2 message
             actual_size = self.decode_compressed_msg(self.store, input_ptr, len(compressed_msg), self.output_ptr)
-- 
2.43.0


From 07e751fa1b8971b192613c8d2b23de74fcb7b3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:27 +0000
Subject: [PATCH 37/70] fix: decode empty clouds in the Python decoder

---
 cloudini_py/cloudini_decoder.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/cloudini_py/cloudini_decoder.py b/cloudini_py/cloudini_decoder.py
index cf4ed37..a1b60eb 100644
--- a/cloudini_py/cloudini_decoder.py
+++ b/cloudini_py/cloudini_decoder.py
@@ -184,6 +184,20 @@ class CloudiniDecoder:
             # Write compressed message to WASM memory
             self.write_bytes(input_ptr, compressed_msg)
 
+            # Get actual header info from the compressed message
+            # This is mandatory - we need correct dimensions to decode properly
+            try:
+                header_info = self.get_header_info(compressed_msg)
+            except Exception as e:
+                raise RuntimeError(f"Failed to extract header info from compressed message: {e}")
+
+            if not header_info or 'width' not in header_info:
+                raise RuntimeError("Header info extraction returned incomplete data (missing 'width')")
+
+            # An empty cloud has no data to decode
+            if header_info['width'] * header_info['height'] == 0:
+                return self.bytes_to_numpy(b'', header_info), header_info
+
             # Make sure that there is enough memory for the decoded data
             self.reserve_output(self.get_decompressed_size(self.store, input_ptr, len(compressed_msg)))
 
@@ -196,16 +210,6 @@ class CloudiniDecoder:
             # Read the decoded PointCloud2 DDS message
             points_msg_data = self.read_bytes(self.output_ptr, actual_size)
 
-            # Get actual header info from the compressed message
-            # This is mandatory - we need correct dimensions to decode properly
-            try:
-                header_info = self.get_header_info(compressed_msg)
-            except Exception as e:
-                raise RuntimeError(f"Failed to extract header info from compressed message: {e}")
-
-            if not header_info or 'width' not in header_info:
-                raise RuntimeError("Header info extraction returned incomplete data (missing 'width')")
-
             # Parse the PointCloud2 message to extract the point cloud data
             # The PointCloud2 message contains the data field with raw point cloud bytes
             point_cloud = self.extract_data_from_pc2_msg(points_msg_data, header_info)
-- 
2.43.0


From 5e7df775eb504df82c86d64705960e09bee37496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:22 +0000
Subject: [PATCH 38/70] fix: report memory errors while writing the YAML
 header, instead of truncating it

---
 cloudini_lib/src/cloudini.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cloudini_lib/src/cloudini.cpp b/cloudini_lib/src/cloudini.cpp
index 99cb28d..b33ca20 100644
--- a/cloudini_lib/src/cloudini.cpp
+++ b/cloudini_lib/src/cloudini.cpp
@@ -187,6 +187,7 @@ std::string FloatToText(float value) {
   std::string text;
   for (int precision = 6; precision <= std::numeric_limits<float>::max_digits10; ++precision) {
     std::ostringstream stream;
+    stream.exceptions(std::ios::badbit | std::ios::failbit);
     stream.imbue(std::locale::classic());
     stream.precision(precision);
     stream << value;
@@ -281,6 +282,8 @@ std::string UnquoteText(const std::string& text) {
 
 std::string EncodingInfoToYAML(const EncodingInfo& info) {
   std::ostringstream yaml;
+  // report errors, instead of returning truncated text
+  yaml.exceptions(std::ios::badbit | std::ios::failbit);
   yaml << "version: " << static_cast<int>(info.version) << "\n";
   yaml << "width: " << info.width << "\n";
   yaml << "height: " << info.height << "\n";
-- 
2.43.0


From 584a3def363ec8940b5d84f5428585de716954b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:11 +0000
Subject: [PATCH 39/70] fix: do not wait for a compression thread that could
 not be created

---
 cloudini_lib/src/cloudini.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cloudini_lib/src/cloudini.cpp b/cloudini_lib/src/cloudini.cpp
index b33ca20..baf2328 100644
--- a/cloudini_lib/src/cloudini.cpp
+++ b/cloudini_lib/src/cloudini.cpp
@@ -686,12 +686,17 @@ size_t PointcloudEncoder::encode(ConstBufferView cloud_data, BufferView& output,
       if (compressing_thread_.joinable()) {
         compressing_thread_.join();
       }
+      {
+        std::lock_guard<std::mutex> lock(mutex_);
+        has_data_to_compress_ = false;
+      }
+      // the failure is forgotten only when there is a new worker: creating it may fail too
+      compressing_thread_ = std::thread(&PointcloudEncoder::compressionWorker, this);
       {
         std::lock_guard<std::mutex> lock(mutex_);
         worker_failed_ = false;
         worker_exception_ = nullptr;
       }
-      compressing_thread_ = std::thread(&PointcloudEncoder::compressionWorker, this);
     }
   }
 
-- 
2.43.0


From 42585be87c77a31c08130e0e64f1de6363f2db53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:40 +0000
Subject: [PATCH 40/70] fix: compress with LZ4 into buffers of more than 2 GiB

---
 cloudini_lib/src/codec_common.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cloudini_lib/src/codec_common.cpp b/cloudini_lib/src/codec_common.cpp
index 6446c14..76f58ce 100644
--- a/cloudini_lib/src/codec_common.cpp
+++ b/cloudini_lib/src/codec_common.cpp
@@ -239,13 +239,15 @@ uint32_t CompressChunk(CompressionOption compression, ConstBufferView input, Buf
   uint32_t chunk_size = 0;
   switch (compression) {
     case CompressionOption::LZ4: {
-      if (input.size() > static_cast<size_t>(std::numeric_limits<int>::max()) ||
-          output.size() > static_cast<size_t>(std::numeric_limits<int>::max())) {
+      constexpr size_t kMaxSize = static_cast<size_t>(std::numeric_limits<int>::max());
+      if (input.size() > kMaxSize) {
         throw std::runtime_error("Chunk size too large for LZ4");
       }
+      // the room left for all the chunks may be larger than what a single one can use
+      const size_t output_size = std::min(output.size(), kMaxSize);
       const int cs = LZ4_compress_default(
           reinterpret_cast<const char*>(input.data()), reinterpret_cast<char*>(output.data()),
-          static_cast<int>(input.size()), static_cast<int>(output.size()));
+          static_cast<int>(input.size()), static_cast<int>(output_size));
       if (cs <= 0) {
         throw std::runtime_error("LZ4 compression failed");
       }
-- 
2.43.0


From f1c9a412613c8f399a105c052d230a3eaad421a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:38 +0000
Subject: [PATCH 41/70] fix: convert recordings that have channels without a
 schema

---
 cloudini_lib/tools/src/mcap_converter.cpp | 11 ++++++++---
 cloudini_lib/tools/src/mcap_cutter.cpp    |  2 +-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/cloudini_lib/tools/src/mcap_converter.cpp b/cloudini_lib/tools/src/mcap_converter.cpp
index 22432d6..2083e93 100644
--- a/cloudini_lib/tools/src/mcap_converter.cpp
+++ b/cloudini_lib/tools/src/mcap_converter.cpp
@@ -46,6 +46,9 @@ McapConverter::TopicsMap McapConverter::open(std::filesystem::path file_in) {
 
   for (const auto& [channel_id, channel_ptr] : reader_->channels()) {
     const auto& schema_ptr = reader_->schema(channel_ptr->schemaId);
+    if (!schema_ptr) {
+      continue;  // channels are allowed to have no schema (schemaId 0)
+    }
     if (schema_ptr->name == pointcloud_schema_name || schema_ptr->name == compressed_schema_name) {
       topics[channel_ptr->topic] = schema_ptr->name;
     }
@@ -99,7 +102,9 @@ void McapConverter::duplicateSchemasAndChannels(
 
   for (const auto& channel_id : ordered_channels_id) {
     const auto channel_ptr = old_channels.at(channel_id);
-    auto new_schema_id = old_to_new_schema_id_.at(channel_ptr->schemaId);
+    // schemaId 0 means that the channel has no schema
+    const mcap::SchemaId new_schema_id =
+        (channel_ptr->schemaId == 0) ? mcap::SchemaId(0) : old_to_new_schema_id_.at(channel_ptr->schemaId);
     mcap::Channel new_channel(channel_ptr->topic, channel_ptr->messageEncoding, new_schema_id);
     writer.addChannel(new_channel);
     old_to_new_channel_id_.insert({channel_ptr->id, new_channel.id});
@@ -171,7 +176,7 @@ void McapConverter::encodePointClouds(
     mcap::Message new_msg = msg.message;
     new_msg.channelId = old_to_new_channel_id_.at(msg.channel->id);
     // default case (not a point cloud)
-    if (msg.schema->name != pointcloud_schema_name) {
+    if (!msg.schema || msg.schema->name != pointcloud_schema_name) {
       auto status = writer.write(new_msg);
       if (!status.ok()) {
         throw std::runtime_error("Error writing message to MCAP file: " + status.message);
@@ -268,7 +273,7 @@ void McapConverter::decodePointClouds(
     mcap::Message new_msg = msg.message;
     new_msg.channelId = old_to_new_channel_id_.at(msg.channel->id);
     // default case (not a point cloud)
-    if (msg.schema->name != compressed_schema_name) {
+    if (!msg.schema || msg.schema->name != compressed_schema_name) {
       auto status = writer.write(new_msg);
       if (!status.ok()) {
         throw std::runtime_error("Error writing message to MCAP file: " + status.message);
diff --git a/cloudini_lib/tools/src/mcap_cutter.cpp b/cloudini_lib/tools/src/mcap_cutter.cpp
index ab730b0..a89a7dd 100644
--- a/cloudini_lib/tools/src/mcap_cutter.cpp
+++ b/cloudini_lib/tools/src/mcap_cutter.cpp
@@ -61,7 +61,7 @@ void McapCutter::cut(
 
   for (const auto& [channel_id, channel_ptr] : reader->channels()) {
     const auto& schema_ptr = reader->schema(channel_ptr->schemaId);
-    if (schema_ptr->name == pointcloud_schema_name) {
+    if (schema_ptr && schema_ptr->name == pointcloud_schema_name) {
       pointcloud_channels.push_back({channel_id, channel_ptr->topic});
       std::cout << "Found PointCloud2 topic: " << channel_ptr->topic << std::endl;
     }
-- 
2.43.0


From 74eecef2a144deacd9834de39eca9deab410d30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:38 +0000
Subject: [PATCH 42/70] fix: keep the metadata of the channels (for instance
 the QoS profiles) when converting a recording

---
 cloudini_lib/tools/src/mcap_converter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudini_lib/tools/src/mcap_converter.cpp b/cloudini_lib/tools/src/mcap_converter.cpp
index 2083e93..2a8b03d 100644
--- a/cloudini_lib/tools/src/mcap_converter.cpp
+++ b/cloudini_lib/tools/src/mcap_converter.cpp
@@ -105,7 +105,7 @@ void McapConverter::duplicateSchemasAndChannels(
     // schemaId 0 means that the channel has no schema
     const mcap::SchemaId new_schema_id =
         (channel_ptr->schemaId == 0) ? mcap::SchemaId(0) : old_to_new_schema_id_.at(channel_ptr->schemaId);
-    mcap::Channel new_channel(channel_ptr->topic, channel_ptr->messageEncoding, new_schema_id);
+    mcap::Channel new_channel(channel_ptr->topic, channel_ptr->messageEncoding, new_schema_id, channel_ptr->metadata);
     writer.addChannel(new_channel);
     old_to_new_channel_id_.insert({channel_ptr->id, new_channel.id});
   }
-- 
2.43.0


From 9fc99987e19dbe8201d7c5c061bc974a8f367014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:38 +0000
Subject: [PATCH 43/70] fix: open more than one recording with the same
 McapConverter

---
 cloudini_lib/tools/src/mcap_converter.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cloudini_lib/tools/src/mcap_converter.cpp b/cloudini_lib/tools/src/mcap_converter.cpp
index 2a8b03d..7400d22 100644
--- a/cloudini_lib/tools/src/mcap_converter.cpp
+++ b/cloudini_lib/tools/src/mcap_converter.cpp
@@ -28,6 +28,12 @@
 #include <mcap/writer.hpp>
 
 McapConverter::TopicsMap McapConverter::open(std::filesystem::path file_in) {
+  // this instance might have been used already to open another file
+  reader_.reset();
+  data_source_.reset();
+  input_stream_.close();
+  input_stream_.clear();
+
   input_stream_.open(file_in);
   data_source_ = std::make_shared<mcap::FileStreamReader>(input_stream_);
   reader_ = std::make_shared<mcap::McapReader>();
-- 
2.43.0


From 6336a29bc6adae1d22b5d7b97827aa349da76706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:58 +0000
Subject: [PATCH 44/70] fix: read the whole profile file in the rosbag
 converter, not only its first word

---
 cloudini_lib/tools/src/cloudini_rosbag_converter.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cloudini_lib/tools/src/cloudini_rosbag_converter.cpp b/cloudini_lib/tools/src/cloudini_rosbag_converter.cpp
index 66428ba..d493e1c 100644
--- a/cloudini_lib/tools/src/cloudini_rosbag_converter.cpp
+++ b/cloudini_lib/tools/src/cloudini_rosbag_converter.cpp
@@ -312,8 +312,7 @@ int main(int argc, char** argv) {
         // check if it is a file or a string
         if (std::filesystem::exists(profile_str)) {
           std::ifstream file(profile_str);
-          std::string profile;
-          file >> profile;
+          const std::string profile((std::istreambuf_iterator<char>(file)), std::istreambuf_iterator<char>());
           converter.addProfile(profile);
         } else {
           converter.addProfile(profile_str);
-- 
2.43.0


From ad20ae1e03e207e5931d57a052f9a09e18b22a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:58 +0000
Subject: [PATCH 45/70] fix: do not overwrite the recording that the rosbag
 converter is reading

---
 cloudini_lib/tools/src/cloudini_rosbag_converter.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cloudini_lib/tools/src/cloudini_rosbag_converter.cpp b/cloudini_lib/tools/src/cloudini_rosbag_converter.cpp
index d493e1c..dbeacb6 100644
--- a/cloudini_lib/tools/src/cloudini_rosbag_converter.cpp
+++ b/cloudini_lib/tools/src/cloudini_rosbag_converter.cpp
@@ -214,6 +214,13 @@ int main(int argc, char** argv) {
     output_filename += ".mcap";
   }
 
+  // Safety check: the output can't be the file that is being read (it might be reached by another path or a link)
+  std::error_code equivalent_error;
+  if (std::filesystem::equivalent(mcap_file, output_filename, equivalent_error)) {
+    std::cerr << "Error: Output is the same file as the input: " << output_filename << std::endl;
+    return 1;
+  }
+
   // Safety check: prevent overwriting original metadata.yaml
   if (!input_metadata.empty()) {
     auto output_dir = std::filesystem::path(output_filename).parent_path();
-- 
2.43.0


From 8bc2f88879574cce9764ef5887dcab801436b838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:58 +0000
Subject: [PATCH 46/70] fix: replace only the types of the converted topics in
 metadata.yaml

---
 .../tools/src/cloudini_rosbag_converter.cpp      | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/cloudini_lib/tools/src/cloudini_rosbag_converter.cpp b/cloudini_lib/tools/src/cloudini_rosbag_converter.cpp
index dbeacb6..0941761 100644
--- a/cloudini_lib/tools/src/cloudini_rosbag_converter.cpp
+++ b/cloudini_lib/tools/src/cloudini_rosbag_converter.cpp
@@ -15,6 +15,7 @@
  */
 
 #include <algorithm>
+#include <cctype>
 #include <filesystem>
 #include <fstream>
 #include <iostream>
@@ -34,6 +35,19 @@ void replaceAll(std::string& str, const std::string& from, const std::string& to
   }
 }
 
+// replace a "type: xxx" entry. Types that only start with old_type must not be modified
+void replaceTopicType(std::string& content, const std::string& old_type, const std::string& new_type) {
+  const std::string key = "type: ";
+  size_t pos = 0;
+  while ((pos = content.find(key + old_type, pos)) != std::string::npos) {
+    pos += key.size();
+    const size_t end = pos + old_type.size();
+    if (end == content.size() || std::isspace(static_cast<unsigned char>(content[end]))) {
+      content.replace(pos, old_type.size(), new_type);
+    }
+  }
+}
+
 void generateMetadataYaml(
     const std::filesystem::path& input_metadata, const std::filesystem::path& output_dir,
     const std::string& new_mcap_filename, bool encoding) {
@@ -46,7 +60,7 @@ void generateMetadataYaml(
   const std::string new_type =
       encoding ? "point_cloud_interfaces/msg/CompressedPointCloud2" : "sensor_msgs/msg/PointCloud2";
 
-  replaceAll(content, "type: " + old_type, "type: " + new_type);
+  replaceTopicType(content, old_type, new_type);
 
   // Replace .mcap filename references (in relative_file_paths and files sections)
   // Extract the original mcap filename from the "relative_file_paths:" section
-- 
2.43.0


From 33ebc1f0a302a708bd893adb5ce94e474146ce63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:43 +0000
Subject: [PATCH 47/70] fix: inspect recordings that have channels without a
 schema

---
 cloudini_lib/tools/src/mcap_header_inspector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudini_lib/tools/src/mcap_header_inspector.cpp b/cloudini_lib/tools/src/mcap_header_inspector.cpp
index 9d89959..a4a2a2f 100644
--- a/cloudini_lib/tools/src/mcap_header_inspector.cpp
+++ b/cloudini_lib/tools/src/mcap_header_inspector.cpp
@@ -81,7 +81,7 @@ int main(int argc, char** argv) {
     std::vector<mcap::ChannelId> compressed_channels;
     for (const auto& [channel_id, channel_ptr] : reader->channels()) {
       const auto& schema_ptr = reader->schema(channel_ptr->schemaId);
-      if (schema_ptr->name == compressed_schema_name) {
+      if (schema_ptr && schema_ptr->name == compressed_schema_name) {
         compressed_channels.push_back(channel_id);
         std::cout << "Found CompressedPointCloud2 topic: " << channel_ptr->topic << std::endl;
       }
-- 
2.43.0


From 34a64078f5febd006d8aa7dd97c3f00fe135173e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:43 +0000
Subject: [PATCH 48/70] fix: keep the metadata of the channels (for instance
 the QoS profiles) when cutting a recording

---
 cloudini_lib/tools/src/mcap_cutter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cloudini_lib/tools/src/mcap_cutter.cpp b/cloudini_lib/tools/src/mcap_cutter.cpp
index a89a7dd..bad7d17 100644
--- a/cloudini_lib/tools/src/mcap_cutter.cpp
+++ b/cloudini_lib/tools/src/mcap_cutter.cpp
@@ -92,7 +92,8 @@ void McapCutter::cut(
   // Create channels for each topic
   std::map<mcap::ChannelId, mcap::ChannelId> old_to_new_channel_id;
   for (const auto& [old_channel_id, topic_name] : pointcloud_channels) {
-    mcap::Channel new_channel(topic_name, "cdr", pointcloud_schema.id);
+    mcap::Channel new_channel(
+        topic_name, "cdr", pointcloud_schema.id, reader->channels().at(old_channel_id)->metadata);
     writer.addChannel(new_channel);
     old_to_new_channel_id[old_channel_id] = new_channel.id;
   }
-- 
2.43.0


From 6f8e7f86c41176ee685942ae1d5173d3d9901fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:43 +0000
Subject: [PATCH 49/70] fix: do not overwrite the recording that the cutter is
 reading

---
 cloudini_lib/tools/src/mcap_cutter.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cloudini_lib/tools/src/mcap_cutter.cpp b/cloudini_lib/tools/src/mcap_cutter.cpp
index bad7d17..d32b5d9 100644
--- a/cloudini_lib/tools/src/mcap_cutter.cpp
+++ b/cloudini_lib/tools/src/mcap_cutter.cpp
@@ -191,6 +191,13 @@ int main(int argc, char** argv) {
     output_filename += ".mcap";
   }
 
+  // the output can't be the file that is being read (it might be reached by another path or a link)
+  std::error_code equivalent_error;
+  if (std::filesystem::equivalent(input_file, output_filename, equivalent_error)) {
+    std::cerr << "Error: Output is the same file as the input: " << output_filename << std::endl;
+    return 1;
+  }
+
   int max_messages = parse_result["max-messages"].as<int>();
   if (max_messages <= 0) {
     std::cerr << "Error: max-messages must be positive." << std::endl;
-- 
2.43.0


From ce4c00a136fd9f91fbb7e688b96f715d790419cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:43 +0000
Subject: [PATCH 50/70] fix: apply the intensity resolution, encoding and
 compression options of the PCD converter

---
 .../include/cloudini_lib/pcl_conversion.hpp     |  5 +++++
 cloudini_lib/src/pcl_conversion.cpp             | 17 +++++++++++++++++
 .../tools/src/pcd_to_cloudini_converter.cpp     |  3 ++-
 3 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/cloudini_lib/include/cloudini_lib/pcl_conversion.hpp b/cloudini_lib/include/cloudini_lib/pcl_conversion.hpp
index a24b587..767f370 100644
--- a/cloudini_lib/include/cloudini_lib/pcl_conversion.hpp
+++ b/cloudini_lib/include/cloudini_lib/pcl_conversion.hpp
@@ -79,6 +79,11 @@ size_t PCLPointCloudEncode(
 size_t PCLPointCloudEncode(
     const std::filesystem::path& input_pcd_file, std::vector<uint8_t>& serialized_cloud, double resolution_XYZ);
 
+// Same as above, but selecting the resolution of the field "intensity" and the encoding/compression options
+size_t PCLPointCloudEncode(
+    const std::filesystem::path& input_pcd_file, std::vector<uint8_t>& serialized_cloud, double resolution_XYZ,
+    double resolution_intensity, EncodingOptions encoding_opt, CompressionOption compression_opt);
+
 /**
  * @brief Decodes a serialized point cloud into a pcl::PCLPointCloud2 object.
  *
diff --git a/cloudini_lib/src/pcl_conversion.cpp b/cloudini_lib/src/pcl_conversion.cpp
index fea085d..dfd92c8 100644
--- a/cloudini_lib/src/pcl_conversion.cpp
+++ b/cloudini_lib/src/pcl_conversion.cpp
@@ -232,6 +232,15 @@ size_t PCLPointCloudEncode(
 
 size_t PCLPointCloudEncode(
     const std::filesystem::path& input_pcd_file, std::vector<uint8_t>& serialized_cloud, double resolution_XYZ) {
+  const EncodingInfo default_info;
+  return PCLPointCloudEncode(
+      input_pcd_file, serialized_cloud, resolution_XYZ, resolution_XYZ, default_info.encoding_opt,
+      default_info.compression_opt);
+}
+
+size_t PCLPointCloudEncode(
+    const std::filesystem::path& input_pcd_file, std::vector<uint8_t>& serialized_cloud, double resolution_XYZ,
+    double resolution_intensity, EncodingOptions encoding_opt, CompressionOption compression_opt) {
   pcl::PCLPointCloud2 cloud;
   if (pcl::io::loadPCDFile(input_pcd_file.string(), cloud) == -1) {
     throw std::runtime_error("Error: Failed to load PCD file: " + input_pcd_file.string());
@@ -245,7 +254,15 @@ size_t PCLPointCloudEncode(
     if (field.type == FieldType::UNKNOWN) {
       field.type = pcd_fields_map.at(field.name);
     }
+    if (field.name == "intensity" && field.type == FieldType::FLOAT32) {
+      field.resolution.reset();
+      if (resolution_intensity > 0.0) {
+        field.resolution = resolution_intensity;
+      }
+    }
   }
+  info.encoding_opt = encoding_opt;
+  info.compression_opt = compression_opt;
   PointcloudEncoder encoder(info);
   ConstBufferView data_view(cloud.data.data(), cloud.data.size());
   return encoder.encode(data_view, serialized_cloud);
diff --git a/cloudini_lib/tools/src/pcd_to_cloudini_converter.cpp b/cloudini_lib/tools/src/pcd_to_cloudini_converter.cpp
index 8f67512..108e6c1 100644
--- a/cloudini_lib/tools/src/pcd_to_cloudini_converter.cpp
+++ b/cloudini_lib/tools/src/pcd_to_cloudini_converter.cpp
@@ -131,7 +131,8 @@ int main(int argc, char** argv) {
     try {
       // Encode the point cloud
       std::vector<uint8_t> serialized_cloud;
-      const size_t encoded_size = Cloudini::PCLPointCloudEncode(input_file, serialized_cloud, resolution_xyz);
+      Cloudini::PCLPointCloudEncode(
+          input_file, serialized_cloud, resolution_xyz, resolution_intensity, encoding_opt, compression_opt);
       // Write to output file
       std::ofstream output_stream(output_file, std::ios::binary);
       if (!output_stream) {
-- 
2.43.0


From 3ef5890c53302c6b5844c2624e5b5cd5f034d655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:43 +0000
Subject: [PATCH 51/70] fix: report the errors of writing the output file in
 the PCD converter

---
 cloudini_lib/tools/src/pcd_to_cloudini_converter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cloudini_lib/tools/src/pcd_to_cloudini_converter.cpp b/cloudini_lib/tools/src/pcd_to_cloudini_converter.cpp
index 108e6c1..6f7185f 100644
--- a/cloudini_lib/tools/src/pcd_to_cloudini_converter.cpp
+++ b/cloudini_lib/tools/src/pcd_to_cloudini_converter.cpp
@@ -141,6 +141,10 @@ int main(int argc, char** argv) {
       }
       output_stream.write(reinterpret_cast<const char*>(serialized_cloud.data()), serialized_cloud.size());
       output_stream.close();
+      if (!output_stream) {
+        std::cerr << "Error: Failed to write output file: " << output_file << std::endl;
+        return false;
+      }
       return true;
 
     } catch (const std::exception& e) {
-- 
2.43.0


From 221f5386a0c49883d49bc85704b6ff190ba9f49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:11 +0000
Subject: [PATCH 52/70] fix: set the format of the messages compressed by the
 publisher plugin

---
 cloudini_ros/src/cloudini_publisher_plugin.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cloudini_ros/src/cloudini_publisher_plugin.cpp b/cloudini_ros/src/cloudini_publisher_plugin.cpp
index 36db50c..1437084 100644
--- a/cloudini_ros/src/cloudini_publisher_plugin.cpp
+++ b/cloudini_ros/src/cloudini_publisher_plugin.cpp
@@ -65,6 +65,7 @@ CloudiniPublisher::TypedEncodeResult CloudiniPublisher::encodeTyped(const sensor
   result.point_step = raw.point_step;
   result.row_step = raw.row_step;
   result.is_dense = raw.is_dense;
+  result.format = "cloudini";
 
   // reserve memory for the compressed data
   result.compressed_data.resize(raw.data.size());
-- 
2.43.0


From e06fb372f2ee99ecbacd6faf285ecee9e97d9b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:11 +0000
Subject: [PATCH 53/70] fix: decode empty clouds in the subscriber plugin

---
 .../src/cloudini_subscriber_plugin.cpp        | 27 +++++++++++--------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/cloudini_ros/src/cloudini_subscriber_plugin.cpp b/cloudini_ros/src/cloudini_subscriber_plugin.cpp
index c8d8675..5fb2270 100644
--- a/cloudini_ros/src/cloudini_subscriber_plugin.cpp
+++ b/cloudini_ros/src/cloudini_subscriber_plugin.cpp
@@ -28,6 +28,22 @@ CloudiniSubscriber::CloudiniSubscriber() : decoder_(std::make_shared<Cloudini::P
 
 CloudiniSubscriber::DecodeResult CloudiniSubscriber::decodeTyped(
     const point_cloud_interfaces::msg::CompressedPointCloud2& msg) const {
+  auto result = std::make_shared<sensor_msgs::msg::PointCloud2>();
+
+  result->header = msg.header;
+  result->height = msg.height;
+  result->width = msg.width;
+  result->fields = msg.fields;
+  result->is_bigendian = false;
+  result->point_step = msg.point_step;
+  result->row_step = msg.row_step;
+  result->is_dense = msg.is_dense;
+
+  // special case: there is nothing to decode in an empty cloud
+  if (msg.compressed_data.empty() && (msg.width == 0 || msg.height == 0)) {
+    return result;
+  }
+
   Cloudini::ConstBufferView input(msg.compressed_data.data(), msg.compressed_data.size());
   auto info = Cloudini::DecodeHeader(input);
 
@@ -58,17 +74,6 @@ CloudiniSubscriber::DecodeResult CloudiniSubscriber::decodeTyped(
   }
 
   //----------- actual decoding -------------------
-  auto result = std::make_shared<sensor_msgs::msg::PointCloud2>();
-
-  result->header = msg.header;
-  result->height = info.height;
-  result->width = info.width;
-  result->fields = msg.fields;
-  result->is_bigendian = false;
-  result->point_step = msg.point_step;
-  result->row_step = msg.row_step;
-  result->is_dense = msg.is_dense;
-
   // prepare buffer for decompression
   result->data.resize(msg.point_step * msg.width * msg.height);
   Cloudini::BufferView output(result->data.data(), result->data.size());
-- 
2.43.0


From 3e308726747fcbff9a18ed1bfc47561a2e404951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:25 +0000
Subject: [PATCH 54/70] fix: decode clouds of more than 4 GiB in the subscriber
 plugin

---
 cloudini_ros/src/cloudini_subscriber_plugin.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudini_ros/src/cloudini_subscriber_plugin.cpp b/cloudini_ros/src/cloudini_subscriber_plugin.cpp
index 5fb2270..8c042c1 100644
--- a/cloudini_ros/src/cloudini_subscriber_plugin.cpp
+++ b/cloudini_ros/src/cloudini_subscriber_plugin.cpp
@@ -75,7 +75,7 @@ CloudiniSubscriber::DecodeResult CloudiniSubscriber::decodeTyped(
 
   //----------- actual decoding -------------------
   // prepare buffer for decompression
-  result->data.resize(msg.point_step * msg.width * msg.height);
+  result->data.resize(static_cast<size_t>(msg.point_step) * msg.width * msg.height);
   Cloudini::BufferView output(result->data.data(), result->data.size());
 
   decoder_->decode(info, input, output);
-- 
2.43.0


From 4b9cbb5651ccf1e1f74d59a075b0b64621f00a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:53 +0000
Subject: [PATCH 55/70] fix: deliver empty clouds in CloudiniSubscriberPCL

---
 cloudini_ros/src/cloudini_subscriber_pcl.cpp | 21 +++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/cloudini_ros/src/cloudini_subscriber_pcl.cpp b/cloudini_ros/src/cloudini_subscriber_pcl.cpp
index cc0752b..eba3788 100644
--- a/cloudini_ros/src/cloudini_subscriber_pcl.cpp
+++ b/cloudini_ros/src/cloudini_subscriber_pcl.cpp
@@ -108,7 +108,26 @@ void CloudiniSubscriberPCL::messageCallback(std::shared_ptr<rclcpp::SerializedMe
 
     // STEP 4: Decode directly to PCL format
     // pc_info.data contains the compressed cloudini data
-    PCLPointCloudDecode(pc_info.data, *pcl_cloud);
+    if (pc_info.data.empty() && (pc_info.width == 0 || pc_info.height == 0)) {
+      // there is nothing to decode in an empty cloud
+      pcl_cloud->width = pc_info.width;
+      pcl_cloud->height = pc_info.height;
+      pcl_cloud->point_step = pc_info.point_step;
+      pcl_cloud->row_step = pc_info.row_step;
+      pcl_cloud->is_bigendian = false;
+      pcl_cloud->data.clear();
+      pcl_cloud->fields.clear();
+      for (const auto& field : pc_info.fields) {
+        pcl::PCLPointField pcl_field;
+        pcl_field.name = field.name;
+        pcl_field.offset = field.offset;
+        pcl_field.datatype = static_cast<uint8_t>(field.type);
+        pcl_field.count = 1;
+        pcl_cloud->fields.push_back(pcl_field);
+      }
+    } else {
+      PCLPointCloudDecode(pc_info.data, *pcl_cloud);
+    }
 
     // STEP 5: Invoke user callback with the decoded PCL cloud
     user_callback_(pcl_cloud);
-- 
2.43.0


From 5f8158da4ae2c0364853402968fd416de4c8b5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:53 +0000
Subject: [PATCH 56/70] fix: fill the header and the density of the clouds
 delivered by CloudiniSubscriberPCL

---
 cloudini_ros/src/cloudini_subscriber_pcl.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cloudini_ros/src/cloudini_subscriber_pcl.cpp b/cloudini_ros/src/cloudini_subscriber_pcl.cpp
index eba3788..d9a6b1e 100644
--- a/cloudini_ros/src/cloudini_subscriber_pcl.cpp
+++ b/cloudini_ros/src/cloudini_subscriber_pcl.cpp
@@ -129,6 +129,12 @@ void CloudiniSubscriberPCL::messageCallback(std::shared_ptr<rclcpp::SerializedMe
       PCLPointCloudDecode(pc_info.data, *pcl_cloud);
     }
 
+    // Metadata of the message that is not part of the compressed data (the timestamps of PCL are in microseconds)
+    pcl_cloud->header.stamp =
+        static_cast<uint64_t>(pc_info.ros_header.stamp_sec) * 1000000ULL + pc_info.ros_header.stamp_nsec / 1000ULL;
+    pcl_cloud->header.frame_id = pc_info.ros_header.frame_id;
+    pcl_cloud->is_dense = pc_info.is_dense;
+
     // STEP 5: Invoke user callback with the decoded PCL cloud
     user_callback_(pcl_cloud);
 
-- 
2.43.0


From 1d925e588c4983b0e2b7d5ce26d2d8f7fecea836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:53 +0000
Subject: [PATCH 57/70] fix: allow clouds delivered by CloudiniSubscriberPCL to
 outlive the subscriber

---
 .../cloudini_ros/cloudini_subscriber_pcl.hpp  | 11 +++++---
 cloudini_ros/src/cloudini_subscriber_pcl.cpp  | 27 ++++++++++---------
 2 files changed, 21 insertions(+), 17 deletions(-)

diff --git a/cloudini_ros/include/cloudini_ros/cloudini_subscriber_pcl.hpp b/cloudini_ros/include/cloudini_ros/cloudini_subscriber_pcl.hpp
index 7f8e5a5..de5d454 100644
--- a/cloudini_ros/include/cloudini_ros/cloudini_subscriber_pcl.hpp
+++ b/cloudini_ros/include/cloudini_ros/cloudini_subscriber_pcl.hpp
@@ -110,10 +110,13 @@ class CloudiniSubscriberPCL {
   // Node pointer for logging
   rclcpp::Node* node_;
 
-  // Object pool for PCL clouds (avoids repeated allocations)
-  std::deque<pcl::PCLPointCloud2*> cloud_pool_;
-
-  std::mutex pool_mutex_;
+  // Object pool for PCL clouds (avoids repeated allocations). It is owned also by the clouds in use.
+  struct CloudPool {
+    ~CloudPool();
+    std::deque<pcl::PCLPointCloud2*> clouds;
+    std::mutex mutex;
+  };
+  std::shared_ptr<CloudPool> cloud_pool_ = std::make_shared<CloudPool>();
 
   // Maximum pool size to prevent unbounded growth
   static constexpr size_t MAX_POOL_SIZE = 4;
diff --git a/cloudini_ros/src/cloudini_subscriber_pcl.cpp b/cloudini_ros/src/cloudini_subscriber_pcl.cpp
index d9a6b1e..66066e8 100644
--- a/cloudini_ros/src/cloudini_subscriber_pcl.cpp
+++ b/cloudini_ros/src/cloudini_subscriber_pcl.cpp
@@ -52,13 +52,13 @@ CloudiniSubscriberPCL::CloudiniSubscriberPCL(
   RCLCPP_INFO(node_->get_logger(), "CloudiniSubscriberPCL created for topic: %s", topic_name.c_str());
 }
 
-CloudiniSubscriberPCL::~CloudiniSubscriberPCL() {
+CloudiniSubscriberPCL::~CloudiniSubscriberPCL() = default;
+
+CloudiniSubscriberPCL::CloudPool::~CloudPool() {
   // Clean up all objects in the pool
-  std::lock_guard<std::mutex> lock(pool_mutex_);
-  for (auto* ptr : cloud_pool_) {
+  for (auto* ptr : clouds) {
     delete ptr;
   }
-  cloud_pool_.clear();
 }
 
 std::string CloudiniSubscriberPCL::getTopicName() const {
@@ -69,24 +69,25 @@ pcl::PCLPointCloud2::Ptr CloudiniSubscriberPCL::acquireCloudFromPool() {
   pcl::PCLPointCloud2* raw_ptr = nullptr;
 
   // Try to get from pool
-  std::lock_guard<std::mutex> lock(pool_mutex_);
-  if (!cloud_pool_.empty()) {
-    raw_ptr = cloud_pool_.back();
-    cloud_pool_.pop_back();
+  std::lock_guard<std::mutex> lock(cloud_pool_->mutex);
+  if (!cloud_pool_->clouds.empty()) {
+    raw_ptr = cloud_pool_->clouds.back();
+    cloud_pool_->clouds.pop_back();
   } else {
     // Pool is empty, allocate new
     raw_ptr = new pcl::PCLPointCloud2();
   }
 
-  // Create shared_ptr with custom deleter that returns to pool
-  return pcl::PCLPointCloud2::Ptr(raw_ptr, [this](pcl::PCLPointCloud2* ptr) {
-    std::lock_guard<std::mutex> lock(pool_mutex_);
+  // Create shared_ptr with custom deleter that returns to pool. The deleter shares the ownership of the pool,
+  // because the user is allowed to keep the cloud longer than this subscriber.
+  return pcl::PCLPointCloud2::Ptr(raw_ptr, [pool = cloud_pool_](pcl::PCLPointCloud2* ptr) {
+    std::lock_guard<std::mutex> lock(pool->mutex);
     // Return to pool if not full, otherwise delete
-    if (cloud_pool_.size() < MAX_POOL_SIZE) {
+    if (pool->clouds.size() < MAX_POOL_SIZE) {
       // Clear the data but keep allocated memory for reuse
       ptr->data.clear();
       ptr->fields.clear();
-      cloud_pool_.push_back(ptr);
+      pool->clouds.push_back(ptr);
     } else {
       delete ptr;
     }
-- 
2.43.0


From 8150efc8b2a8ba636e329877e3c26e914d02a114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:43 +0000
Subject: [PATCH 58/70] fix: refuse compressed data of another size than the
 message in the Foxglove converter

---
 cloudini_foxglove/src/PointCloudConverter.tsx | 28 ++++++++++++++++++-
 .../src/cloudini_wasm_single.d.ts             |  1 +
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/cloudini_foxglove/src/PointCloudConverter.tsx b/cloudini_foxglove/src/PointCloudConverter.tsx
index 0f848cd..03d82a0 100644
--- a/cloudini_foxglove/src/PointCloudConverter.tsx
+++ b/cloudini_foxglove/src/PointCloudConverter.tsx
@@ -14,6 +14,26 @@ export const loadCloudiniWasm = async () => {
   return wasmLoadingPromise;
 };
 
+// Size of the decoded point cloud, according to the header of the compressed data
+const getDecodedSize = (module: CloudiniWasmModule, dataPtr: number, dataSize: number): number => {
+  const yamlSize = module._cldn_GetHeaderAsYAML(dataPtr, dataSize, 0);
+  if (yamlSize === 0) {
+    throw new Error('Invalid header of the compressed data');
+  }
+  const yamlPtr = module._malloc(yamlSize);
+  if (!yamlPtr) {
+    throw new Error('Failed to allocate memory for the header');
+  }
+  try {
+    module._cldn_GetHeaderAsYAML(dataPtr, dataSize, yamlPtr);
+    const yaml = new TextDecoder().decode(module.HEAPU8.slice(yamlPtr, yamlPtr + yamlSize));
+    const getNumber = (key: string): number => Number(new RegExp(`^${key}: *(\\d+)`, 'm').exec(yaml)?.[1] ?? NaN);
+    return getNumber('width') * getNumber('height') * getNumber('point_step');
+  } finally {
+    module._free(yamlPtr);
+  }
+};
+
 export const convertPointCloudWasm = (cloud: CompressedPointCloud): PointCloud => {
   if (!wasmModule) {
     loadCloudiniWasm();
@@ -69,6 +89,12 @@ export const convertPointCloudWasm = (cloud: CompressedPointCloud): PointCloud =
 
     const decompressedSize = cloud.height * cloud.width * cloud.point_step;
 
+    // The size written by the decoder is the one in the header of the compressed data
+    const decodedSize = getDecodedSize(wasmModule, inputDataPtr, bufferSize);
+    if (decodedSize !== decompressedSize) {
+      throw new Error(`Decompressed size mismatch: expected ${decompressedSize}, got ${decodedSize}`);
+    }
+
     outputDataPtr = wasmModule._malloc(decompressedSize);
     if (!outputDataPtr) {
       throw new Error('Failed to allocate memory for output data');
@@ -80,7 +106,7 @@ export const convertPointCloudWasm = (cloud: CompressedPointCloud): PointCloud =
     }
 
     if (actualSize !== decompressedSize) {
-      console.warn(`Decompressed size mismatch: expected ${decompressedSize}, got ${actualSize}`);
+      throw new Error(`Decompressed size mismatch: expected ${decompressedSize}, got ${actualSize}`);
     }
 
     // Copy the result to a JavaScript array
diff --git a/cloudini_foxglove/src/cloudini_wasm_single.d.ts b/cloudini_foxglove/src/cloudini_wasm_single.d.ts
index 45dd873..37493e6 100644
--- a/cloudini_foxglove/src/cloudini_wasm_single.d.ts
+++ b/cloudini_foxglove/src/cloudini_wasm_single.d.ts
@@ -20,6 +20,7 @@ export interface EmscriptenModule {
 
 export interface CloudiniWasmModule extends EmscriptenModule {
   // Your specific exported functions
+  _cldn_GetHeaderAsYAML(inputPtr: number, inputSize: number, outputPtr: number): number;
   _cldn_ComputeCompressedSize(inputPtr: number, inputSize: number, resolution: number): number;
   _cldn_DecodeCompressedData(inputPtr: number, inputSize: number, outputPtr: number): number;
   _cldn_DecodeCompressedMessage(inputPtr: number, inputSize: number, outputPtr: number): number;
-- 
2.43.0


From 11061b2dba32309150b43ba8bc746fb98b22484a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:58 +0000
Subject: [PATCH 59/70] fix: read PCD headers separated by tabs and those with
 a COLUMNS line

---
 cloudini_lib/src/pcl_conversion.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cloudini_lib/src/pcl_conversion.cpp b/cloudini_lib/src/pcl_conversion.cpp
index dfd92c8..df12b16 100644
--- a/cloudini_lib/src/pcl_conversion.cpp
+++ b/cloudini_lib/src/pcl_conversion.cpp
@@ -22,12 +22,12 @@
 
 namespace Cloudini {
 
-std::vector<std::string_view> splitString(std::string_view str, char delimiter = ' ') {
+std::vector<std::string_view> splitString(std::string_view str, std::string_view delimiters = " \t") {
   std::vector<std::string_view> tokens;
   std::string_view::size_type start = 0;
   std::string_view::size_type end = 0;
 
-  while ((end = str.find(delimiter, start)) != std::string_view::npos) {
+  while ((end = str.find_first_of(delimiters, start)) != std::string_view::npos) {
     if (end > start) {
       tokens.push_back(str.substr(start, end - start));
     }
@@ -56,7 +56,7 @@ std::map<std::string, FieldType> ReadEncodingInfoFromPCD(std::istream& stream) {
       continue;
     }
     const auto& line_key = split_line[0];
-    if (line_key == "FIELDS") {
+    if (line_key == "FIELDS" || line_key == "COLUMNS") {  // older files say COLUMNS
       fields_name.assign(split_line.begin() + 1, split_line.end());
     } else if (line_key == "SIZE") {
       fields_size.assign(split_line.begin() + 1, split_line.end());
-- 
2.43.0


From 4fa2fa77f0b49c2f0567136830a9f99ff6eeb4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:25 +0000
Subject: [PATCH 60/70] fix: treat the end of the input as a refusal to
 overwrite a file

---
 cloudini_lib/tools/src/cloudini_rosbag_converter.cpp | 2 +-
 cloudini_lib/tools/src/pcd_to_cloudini_converter.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cloudini_lib/tools/src/cloudini_rosbag_converter.cpp b/cloudini_lib/tools/src/cloudini_rosbag_converter.cpp
index 0941761..79dad02 100644
--- a/cloudini_lib/tools/src/cloudini_rosbag_converter.cpp
+++ b/cloudini_lib/tools/src/cloudini_rosbag_converter.cpp
@@ -269,7 +269,7 @@ int main(int argc, char** argv) {
   if (std::filesystem::exists(output_filename) && !parse_result.count("yes")) {
     std::cout << "Output file already exists: " << output_filename << std::endl;
     std::cout << "Do you want to overwrite it? (y/n): ";
-    char response;
+    char response = 'n';  // nothing is read at the end of the input
     std::cin >> response;
     if (response != 'y' && response != 'Y') {
       std::cout << "Operation cancelled." << std::endl;
diff --git a/cloudini_lib/tools/src/pcd_to_cloudini_converter.cpp b/cloudini_lib/tools/src/pcd_to_cloudini_converter.cpp
index 6f7185f..f62dd2d 100644
--- a/cloudini_lib/tools/src/pcd_to_cloudini_converter.cpp
+++ b/cloudini_lib/tools/src/pcd_to_cloudini_converter.cpp
@@ -120,7 +120,7 @@ int main(int argc, char** argv) {
     if (std::filesystem::exists(output_file) && !auto_overwrite) {
       std::cout << "Output file already exists: " << output_file << std::endl;
       std::cout << "Do you want to overwrite it? (y/n): ";
-      char response;
+      char response = 'n';  // nothing is read at the end of the input
       std::cin >> response;
       if (response != 'y' && response != 'Y') {
         std::cout << "Skipping file: " << input_file << std::endl;
-- 
2.43.0


From 023be7c9c593e91388b402a29051b5e6f7f5e2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:02 +0000
Subject: [PATCH 61/70] fix: report totals of more than 4 GiB and fields
 without a resolution in mcap_header_inspector

---
 cloudini_lib/tools/src/mcap_header_inspector.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/cloudini_lib/tools/src/mcap_header_inspector.cpp b/cloudini_lib/tools/src/mcap_header_inspector.cpp
index a4a2a2f..6353319 100644
--- a/cloudini_lib/tools/src/mcap_header_inspector.cpp
+++ b/cloudini_lib/tools/src/mcap_header_inspector.cpp
@@ -130,14 +130,15 @@ int main(int argc, char** argv) {
       std::cout << "\nYAML Header:" << std::endl;
       std::cout << yaml << std::endl;
 
+      const uint64_t points_count = static_cast<uint64_t>(encoding_info.width) * encoding_info.height;
+
       std::cout << "\n--- Parsed Header Info ---" << std::endl;
       std::cout << "Version: " << static_cast<int>(encoding_info.version) << std::endl;
       std::cout << "Width: " << encoding_info.width << std::endl;
       std::cout << "Height: " << encoding_info.height << std::endl;
       std::cout << "Point step: " << encoding_info.point_step << std::endl;
-      std::cout << "Total points: " << (encoding_info.width * encoding_info.height) << std::endl;
-      std::cout << "Total data size: " << (encoding_info.width * encoding_info.height * encoding_info.point_step)
-                << " bytes" << std::endl;
+      std::cout << "Total points: " << points_count << std::endl;
+      std::cout << "Total data size: " << (points_count * encoding_info.point_step) << " bytes" << std::endl;
       std::cout << "Encoding option: " << Cloudini::ToString(encoding_info.encoding_opt) << std::endl;
       std::cout << "Compression option: " << Cloudini::ToString(encoding_info.compression_opt) << std::endl;
       std::cout << "Number of fields: " << encoding_info.fields.size() << std::endl;
@@ -149,7 +150,11 @@ int main(int argc, char** argv) {
         std::cout << "  Name: " << field.name << std::endl;
         std::cout << "  Offset: " << field.offset << std::endl;
         std::cout << "  Type: " << Cloudini::ToString(field.type) << std::endl;
-        std::cout << "  Resolution: " << field.resolution.value_or(1.0) << std::endl;
+        if (field.resolution) {
+          std::cout << "  Resolution: " << *field.resolution << std::endl;
+        } else {
+          std::cout << "  Resolution: none" << std::endl;
+        }
       }
 
       found_message = true;
-- 
2.43.0


From e2bce41ac5c12cdc8a0b07305b797217224d9492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:02 +0000
Subject: [PATCH 62/70] fix: keep mcap_codec_benchmark alive on bad messages
 and count only encoded ones in the ratio

---
 .../tools/src/mcap_codec_benchmark.cpp        | 40 +++++++++++--------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/cloudini_lib/tools/src/mcap_codec_benchmark.cpp b/cloudini_lib/tools/src/mcap_codec_benchmark.cpp
index bac1371..3f83c66 100644
--- a/cloudini_lib/tools/src/mcap_codec_benchmark.cpp
+++ b/cloudini_lib/tools/src/mcap_codec_benchmark.cpp
@@ -165,7 +165,7 @@ void printTable(const std::string& title, const TopicStats& st, bool show_zstd)
   for (int m = 0; m < kModeCount; ++m) {
     const auto& ms = st.per_mode[m];
     std::cout << "  " << std::left << std::setw(10) << kModeNames[m] << std::right << std::setw(12)
-              << fmtMiB(ms.out_bytes) << std::setw(10) << fmtRatio(ms.out_bytes, st.in_bytes)
+              << fmtMiB(ms.out_bytes) << std::setw(10) << fmtRatio(ms.out_bytes, ms.enc_input_bytes)
               << std::setw(12) << fmtMBps(ms.enc_input_bytes, ms.enc_ns) << std::setw(12)
               << fmtMBps(ms.dec_input_bytes, ms.dec_ns) << "\n";
   }
@@ -361,6 +361,10 @@ int main(int argc, char** argv) {
         std::cerr << "  [warn] " << topic << " parse failed: " << e.what() << "\n";
         continue;
       }
+      if (pc_info.point_step == 0) {
+        std::cerr << "  [warn] " << topic << " has a point_step of 0\n";
+        continue;
+      }
       cloudini_ros::applyResolutionProfile({}, pc_info.fields, default_resolution);
       Cloudini::EncodingInfo base = cloudini_ros::toEncodingInfo(pc_info);
       explainOneMessage(topic, pc_info, base);
@@ -502,9 +506,9 @@ int main(int argc, char** argv) {
         decode_samples.push_back(std::move(sample));
         continue;
       }
-      if (dec_buf[m].size() < out_bytes_needed) dec_buf[m].resize(out_bytes_needed);
-      Cloudini::BufferView out_view(dec_buf[m].data(), out_bytes_needed);
       try {
+        if (dec_buf[m].size() < out_bytes_needed) dec_buf[m].resize(out_bytes_needed);
+        Cloudini::BufferView out_view(dec_buf[m].data(), out_bytes_needed);
         Cloudini::PointcloudDecoder decoder;
         const auto t0 = Clock::now();
         decoder.decode(header_info, enc_view, out_view);
@@ -540,15 +544,19 @@ int main(int argc, char** argv) {
       uint64_t mode_hash[kModeCount];
       std::fill(std::begin(mode_hash), std::end(mode_hash), 0xcbf29ce484222325ULL);
       for (const auto& sample : decode_samples) {
-        if (dec_buf[sample.mode].size() < sample.out_bytes_needed) {
-          dec_buf[sample.mode].resize(sample.out_bytes_needed);
+        try {
+          if (dec_buf[sample.mode].size() < sample.out_bytes_needed) {
+            dec_buf[sample.mode].resize(sample.out_bytes_needed);
+          }
+          Cloudini::ConstBufferView enc_view(sample.encoded.data(), sample.encoded.size());
+          Cloudini::BufferView out_view(dec_buf[sample.mode].data(), sample.out_bytes_needed);
+          Cloudini::PointcloudDecoder decoder;
+          decoder.decode(sample.header_info, enc_view, out_view);
+          mode_hash[sample.mode] =
+              fnv1a(mode_hash[sample.mode], dec_buf[sample.mode].data(), sample.out_bytes_needed);
+        } catch (const std::exception& e) {
+          std::cerr << "  [warn] " << sample.topic << " decode for the fingerprint failed: " << e.what() << "\n";
         }
-        Cloudini::ConstBufferView enc_view(sample.encoded.data(), sample.encoded.size());
-        Cloudini::BufferView out_view(dec_buf[sample.mode].data(), sample.out_bytes_needed);
-        Cloudini::PointcloudDecoder decoder;
-        decoder.decode(sample.header_info, enc_view, out_view);
-        mode_hash[sample.mode] =
-            fnv1a(mode_hash[sample.mode], dec_buf[sample.mode].data(), sample.out_bytes_needed);
       }
       std::cout << "Decoded-output fingerprint (FNV-1a):\n";
       for (int m = 0; m < kModeCount; ++m) {
@@ -565,12 +573,12 @@ int main(int argc, char** argv) {
     uint64_t replayed = 0;
     for (uint64_t repeat = 0; repeat < decode_repeat; ++repeat) {
       for (const auto& sample : decode_samples) {
-        if (dec_buf[sample.mode].size() < sample.out_bytes_needed) {
-          dec_buf[sample.mode].resize(sample.out_bytes_needed);
-        }
-        Cloudini::ConstBufferView enc_view(sample.encoded.data(), sample.encoded.size());
-        Cloudini::BufferView out_view(dec_buf[sample.mode].data(), sample.out_bytes_needed);
         try {
+          if (dec_buf[sample.mode].size() < sample.out_bytes_needed) {
+            dec_buf[sample.mode].resize(sample.out_bytes_needed);
+          }
+          Cloudini::ConstBufferView enc_view(sample.encoded.data(), sample.encoded.size());
+          Cloudini::BufferView out_view(dec_buf[sample.mode].data(), sample.out_bytes_needed);
           Cloudini::PointcloudDecoder decoder;
           const auto t0 = Clock::now();
           decoder.decode(sample.header_info, enc_view, out_view);
-- 
2.43.0


From 85df20e24f7cdb0c373245118fbb8033d28c381d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:02 +0000
Subject: [PATCH 63/70] fix: escape file, topic and schema names on the web
 page

---
 cloudini_web/main.js | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/cloudini_web/main.js b/cloudini_web/main.js
index 7003faf..0ddb52a 100644
--- a/cloudini_web/main.js
+++ b/cloudini_web/main.js
@@ -41,6 +41,16 @@ fileInput.addEventListener('change', (e) => {
     }
 });
 
+// The names in a recording are text, not markup
+function escapeHtml(text) {
+    return String(text)
+        .replace(/&/g, '&amp;')
+        .replace(/</g, '&lt;')
+        .replace(/>/g, '&gt;')
+        .replace(/"/g, '&quot;')
+        .replace(/'/g, '&#39;');
+}
+
 function disableDropZone() {
     dropZone.classList.add('disabled');
     dropZone.innerHTML = '⏳ Processing file... Please wait';
@@ -77,7 +87,7 @@ async function handleFile(file) {
 
     } catch (error) {
         console.error('Error:', error);
-        status.innerHTML = 'Error reading MCAP file: ' + error.message;
+        status.innerHTML = 'Error reading MCAP file: ' + escapeHtml(error.message);
     } finally {
         enableDropZone();
     }
@@ -116,7 +126,7 @@ async function analyzeFile(reader, file) {
 
     } catch (error) {
         console.error('Failed to load WASM module:', error);
-        status.innerHTML = 'Error loading WASM module: ' + error.message;
+        status.innerHTML = 'Error loading WASM module: ' + escapeHtml(error.message);
         return;
     }
 
@@ -215,7 +225,7 @@ async function analyzeFile(reader, file) {
             });
         }
 
-        status.innerHTML = `File: ${file.name} | Channels: ${totalChannels} | Schemas: ${allSchemas.size}`;
+        status.innerHTML = `File: ${escapeHtml(file.name)} | Channels: ${totalChannels} | Schemas: ${allSchemas.size}`;
 
         // Calculate totals across all channels
         const grandTotalSize = channelResults.reduce((sum, ch) => sum + ch.totalSize, 0);
@@ -232,10 +242,10 @@ async function analyzeFile(reader, file) {
                         `<div class="channel-card">
                             <div class="channel-content">
                                 <div>
-                                    <div class="channel-topic">${ch.topic}</div>
+                                    <div class="channel-topic">${escapeHtml(ch.topic)}</div>
                                     <div class="channel-details">
-                                        <div><strong>Schema:</strong> ${ch.schema}</div>
-                                        <div><strong>Encoding:</strong> ${ch.encoding}</div>
+                                        <div><strong>Schema:</strong> ${escapeHtml(ch.schema)}</div>
+                                        <div><strong>Encoding:</strong> ${escapeHtml(ch.encoding)}</div>
                                         <div><strong>Channel ID:</strong> ${ch.channelId}</div>
                                         <div><strong>Messages:</strong> <span class="message-count">${ch.messageCount.toLocaleString()}</span></div>
                                     </div>
@@ -269,7 +279,7 @@ async function analyzeFile(reader, file) {
             </div>
             `;
     } else {
-        status.innerHTML = `File: ${file.name} | Channels: ${totalChannels} | Schemas: ${allSchemas.size}`;
+        status.innerHTML = `File: ${escapeHtml(file.name)} | Channels: ${totalChannels} | Schemas: ${allSchemas.size}`;
         results.innerHTML = `
             <div class="no-results">
                 <div class="no-results-card">
@@ -282,7 +292,7 @@ async function analyzeFile(reader, file) {
                     <h4 class="schemas-title">📋 Available Schemas in this file:</h4>
                     <div class="schemas-list">
                         ${Array.from(allSchemas).sort().map(schema =>
-                            `<span class="schema-tag">${schema}</span>`
+                            `<span class="schema-tag">${escapeHtml(schema)}</span>`
                         ).join('')}
                     </div>
                 </div>
-- 
2.43.0


From d06660fbb80a54daadc9aef4671947efd6fc04f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:02 +0000
Subject: [PATCH 64/70] fix: skip messages of other channels that share a topic
 on the web page

---
 cloudini_web/main.js | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cloudini_web/main.js b/cloudini_web/main.js
index 0ddb52a..5bd1385 100644
--- a/cloudini_web/main.js
+++ b/cloudini_web/main.js
@@ -165,7 +165,10 @@ async function analyzeFile(reader, file) {
                 endTime: reader.end,
                 topics: [channel.topic]
             })) {
-                // We already know this channel has the target schema
+                // Other channels may have the same topic
+                if (message.channelId !== channel.channelId) {
+                    continue;
+                }
                 messageCount++;
                 const dataSize = message.data.length;
                 totalSize += dataSize;
-- 
2.43.0


From 6ecf929671cae4d61cd513661e8ec4cdcba7d5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:02 +0000
Subject: [PATCH 65/70] fix: count only compressed messages, and failed
 allocations as errors, on the web page

---
 cloudini_web/main.js | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/cloudini_web/main.js b/cloudini_web/main.js
index 5bd1385..19388ff 100644
--- a/cloudini_web/main.js
+++ b/cloudini_web/main.js
@@ -171,7 +171,6 @@ async function analyzeFile(reader, file) {
                 }
                 messageCount++;
                 const dataSize = message.data.length;
-                totalSize += dataSize;
 
                 // Call WASM function
                 try {
@@ -194,6 +193,9 @@ async function analyzeFile(reader, file) {
                     if (wasmModule._malloc && wasmModule._free && wasmModule.HEAPU8) {
                         // Direct memory approach (Option 1)
                         const dataPtr = wasmModule._malloc(dataSize);
+                        if (!dataPtr) {
+                            throw new Error('Failed to allocate memory for the message');
+                        }
                         const wasmView = new Uint8Array(wasmModule.HEAPU8.buffer, dataPtr, dataSize);
                         wasmView.set(dataView);
 
@@ -210,6 +212,13 @@ async function analyzeFile(reader, file) {
                         );
                     }
 
+                    if (compressedSize === 0) {
+                        console.warn(`Message of ${dataSize} bytes could not be compressed, skipping...`);
+                        continue;
+                    }
+
+                    // Only messages that were compressed count, otherwise the ratio would be wrong
+                    totalSize += dataSize;
                     totalCompressedSize += compressedSize;
                 } catch (error) {
                     console.error('Error calling WASM function:', error);
-- 
2.43.0


From 9cd87e34fa35c20e1c0e42ac9c37749f61647bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:02 +0000
Subject: [PATCH 66/70] fix: decode recordings without a summary or statistics
 in decode_mcap.py

---
 cloudini_py/decode_mcap.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/cloudini_py/decode_mcap.py b/cloudini_py/decode_mcap.py
index 63a2c1c..0ded5c5 100644
--- a/cloudini_py/decode_mcap.py
+++ b/cloudini_py/decode_mcap.py
@@ -28,15 +28,17 @@ def decode_mcap_file(mcap_path: str, wasm_path: str, max_messages: int = None):
     with open(mcap_path, 'rb') as f:
         reader = make_reader(f)
 
-        # Print summary
+        # Print summary (not present in recordings without an index, or without statistics)
         summary = reader.get_summary()
-        print(f"\nMCAP Summary:")
-        print(f"  Duration: {summary.statistics.message_start_time / 1e9:.2f}s to {summary.statistics.message_end_time / 1e9:.2f}s")
-        print(f"  Message count: {summary.statistics.message_count}")
-        print(f"  Channels: {len(summary.channels)}")
-
-        for channel_id, channel in summary.channels.items():
-            print(f"    Channel {channel_id}: {channel.topic} ({channel.message_encoding})")
+        if summary is not None:
+            print(f"\nMCAP Summary:")
+            if summary.statistics is not None:
+                print(f"  Duration: {summary.statistics.message_start_time / 1e9:.2f}s to {summary.statistics.message_end_time / 1e9:.2f}s")
+                print(f"  Message count: {summary.statistics.message_count}")
+            print(f"  Channels: {len(summary.channels)}")
+
+            for channel_id, channel in summary.channels.items():
+                print(f"    Channel {channel_id}: {channel.topic} ({channel.message_encoding})")
 
         # Process messages
         msg_count = 0
-- 
2.43.0


From 4c4c21de76c980e0e13572f6c91aa7e36f42c533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:13 +0000
Subject: [PATCH 67/70] fix: report bytes left over inside a chunk of a version
 3 or 4 payload

---
 cloudini_lib/src/v4_codec.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cloudini_lib/src/v4_codec.cpp b/cloudini_lib/src/v4_codec.cpp
index 2c1a7d2..a91696c 100644
--- a/cloudini_lib/src/v4_codec.cpp
+++ b/cloudini_lib/src/v4_codec.cpp
@@ -106,6 +106,9 @@ void DecodeV4Stage1Chunk(
       }
       decode_point();
     }
+    if (!encoded_view.empty()) {
+      throw std::runtime_error("Chunk has trailing bytes after decode");
+    }
   } else {
     while (!encoded_view.empty()) {
       if (encoded_view.size() < min_encoded_point_bytes) {
-- 
2.43.0


From f0929afc8571644290409129a954a081bffa34b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:27 +0000
Subject: [PATCH 68/70] fix: reject run lengths of more than 64 bits in
 adaptive integer sections

---
 cloudini_lib/src/v5_codec.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cloudini_lib/src/v5_codec.cpp b/cloudini_lib/src/v5_codec.cpp
index 0993984..7621fa8 100644
--- a/cloudini_lib/src/v5_codec.cpp
+++ b/cloudini_lib/src/v5_codec.cpp
@@ -182,6 +182,9 @@ uint64_t readUVarint(ConstBufferView& input) {
     }
     const uint8_t byte = input.data()[0];
     input.trim_front(1);
+    if (shift == 63 && (byte & 0x7Fu) > 1) {
+      throw std::runtime_error("V5 adaptive int: unsigned varint overflow");
+    }
     value |= (static_cast<uint64_t>(byte & 0x7Fu) << shift);
     if ((byte & 0x80u) == 0) {
       return value;
-- 
2.43.0


From b379f743f2533a981c184988549d198ea580e6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:40 +0000
Subject: [PATCH 69/70] fix: report compressed data that does not match the
 message it is in

convertCompressedCloudToPointCloud2() sized the restored message from the
width, height and point step of the message, and decoded into it whatever
cloud the compressed data describes. When that one is smaller, the rest of
the restored message was silently filled with zeros, i.e. points that never
existed.
---
 cloudini_lib/src/ros_msg_utils.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cloudini_lib/src/ros_msg_utils.cpp b/cloudini_lib/src/ros_msg_utils.cpp
index 42888d8..10739c3 100644
--- a/cloudini_lib/src/ros_msg_utils.cpp
+++ b/cloudini_lib/src/ros_msg_utils.cpp
@@ -162,6 +162,10 @@ void convertCompressedCloudToPointCloud2(const RosPointCloud2& pc_info, std::vec
   Cloudini::PointcloudDecoder cloud_decoder;
   Cloudini::ConstBufferView compressed_data = pc_info.data;
   auto restored_header = Cloudini::DecodeHeader(compressed_data);
+  const uint64_t restored_points = static_cast<uint64_t>(restored_header.width) * restored_header.height;
+  if (restored_points != points_count || restored_header.point_step != pc_info.point_step) {
+    throw std::runtime_error("convertCompressedCloudToPointCloud2: the compressed data doesn't match the message");
+  }
   cloud_decoder.decode(restored_header, compressed_data, decoded_buffer);
 
   // add last field
-- 
2.43.0


From 9a3db0e91f3755671c44d39b9aab02113ffb913b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:07:23 +0000
Subject: [PATCH 70/70] fix: publish empty clouds without a layout through the
 transport plugin

---
 cloudini_ros/src/cloudini_publisher_plugin.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/cloudini_ros/src/cloudini_publisher_plugin.cpp b/cloudini_ros/src/cloudini_publisher_plugin.cpp
index 1437084..aeece99 100644
--- a/cloudini_ros/src/cloudini_publisher_plugin.cpp
+++ b/cloudini_ros/src/cloudini_publisher_plugin.cpp
@@ -51,9 +51,6 @@ void CloudiniPublisher::declareParameters(const std::string& base_topic) {
 }
 
 CloudiniPublisher::TypedEncodeResult CloudiniPublisher::encodeTyped(const sensor_msgs::msg::PointCloud2& raw) const {
-  auto info = Cloudini::ConvertToEncodingInfo(raw, resolution_);
-  Cloudini::PointcloudEncoder encoder(info);
-
   // copy all the fields from the raw point cloud to the compressed one
   point_cloud_interfaces::msg::CompressedPointCloud2 result;
 
@@ -67,6 +64,14 @@ CloudiniPublisher::TypedEncodeResult CloudiniPublisher::encodeTyped(const sensor
   result.is_dense = raw.is_dense;
   result.format = "cloudini";
 
+  // special case: an empty cloud that has no layout yet. There is nothing to encode
+  if (raw.data.empty() && raw.point_step == 0 && (raw.width == 0 || raw.height == 0)) {
+    return result;
+  }
+
+  auto info = Cloudini::ConvertToEncodingInfo(raw, resolution_);
+  Cloudini::PointcloudEncoder encoder(info);
+
   // reserve memory for the compressed data
   result.compressed_data.resize(raw.data.size());
 
-- 
2.43.0

