// Generator of arbitrary cloud descriptions (headers), including ones that cannot be encoded.
#pragma once
#include "gen.hpp"
namespace gen {
inline std::string genName(Src& s, bool weird) {
  static const char* nm[] = {"x", "y", "z", "intensity", "ring", "timestamp", "rgb", "normal_x", "t", "", "null", "name", "fields", "a:b",
                             "~", "- x", "\"quoted\"", "\"", "has space", " lead", "trail ", "#c", "a #b", "a#b", "tab\t", "\ttab", "line\nbreak",
                             "cr\r", "\n", "back\\slash", "\\n", "\\x41", "\"a\\\"", "offset: 3", "{", "[1]", "\xc3\xa9\xff", "'q'", "true", ":", ": ", "a: b"};
  switch (weird ? s.weighted({4, 4, 2, 1}) : 0) {
    case 0: { static const char* ok[] = {"x", "y", "z", "intensity", "ring", "timestamp", "rgb", "normal_x", "t", "range", "tag"}; return ok[s.draw(11)]; }
    case 1: return nm[s.draw(sizeof(nm) / sizeof(nm[0]))];
    case 2: {
      size_t n = s.draw(12);
      std::string r;
      for (size_t i = 0; i < n; ++i) r += static_cast<char>(s.chance(1, 2) ? "ab\"\\# \t\n:-\0'\r{}x"[s.draw(16)] : s.draw(256));
      return r;
    }
    default: { Rng r(s.seed()); size_t n = s.draw(s.chance(1, 10) ? 60000 : 300); std::string x; for (size_t i = 0; i < n; ++i) x += static_cast<char>(r.below(256)); return x; }
  }
}
inline float genAnyRes(Src& s) {  // any positive finite float
  switch (s.weighted({3, 3, 1})) {
    case 0: return genRes(s);
    case 1: {
      uint32_t b = 1 + static_cast<uint32_t>(s.draw(0x7f800000u - 1));
      float f; memcpy(&f, &b, 4); return f;
    }
    default: return s.pick({std::numeric_limits<float>::min(), std::numeric_limits<float>::max(), 1.0f, 3.4e38f, 1e-5f, 16777216.0f, 0.1f});
  }
}
inline EncodingInfo genDesc(Src& s, bool weird_names) {
  EncodingInfo i;
  i.version = static_cast<uint8_t>(s.pick({5, 4, 3, 2}));
  auto dim = [&]() -> uint32_t {
    switch (s.weighted({3, 2, 2})) {
      case 0: return static_cast<uint32_t>(s.draw(2000));
      case 1: return static_cast<uint32_t>(10 + 256 * s.draw(100000));  // low byte is a newline
      default: return static_cast<uint32_t>(s.u64());
    }
  };
  i.width = dim();
  i.height = dim();
  i.point_step = dim();
  i.encoding_opt = s.pick({EncodingOptions::LOSSY, EncodingOptions::LOSSLESS, EncodingOptions::NONE});
  i.compression_opt = s.pick({CompressionOption::ZSTD, CompressionOption::LZ4, CompressionOption::NONE});
  size_t n = s.chance(1, 40) ? s.draw(3000) : s.draw(9);
  const bool big = n > 9;
  for (size_t k = 0; k < n; ++k) {
    PointField f;
    f.name = big ? "f" + std::to_string(k) : genName(s, weird_names);
    f.offset = s.chance(1, 3) ? static_cast<uint32_t>(s.u64()) : static_cast<uint32_t>(s.draw(200));
    f.type = s.pick(allTypes());
    if (s.chance(1, 2)) f.resolution = genAnyRes(s);
    i.fields.push_back(f);
  }
  return i;
}
inline std::string showText(const std::string& t, size_t max = 300) {
  std::string o;
  for (unsigned char c : t.substr(0, max)) { if (c >= 0x20 && c < 0x7f && c != '\\') o += char(c); else { char b[8]; snprintf(b, 8, "\\x%02x", c); o += b; } }
  if (t.size() > max) o += "...";
  return o;
}
inline std::string descrFull(const EncodingInfo& i) {
  std::string o = descr(i) + " names:";
  for (auto& f : i.fields) o += " '" + showText(f.name, 40) + "'";
  return o.substr(0, 1500);
}
}  // namespace gen
