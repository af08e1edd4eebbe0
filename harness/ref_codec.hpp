// Independent implementation of the published stream format (versions 2 to 5): a writer that can make any legal choice
// and a strict reader. Shares no code with the library; only the EncodingInfo structure is used to describe a cloud.
#pragma once
#include <lz4.h>
#include <lz4hc.h>
#include <zstd.h>

#include <bit>
#include <map>

#include "gen.hpp"

namespace ref {
using namespace gen;
using Bytes = std::vector<uint8_t>;

struct FormatError : std::runtime_error {
  using std::runtime_error::runtime_error;
};
[[noreturn]] inline void bad(const std::string& m) { throw FormatError(m); }

// ---------------------------------------------------------------- primitives
template <class T>
inline void putLE(Bytes& b, T v, size_t n = sizeof(T)) {
  for (size_t i = 0; i < n; ++i) b.push_back(static_cast<uint8_t>(static_cast<uint64_t>(v) >> (8 * i)));
}
struct In {
  const uint8_t* p;
  size_t n;
  uint8_t u8() { if (!n) bad("truncated"); --n; return *p++; }
  uint64_t le(size_t k) {
    if (n < k) bad("truncated");
    uint64_t v = 0;
    for (size_t i = 0; i < k; ++i) v |= uint64_t(p[i]) << (8 * i);
    p += k; n -= k;
    return v;
  }
};
// Signed varint: zigzag plus one, 7 bits per byte, least significant first; the single byte 0 means NaN.
inline void putVarint(Bytes& b, int64_t v) {
  unsigned __int128 z = v >= 0 ? (unsigned __int128)v * 2 : ((unsigned __int128)(-((__int128)v + 1))) * 2 + 1;
  z += 1;  // up to 2^64
  while (z > 0x7f) { b.push_back(uint8_t(z & 0x7f) | 0x80); z >>= 7; }
  b.push_back(uint8_t(z));
}
inline int64_t getVarint(In& in) {
  unsigned __int128 z = 0;
  for (int i = 0;; ++i) {
    if (i == 10) bad("varint longer than 10 bytes");
    uint8_t c = in.u8();
    z |= (unsigned __int128)(c & 0x7f) << (7 * i);
    if (!(c & 0x80)) break;
  }
  if (z == 0) bad("NaN marker where a value is expected");
  z -= 1;
  if (z >> 64) bad("varint out of range");
  uint64_t u = uint64_t(z);
  return (u & 1) ? int64_t(~(u >> 1)) : int64_t(u >> 1);
}
inline void putUVarint(Bytes& b, uint64_t v) {
  while (v > 0x7f) { b.push_back(uint8_t(v & 0x7f) | 0x80); v >>= 7; }
  b.push_back(uint8_t(v));
}
inline uint64_t getUVarint(In& in) {
  uint64_t v = 0;
  for (int s = 0; s < 64; s += 7) {
    uint8_t c = in.u8();
    v |= uint64_t(c & 0x7f) << s;
    if (!(c & 0x80)) return v;
  }
  bad("unsigned varint too long");
}
inline int64_t asI64(uint64_t raw, FieldType t) {
  switch (t) {
    case FieldType::INT16: return int16_t(raw);
    case FieldType::INT32: return int32_t(raw);
    default: return int64_t(raw);  // unsigned types are zero extended, 64 bit wraps
  }
}
inline int64_t sub64(int64_t a, int64_t b) { return int64_t(uint64_t(a) - uint64_t(b)); }
inline int64_t add64(int64_t a, int64_t b) { return int64_t(uint64_t(a) + uint64_t(b)); }

// ---------------------------------------------------------------- which coder for which field
enum class Coder { COPY, INT, LOSSY, XOR, GORILLA };
inline size_t leadingFloats(const EncodingInfo& i) {
  if (i.encoding_opt != EncodingOptions::LOSSY) return 0;
  size_t k = 0;
  while (k < i.fields.size() && i.fields[k].type == FieldType::FLOAT32 && i.fields[k].resolution) ++k;
  return k == 3 || k == 4 ? k : 0;
}
inline Coder coderOf(const EncodingInfo& i, const PointField& f) {
  if (i.encoding_opt == EncodingOptions::NONE) return Coder::COPY;
  const bool lossy = i.encoding_opt == EncodingOptions::LOSSY;
  if (f.type == FieldType::FLOAT32) return lossy ? (f.resolution ? Coder::LOSSY : Coder::COPY) : Coder::XOR;
  if (f.type == FieldType::FLOAT64) {
    if (lossy && f.resolution) return Coder::LOSSY;
    if (!f.resolution && i.version >= 4) return Coder::GORILLA;
    return Coder::XOR;
  }
  return isWideInt(f.type) ? Coder::INT : Coder::COPY;
}
inline std::vector<size_t> adaptiveFields(const EncodingInfo& i) {
  std::vector<size_t> r;
  if (i.version >= 5 && i.encoding_opt == EncodingOptions::LOSSY)
    for (size_t k = leadingFloats(i); k < i.fields.size(); ++k)
      if (isWideInt(i.fields[k].type)) r.push_back(k);
  return r;
}

// Value of one field of one point in the writer's input: the raw bits, or for lossy floats a number of ticks or NaN.
struct Val {
  uint64_t raw = 0;
  bool nan = false;
  int64_t ticks = 0;
};
using Column = std::vector<Val>;  // one per point

inline unsigned bitLen(uint64_t v) { unsigned b = 0; while (v) { ++b; v >>= 1; } return b; }

// ---------------------------------------------------------------- writer
struct BitWriter {
  Bytes& out;
  unsigned used = 0;
  explicit BitWriter(Bytes& o) : out(o) {}
  void put(uint64_t v, unsigned n) {
    for (unsigned i = 0; i < n; ++i) {
      if (used % 8 == 0) out.push_back(0);
      if ((v >> i) & 1) out.back() |= uint8_t(1u << (used % 8));
      ++used;
    }
  }
};
struct Gorilla {
  bool first = true, window = false;
  uint64_t prev = 0;
  unsigned lead = 0, trail = 0;
};
struct WriterChoices {
  std::function<int(size_t field, size_t chunk)> mode = [](size_t, size_t) { return 0; };
  Rng rng{1};
  bool split_runs = false, shuffle_palette = false, odd_windows = false, canonical_nan = true;
  std::function<uint64_t(uint64_t)> warp;  // changes counts, lengths and tags of the sections (malformed streams)
  uint64_t num(uint64_t v) const { return warp ? warp(v) : v; }
  // targeted damage, used by C07
  std::function<void(size_t field, size_t chunk, size_t a, size_t b, Bytes&)> section_hook;  // may replace the section
  std::function<bool(size_t field, size_t point, Bytes&)> value_hook;                          // may write the value instead
  std::function<void(size_t chunk, Bytes&)> content_hook, packed_hook;                         // before, after compression
};

inline Bytes writeSection(const PointField& f, const Column& col, size_t a, size_t b, int mode, WriterChoices& ch) {
  Bytes o;
  const size_t sz = szOf(f.type);
  o.push_back(uint8_t(ch.num(uint64_t(mode))));
  auto runs = [&](auto same) {
    std::vector<std::pair<size_t, size_t>> r;
    for (size_t i = a; i < b;) {
      size_t j = i + 1;
      while (j < b && same(i, j) && !(ch.split_runs && ch.rng.below(5) == 0)) ++j;
      r.push_back({i, j - i});
      i = j;
    }
    return r;
  };
  auto V = [&](size_t i) { return asI64(col[i].raw, f.type); };
  auto diff = [&](size_t i) { return sub64(V(i), i == a ? 0 : V(i - 1)); };
  if (mode == 0) {
    for (size_t i = a; i < b; ++i) putVarint(o, diff(i));
  } else if (mode == 1) {
    std::vector<uint64_t> pal;
    std::map<uint64_t, size_t> idx;
    for (size_t i = a; i < b; ++i)
      if (idx.emplace(col[i].raw, pal.size()).second) pal.push_back(col[i].raw);
    if (ch.shuffle_palette) {
      for (size_t i = pal.size(); i > 1; --i) std::swap(pal[i - 1], pal[ch.rng.below(i)]);
      for (size_t i = 0; i < pal.size(); ++i) idx[pal[i]] = i;
    }
    putLE<uint16_t>(o, uint16_t(ch.num(pal.size())));
    for (auto v : pal) putLE<uint64_t>(o, v, sz);
    BitWriter w(o);
    const unsigned bits = pal.size() <= 1 ? 0 : bitLen(pal.size() - 1);
    for (size_t i = a; i < b; ++i) w.put(idx[col[i].raw], bits);
  } else if (mode == 2) {
    auto r = runs([&](size_t i, size_t j) { return col[i].raw == col[j].raw; });
    putLE<uint32_t>(o, uint32_t(ch.num(r.size())));
    for (auto& [i, n] : r) { putLE<uint64_t>(o, col[i].raw, sz); putUVarint(o, ch.num(n)); }
  } else {
    auto r = runs([&](size_t i, size_t j) { return diff(i) == diff(j); });
    putLE<uint32_t>(o, uint32_t(ch.num(r.size())));
    for (auto& [i, n] : r) { putVarint(o, diff(i)); putUVarint(o, ch.num(n)); }
  }
  return o;
}

// Size of the smallest of the four section kinds for this content.
inline std::array<size_t, 4> sectionSizes(const PointField& f, const Column& col, size_t a, size_t b) {
  WriterChoices ch;
  std::array<size_t, 4> r;
  for (int m = 0; m < 4; ++m) r[m] = writeSection(f, col, a, b, m, ch).size();
  return r;
}

inline Bytes compress(CompressionOption c, const Bytes& input, Rng& r) {
  if (c == CompressionOption::NONE || int(c) > 2) return input;
  Bytes in = input;
  in.reserve(1);  // never a null pointer
  Bytes out;
  if (c == CompressionOption::LZ4) {
    out.resize(size_t(LZ4_compressBound(int(in.size()))) + 16);
    int n = r.below(2) ? LZ4_compress_HC((const char*)in.data(), (char*)out.data(), int(in.size()), int(out.size()), int(1 + r.below(12)))
                       : LZ4_compress_fast((const char*)in.data(), (char*)out.data(), int(in.size()), int(out.size()), int(1 + r.below(20)));
    if (n <= 0) bad("reference LZ4");
    out.resize(size_t(n));
  } else {
    out.resize(ZSTD_compressBound(in.size()) + 64);
    size_t n;
    if (r.below(4) == 0) {  // streaming writer: the content size is not stored in the frame
      ZSTD_CCtx* c2 = ZSTD_createCCtx();
      ZSTD_CCtx_setParameter(c2, ZSTD_c_contentSizeFlag, 0);
      ZSTD_CCtx_setParameter(c2, ZSTD_c_checksumFlag, int(r.below(2)));
      n = ZSTD_compress2(c2, out.data(), out.size(), in.data(), in.size());
      ZSTD_freeCCtx(c2);
    } else {
      static const int levels[] = {1, 1, 3, 5, -3, 9};
      n = ZSTD_compress(out.data(), out.size(), in.data(), in.size(), in.size() > 200000 ? 1 : levels[r.below(6)]);
    }
    if (ZSTD_isError(n)) bad("reference ZSTD");
    out.resize(n);
  }
  return out;
}

// Stage 1 of points [a,b) for the fields coded point by point; columns are indexed like info.fields.
inline Bytes writeChunk(const EncodingInfo& info, const std::vector<Column>& cols, size_t a, size_t b, size_t chunk, WriterChoices& ch) {
  Bytes o;
  const auto adaptive = adaptiveFields(info);
  const size_t lead = leadingFloats(info);
  std::vector<int64_t> prev(info.fields.size(), 0);
  std::vector<uint64_t> prevx(info.fields.size(), 0);
  std::vector<Gorilla> g(info.fields.size());
  for (size_t i = a; i < b; ++i) {
    for (size_t k = 0; k < info.fields.size(); ++k) {
      if (std::find(adaptive.begin(), adaptive.end(), k) != adaptive.end()) continue;
      const auto& f = info.fields[k];
      const Val& v = cols[k][i];
      if (ch.value_hook && ch.value_hook(k, i, o)) continue;
      switch (coderOf(info, f)) {
        case Coder::COPY: putLE<uint64_t>(o, v.raw, szOf(f.type)); break;
        case Coder::INT: { int64_t x = asI64(v.raw, f.type); putVarint(o, sub64(x, prev[k])); prev[k] = x; break; }
        case Coder::LOSSY:
          if (v.nan) { o.push_back(0); prev[k] = 0; }
          else {
            int64_t d = sub64(v.ticks, prev[k]);
            if (k < lead) d = int32_t(d);  // 32 bit arithmetic of the vector coder
            putVarint(o, d);
            prev[k] = v.ticks;
          }
          break;
        case Coder::XOR: putLE<uint64_t>(o, v.raw ^ prevx[k], szOf(f.type)); prevx[k] = v.raw; break;
        case Coder::GORILLA: {
          Gorilla& s = g[k];
          BitWriter w(o);
          if (s.first) { w.put(v.raw, 64); s.first = false; }
          else {
            uint64_t x = v.raw ^ s.prev;
            if (x == 0) w.put(0, 1);
            else {
              w.put(1, 1);
              unsigned l = std::min<unsigned>(31, std::countl_zero(x)), t = std::countr_zero(x);
              if (s.window && unsigned(std::countl_zero(x)) >= s.lead && t >= s.trail && !(ch.odd_windows && ch.rng.below(4) == 0)) {
                w.put(0, 1);
                w.put(x >> s.trail, 64 - s.lead - s.trail);
              } else {
                if (ch.odd_windows) { l -= l ? unsigned(ch.rng.below(l + 1)) / 3 : 0; t -= t ? unsigned(ch.rng.below(t + 1)) / 3 : 0; }  // a wider window is legal
                w.put(1, 1);
                w.put(l, 5);
                w.put(64 - l - t - 1, 6);
                w.put(x >> t, 64 - l - t);
                s.lead = l; s.trail = t; s.window = true;
              }
            }
          }
          s.prev = v.raw;
          break;
        }
      }
    }
  }
  for (size_t k : adaptive) {
    Bytes s = writeSection(info.fields[k], cols[k], a, b, ch.mode(k, chunk), ch);
    if (ch.section_hook) ch.section_hook(k, chunk, a, b, s);
    o.insert(o.end(), s.begin(), s.end());
  }
  return o;
}

inline Bytes writePayload(const EncodingInfo& info, const std::vector<Column>& cols, size_t n, WriterChoices& ch) {
  Bytes out;
  const size_t per = info.version >= 3 ? kChunk : std::max<size_t>(n, 1);
  for (size_t a = 0, c = 0; a < n; a += per, ++c) {
    Bytes s1 = writeChunk(info, cols, a, std::min(n, a + per), c, ch);
    if (ch.content_hook) ch.content_hook(c, s1);
    Bytes s2 = compress(info.compression_opt, s1, ch.rng);
    if (ch.packed_hook) ch.packed_hook(c, s2);
    if (info.version >= 3) putLE<uint32_t>(out, uint32_t(s2.size()));
    out.insert(out.end(), s2.begin(), s2.end());
  }
  return out;
}

// ---------------------------------------------------------------- header
inline Bytes writeHeaderText(const EncodingInfo& i, Rng& r) {
  std::ostringstream o;
  o << "CLOUDINI_V0" << int(i.version) << "\n";
  static const char* en[] = {"NONE", "LOSSY", "LOSSLESS"};
  static const char* co[] = {"NONE", "LZ4", "ZSTD"};
  static const char* ty[] = {"UNKNOWN", "INT8", "UINT8", "INT16", "UINT16", "INT32", "UINT32", "FLOAT32", "FLOAT64", "INT64", "UINT64"};
  o << "version: " << int(i.version) << "\nwidth: " << i.width << "\nheight: " << i.height << "\npoint_step: " << i.point_step
    << "\nencoding_opt: " << (int(i.encoding_opt) < 3 ? en[int(i.encoding_opt)] : "7") << "\ncompression_opt: " << (int(i.compression_opt) < 3 ? co[int(i.compression_opt)] : "9") << "\n";
  if (r.below(4) == 0) o << "encoding_config: none\n";
  o << "fields:\n";
  for (auto& f : i.fields) {
    o << "  - name: " << f.name << "\n    offset: " << f.offset << "\n    type: " << (int(f.type) < 11 ? ty[int(f.type)] : "99") << "\n    resolution: ";
    if (f.resolution) { char b[40]; snprintf(b, 40, "%.9g", double(*f.resolution)); o << b; }
    else o << "null";
    o << "\n";
  }
  std::string s = o.str();
  Bytes b(s.begin(), s.end());
  b.push_back(0);
  return b;
}
inline Bytes writeHeaderBinary(const EncodingInfo& i) {
  std::string m = "CLOUDINI_V0" + std::to_string(int(i.version));
  Bytes b(m.begin(), m.end());
  putLE<uint32_t>(b, i.width);
  putLE<uint32_t>(b, i.height);
  putLE<uint32_t>(b, i.point_step);
  b.push_back(uint8_t(i.encoding_opt));
  b.push_back(uint8_t(i.compression_opt));
  putLE<uint16_t>(b, uint16_t(i.fields.size()));
  for (auto& f : i.fields) {
    putLE<uint16_t>(b, uint16_t(f.name.size()));
    b.insert(b.end(), f.name.begin(), f.name.end());
    putLE<uint32_t>(b, f.offset);
    b.push_back(uint8_t(f.type));
    float r = f.resolution ? *f.resolution : -1.0f;
    uint32_t u;
    memcpy(&u, &r, 4);
    putLE<uint32_t>(b, u);
  }
  return b;
}
// Strict reader of the text header written by the library. Returns the header length.
inline size_t readHeaderText(const Bytes& s, EncodingInfo& i) {
  if (s.size() < 13 || memcmp(s.data(), "CLOUDINI_V", 10) != 0 || s[12] != '\n') bad("magic");
  i.version = uint8_t((s[10] - '0') * 10 + (s[11] - '0'));
  size_t e = 13;
  while (e < s.size() && s[e]) ++e;
  if (e == s.size()) bad("header without terminator");
  std::istringstream in(std::string(s.begin() + 13, s.begin() + e));
  std::string line;
  i.fields.clear();
  auto val = [&](const std::string& l, const char* key) {
    std::string k = std::string(key) + ": ";
    if (l.rfind(k, 0) != 0) bad("header line '" + l + "' is not '" + key + "'");
    return l.substr(k.size());
  };
  auto next = [&](const char* key) { if (!std::getline(in, line)) bad("header too short"); return val(line, key); };
  auto num = [&](const std::string& t) { if (t.empty() || t.find_first_not_of("0123456789") != std::string::npos) bad("number '" + t + "'"); return std::stoull(t); };
  auto oneOf = [&](const std::string& t, std::vector<std::string> n) { for (size_t k = 0; k < n.size(); ++k) if (n[k] == t) return k; bad("name '" + t + "'"); };
  if (num(next("version")) != i.version) bad("version of the magic prefix and of the text differ");
  i.width = uint32_t(num(next("width")));
  i.height = uint32_t(num(next("height")));
  i.point_step = uint32_t(num(next("point_step")));
  i.encoding_opt = EncodingOptions(oneOf(next("encoding_opt"), {"NONE", "LOSSY", "LOSSLESS"}));
  i.compression_opt = CompressionOption(oneOf(next("compression_opt"), {"NONE", "LZ4", "ZSTD"}));
  if (!std::getline(in, line)) bad("no fields");
  if (line != "fields:") bad("expected fields:, got " + line);
  while (std::getline(in, line)) {
    PointField f;
    f.name = val(line, "  - name");
    f.offset = uint32_t(num(next("    offset")));
    f.type = FieldType(oneOf(next("    type"), {"UNKNOWN", "INT8", "UINT8", "INT16", "UINT16", "INT32", "UINT32", "FLOAT32", "FLOAT64", "INT64", "UINT64"}));
    std::string r = next("    resolution");
    if (r != "null") { char* end; f.resolution = strtof(r.c_str(), &end); if (*end) bad("resolution " + r); }
    i.fields.push_back(f);
  }
  return e + 1;
}

// ---------------------------------------------------------------- reader
struct BitReader {
  In& in;
  uint8_t cur = 0;
  unsigned left = 0;
  explicit BitReader(In& i) : in(i) {}
  uint64_t get(unsigned n) {
    uint64_t v = 0;
    for (unsigned i = 0; i < n; ++i) {
      if (!left) { cur = in.u8(); left = 8; }
      v |= uint64_t(cur & 1) << i;
      cur >>= 1;
      --left;
    }
    return v;
  }
  void padding() { if (cur) bad("non-zero padding bits"); }
};
struct SectionInfo {
  size_t field, chunk, size;
  int mode;
};
struct Read {
  std::vector<Column> cols;
  std::vector<SectionInfo> sections;
  size_t chunks = 0;
};
inline Bytes decompress(CompressionOption c, In in, size_t bound) {
  Bytes out;
  if (c == CompressionOption::NONE) { out.assign(in.p, in.p + in.n); return out; }
  out.resize(bound);
  if (c == CompressionOption::LZ4) {
    int n = LZ4_decompress_safe((const char*)in.p, (char*)out.data(), int(in.n), int(out.size()));
    if (n < 0) bad("LZ4 block does not decompress");
    out.resize(size_t(n));
  } else {
    if (ZSTD_findFrameCompressedSize(in.p, in.n) != in.n) bad("chunk is not exactly one ZSTD frame");
    size_t n = ZSTD_decompress(out.data(), out.size(), in.p, in.n);
    if (ZSTD_isError(n)) bad("ZSTD frame does not decompress");
    out.resize(n);
  }
  return out;
}
inline Read readPayload(const EncodingInfo& info, const uint8_t* p, size_t size) {
  Read r;
  const size_t n = size_t(info.width) * info.height;
  r.cols.assign(info.fields.size(), Column(n));
  const auto adaptive = adaptiveFields(info);
  const size_t lead = leadingFloats(info);
  In all{p, size};
  for (size_t a = 0; a < n; a += kChunk) {
    const size_t b = std::min(n, a + kChunk);
    const size_t cs = all.le(4);
    if (cs > all.n) bad("chunk length exceeds the stream");
    Bytes s1 = decompress(info.compression_opt, In{all.p, cs}, (b - a) * 16 * (info.fields.size() + 1) + 65536);
    all.p += cs;
    all.n -= cs;
    In in{s1.data(), s1.size()};
    std::vector<int64_t> prev(info.fields.size(), 0);
    std::vector<uint64_t> prevx(info.fields.size(), 0);
    std::vector<Gorilla> g(info.fields.size());
    for (size_t i = a; i < b; ++i)
      for (size_t k = 0; k < info.fields.size(); ++k) {
        if (std::find(adaptive.begin(), adaptive.end(), k) != adaptive.end()) continue;
        const auto& f = info.fields[k];
        Val& v = r.cols[k][i];
        switch (coderOf(info, f)) {
          case Coder::COPY: v.raw = in.le(szOf(f.type)); break;
          case Coder::INT: prev[k] = add64(prev[k], getVarint(in)); v.raw = uint64_t(prev[k]) & maskBits(szOf(f.type)); break;
          case Coder::LOSSY: {
            if (in.n && *in.p == 0) { in.u8(); v.nan = true; prev[k] = 0; break; }
            int64_t d = getVarint(in);
            prev[k] = k < lead ? int64_t(int32_t(uint32_t(prev[k]) + uint32_t(d))) : add64(prev[k], d);
            v.ticks = prev[k];
            break;
          }
          case Coder::XOR: v.raw = in.le(szOf(f.type)) ^ prevx[k]; prevx[k] = v.raw; break;
          case Coder::GORILLA: {
            Gorilla& s = g[k];
            BitReader br(in);
            if (s.first) { s.prev = br.get(64); s.first = false; }
            else if (br.get(1)) {
              if (br.get(1)) {
                s.lead = unsigned(br.get(5));
                unsigned len = unsigned(br.get(6)) + 1;
                if (s.lead + len > 64) bad("Gorilla window");
                s.trail = 64 - s.lead - len;
                s.window = true;
              } else if (!s.window) bad("Gorilla: previous window does not exist");
              s.prev ^= br.get(64 - s.lead - s.trail) << s.trail;
            }
            br.padding();
            v.raw = s.prev;
            break;
          }
        }
      }
    for (size_t k : adaptive) {
      const auto& f = info.fields[k];
      const size_t sz = szOf(f.type);
      const size_t start = in.n;
      const int mode = in.u8();
      auto set = [&](size_t i, uint64_t raw) { r.cols[k][i].raw = raw & maskBits(sz); };
      if (mode == 0) {
        int64_t pv = 0;
        for (size_t i = a; i < b; ++i) { pv = add64(pv, getVarint(in)); set(i, uint64_t(pv)); }
      } else if (mode == 1) {
        size_t cnt = in.le(2);
        if (!cnt) bad("empty palette");
        std::vector<uint64_t> pal(cnt);
        for (auto& v : pal) v = in.le(sz);
        BitReader br(in);
        unsigned bits = cnt <= 1 ? 0 : bitLen(cnt - 1);
        for (size_t i = a; i < b; ++i) { size_t q = br.get(bits); if (q >= cnt) bad("palette index"); set(i, pal[q]); }
        br.padding();
      } else if (mode == 2 || mode == 3) {
        size_t runs = in.le(4), i = a;
        int64_t pv = 0;
        for (size_t q = 0; q < runs; ++q) {
          uint64_t raw = 0;
          int64_t d = 0;
          if (mode == 2) raw = in.le(sz); else d = getVarint(in);
          uint64_t len = getUVarint(in);
          if (len == 0 || len > b - i) bad("run length");
          for (; len; --len, ++i) { if (mode == 3) { pv = add64(pv, d); raw = uint64_t(pv); } set(i, raw); }
        }
        if (i != b) bad("runs do not cover the chunk");
      } else bad("section kind " + std::to_string(mode));
      r.sections.push_back({k, r.chunks, start - in.n, mode});
    }
    if (in.n) bad("bytes left in the chunk");
    ++r.chunks;
  }
  if (all.n) bad("bytes after the last chunk");
  return r;
}

// ---------------------------------------------------------------- values
// Checks one decoded value against what the stream encodes.
inline std::string matches(const EncodingInfo& info, const PointField& f, const Val& v, uint64_t got) {
  std::ostringstream o;
  o.precision(17);
  if (coderOf(info, f) != Coder::LOSSY) {
    if (v.raw == got) return "";
    o << f.name << " (" << tname(f.type) << "): stream encodes 0x" << std::hex << v.raw << ", decoded 0x" << got;
    return o.str();
  }
  double y = asReal(f.type, got);
  if (v.nan || std::isnan(y)) {
    if (v.nan && std::isnan(y)) return "";
    o << f.name << ": stream encodes " << (v.nan ? "NaN" : "a value") << ", decoded " << y;
    return o.str();
  }
  double x = double(v.ticks) * double(*f.resolution);
  const double eps = f.type == FieldType::FLOAT32 ? std::ldexp(1.0, -24) : std::ldexp(1.0, -53);
  if (std::fabs(x - y) <= 4 * eps * std::fabs(x) + 1e-44) return "";
  o << f.name << " (" << tname(f.type) << "): stream encodes " << v.ticks << " ticks of " << *f.resolution << " = " << x << ", decoded " << y;
  return o.str();
}
inline std::vector<Column> columnsOf(const Cloud& c) {
  std::vector<Column> cols(c.info.fields.size(), Column(c.n));
  for (size_t k = 0; k < cols.size(); ++k)
    for (size_t i = 0; i < c.n; ++i) cols[k][i].raw = loadField(c.data.data(), c.info, c.info.fields[k], i);
  return cols;
}
// Replaces the content of lossy float columns by random tick counts.
inline void genTickColumn(Src& s, Column& col, FieldType t, std::string& d) {
  Rng r(s.seed());
  const int64_t big = t == FieldType::FLOAT32 ? 2147483000LL : (int64_t{1} << 51);
  const int mode = int(s.draw(5));
  const uint64_t nanEvery = s.chance(1, 3) ? 1 + s.draw(40) : 0;
  static const char* nm[] = {"ticks-walk", "ticks-small", "ticks-wide", "ticks-const", "ticks-extremes"};
  d += std::string(d.empty() ? "" : ",") + nm[mode];
  int64_t w = r.range(-1000, 1000);
  for (auto& v : col) {
    switch (mode) {
      case 0: w += r.range(-60, 60); v.ticks = w; break;
      case 1: v.ticks = r.range(-300, 300); break;
      case 2: v.ticks = r.range(-big, big); break;
      case 3: v.ticks = w; break;
      default: v.ticks = r.below(2) ? big : -big; break;
    }
    v.nan = nanEvery && r.below(nanEvery) == 0;
  }
}
}  // namespace ref
