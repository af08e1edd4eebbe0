// Generators of cloud descriptions and contents, and comparison of decoded clouds.
#pragma once
#include <algorithm>
#include <array>
#include <cmath>
#include <cstring>
#include <limits>
#include <numeric>
#include <sstream>
#include <string>
#include <vector>

#include "cloudini_lib/cloudini.hpp"
#include "pbt.hpp"

namespace gen {
using namespace Cloudini;
using pbt::Ctx;
using pbt::Rng;
using pbt::Src;

constexpr size_t kChunk = 32768;  // documented chunk size of the stream format
constexpr size_t kProbe = 4096;   // documented sampling window of the version 5 integer sections

inline bool isInt(FieldType t) {
  switch (t) {
    case FieldType::INT8: case FieldType::UINT8: case FieldType::INT16: case FieldType::UINT16:
    case FieldType::INT32: case FieldType::UINT32: case FieldType::INT64: case FieldType::UINT64: return true;
    default: return false;
  }
}
inline bool isWideInt(FieldType t) { return isInt(t) && t != FieldType::INT8 && t != FieldType::UINT8; }
inline size_t szOf(FieldType t) {
  switch (t) {
    case FieldType::INT8: case FieldType::UINT8: return 1;
    case FieldType::INT16: case FieldType::UINT16: return 2;
    case FieldType::INT32: case FieldType::UINT32: case FieldType::FLOAT32: return 4;
    case FieldType::INT64: case FieldType::UINT64: case FieldType::FLOAT64: return 8;
    default: return 0;
  }
}
inline bool isSigned(FieldType t) {
  return t == FieldType::INT8 || t == FieldType::INT16 || t == FieldType::INT32 || t == FieldType::INT64;
}
inline const char* tname(FieldType t) {
  switch (t) {
    case FieldType::INT8: return "i8"; case FieldType::UINT8: return "u8"; case FieldType::INT16: return "i16";
    case FieldType::UINT16: return "u16"; case FieldType::INT32: return "i32"; case FieldType::UINT32: return "u32";
    case FieldType::INT64: return "i64"; case FieldType::UINT64: return "u64"; case FieldType::FLOAT32: return "f32";
    case FieldType::FLOAT64: return "f64"; default: return "?";
  }
}
inline const std::vector<FieldType>& intTypes() {
  static const std::vector<FieldType> v{FieldType::UINT8, FieldType::INT8, FieldType::UINT16, FieldType::INT16,
      FieldType::UINT32, FieldType::INT32, FieldType::UINT64, FieldType::INT64};
  return v;
}
inline const std::vector<FieldType>& allTypes() {
  static const std::vector<FieldType> v{FieldType::UINT8, FieldType::INT8, FieldType::UINT16, FieldType::INT16,
      FieldType::UINT32, FieldType::INT32, FieldType::UINT64, FieldType::INT64, FieldType::FLOAT32, FieldType::FLOAT64};
  return v;
}

// True when the coder of this field is documented to be lossy.
inline bool isLossyField(const EncodingInfo& info, const PointField& f) {
  return info.encoding_opt == EncodingOptions::LOSSY && f.resolution.has_value() &&
         (f.type == FieldType::FLOAT32 || f.type == FieldType::FLOAT64);
}

struct Cloud {
  EncodingInfo info;
  size_t n = 0;
  std::vector<uint8_t> data;
  ConstBufferView view() const { return ConstBufferView(data.data(), data.size()); }
};

inline std::string descr(const EncodingInfo& i) {
  std::ostringstream o;
  o << "v" << int(i.version) << " " << i.width << "x" << i.height << " step=" << i.point_step << " opt=" << int(i.encoding_opt)
    << " comp=" << int(i.compression_opt) << (i.use_threads ? " threads" : " nothreads") << " fields=[";
  for (size_t k = 0; k < i.fields.size(); ++k) {
    auto& f = i.fields[k];
    o << (k ? " " : "") << tname(f.type) << "@" << (f.offset == kDecodeButSkipStore ? -1 : long(f.offset));
    if (f.resolution) { o.precision(9); o << "/" << *f.resolution; }
  }
  o << "]";
  return o.str();
}

// ------------------------------------------------------------------ point counts
struct NOpts {
  size_t max = 100000;
  bool zero = false;
  unsigned small_w = 40, mid_w = 36, big_w = 10, probe_w = 6, chunk_w = 4, multi_w = 4;
};
inline size_t genN(Src& s, const NOpts& o = {}) {
  size_t n;
  switch (s.weighted({o.small_w, o.mid_w, o.big_w, o.probe_w, o.chunk_w, o.multi_w})) {
    case 0: n = s.draw(9) + (o.zero ? 0 : 1); break;
    case 1: n = 9 + s.draw(292); break;
    case 2: n = 301 + s.draw(3700); break;
    case 3: n = kProbe - 6 + s.draw(s.chance(1, 3) ? 5000 : 13); break;
    case 4: n = kChunk - 8 + s.draw(17); break;
    default: n = s.chance(1, 2) ? 2 * kChunk - 6 + s.draw(13) : kChunk + 8 + s.draw(66000); break;
  }
  return std::min(n, o.max);
}

// ------------------------------------------------------------------ integer contents
inline uint64_t maskBits(size_t bytes) { return bytes >= 8 ? ~uint64_t{0} : ((uint64_t{1} << (8 * bytes)) - 1); }

inline void intSegment(Src& s, Rng& r, size_t bytes, uint64_t* v, size_t n, std::string& d) {
  const uint64_t m = maskBits(bytes);
  const uint64_t lo = uint64_t{1} << (8 * bytes - 1);  // sign bit
  auto val = [&] { return s.u64() & m; };
  switch (s.weighted({8, 8, 8, 10, 14, 14, 8, 8, 6, 6, 4})) {
    case 0: { uint64_t c = val(); for (size_t i = 0; i < n; ++i) v[i] = c; d += "const"; break; }
    case 1: { uint64_t c = val(), st = s.chance(1, 3) ? val() : s.draw(5); for (size_t i = 0; i < n; ++i) v[i] = (c + st * i) & m; d += "ramp"; break; }
    case 2: { uint64_t c = val(); int64_t w = int64_t{1} << s.draw(bytes * 8 - 1); w = std::min<int64_t>(w, int64_t{1} << 40);
      for (size_t i = 0; i < n; ++i) { c = (c + static_cast<uint64_t>(r.range(-w, w))) & m; v[i] = c; } d += "walk"; break; }
    case 3: { for (size_t i = 0; i < n; ++i) v[i] = r.next() & m; d += "rand"; break; }
    case 4: {  // palette of k values
      static const size_t ks[] = {1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1024, 1025, 2048, 4095, 4096};
      size_t k = ks[s.draw(sizeof(ks) / sizeof(ks[0]))];
      bool small = s.chance(1, 3);
      bool cyc = s.chance(1, 3);
      std::vector<uint64_t> pal(k);
      for (size_t i = 0; i < k; ++i) pal[i] = small ? (i & m) : (r.next() & m);
      for (size_t i = 0; i < n; ++i) v[i] = pal[cyc ? i % k : r.below(k)];
      d += "pal" + std::to_string(k); break; }
    case 5: {  // runs of equal values
      size_t maxrun = 1 + s.draw(s.chance(1, 3) ? 20000 : 400);
      bool fixed = s.chance(1, 3);
      bool few = s.chance(1, 2);
      size_t i = 0;
      while (i < n) {
        size_t len = fixed ? maxrun : 1 + r.below(maxrun);
        uint64_t c = few ? r.below(6) & m : r.next() & m;
        for (; len && i < n; --len) v[i++] = c;
      }
      d += "runs" + std::to_string(maxrun); break; }
    case 6: {  // runs of equal increments
      size_t maxrun = 1 + s.draw(600);
      uint64_t c = val();
      size_t i = 0;
      bool big = s.chance(1, 3);
      while (i < n) {
        size_t len = 1 + r.below(maxrun);
        uint64_t st = big ? r.next() : static_cast<uint64_t>(r.range(-3, 3));
        for (; len && i < n; --len) { c = (c + st) & m; v[i++] = c; }
      }
      d += "druns" + std::to_string(maxrun); break; }
    case 7: {  // extremes
      uint64_t ex[8] = {0, m, lo, lo - 1, 1, lo + 1, m - 1, lo >> 1};
      size_t k = 1 + s.draw(8);
      for (size_t i = 0; i < n; ++i) v[i] = ex[r.below(k)] & m;
      d += "extr" + std::to_string(k); break; }
    case 8: {  // alternating extremes (largest deltas)
      uint64_t a = s.chance(1, 2) ? lo : 0, b = s.chance(1, 2) ? lo - 1 : m;
      for (size_t i = 0; i < n; ++i) v[i] = (i & 1 ? a : b) & m;
      d += "alt"; break; }
    case 9: {  // mostly constant with spikes
      uint64_t c = val();
      size_t p = 2 + s.draw(500);
      for (size_t i = 0; i < n; ++i) v[i] = r.below(p) == 0 ? (r.next() & m) : c;
      d += "spikes"; break; }
    default: {  // explicit short sequence repeated
      size_t k = 1 + s.draw(6);
      std::vector<uint64_t> e;
      for (size_t i = 0; i < k; ++i) e.push_back(val());
      for (size_t i = 0; i < n; ++i) v[i] = e[i % k];
      d += "seq" + std::to_string(k); break; }
  }
}

inline size_t genCut(Src& s, size_t n) {
  switch (s.weighted({4, 3, 3, 2})) {
    case 0: return s.draw(n + 1);
    case 1: return std::min(n, kProbe + s.draw(3) - (kProbe ? 1 : 0));
    case 2: return std::min(n, kChunk + s.draw(3) - 1);
    default: return std::min<size_t>(n, s.draw(20));
  }
}

inline std::vector<uint64_t> genInts(Src& s, size_t bytes, size_t n, std::string& d) {
  std::vector<uint64_t> v(n);
  size_t segs = 1 + s.weighted({60, 30, 10});
  Rng r(s.seed());
  std::vector<size_t> cuts{0};
  for (size_t i = 1; i < segs; ++i) cuts.push_back(genCut(s, n));
  cuts.push_back(n);
  std::sort(cuts.begin(), cuts.end());
  for (size_t i = 0; i + 1 < cuts.size(); ++i) {
    if (i) d += "+";
    intSegment(s, r, bytes, v.data() + cuts[i], cuts[i + 1] - cuts[i], d);
  }
  return v;
}

// ------------------------------------------------------------------ float contents
// Values for a lossy field: |x/res| stays below maxTicks.
inline std::vector<double> genTicks(Src& s, size_t n, double maxTicks, bool f32, double res, std::string& d) {
  std::vector<double> v(n);
  Rng r(s.seed());
  size_t segs = 1 + s.weighted({65, 25, 10});
  std::vector<size_t> cuts{0};
  for (size_t i = 1; i < segs; ++i) cuts.push_back(genCut(s, n));
  cuts.push_back(n);
  std::sort(cuts.begin(), cuts.end());
  for (size_t si = 0; si + 1 < cuts.size(); ++si) {
    if (si) d += "+";
    double* p = v.data() + cuts[si];
    size_t m = cuts[si + 1] - cuts[si];
    // magnitude of this segment in ticks
    double mag = std::min(maxTicks, std::ldexp(1.0, 1 + int(s.draw(static_cast<uint64_t>(std::log2(maxTicks))))));
    switch (s.weighted({4, 10, 14, 12, 12, 6, 6, 6, 4})) {
      case 0: { double c = (r.unit() * 2 - 1) * mag; for (size_t i = 0; i < m; ++i) p[i] = c; d += "const"; break; }
      case 1: { for (size_t i = 0; i < m; ++i) p[i] = std::round((r.unit() * 2 - 1) * mag); d += "ticks"; break; }
      case 2: { for (size_t i = 0; i < m; ++i) p[i] = (r.unit() * 2 - 1) * mag; d += "uni"; break; }
      case 3: { double c = (r.unit() * 2 - 1) * mag; double w = std::ldexp(1.0, int(s.draw(12)) - 3);
        for (size_t i = 0; i < m; ++i) { c += (r.unit() * 2 - 1) * w; if (std::fabs(c) > mag) c = -c * 0.5; p[i] = c; } d += "walk"; break; }
      case 4: { for (size_t i = 0; i < m; ++i) p[i] = std::floor((r.unit() * 2 - 1) * mag) + 0.5 + (r.below(3) - 1.0) * 1e-3; d += "half"; break; }
      case 5: { double st = s.range(-8, 8) * 0.25; double c = 0; for (size_t i = 0; i < m; ++i) { c += st; if (std::fabs(c) > mag) c = 0; p[i] = c; } d += "ramp"; break; }
      case 6: { for (size_t i = 0; i < m; ++i) p[i] = (i & 1 ? 1 : -1) * mag * (1 - 1e-5); d += "alt"; break; }
      case 7: { for (size_t i = 0; i < m; ++i) { double e[7] = {0.0, -0.0, 0.49, -0.49, 0.51, -0.51, 1.0}; p[i] = e[r.below(7)]; } d += "tiny"; break; }
      default: { for (size_t i = 0; i < m; ++i) p[i] = 0; d += "zero"; break; }
    }
  }
  for (auto& x : v) x *= res;
  if (f32)
    for (auto& x : v) x = static_cast<float>(x);
  for (auto& x : v)
    if (!(std::fabs(x) / res < maxTicks)) x = 0;
  if (n && s.chance(1, 3)) {  // NaNs
    d += ",nan";
    if (s.chance(1, 2)) {
      size_t k = 1 + s.draw(6);
      for (size_t i = 0; i < k; ++i) v[r.below(n)] = std::numeric_limits<double>::quiet_NaN();
    } else {
      size_t per = 1 + s.draw(20);
      for (size_t i = 0; i < n; ++i)
        if (r.below(per) == 0) v[i] = std::numeric_limits<double>::quiet_NaN();
    }
  }
  return v;
}

// Bit patterns for exact float fields.
inline std::vector<uint64_t> genFloatBits(Src& s, size_t bytes, size_t n, std::string& d) {
  std::vector<uint64_t> v(n);
  Rng r(s.seed());
  const bool f32 = bytes == 4;
  auto bits = [&](double x) -> uint64_t {
    if (f32) { float f = static_cast<float>(x); uint32_t u; memcpy(&u, &f, 4); return u; }
    uint64_t u; memcpy(&u, &x, 8); return u;
  };
  size_t segs = 1 + s.weighted({65, 25, 10});
  std::vector<size_t> cuts{0};
  for (size_t i = 1; i < segs; ++i) cuts.push_back(genCut(s, n));
  cuts.push_back(n);
  std::sort(cuts.begin(), cuts.end());
  const uint64_t m = maskBits(bytes);
  for (size_t si = 0; si + 1 < cuts.size(); ++si) {
    if (si) d += "+";
    uint64_t* p = v.data() + cuts[si];
    size_t k = cuts[si + 1] - cuts[si];
    switch (s.weighted({8, 10, 14, 10, 16, 10, 8, 8})) {
      case 0: { uint64_t c = bits((r.unit() - 0.5) * 1000); for (size_t i = 0; i < k; ++i) p[i] = c; d += "const"; break; }
      case 1: { double c = 1.6e9 + r.unit() * 1e8, st = std::ldexp(1.0, int(s.draw(30)) - 25);
        for (size_t i = 0; i < k; ++i) { c += st * (1 + 0.01 * r.unit()); p[i] = bits(c); } d += "time"; break; }
      case 2: { for (size_t i = 0; i < k; ++i) p[i] = r.next() & m; d += "rand"; break; }
      case 3: { double c = 0; for (size_t i = 0; i < k; ++i) { c += (r.unit() - 0.5); p[i] = bits(c); } d += "walk"; break; }
      case 4: {  // controlled XOR windows: flip bits only in [a,b)
        uint64_t c = r.next() & m;
        size_t B = bytes * 8;
        size_t a = s.draw(B), b = a + 1 + s.draw(B - a);
        bool vary = s.chance(1, 2);
        for (size_t i = 0; i < k; ++i) {
          size_t a2 = a, b2 = b;
          if (vary) { a2 = r.below(B); b2 = a2 + 1 + r.below(B - a2); }
          uint64_t w = b2 - a2 >= 64 ? ~uint64_t{0} : ((uint64_t{1} << (b2 - a2)) - 1);
          if (r.below(5) != 0) c ^= ((r.next() & w) << a2);
          p[i] = c & m;
        }
        d += "xorwin"; break; }
      case 5: { static const double sp[] = {0.0, -0.0, 1.0, -1.0, 1e300, -1e-300, 5e-324, INFINITY, -INFINITY, NAN};
        for (size_t i = 0; i < k; ++i) {
          uint64_t b = bits(sp[r.below(10)]);
          if (r.below(4) == 0) b = (f32 ? 0x7F800000u : 0x7FF0000000000000ULL) | (r.next() & (f32 ? 0x807FFFFFu : 0x800FFFFFFFFFFFFFULL));
          p[i] = b & m; }
        d += "special"; break; }
      case 6: { uint64_t c = r.next() & m; for (size_t i = 0; i < k; ++i) { c ^= uint64_t{1} << r.below(bytes * 8); p[i] = c & m; } d += "onebit"; break; }
      default: { uint64_t a = r.next() & m, b = r.next() & m; size_t q = 1 + s.draw(9);
        for (size_t i = 0; i < k; ++i) p[i] = (i / q) & 1 ? a : b; d += "flip"; break; }
    }
  }
  return v;
}

// ------------------------------------------------------------------ descriptions
struct InfoOpts {
  std::vector<int> versions{5, 4, 3};
  std::vector<EncodingOptions> opts{EncodingOptions::LOSSY, EncodingOptions::LOSSLESS, EncodingOptions::NONE};
  std::vector<CompressionOption> comps{CompressionOption::NONE, CompressionOption::ZSTD, CompressionOption::LZ4};
  std::vector<FieldType> types = allTypes();
  unsigned float_res_pct = 60;       // chance that a float field carries a resolution
  unsigned lead_pct = 50;            // chance to start with 0..5 float32 fields carrying a resolution
  unsigned max_fields = 7;
  bool unused_resolution = true;     // resolutions on fields/options where they are not used
  bool threads_choice = true;
  bool simple_names = true;
};

inline float genRes(Src& s) {
  switch (s.weighted({5, 3, 3, 2, 2})) {
    case 0: return s.pick({0.001f, 0.01f, 0.1f, 1.0f, 0.0001f, 0.005f});
    case 1: return std::ldexp(1.0f, int(s.range(-16, 4)));
    case 2: { Rng r(s.seed()); return static_cast<float>(std::pow(10.0, -5 + 7 * r.unit())); }
    case 3: return static_cast<float>(1 + s.draw(100000)) / 100000.0f;
    default: { Rng r(s.seed()); return static_cast<float>(1.0 / (1 + r.below(100000))); }
  }
}

// Field list with types and resolutions but no offsets yet.
inline std::vector<PointField> genFieldList(Src& s, const InfoOpts& o) {
  std::vector<PointField> f;
  auto allowed = [&](FieldType t) { return std::find(o.types.begin(), o.types.end(), t) != o.types.end(); };
  if (allowed(FieldType::FLOAT32) && s.draw(100) < o.lead_pct) {
    size_t k = s.pick({3, 4, 2, 1, 5, 3, 4});
    bool same = s.chance(1, 2);
    float r0 = genRes(s);
    for (size_t i = 0; i < k; ++i) {
      PointField p;
      p.type = FieldType::FLOAT32;
      p.resolution = same ? r0 : genRes(s);
      f.push_back(p);
    }
  }
  size_t extra = s.draw(o.max_fields);
  if (f.empty()) ++extra;
  for (size_t i = 0; i < extra; ++i) {
    PointField p;
    p.type = s.pick(o.types);
    const bool fl = p.type == FieldType::FLOAT32 || p.type == FieldType::FLOAT64;
    if (fl) {
      if (s.draw(100) < o.float_res_pct) p.resolution = genRes(s);
    } else if (o.unused_resolution && s.chance(1, 12)) {
      p.resolution = genRes(s);
    }
    f.push_back(p);
  }
  static const char* nm[] = {"x", "y", "z", "intensity", "ring", "timestamp", "rgb", "nx", "ny", "nz", "tag", "line", "t", "range", "label"};
  for (size_t i = 0; i < f.size(); ++i) f[i].name = i < 15 ? nm[i] : "f" + std::to_string(i);
  return f;
}

// Assigns offsets and returns the point step.
inline uint32_t genLayout(Src& s, std::vector<PointField>& f) {
  std::vector<size_t> order(f.size());
  std::iota(order.begin(), order.end(), 0);
  const int mode = int(s.weighted({5, 3, 2, 2}));
  if (mode >= 2) {  // storage order differs from field order
    for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[s.draw(i)]);
  }
  uint32_t off = 0;
  if (mode == 1 || mode == 3) off = static_cast<uint32_t>(s.draw(9));
  for (size_t i : order) {
    if (mode == 1 || mode == 3) off += static_cast<uint32_t>(s.draw(6));
    f[i].offset = off;
    off += static_cast<uint32_t>(szOf(f[i].type));
  }
  if (s.chance(1, 3)) off += static_cast<uint32_t>(s.draw(20));
  return std::max<uint32_t>(off, 1);
}

inline void setDims(Src& s, EncodingInfo& info, size_t n) {
  info.width = static_cast<uint32_t>(n);
  info.height = 1;
  if (s.chance(1, 5)) {
    static const size_t hs[] = {1, 2, 3, 4, 16, 64, 128};
    size_t h = s.chance(1, 4) ? n : hs[s.draw(7)];
    if (h && n % h == 0) { info.height = static_cast<uint32_t>(h); info.width = static_cast<uint32_t>(n / h); }
  }
}

inline EncodingInfo genInfo(Src& s, const InfoOpts& o = {}) {
  EncodingInfo info;
  info.version = static_cast<uint8_t>(s.pick(o.versions));
  info.encoding_opt = s.pick(o.opts);
  info.compression_opt = s.pick(o.comps);
  info.use_threads = o.threads_choice ? s.chance(1, 2) : false;
  info.fields = genFieldList(s, o);
  info.point_step = genLayout(s, info.fields);
  return info;
}

struct DataOpts {
  double max_ticks32 = 2147480000.0;          // |x/res| < 2^31 for float32
  double max_ticks64 = 2251799813685248.0;    // 2^51 for float64
};

inline void storeField(std::vector<uint8_t>& data, const EncodingInfo& info, const PointField& f, size_t i, uint64_t raw) {
  memcpy(data.data() + i * info.point_step + f.offset, &raw, szOf(f.type));
}
inline uint64_t loadField(const uint8_t* data, const EncodingInfo& info, const PointField& f, size_t i) {
  uint64_t r = 0;
  memcpy(&r, data + i * size_t(info.point_step) + f.offset, szOf(f.type));
  return r;
}

// Fills field f of all points. Returns a short description of the content.
inline std::string genFieldData(Src& s, Cloud& c, const PointField& f, const DataOpts& o) {
  std::string d;
  const size_t bytes = szOf(f.type);
  if (isLossyField(c.info, f)) {
    const bool f32 = f.type == FieldType::FLOAT32;
    auto v = genTicks(s, c.n, f32 ? o.max_ticks32 : o.max_ticks64, f32, *f.resolution, d);
    for (size_t i = 0; i < c.n; ++i) {
      if (f32) { float x = static_cast<float>(v[i]); memcpy(c.data.data() + i * c.info.point_step + f.offset, &x, 4); }
      else memcpy(c.data.data() + i * c.info.point_step + f.offset, &v[i], 8);
    }
  } else if (isInt(f.type)) {
    auto v = genInts(s, bytes, c.n, d);
    for (size_t i = 0; i < c.n; ++i) storeField(c.data, c.info, f, i, v[i]);
  } else {
    auto v = genFloatBits(s, bytes, c.n, d);
    for (size_t i = 0; i < c.n; ++i) storeField(c.data, c.info, f, i, v[i]);
  }
  return d;
}

inline Cloud genCloudFor(Src& s, Ctx& ctx, EncodingInfo info, size_t n, const DataOpts& o = {}) {
  Cloud c;
  setDims(s, info, n);
  c.info = info;
  c.n = n;
  c.data.resize(n * info.point_step);
  Rng pad(s.seed());
  for (auto& b : c.data) b = static_cast<uint8_t>(pad.next());  // padding bytes are arbitrary
  std::string d;
  for (auto& f : c.info.fields) d += (d.empty() ? "" : " | ") + genFieldData(s, c, f, o);
  ctx.note(descr(c.info) + " data: " + d);
  return c;
}
inline Cloud genCloud(Src& s, Ctx& ctx, const InfoOpts& io = {}, const NOpts& no = {}, const DataOpts& o = {}) {
  EncodingInfo info = genInfo(s, io);
  size_t n = genN(s, no);
  // bound the volume of one case
  while (n * (info.point_step + 8) > 6000000 && n > kChunk + 64) n -= kChunk / 2;
  return genCloudFor(s, ctx, info, n, o);
}

// Large unused areas between the fields
inline void addGaps(Src& s, EncodingInfo& info, bool far = true) {
  const int gaps = 1 + int(s.draw(2));
  for (int g = 0; g < gaps; ++g) {
    const uint32_t at = uint32_t(s.draw(info.point_step)), gap = !far ? uint32_t(200 + s.draw(1000)) : s.chance(1, 3) ? uint32_t(200 + s.draw(4000)) : uint32_t(30000 + s.draw(60000));
    // fields that start at or after this position move
    for (auto& f : info.fields) if (f.offset >= at) f.offset += gap;
    info.point_step += gap + 8;
  }
}
// Now and then a description with many fields or far offsets; the number of points has to be limited with fewPoints()
inline EncodingInfo genInfoWide(Src& s, InfoOpts o, unsigned den = 25, bool far = false) {  // far: the encoder reserves 32768 points
  if (!s.chance(1, den)) return genInfo(s, o);
  if (s.chance(1, 2)) {
    o.max_fields = unsigned(s.pick({40, 80, 150, 300}));
    return genInfo(s, o);
  }
  o.max_fields = std::min(o.max_fields, 5u);
  EncodingInfo info = genInfo(s, o);
  addGaps(s, info, far);
  return info;
}
inline size_t fewPoints(size_t n, const EncodingInfo& info) {
  return info.point_step < 400 && info.fields.size() < 30 ? n : std::min<size_t>(n, 1 + 400000 / info.point_step);
}
// Clouds at the edges of the description: many fields, far offsets and large points, or many chunks.
inline Cloud genWideCloud(Src& s, Ctx& ctx, InfoOpts o) {
  size_t n;
  const int kind = int(s.weighted({3, 3, 2}));
  if (kind == 0) {
    o.max_fields = unsigned(s.pick({20, 60, 140, 280, 400}));
    n = 1 + s.draw(o.max_fields > 100 ? 10 : 60);
    ctx.label("wide: many fields");
  } else if (kind == 1) {
    o.max_fields = 5;
    n = 1 + s.draw(14);
    ctx.label("wide: far offsets");
  } else {
    o.max_fields = 2;
    o.lead_pct /= 3;
    n = 3 * kChunk + s.draw(9 * kChunk);
    if (s.chance(1, 3)) n = n / kChunk * kChunk + s.draw(5) - 2;
    ctx.label("wide: many chunks");
  }
  EncodingInfo info = genInfo(s, o);
  if (kind == 1) addGaps(s, info);
  return genCloudFor(s, ctx, info, n);
}

// ------------------------------------------------------------------ running the library
inline std::vector<uint8_t> encodeAll(const EncodingInfo& info, ConstBufferView data) {
  PointcloudEncoder e(info);
  std::vector<uint8_t> out;
  e.encode(data, out);
  return out;
}
struct Decoded {
  EncodingInfo info;
  std::vector<uint8_t> data;
};
inline Decoded decodeAll(const std::vector<uint8_t>& stream) {
  Decoded d;
  ConstBufferView v(stream.data(), stream.size());
  d.info = DecodeHeader(v);
  PointcloudDecoder dec;
  dec.decode(d.info, v, d.data);
  return d;
}
inline std::vector<uint8_t> payloadOf(const std::vector<uint8_t>& stream) {
  ConstBufferView v(stream.data(), stream.size());
  DecodeHeader(v);
  return std::vector<uint8_t>(v.data(), v.data() + v.size());
}

// ------------------------------------------------------------------ oracles
// Error allowed for a lossy value: half the resolution plus rounding of the type.
inline double lossyBound(FieldType t, double x, float res) {
  const double eps = t == FieldType::FLOAT32 ? std::ldexp(1.0, -24) : std::ldexp(1.0, -53);
  return 0.5 * double(res) * (1 + 1e-9) + 5 * eps * (std::fabs(x) + double(res)) + 1e-44;
}
inline double asReal(FieldType t, uint64_t raw) {
  if (t == FieldType::FLOAT32) { float f; uint32_t u = uint32_t(raw); memcpy(&f, &u, 4); return f; }
  double d; memcpy(&d, &raw, 8); return d;
}
// Compares one field of one point; returns an empty string when the decoded value is acceptable.
inline std::string cmpValue(const EncodingInfo& info, const PointField& f, uint64_t a, uint64_t b) {
  if (!isLossyField(info, f)) {
    if (a == b) return "";
    std::ostringstream o;
    o << "exact field " << f.name << " (" << tname(f.type) << "): " << std::hex << a << " became " << b;
    return o.str();
  }
  double x = asReal(f.type, a), y = asReal(f.type, b);
  std::ostringstream o;
  o.precision(17);
  if (std::isnan(x) || std::isnan(y)) {
    if (std::isnan(x) && std::isnan(y)) return "";
    o << "field " << f.name << ": " << x << " became " << y;
    return o.str();
  }
  double err = std::fabs(x - y), bound = lossyBound(f.type, x, *f.resolution);
  if (err <= bound) return "";
  o << "lossy field " << f.name << " (" << tname(f.type) << ", resolution " << *f.resolution << "): " << x << " became " << y
    << ", error " << err << " > " << bound;
  return o.str();
}

// `restored` must reproduce `c` according to the guarantees of the options in c.info.
using FieldFilter = bool (*)(const EncodingInfo&, const PointField&);
inline bool allFields(const EncodingInfo&, const PointField&) { return true; }
inline bool intFields(const EncodingInfo&, const PointField& f) { return isInt(f.type); }
inline bool lossyFields(const EncodingInfo& i, const PointField& f) { return isLossyField(i, f); }
inline bool exactFloatFields(const EncodingInfo& i, const PointField& f) { return !isInt(f.type) && !isLossyField(i, f); }
inline bool exactFields(const EncodingInfo& i, const PointField& f) { return !isLossyField(i, f); }

inline void checkSame(Ctx& ctx, const Cloud& c, const uint8_t* restored, size_t restored_size, const char* what,
                      FieldFilter filter = allFields) {
  ctx.check();
  ctx.require(restored_size == c.data.size(), what, ": decoded size ", restored_size, " expected ", c.data.size());
  for (const auto& f : c.info.fields) {
    if (!filter(c.info, f)) continue;
    for (size_t i = 0; i < c.n; ++i) {
      uint64_t a = loadField(c.data.data(), c.info, f, i), b = loadField(restored, c.info, f, i);
      if (a == b) continue;
      std::string e = cmpValue(c.info, f, a, b);
      if (!e.empty()) ctx.fail(what, ": point ", i, " of ", c.n, ": ", e);
    }
  }
}
inline std::string sameInfo(const EncodingInfo& a, const EncodingInfo& b) {
  std::ostringstream o;
  if (a.version != b.version) o << "version " << int(a.version) << " vs " << int(b.version) << "; ";
  if (a.width != b.width) o << "width " << a.width << " vs " << b.width << "; ";
  if (a.height != b.height) o << "height " << a.height << " vs " << b.height << "; ";
  if (a.point_step != b.point_step) o << "point_step " << a.point_step << " vs " << b.point_step << "; ";
  if (a.encoding_opt != b.encoding_opt) o << "encoding_opt; ";
  if (a.compression_opt != b.compression_opt) o << "compression_opt; ";
  if (a.fields.size() != b.fields.size()) o << "number of fields " << a.fields.size() << " vs " << b.fields.size() << "; ";
  else
    for (size_t i = 0; i < a.fields.size(); ++i) {
      auto &x = a.fields[i], &y = b.fields[i];
      if (x.name != y.name) o << "name '" << x.name << "' vs '" << y.name << "'; ";
      if (x.offset != y.offset) o << "offset " << x.offset << " vs " << y.offset << "; ";
      if (x.type != y.type) o << "type " << int(x.type) << " vs " << int(y.type) << "; ";
      if (x.resolution.has_value() != y.resolution.has_value()) o << "resolution presence of " << x.name << "; ";
      else if (x.resolution) {
        uint32_t p, q;
        memcpy(&p, &*x.resolution, 4);
        memcpy(&q, &*y.resolution, 4);
        if (p != q) { o.precision(12); o << "resolution " << *x.resolution << " vs " << *y.resolution << "; "; }
      }
    }
  return o.str();
}
// At least two distinct values in some field that passes the filter.
inline bool varied(const Cloud& c, FieldFilter filter) {
  for (auto& f : c.info.fields) {
    if (!filter(c.info, f)) continue;
    for (size_t i = 1; i < c.n; ++i)
      if (loadField(c.data.data(), c.info, f, i) != loadField(c.data.data(), c.info, f, 0)) return true;
  }
  return false;
}
// Small clouds whose values are individual choices (shrink well, biased to boundaries).
inline Cloud genSmallCloud(Src& s, Ctx& ctx, const InfoOpts& io, size_t maxn, bool zero = false, const DataOpts& o = {}) {
  Cloud c;
  c.info = genInfo(s, io);
  c.n = s.draw(maxn) + (zero ? 0 : 1);
  setDims(s, c.info, c.n);
  c.data.assign(c.n * c.info.point_step, 0xA5);
  std::ostringstream d;
  d.precision(12);
  for (auto& f : c.info.fields) {
    d << " | " << f.name << ":";
    for (size_t i = 0; i < c.n; ++i) {
      uint64_t raw;
      if (isLossyField(c.info, f)) {
        const bool f32 = f.type == FieldType::FLOAT32;
        double maxT = f32 ? o.max_ticks32 : o.max_ticks64;
        double t;
        switch (s.weighted({3, 3, 3, 2, 1})) {
          case 0: t = double(s.range(-4, 4)) * 0.5; break;
          case 1: t = double(s.range(-100000, 100000)) * 0.25; break;
          case 2: t = double(s.range(-(1 << 24), 1 << 24)); break;
          case 3: t = (double(s.draw(1u << 30)) / double(1u << 29) - 1) * maxT * 0.999999; break;
          default: t = std::numeric_limits<double>::quiet_NaN();
        }
        double x = t * double(*f.resolution);
        if (f32) { float y = float(x); if (std::fabs(double(y)) / *f.resolution >= maxT) y = 0; uint32_t u; memcpy(&u, &y, 4); raw = u; d << " " << y; }
        else { if (std::fabs(x) / *f.resolution >= maxT) x = 0; memcpy(&raw, &x, 8); d << " " << x; }
      } else {
        raw = s.u64() & maskBits(szOf(f.type));
        d << " 0x" << std::hex << raw << std::dec;
      }
      storeField(c.data, c.info, f, i, raw);
    }
  }
  ctx.note(descr(c.info) + d.str());
  return c;
}
inline void labelCloud(Ctx& ctx, const Cloud& c) {
  ctx.label(std::string("opt:") + (c.info.encoding_opt == EncodingOptions::LOSSY ? "lossy" : c.info.encoding_opt == EncodingOptions::LOSSLESS ? "lossless" : "none"));
  ctx.label("version:" + std::to_string(int(c.info.version)));
  ctx.label(std::string("comp:") + (c.info.compression_opt == CompressionOption::NONE ? "none" : c.info.compression_opt == CompressionOption::LZ4 ? "lz4" : "zstd"));
  if (c.info.compression_opt != CompressionOption::NONE) ctx.label(c.info.use_threads ? "threads" : "nothreads");
  ctx.label(c.n == 0 ? "n:0" : c.n < 9 ? "n:1-8" : c.n <= 300 ? "n:9-300" : c.n <= kProbe ? "n:301-4096" : c.n <= kChunk ? "n:4097-32768" : "n:multi-chunk");
  if (c.info.height > 1) ctx.label("organized");
  size_t lead = 0;
  for (auto& f : c.info.fields) {
    ctx.label(std::string("type:") + tname(f.type));
    if (f.offset % szOf(f.type)) ctx.label("unaligned field");
  }
  for (auto& f : c.info.fields) { if (isLossyField(c.info, f) && f.type == FieldType::FLOAT32) ++lead; else break; }
  ctx.label("leading lossy floats:" + std::to_string(lead));
}
}  // namespace gen
