// C17: PCL clouds (generic and typed) and PCD files through the codec.
#include <pcl/console/print.h>
#include <pcl/io/pcd_io.h>
#include <unistd.h>
#include <filesystem>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include "gen.hpp"
#include "cloudini_lib/pcl_conversion.hpp"
using namespace gen;

// Point structures of a user (the header documents that ConvertToEncodingInfo is specialized for them).
struct PackedXYZ { float x, y, z; };
struct Scrambled { float intensity; uint16_t ring; uint8_t tag; uint8_t pad0; float z; float pad1; float x, y; uint32_t pad2; };
struct Stamped { float x, y, z; float pad0; double stamp; uint64_t id; int64_t sid; int8_t label; uint8_t tag; int16_t a; uint16_t ring; int32_t b; uint32_t c; uint32_t pad[2]; };

namespace Cloudini {
static std::vector<PointField> fieldsPacked(double r) {
  return {{"x", 0, FieldType::FLOAT32, r}, {"y", 4, FieldType::FLOAT32, r}, {"z", 8, FieldType::FLOAT32, r}};
}
static std::vector<PointField> fieldsScrambled(double r) {
  return {{"x", 16, FieldType::FLOAT32, r}, {"y", 20, FieldType::FLOAT32, r}, {"z", 8, FieldType::FLOAT32, r},
          {"intensity", 0, FieldType::FLOAT32, std::nullopt}, {"ring", 4, FieldType::UINT16, std::nullopt}, {"tag", 6, FieldType::UINT8, std::nullopt}};
}
static std::vector<PointField> fieldsStamped(double r) {
  return {{"stamp", 16, FieldType::FLOAT64, std::nullopt}, {"x", 0, FieldType::FLOAT32, r}, {"y", 4, FieldType::FLOAT32, r}, {"z", 8, FieldType::FLOAT32, r},
          {"id", 24, FieldType::UINT64, std::nullopt}, {"sid", 32, FieldType::INT64, std::nullopt}, {"label", 40, FieldType::INT8, std::nullopt},
          {"tag", 41, FieldType::UINT8, std::nullopt}, {"a", 42, FieldType::INT16, std::nullopt}, {"ring", 44, FieldType::UINT16, std::nullopt},
          {"b", 48, FieldType::INT32, std::nullopt}, {"c", 52, FieldType::UINT32, std::nullopt}};
}
template <typename P>
static EncodingInfo make(const pcl::PointCloud<P>& c, std::vector<PointField> f) {
  EncodingInfo i;
  i.width = c.width;
  i.height = c.height;
  i.point_step = sizeof(P);
  i.fields = std::move(f);
  return i;
}
template <> EncodingInfo ConvertToEncodingInfo<PackedXYZ>(const pcl::PointCloud<PackedXYZ>& c, double r) { return make(c, fieldsPacked(r)); }
template <> EncodingInfo ConvertToEncodingInfo<Scrambled>(const pcl::PointCloud<Scrambled>& c, double r) { return make(c, fieldsScrambled(r)); }
template <> EncodingInfo ConvertToEncodingInfo<Stamped>(const pcl::PointCloud<Stamped>& c, double r) { return make(c, fieldsStamped(r)); }
}  // namespace Cloudini
static_assert(sizeof(PackedXYZ) == 12 && sizeof(Scrambled) == 28 && sizeof(Stamped) == 64);
static_assert(offsetof(Scrambled, x) == 16 && offsetof(Scrambled, tag) == 6 && offsetof(Stamped, stamp) == 16 && offsetof(Stamped, c) == 52);

struct Quiet {  // the typed overload prints to std::cout
  std::ostringstream o;
  std::streambuf* b;
  Quiet() : b(std::cout.rdbuf(o.rdbuf())) {}
  ~Quiet() { std::cout.rdbuf(b); }
};

// A typed cloud seen as bytes.
struct Kind {
  const char* name;
  size_t step;
  std::vector<PointField> (*fields)(double);
  std::function<std::vector<uint8_t>(const Cloud&, double, size_t&)> encode;                     // cloud (of this layout) -> stream
  std::function<void(const std::vector<uint8_t>&, std::vector<uint8_t>&, uint32_t&, uint32_t&)> decode;  // in/out points, dims
};
static std::vector<PointField> fieldsXYZ(double r) {
  return {{"x", 0, FieldType::FLOAT32, float(r)}, {"y", 4, FieldType::FLOAT32, float(r)}, {"z", 8, FieldType::FLOAT32, float(r)}};
}
static std::vector<PointField> fieldsXYZI(double r) {
  auto f = fieldsXYZ(r);
  f.push_back({"intensity", 16, FieldType::FLOAT32, std::nullopt});
  return f;
}
template <typename P>
static Kind kindOf(const char* name, std::vector<PointField> (*f)(double)) {
  Kind k;
  k.name = name;
  k.step = sizeof(P);
  k.fields = f;
  k.encode = [](const Cloud& c, double res, size_t& ret) {
    pcl::PointCloud<P> p;
    p.points.resize(c.n);
    p.width = c.info.width;
    p.height = c.info.height;
    if (c.n) memcpy(static_cast<void*>(p.points.data()), c.data.data(), c.data.size());
    std::vector<uint8_t> out(size_t(7) * (c.n % 3), 0xEE);
    Quiet q;
    ret = Cloudini::PointcloudEncode(p, out, res);
    return out;
  };
  k.decode = [](const std::vector<uint8_t>& stream, std::vector<uint8_t>& pts, uint32_t& w, uint32_t& h) {
    pcl::PointCloud<P> p;
    p.points.resize(pts.size() / sizeof(P));
    if (!pts.empty()) memcpy(static_cast<void*>(p.points.data()), pts.data(), pts.size());
    Quiet q;
    Cloudini::PointcloudDecode(ConstBufferView(stream.data(), stream.size()), p);
    pts.resize(p.points.size() * sizeof(P));
    if (!pts.empty()) memcpy(pts.data(), static_cast<const void*>(p.points.data()), pts.size());
    w = p.width;
    h = p.height;
  };
  return k;
}
static const std::vector<Kind>& kinds() {
  static const std::vector<Kind> v{kindOf<pcl::PointXYZI>("PointXYZI", fieldsXYZI), kindOf<pcl::PointXYZ>("PointXYZ", fieldsXYZ),
                                   kindOf<PackedXYZ>("PackedXYZ", Cloudini::fieldsPacked), kindOf<Scrambled>("Scrambled", Cloudini::fieldsScrambled),
                                   kindOf<Stamped>("Stamped", Cloudini::fieldsStamped)};
  return v;
}

static double genResolution(Src& s) { return s.chance(1, 3) ? double(genRes(s)) : s.pick({0.001, 0.01, 0.0005, 0.1, 1.0}); }

static pcl::PCLPointCloud2 toPcl(const Cloud& c) {
  pcl::PCLPointCloud2 p;
  p.width = c.info.width;
  p.height = c.info.height;
  p.point_step = c.info.point_step;
  p.row_step = p.width * p.point_step;
  p.is_dense = false;
  p.is_bigendian = false;
  p.data = c.data;
  for (auto& f : c.info.fields) {
    pcl::PCLPointField q;
    q.name = f.name;
    q.offset = f.offset;
    q.datatype = uint8_t(f.type);
    q.count = 1;
    p.fields.push_back(q);
  }
  return p;
}
static void checkGeneric(Ctx& ctx, const Cloud& c, const pcl::PCLPointCloud2& b) {
  ctx.check();
  ctx.require(b.width == c.info.width && b.height == c.info.height, "dimensions ", b.width, "x", b.height, " instead of ", c.info.width, "x", c.info.height);
  ctx.require(b.point_step == c.info.point_step, "point_step ", b.point_step);
  ctx.require(b.row_step == b.width * b.point_step, "row_step ", b.row_step);
  ctx.require(!b.is_bigendian, "is_bigendian");
  ctx.require(b.fields.size() == c.info.fields.size(), "number of fields ", b.fields.size());
  for (size_t i = 0; i < b.fields.size(); ++i) {
    auto& f = c.info.fields[i];
    auto& g = b.fields[i];
    ctx.require(g.name == f.name && g.offset == f.offset && g.datatype == uint8_t(f.type) && g.count == 1, "field ", i, ": ", g.name, "@", g.offset,
                " datatype ", int(g.datatype), " count ", g.count);
  }
  checkSame(ctx, c, b.data.data(), b.data.size(), "PCLPointCloud2");
}

static InfoOpts genericOpts() {
  InfoOpts o;
  o.versions = {5};
  o.opts = {EncodingOptions::LOSSY};
  o.comps = {CompressionOption::ZSTD};
  o.threads_choice = false;
  return o;
}
// resolution applies to every FLOAT32 field of a generic cloud
static EncodingInfo genericInfo(Src& s, double res, bool unused_fields = true) {
  EncodingInfo info = genInfoWide(s, genericOpts(), 25, true);
  for (auto& f : info.fields) {
    f.resolution.reset();
    if (f.type == FieldType::FLOAT32 && res > 0) f.resolution = float(res);
  }
  (void)unused_fields;
  return info;
}

static void labels(Ctx& ctx, const Cloud& c) {
  ctx.label(c.n == 0 ? "n:0" : c.n < 9 ? "n:1-8" : c.n <= 300 ? "n:9-300" : c.n <= kProbe ? "n:301-4096" : c.n <= kChunk ? "n:4097-32768" : "n:multi-chunk");
  if (c.info.height > 1) ctx.label("organized");
}

static void generic(Src& s, Ctx& ctx) {
  const double res = s.chance(1, 4) ? s.pick({0.0, -1.0}) : genResolution(s);
  EncodingInfo info = genericInfo(s, res);
  auto c = genCloudFor(s, ctx, info, fewPoints(genN(s, NOpts{.max = 70000, .zero = true}), info));
  labels(ctx, c);
  ctx.label(res > 0 ? "with resolution" : "without resolution");
  ctx.nontrivial(c.n > 1 && varied(c, allFields));
  auto p = toPcl(c);
  std::vector<uint8_t> stream(s.draw(50), 0xAB);
  size_t ret = Cloudini::PCLPointCloudEncode(p, stream, res);
  ctx.require(ret == stream.size(), "PCLPointCloudEncode returned ", ret, " for a stream of ", stream.size());
  pcl::PCLPointCloud2 b;
  if (s.chance(1, 2)) {  // a cloud that was used before
    b = p;
    b.fields.resize(b.fields.size() + s.draw(3));
    b.data.resize(s.draw(2 * b.data.size() + 100), 0x5C);
    b.height = 77;
    b.is_bigendian = true;
  }
  Cloudini::PCLPointCloudDecode(ConstBufferView(stream.data(), stream.size()), b);
  checkGeneric(ctx, c, b);
  // the description handed to the encoder
  EncodingInfo i = Cloudini::ConvertToEncodingInfo(p, res);
  ctx.require(i.width == c.info.width && i.height == c.info.height && i.point_step == c.info.point_step, "ConvertToEncodingInfo dimensions");
  ctx.require(i.fields.size() == c.info.fields.size(), "ConvertToEncodingInfo: number of fields");
  for (size_t k = 0; k < i.fields.size(); ++k)
    ctx.require(i.fields[k].name == c.info.fields[k].name && i.fields[k].type == c.info.fields[k].type && i.fields[k].offset == c.info.fields[k].offset &&
                    i.fields[k].resolution == c.info.fields[k].resolution, "ConvertToEncodingInfo: field ", c.info.fields[k].name, " (", tname(c.info.fields[k].type), ")");
}

// Fills the declared fields of `want` (layout: kind b) from a (layout info), checks the rest is unchanged.
static void checkCross(Ctx& ctx, const Cloud& a, const Kind& kb, const std::vector<PointField>& fb, const std::vector<uint8_t>& got, const std::vector<uint8_t>& before) {
  ctx.check();
  ctx.require(got.size() == a.n * kb.step, kb.name, ": decoded ", got.size() / kb.step, " points instead of ", a.n);
  for (auto& g : fb) {
    const PointField* f = nullptr;
    for (auto& x : a.info.fields) if (x.name == g.name) f = &x;
    for (size_t i = 0; i < a.n; ++i) {
      uint64_t y = 0;
      memcpy(&y, got.data() + i * kb.step + g.offset, szOf(g.type));
      if (f) {
        uint64_t x = loadField(a.data.data(), a.info, *f, i);
        if (x == y) continue;
        auto e = cmpValue(a.info, *f, x, y);
        if (!e.empty()) ctx.fail("decoded into ", kb.name, ", point ", i, " of ", a.n, ": ", e);
      } else if ((i + 1) * kb.step <= before.size()) {
        uint64_t x = 0;
        memcpy(&x, before.data() + i * kb.step + g.offset, szOf(g.type));
        ctx.require(x == y, "decoded into ", kb.name, ", point ", i, " of ", a.n, ": field ", g.name, " does not exist in the stream but was changed");
      }
    }
  }
}

static void typed(Src& s, Ctx& ctx) {
  const auto& ks = kinds();
  const Kind& ka = ks[s.draw(ks.size())];
  const Kind& kb = s.chance(1, 3) ? ka : ks[s.draw(ks.size())];
  const double res = genResolution(s);
  EncodingInfo info = genericInfo(s, 0);
  info.fields = ka.fields(res);
  info.point_step = uint32_t(ka.step);
  auto a = genCloudFor(s, ctx, info, fewPoints(genN(s, NOpts{.max = 70000, .zero = true}), info));
  labels(ctx, a);
  ctx.label(std::string("from ") + ka.name);
  ctx.label(std::string("into ") + kb.name);
  if (ka.step != kb.step) ctx.label("different size");
  ctx.note(std::string("; ") + ka.name + " into " + kb.name);
  ctx.nontrivial(a.n > 1 && varied(a, allFields));
  size_t ret = 0;
  auto stream = ka.encode(a, res, ret);
  ctx.require(ret == stream.size(), "PointcloudEncode returned ", ret, " for a stream of ", stream.size());
  // fields in the stream, of a kind b that may have others
  std::vector<uint8_t> pts(s.chance(1, 2) ? 0 : s.draw(2 * a.n + 2) * kb.step);
  Rng r(s.seed());
  for (auto& x : pts) x = uint8_t(r.next());
  auto before = pts;
  uint32_t w = 0, h = 0;
  kb.decode(stream, pts, w, h);
  ctx.require(w == a.info.width && h == a.info.height, "dimensions ", w, "x", h, " instead of ", a.info.width, "x", a.info.height);
  checkCross(ctx, a, kb, kb.fields(res), pts, before);
  // and into the generic cloud
  if (s.chance(1, 3)) {
    pcl::PCLPointCloud2 g;
    Cloudini::PCLPointCloudDecode(ConstBufferView(stream.data(), stream.size()), g);
    checkGeneric(ctx, a, g);
  }
}

// generic cloud with arbitrary layout, decoded into a structure
static void genericToTyped(Src& s, Ctx& ctx) {
  const auto& ks = kinds();
  const Kind& kb = ks[s.draw(ks.size())];
  const double res = s.chance(1, 4) ? 0.0 : genResolution(s);
  auto fb = kb.fields(1.0);
  EncodingInfo info = genericInfo(s, res);
  // some fields become fields of the structure; one of them possibly with another type
  bool mismatch = false;
  size_t common = 0;
  std::vector<size_t> order(fb.size());
  std::iota(order.begin(), order.end(), 0);
  for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[s.draw(i)]);
  std::vector<PointField> f;
  std::vector<std::string> names;
  size_t oi = 0;
  for (auto& x : info.fields) {
    PointField p = x;
    if (oi < order.size() && s.chance(2, 3)) {
      auto& t = fb[order[oi++]];
      p.name = t.name;
      p.type = t.type;
      if (s.chance(1, 25)) { p.type = s.pick(allTypes()); if (p.type != t.type) mismatch = true; }
      ++common;
    } else {
      p.name = "other_" + std::to_string(f.size());
    }
    p.resolution.reset();
    if (p.type == FieldType::FLOAT32 && res > 0) p.resolution = float(res);
    f.push_back(p);
  }
  info.fields = f;
  info.point_step = genLayout(s, info.fields);
  auto a = genCloudFor(s, ctx, info, fewPoints(genN(s, NOpts{.max = 70000, .zero = true}), info));
  labels(ctx, a);
  ctx.label(std::string("into ") + kb.name);
  ctx.note(std::string("; into ") + kb.name);
  ctx.nontrivial(a.n > 1 && common && !mismatch);
  std::vector<uint8_t> stream;
  Cloudini::PCLPointCloudEncode(toPcl(a), stream, res);
  std::vector<uint8_t> pts(s.chance(1, 2) ? 0 : s.draw(2 * a.n + 2) * kb.step, 0x3C);
  auto before = pts;
  uint32_t w = 0, h = 0;
  if (mismatch) {
    ctx.label("type mismatch");
    try {
      kb.decode(stream, pts, w, h);
    } catch (const std::exception&) {
      return;
    }
    ctx.fail("a field of another type was accepted");
  }
  kb.decode(stream, pts, w, h);
  ctx.require(w == a.info.width && h == a.info.height, "dimensions ", w, "x", h);
  checkCross(ctx, a, kb, fb, pts, before);
}

// ---------------------------------------------------------------- PCD
static void header(Src& s, Ctx& ctx) {
  struct F { std::string name; char type; int size; int count; };
  std::vector<F> f;
  size_t n = 1 + (s.chance(1, 30) ? s.draw(120) : s.draw(8));
  std::map<char, std::vector<int>> sizes{{'F', {4, 8}}, {'I', {1, 2, 4, 8}}, {'U', {1, 2, 4, 8}}};
  static const char* nm[] = {"x", "y", "z", "intensity", "rgb", "timestamp", "ring_id", "normal_x", "FIELDS", "SIZE", "label-1", "DATA"};
  for (size_t i = 0; i < n; ++i) {
    F x;
    x.name = s.chance(1, 10) ? "f" + std::to_string(i) : nm[(i + s.draw(3)) % 12];
    for (auto& y : f) if (y.name == x.name) x.name = "g" + std::to_string(i);
    x.type = s.pick({'F', 'U', 'I'});
    auto& v = sizes[x.type];
    x.size = v[s.draw(v.size())];
    x.count = 1;
    f.push_back(x);
  }
  std::ostringstream o;
  const bool crlf = s.chance(1, 6);
  const char* nl = crlf ? "\r\n" : "\n";
  bool odd = crlf;
  auto noise = [&] {
    while (s.chance(1, 4)) {
      odd = true;
      switch (s.draw(3)) {
        case 0: o << "# a comment" << nl; break;
        case 1: o << "\n"; break;
        default: o << "#" << nl; break;
      }
    }
  };
  const bool tabs = s.chance(1, 12);
  odd = odd || tabs;
  auto sep = [&]() -> const char* {
    if (tabs) return s.chance(2, 3) ? "\t" : " \t";
    if (s.chance(1, 20)) { odd = true; return "  "; }
    return " ";
  };
  auto end = [&] { if (s.chance(1, 12)) { odd = true; o << sep(); } o << nl; };
  if (s.chance(1, 2)) o << "# .PCD v0.7 - Point Cloud Data file format" << nl;
  noise();
  o << "VERSION " << s.pick({"0.7", ".7"}) << nl;
  noise();
  const bool columns = s.chance(1, 16);  // the name of the line in older files
  odd = odd || columns;
  o << (columns ? "COLUMNS" : "FIELDS"); for (auto& x : f) o << sep() << x.name; end(); noise();
  o << "SIZE"; for (auto& x : f) o << sep() << x.size; end(); noise();
  o << "TYPE"; for (auto& x : f) o << sep() << x.type; end(); noise();
  if (s.chance(3, 4)) { o << "COUNT"; for (auto& x : f) o << sep() << x.count; end(); noise(); }
  o << "WIDTH 2" << nl; noise();
  o << "HEIGHT 1" << nl; noise();
  if (s.chance(3, 4)) { o << "VIEWPOINT 0 0 0 1 0 0 0" << nl; noise(); }
  o << "POINTS 2" << nl; noise();
  o << "DATA " << s.pick({"ascii", "binary"}) << nl;
  const std::string text = o.str();
  // data that must not be interpreted
  std::string all = text + s.pick({std::string("1 2 3\n"), std::string()});
  ctx.note(text);
  ctx.nontrivial(n > 1 && odd);
  ctx.labelIf(odd, "comments, blank lines, spacing or CRLF");
  ctx.labelIf(tabs, "separated by tabs");
  ctx.labelIf(columns, "COLUMNS");
  pcl::PCLPointCloud2 p;
  Eigen::Vector4f origin;
  Eigen::Quaternionf orient;
  int version, type;
  unsigned idx;
  std::istringstream in1(all), in2(all);
  pcl::PCDReader reader;
  if (reader.readHeader(in1, p, origin, orient, version, type, idx) != 0) throw pbt::Discard{};
  if (p.fields.size() != f.size()) throw pbt::Discard{};
  std::map<std::string, FieldType> m;
  try {
    m = Cloudini::ReadEncodingInfoFromPCD(in2);
  } catch (const std::exception& e) {
    ctx.fail("header that PCL reads was rejected: ", e.what());
  }
  ctx.check();
  ctx.require(m.size() == p.fields.size(), "found ", m.size(), " fields, PCL finds ", p.fields.size());
  for (size_t i = 0; i < f.size(); ++i) {
    auto it = m.find(p.fields[i].name);
    ctx.require(it != m.end(), "field ", p.fields[i].name, " is missing");
    FieldType want = FieldType::UNKNOWN;
    const char t = f[i].type;
    switch (f[i].size) {
      case 1: want = t == 'I' ? FieldType::INT8 : FieldType::UINT8; break;
      case 2: want = t == 'I' ? FieldType::INT16 : FieldType::UINT16; break;
      case 4: want = t == 'F' ? FieldType::FLOAT32 : t == 'I' ? FieldType::INT32 : FieldType::UINT32; break;
      default: want = t == 'F' ? FieldType::FLOAT64 : t == 'I' ? FieldType::INT64 : FieldType::UINT64; break;
    }
    ctx.require(it->second == want, "field ", f[i].name, " TYPE ", t, " SIZE ", f[i].size, " was read as ", tname(it->second));
    if (p.fields[i].datatype) ctx.require(uint8_t(it->second) == p.fields[i].datatype, "field ", f[i].name, " is of type ", int(p.fields[i].datatype), " in PCL");
  }
}
static std::string scratch() {
  static const std::string d = [] {
    std::string t = "/tmp/verif_c17_" + std::to_string(getpid());
    std::filesystem::create_directories(t);
    std::atexit([] { std::error_code e; std::filesystem::remove_all("/tmp/verif_c17_" + std::to_string(getpid()), e); });
    return t;
  }();
  return d;
}
static void file(Src& s, Ctx& ctx) {
  const double res = s.chance(1, 4) ? 0.0 : genResolution(s);
  EncodingInfo info = genericInfo(s, res);
  const int mode = int(s.weighted({5, 3, 1}));
  // PCD stores the fields in the order of their offsets
  std::sort(info.fields.begin(), info.fields.end(), [](auto& a, auto& b) { return a.offset < b.offset; });
  auto c = genCloudFor(s, ctx, info, fewPoints(genN(s, NOpts{.max = 40000, .zero = false, .big_w = 4, .probe_w = 2, .chunk_w = 1, .multi_w = 1}), info));
  if (mode == 2 && c.n > 300) throw pbt::Discard{};
  labels(ctx, c);
  const std::string path = scratch() + "/c.pcd";
  pcl::PCDWriter w;
  auto p = toPcl(c);
  int rc = -1;
  try {
    rc = mode == 0 ? w.writeBinary(path, p) : mode == 1 ? w.writeBinaryCompressed(path, p) : w.writeASCII(path, p);
  } catch (const std::exception&) {
    // PCL cannot compress some tiny clouds
  }
  if (rc != 0) throw pbt::Discard{};
  if (s.chance(1, 3)) {  // a comment somewhere in the header
    std::ifstream i(path, std::ios::binary);
    std::string all((std::istreambuf_iterator<char>(i)), {});
    i.close();
    size_t at = all.find(s.pick({"SIZE ", "TYPE ", "WIDTH "}));
    if (at != std::string::npos) {
      all.insert(at, s.pick({"# made by hand\n", "\n"}));
      std::ofstream(path, std::ios::binary) << all;
      ctx.label("comment in the header");
    }
  }
  pcl::PCLPointCloud2 q;
  try {
    rc = pcl::io::loadPCDFile(path, q);
  } catch (const std::exception&) {
    rc = -1;
  }
  if (rc != 0) throw pbt::Discard{};
  ctx.label(mode == 0 ? "binary" : mode == 1 ? "compressed" : "ascii");
  ctx.nontrivial(c.n > 1);
  // what PCL reads is what must come back
  Cloud t;
  t.n = size_t(q.width) * q.height;
  t.info = info;
  t.info.width = q.width;
  t.info.height = q.height;
  t.info.point_step = q.point_step;
  t.info.fields.clear();
  t.data = q.data;
  for (auto& f : q.fields) {
    PointField g;
    g.name = f.name;
    g.offset = f.offset;
    g.type = FieldType(f.datatype);
    if (szOf(g.type) == 0 || f.count != 1) throw pbt::Discard{};
    if (g.type == FieldType::FLOAT32 && res > 0) {
      g.resolution = float(res);
      for (size_t i = 0; i < t.n; ++i) {
        float x;
        memcpy(&x, t.data.data() + i * t.info.point_step + g.offset, 4);
        if (std::isinf(x) || std::fabs(x) / res > 2.1e9) throw pbt::Discard{};
      }
    }
    t.info.fields.push_back(g);
  }
  std::vector<uint8_t> stream;
  size_t ret = 0;
  ret = Cloudini::PCLPointCloudEncode(std::filesystem::path(path), stream, res);
  ctx.require(ret == stream.size(), "PCLPointCloudEncode returned ", ret, " for a stream of ", stream.size());
  pcl::PCLPointCloud2 b;
  Cloudini::PCLPointCloudDecode(ConstBufferView(stream.data(), stream.size()), b);
  checkGeneric(ctx, t, b);
}
static void missing(Src& s, Ctx& ctx) {
  const std::string path = scratch() + "/" + s.pick({"absent.pcd", "garbage.pcd"});
  if (path.find("garbage") != std::string::npos) {
    std::ofstream o(path, std::ios::binary);
    Rng r(s.seed());
    for (size_t i = s.draw(300); i; --i) o << char(32 + r.below(90));
  }
  std::vector<uint8_t> stream;
  ctx.nontrivial();
  ctx.check();
  try {
    Cloudini::PCLPointCloudEncode(std::filesystem::path(path), stream, 0.001);
  } catch (const std::exception&) {
    return;
  }
  ctx.require(path.find("absent") == std::string::npos, "a file that does not exist was encoded");
}
// clouds of more than 4 GiB: few points, each very large
static void huge(Src& s, Ctx& ctx) {
  EncodingInfo info;
  info.version = 5;
  info.compression_opt = CompressionOption::NONE;
  info.use_threads = false;
  info.point_step = uint32_t((1u << 20) + s.draw(1000));
  const size_t n = (size_t{1} << 32) / info.point_step + 1 + s.draw(20);
  info.width = uint32_t(n);
  info.height = 1;
  info.fields.push_back({"a", uint32_t(s.pick({size_t(0), size_t(info.point_step - 1)})), FieldType::UINT8, std::nullopt});
  ctx.note(descr(info));
  ctx.nontrivial();
  EncodingInfo unit = info;
  // the description of the large cloud, followed by the values
  std::vector<uint8_t> stream;
  EncodeHeader(info, stream);
  unit.point_step = 1;
  unit.fields[0].offset = 0;
  std::vector<uint8_t> values(n);
  Rng r(s.seed());
  for (auto& v : values) v = uint8_t(r.next());
  auto small = encodeAll(unit, ConstBufferView(values.data(), values.size()));
  auto pay = payloadOf(small);
  stream.insert(stream.end(), pay.begin(), pay.end());
  pcl::PCLPointCloud2 b;
  try {
    Cloudini::PCLPointCloudDecode(ConstBufferView(stream.data(), stream.size()), b);
  } catch (const std::bad_alloc&) {
    throw pbt::Discard{};
  } catch (const std::exception& e) {
    ctx.fail("cloud of ", n * info.point_step, " bytes rejected: ", e.what());
  }
  ctx.check();
  ctx.require(b.data.size() == n * info.point_step, "decoded size ", b.data.size());
  for (size_t i = 0; i < n; ++i) ctx.require(b.data[i * info.point_step + info.fields[0].offset] == values[i], "point ", i);
}
int main(int argc, char** argv) {
  pcl::console::setVerbosityLevel(pcl::console::L_ALWAYS);
  return pbt::run(argc, argv, "C17",
      "A case is a PCL cloud (random generic layout, or one of five point structures) encoded and decoded into a used or new cloud of the same or "
      "another structure, or a PCD header/file that PCL itself also reads. Non-trivial: more than one point with different values and at "
      "least one common field; for headers, more than one field and a comment, blank line, extra space or CRLF.",
      {{"header", header, 60000, 300000}, {"generic", generic, 9000, 60000}, {"typed", typed, 7500, 50000},
       {"generic_typed", genericToTyped, 6000, 40000}, {"file", file, 2400, 20000}, {"missing", missing, 120, 400}, {"huge", huge, 1, 3, 120}});
}
