// C30: the Foxglove extension against the C++ library.
#include "capped_new.hpp"
#include "msg_gen.hpp"
#include "mutate.hpp"
#include "coproc.hpp"
using namespace gen;
using namespace cloudini_ros;
static CoProc& node() {
  static CoProc p({"node", "--expose-gc", getenv("VF_NODE_SERVER")});
  return p;
}
static std::vector<uint8_t> bytes(const std::string& s) { return std::vector<uint8_t>(s.begin(), s.end()); }
static std::string quoted(const std::string& s) {
  std::string r = "\"";
  char b[8];
  for (unsigned char c : s) {
    if (c < 0x20 || c == '"' || c == '\\' || c == 0x7f) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += char(c);
  }
  return r + "\"";
}
struct Opt {
  int fail_at = -1;
  bool grow_after = false;
  size_t pre = 0;
};
static std::vector<uint8_t> request(const refcdr::Msg& m, const Opt& o) {
  std::ostringstream t;
  t << "{\"pre\":" << o.pre << ",\"growAfter\":" << (o.grow_after ? "true" : "false");
  if (o.fail_at >= 0) t << ",\"failAt\":" << o.fail_at;
  t << ",\"msg\":{\"header\":{\"stamp\":{\"sec\":" << m.sec << ",\"nsec\":" << m.nsec << "},\"frame_id\":" << quoted(m.frame) << "},\"height\":" << m.height
    << ",\"width\":" << m.width << ",\"fields\":[";
  for (size_t i = 0; i < m.fields.size(); ++i)
    t << (i ? "," : "") << "{\"name\":" << quoted(m.fields[i].name) << ",\"offset\":" << m.fields[i].offset << ",\"datatype\":" << int(m.fields[i].type)
      << ",\"count\":" << m.fields[i].count << "}";
  t << "],\"is_bigendian\":false,\"point_step\":" << m.point_step << ",\"row_step\":" << m.row_step << ",\"is_dense\":" << (m.dense ? "true" : "false")
    << ",\"format\":" << quoted(m.format) << "}}\n\n";
  auto r = bytes(t.str());
  r.insert(r.end(), m.data.begin(), m.data.end());
  return r;
}
struct Got {
  bool exc = false, out = false;
  std::string why;
  size_t limit = 0, mallocs = 0;
  std::vector<uint8_t> data;
};
static Got convert(Ctx& ctx, const refcdr::Msg& m, const Opt& o) {
  auto r = node().call('C', request(m, o));
  ctx.require(!r.dead, "the process running the extension crashed");
  Got g;
  g.data = std::move(r.data);
  ctx.check();
  for (auto& l : r.lines()) {
    std::istringstream i(l);
    std::string k;
    i >> k;
    if (k == "EXC") { g.exc = true; g.why = l; }
    else if (k == "OUT") g.out = true;
    else if (k == "LIMIT") i >> g.limit;
    else if (k == "MALLOCS") i >> g.mallocs;
    else if (k == "HEAP") ctx.fail("memory of the module: ", l);
    else if (k == "LEAK") ctx.fail("blocks of memory were not released: ", l);
    else if (k == "META") ctx.fail("metadata of the returned message: ", l);
    else if (k == "INPUT" || k == "KEPT" || k == "BAD") ctx.fail(l);
  }
  ctx.require(g.exc != g.out, "neither a message nor an exception");
  return g;
}
struct Ref {
  bool ok = false;
  EncodingInfo info;
  std::vector<uint8_t> data;
  std::string why;
};
static Ref reference(const refcdr::Msg& m) {
  Ref r;
  try {
    ConstBufferView v = viewOf(m.data);
    r.info = DecodeHeader(v);
    if (uint64_t(r.info.width) * r.info.height * r.info.point_step != uint64_t(m.width) * m.height * m.point_step) throw std::runtime_error("another size than the message says");
    PointcloudDecoder().decode(r.info, v, r.data);
    r.ok = true;
  } catch (const std::exception& e) { r.why = e.what(); }
  return r;
}
static void judge(Ctx& ctx, const refcdr::Msg& m, const Opt& o, bool damaged) {
  const Ref r = reference(m);
  if (!damaged && !r.ok) throw pbt::Discard{};  // other properties judge the C++ library
  const Got g = convert(ctx, m, o);
  const bool starved = o.fail_at >= 0 && g.mallocs > size_t(o.fail_at);
  const uint64_t size = uint64_t(m.width) * m.height * m.point_step;
  if (uint64_t(m.width) * m.height == 0) {
    ctx.require(!g.exc, "an empty cloud is refused: ", g.why);
    ctx.require(g.data.empty(), "an empty cloud has ", g.data.size(), " bytes of data");
    ctx.label("empty cloud");
    return;
  }
  if (starved) {
    ctx.require(g.exc, "a message is returned although memory could not be allocated");
    ctx.label("failing allocation");
    return;
  }
  if (!r.ok) {
    ctx.require(g.exc, "a message is returned (", g.data.size(), " bytes of data, ", size, " expected) for a stream which the C++ library refuses: ", r.why);
    ctx.label("refused");
    return;
  }
  if (m.data.size() > g.limit) { ctx.labelIf(g.exc, "too large for the memory"); if (g.exc) return; }
  ctx.require(!g.exc, damaged ? "a stream which the C++ library decodes is refused: " : "a valid message is refused: ", g.why);
  ctx.require(g.data.size() == size, "data has ", g.data.size(), " bytes instead of ", size);
  if (r.info.point_step != m.point_step) return;
  const size_t n = size / m.point_step;
  for (auto& f : r.info.fields)
    for (size_t k = 0; f.offset != kDecodeButSkipStore && k < n; ++k) {
      const uint64_t a = loadField(r.data.data(), r.info, f, k), b = loadField(g.data.data(), r.info, f, k);
      if (a != b) ctx.fail("point ", k, " of ", n, ", field '", f.name, "': ", std::hex, b, " in Foxglove, ", a, " in C++");
    }
  ctx.label(damaged ? "changed stream decoded" : "decoded");
}
static void newPage(Src& s, Ctx& ctx, size_t memory, bool early, const refcdr::Msg* m) {
  auto r = node().call('N', bytes(std::to_string(memory) + " " + std::to_string(256)));
  ctx.require(!r.dead && r.text == "OK", "the extension cannot be activated: ", r.text);
  if (early && m) {
    const size_t k = 1 + s.draw(2);
    for (size_t i = 0; i < k; ++i) {
      Got g = convert(ctx, *m, {});
      ctx.require(g.exc || g.data.size() == uint64_t(m->width) * m->height * m->point_step, "a message is returned before the module is loaded");
    }
    ctx.label("message before the module is loaded");
  }
  r = node().call('L', {});
  ctx.require(!r.dead, "the process running the extension crashed");
}
static refcdr::Msg makeMsg(Src& s, Ctx& ctx, const Cloud& c) {
  refcdr::Msg m = genMsg(s, c);
  m.format = "cloudini";
  m.compressed = true;
  PointcloudEncoder e(c.info);
  e.encode(c.view(), m.data);
  ctx.note(showMsg(m));
  return m;
}
static Opt options(Src& s) {
  Opt o;
  if (s.chance(1, 6)) o.fail_at = int(s.draw(4));
  o.grow_after = s.chance(1, 3);
  o.pre = s.draw(9);
  return o;
}
static void body(Src& s, Ctx& ctx, const NOpts& no) {
  InfoOpts io;
  io.versions = {5, 4, 3};
  io.max_fields = 5;
  const size_t ops = s.chance(1, 80) ? 30 + s.draw(150) : 1 + s.weighted({3, 2, 2, 1});
  const size_t memory = size_t{1} << (s.chance(1, 30) ? 26 : 16 + s.draw(7));
  bool any = false;
  for (size_t k = 0; k < ops; ++k) {
    EncodingInfo info = genInfoWide(s, io);
    Cloud c = genCloudFor(s, ctx, info, fewPoints(ops >= 30 && !s.chance(1, 30) ? s.draw(20) : genN(s, no), info));
    refcdr::Msg m = makeMsg(s, ctx, c);
    if (k == 0) newPage(s, ctx, memory, s.chance(1, 8), &m);
    judge(ctx, m, options(s), false);
    any |= c.n > 0;
    if (s.chance(1, 2)) {
      refcdr::Msg b = m;
      switch (s.draw(4)) {
        case 0: {  // dimensions which are not those of the stream
          uint32_t* f[] = {&b.width, &b.height, &b.point_step};
          uint32_t& v = *f[s.draw(3)];
          const uint32_t was = v;
          switch (s.draw(5)) {
            case 0: v = v ? v - 1 : 1; break;
            case 1: v = v + 1; break;
            case 2: v = v / 2; break;
            case 3: v = uint32_t(s.draw(70)); break;
            default: v = uint32_t(s.pick({65536u, 0x7fffffffu, 0x80000000u, 0xffffffffu})); break;
          }
          ctx.note(" [dimension " + std::to_string(was) + " -> " + std::to_string(v) + "]");
          break;
        }
        case 1: {  // the same product
          std::swap(b.width, b.height);
          ctx.note(" [width and height exchanged]");
          break;
        }
        case 2: {  // the stream of another cloud
          EncodingInfo other = genInfo(s, io);
          Cloud d = genCloudFor(s, ctx, other, genN(s, no));
          PointcloudEncoder(d.info).encode(d.view(), b.data);
          ctx.note(" [stream of another cloud]");
          break;
        }
        default: {
          const size_t n = 1 + s.draw(3);
          for (size_t e = 0; e < n; ++e) ctx.note(" [" + mut::edit(s, b.data, 0, b.data.size()) + "]");
        }
      }
      judge(ctx, b, options(s), true);
    }
  }
  ctx.labelIf(ops > 1, "several messages");
  ctx.nontrivial(any);
}
int main(int argc, char** argv) {
  auto small = [](Src& s, Ctx& ctx) { body(s, ctx, NOpts{.max = 40, .zero = true, .chunk_w = 0, .multi_w = 0}); };
  auto bulk = [](Src& s, Ctx& ctx) { body(s, ctx, NOpts{.max = 40000, .zero = true, .chunk_w = 1, .multi_w = 1}); };
  return pbt::run(argc, argv, "C30",
      "A case is a freshly activated extension (memory of 64 KiB to 64 MiB which may grow) and 1 to 4 compressed messages, some of which are repeated with a "
      "changed stream or changed dimensions, some while an allocation fails; every returned message is compared with the input and the C++ decoder. "
      "Non-trivial: at least one message with points.",
      {{"small", small, 16000, 200000}, {"bulk", bulk, 5000, 40000}});
}
