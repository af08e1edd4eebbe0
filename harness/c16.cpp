// C16: resolution profiles and visual preprocessing.
#include <tuple>
#include "msg_gen.hpp"
using namespace gen;
using namespace cloudini_ros;
static bool sameField(const PointField& a, const PointField& b) {
  bool r = a.resolution.has_value() == b.resolution.has_value() && (!a.resolution || memcmp(&*a.resolution, &*b.resolution, 4) == 0);
  return a.name == b.name && a.offset == b.offset && a.type == b.type && r;
}
static std::string show(const std::vector<PointField>& v) {
  std::ostringstream o;
  for (auto& f : v) { o << f.name << ":" << tname(f.type) << "@" << f.offset; if (f.resolution) o << "/" << *f.resolution; o << " "; }
  return o.str();
}
static std::vector<PointField> profileModel(const ResolutionProfile& p, const std::vector<PointField>& in, std::optional<float> def) {
  std::vector<PointField> out;
  for (auto f : in) {
    auto it = p.find(f.name);
    if (it != p.end()) {
      if (it->second == 0) continue;
      f.resolution = it->second;
    } else if (def && f.type == FieldType::FLOAT32) {
      f.resolution = *def;
    }
    out.push_back(f);
  }
  return out;
}
static ResolutionProfile genProfile(Src& s, const std::vector<PointField>& fields, bool valid_only) {
  ResolutionProfile p;
  for (auto& f : fields)
    if (s.chance(2, 5)) p[f.name] = valid_only ? (s.chance(1, 4) ? 0.0f : genRes(s)) : s.chance(1, 2) ? genRes(s) : s.pick({0.0f, -0.0f, 0.001f, 0.01f, 1.0f, 1e-45f, -1.0f, 100.0f});
  const char* extra[] = {"x", "absent", "", "X", "rgb"};
  while (s.chance(1, 4)) { const char* e = extra[s.draw(5)]; if (!valid_only || !p.count(e)) p[e] = s.chance(1, 2) ? 0.0f : genRes(s); }
  return p;
}
// A message with a position triple: points near multiples of the resolution, so that the voxel of each is unambiguous.
struct Scene {
  RosPointCloud2 pc;
  std::vector<uint8_t> data;
  bool triple = false;
  std::vector<size_t> keep;  // indexes of the points that survive
};
static Scene genScene(Src& s, Ctx& ctx, size_t maxn, bool break_it) {
  Scene c;
  const float res = s.chance(2, 3) ? s.pick({0.001f, 0.01f, 0.1f, 0.5f, 1.0f, 0.003f, 2.5f, 0.0007f}) : float(std::pow(10.0, double(s.range(-400, 100)) / 100.0));
  std::vector<PointField> f;
  const uint32_t base = uint32_t(s.pick({0, 0, 0, 4, 3, 8}));
  const char* names[] = {"x", "y", "z", "a", "q", ""};
  const bool odd = s.chance(1, 3);
  for (uint32_t a = 0; a < 3; ++a) { PointField p; p.name = names[odd ? 3 + s.draw(3) : a]; p.offset = base + 4 * a; p.type = FieldType::FLOAT32; p.resolution = res; f.push_back(p); }
  uint32_t at = base + 12;
  const size_t more = s.draw(4);
  for (size_t i = 0; i < more; ++i) {
    PointField p;
    p.type = s.pick({FieldType::FLOAT64, FieldType::FLOAT32, FieldType::UINT16, FieldType::UINT8, FieldType::UINT64, FieldType::FLOAT64});
    p.name = "f" + std::to_string(i);
    at += uint32_t(s.draw(3));
    p.offset = at;
    at += uint32_t(szOf(p.type));
    if (p.type == FieldType::FLOAT64 && s.chance(1, 2)) p.resolution = s.chance(1, 3) ? s.pick({0.001f, 1e-6f, 0.5f}) : float(std::pow(10.0, double(s.range(-1000, 100)) / 100.0));
    f.push_back(p);
  }
  const uint32_t step = at + uint32_t(s.draw(5));
  const size_t n = maxn > 100000 ? 60000 + s.draw(maxn - 60000) : s.chance(1, 12) ? 0 : 1 + s.draw(maxn);
  c.data.resize(n * step);
  Rng r(s.seed());
  const int64_t spread = maxn > 100000 ? int64_t(1) << (8 + s.draw(13)) : s.pick({int64_t(1), int64_t(2), int64_t(10), int64_t(1000), int64_t(1) << 20});
  const unsigned nanpct = unsigned(s.pick({0, 5, 30, 100}));
  const bool jitter = s.chance(2, 3);
  std::set<std::tuple<int64_t, int64_t, int64_t>> seen;
  size_t bad = 0, dup = 0;
  std::vector<std::array<int64_t, 3>> earlier;
  const unsigned related = unsigned(s.pick({0, 20, 60}));
  for (size_t i = 0; i < n; ++i) {
    uint8_t* p = &c.data[i * step];
    for (uint32_t b = 0; b < step; ++b) p[b] = uint8_t(r.next());
    int64_t t[3];
    bool finite = true;
    for (int a = 0; a < 3; ++a) {
      t[a] = r.range(-spread, spread - 1);
      if (r.below(6) == 0) t[a] = r.below(2) ? -spread : spread - 1;
    }
    if (r.below(100) < related && !earlier.empty()) {  // a relative of an earlier point: near in some sense, but (mostly) another voxel
      const auto& q = earlier[r.below(earlier.size())];
      for (int a = 0; a < 3; ++a) t[a] = q[size_t(a)];
      const int a = int(r.below(3)), b = int(r.below(3));
      const int64_t lim = int64_t(1) << 20;
      auto put = [&](int ax, int64_t v) { if (v >= -lim && v < lim) t[ax] = v; };
      switch (r.below(6)) {
        case 0: std::swap(t[a], t[b]); break;
        case 1: put(a, -t[a]); break;
        case 2: put(a, t[a] + 1); put(b, t[b] - 1); break;
        case 3: put(a, t[a] + (t[a] < 0 ? lim : -lim)); break;
        default: { const int64_t d = int64_t(1) << r.below(21); put(a, r.below(2) ? t[a] + d : t[a] - d); if (r.below(3) == 0) put(b, r.below(2) ? t[b] + 1 : t[b] - 1); }
      }
    }
    earlier.push_back({t[0], t[1], t[2]});
    for (int a = 0; a < 3; ++a) {
      double e = jitter ? (r.unit() - 0.5) * (std::llabs(t[a]) > 100000 ? 0.2 : 0.8) : 0.0;
      float v = float((double(t[a]) + e) * double(res));
      if (r.below(100) < nanpct && r.below(3) == 0) { v = (std::array<float, 4>{NAN, -NAN, INFINITY, -INFINITY})[r.below(4)]; }
      if (!std::isfinite(v)) finite = false;
      memcpy(p + base + 4 * a, &v, 4);
    }
    for (size_t k = 3; k < f.size(); ++k) {  // moderate doubles, so that they can be quantised
      if (f[k].type == FieldType::FLOAT64) { double v = double(r.range(-1000000, 1000000)) * 0.001; memcpy(p + f[k].offset, &v, 8); }
      if (f[k].type == FieldType::FLOAT32) { float v = float(r.range(-1000, 1000)); memcpy(p + f[k].offset, &v, 4); }
    }
    if (!finite) { ++bad; continue; }
    if (seen.insert({t[0], t[1], t[2]}).second) c.keep.push_back(i); else ++dup;
  }
  c.triple = true;
  std::string what;
  if (break_it) {
    c.triple = false;
    switch (s.draw(9)) {
      case 0: f.resize(s.draw(3)); what = "fewer than three fields"; break;
      case 1: f[s.draw(3)].type = s.pick({FieldType::FLOAT64, FieldType::INT32, FieldType::UINT32}); what = "other type"; break;
      case 2: f[s.draw(3)].resolution.reset(); what = "no resolution"; break;
      case 3: f[s.draw(3)].resolution = std::nextafter(res, 1000.0f); what = "different resolution"; break;
      case 4: { float bad_res = s.pick({0.0f, -res, NAN, INFINITY}); for (int a = 0; a < 3; ++a) f[size_t(a)].resolution = bad_res; what = "no positive finite resolution"; break; }
      case 5: { size_t a = s.draw(2); std::swap(f[a].offset, f[a + 1].offset); what = "other order"; break; }
      case 6: f[1 + s.draw(2)].offset += 1; what = "gap"; break;
      case 7: if (f.size() > 3) std::rotate(f.begin(), f.begin() + 3, f.begin() + 4); else f.resize(2); what = "triple not first"; break;
      default: { uint32_t d = uint32_t(1 + s.draw(8)); for (int a = 0; a < 3; ++a) f[size_t(a)].offset = step - 12 + d + 4 * uint32_t(a); what = "outside of the point"; break; }
    }
    if (f.size() >= 3 && (what == "triple not first")) {  // still a triple by chance?
      bool same = f[0].type == FieldType::FLOAT32 && f[1].type == FieldType::FLOAT32 && f[2].type == FieldType::FLOAT32 && f[0].resolution && f[1].resolution && f[2].resolution;
      if (same) throw pbt::Discard{};
    }
    ctx.label("no triple: " + what);
  }
  c.pc.fields = f;
  c.pc.point_step = step;
  uint32_t h = n && s.chance(1, 4) && n % 2 == 0 ? 2 : 1;
  c.pc.height = h;
  c.pc.width = uint32_t(n / h);
  c.pc.row_step = step * c.pc.width;
  c.pc.is_dense = s.chance(1, 2);
  c.pc.ros_header.frame_id = "lidar";
  c.pc.ros_header.stamp_sec = 12;
  c.pc.data = ConstBufferView(c.data.data(), c.data.size());
  ctx.note(show(f) + "step " + std::to_string(step) + " n " + std::to_string(n) + " kept " + std::to_string(c.keep.size()) + " bad " + std::to_string(bad) + " duplicates " + std::to_string(dup) + " " + what);
  ctx.labelIf(bad > 0, "non-finite points");
  ctx.labelIf(dup > 0, "voxel duplicates");
  ctx.labelIf(n == 0, "empty");
  ctx.nontrivial(break_it ? n > 0 : n > 1 && (bad > 0 || dup > 0));
  return c;
}
int main(int argc, char** argv) {
  auto profile = [](Src& s, Ctx& ctx) {
    InfoOpts o;
    o.max_fields = 8;
    EncodingInfo info = genInfo(s, o);
    for (auto& f : info.fields) { if (s.chance(1, 4)) f.resolution = genRes(s); if (s.chance(1, 12)) f.name = info.fields[0].name; }
    auto p = genProfile(s, info.fields, false);
    std::optional<float> def;
    if (s.chance(1, 2)) def = s.chance(1, 2) ? genRes(s) : s.pick({0.001f, 0.0f, 1.0f, 1e-7f, 1e6f});
    auto got = info.fields;
    auto want = profileModel(p, info.fields, def);
    std::string ps;
    for (auto& [k, v] : p) ps += k + "=" + std::to_string(v) + " ";
    ctx.note(show(info.fields) + "| profile " + ps + (def ? "default " + std::to_string(*def) : "no default"));
    applyResolutionProfile(p, got, def);
    ctx.check();
    ctx.require(got.size() == want.size(), "fields after the profile: ", show(got), "instead of ", show(want));
    for (size_t i = 0; i < got.size(); ++i) ctx.require(sameField(got[i], want[i]), "field ", i, " after the profile: ", show(got), "instead of ", show(want));
    ctx.labelIf(want.size() < info.fields.size(), "field removed");
    ctx.labelIf(def.has_value(), "default");
    ctx.nontrivial(!p.empty() || def);
  };
  auto checkViz = [](Src& s, Ctx& ctx, size_t maxn, bool break_it) {
    Scene c = genScene(s, ctx, maxn, break_it);
    const RosPointCloud2 before = c.pc;
    const auto source = c.data;
    const size_t n = c.data.size() / c.pc.point_step;
    const bool noop = !c.triple;
    for (int round = 0; round < 2; ++round) {
      applyVizLossyPreprocessing(c.pc);
      ctx.check();
      const char* when = round ? " (second application)" : "";
      ctx.require(c.data == source, "the message's buffer was changed", when);
      ctx.require(c.pc.ros_header.frame_id == before.ros_header.frame_id && c.pc.ros_header.stamp_sec == before.ros_header.stamp_sec && c.pc.point_step == before.point_step && c.pc.is_dense == before.is_dense &&
                      c.pc.fields.size() == before.fields.size(), "other members were changed", when);
      if (noop) {
        ctx.require(c.pc.data.data() == before.data.data() && c.pc.data.size() == before.data.size() && c.pc.width == before.width && c.pc.height == before.height && c.pc.row_step == before.row_step, "changed although there is no position triple", when);
        for (size_t i = 0; i < c.pc.fields.size(); ++i) ctx.require(sameField(c.pc.fields[i], before.fields[i]), "field changed although there is no position triple", when);
        continue;
      }
      if (n == 0) { ctx.require(c.pc.data.size() == 0 && c.pc.width * c.pc.height == 0, "empty cloud changed"); continue; }
      ctx.require(c.pc.data.size() == c.keep.size() * before.point_step, "kept ", c.pc.data.size() / before.point_step, " points instead of ", c.keep.size(), when);
      for (size_t i = 0; i < c.keep.size(); ++i)
        ctx.require(memcmp(c.pc.data.data() + i * before.point_step, &source[c.keep[i] * before.point_step], before.point_step) == 0, "point ", i, " should be point ", c.keep[i], " of the input", when);
      ctx.require(c.pc.width == c.keep.size() && c.pc.height == 1 && c.pc.row_step == before.point_step * c.keep.size(), "dimensions ", c.pc.width, "x", c.pc.height, " row_step ", c.pc.row_step, when);
      for (size_t i = 0; i < c.pc.fields.size(); ++i) {
        PointField w = before.fields[i];
        if (w.type == FieldType::FLOAT64 && !w.resolution) w.resolution = 1e-6f;
        ctx.require(sameField(c.pc.fields[i], w), "field ", i, ": ", show(c.pc.fields), when);
      }
    }
  };
  // the whole way: profile, preprocessing, message compression, decompression
  auto pipeline = [](Src& s, Ctx& ctx) {
    Scene c = genScene(s, ctx, 40, false);
    auto prof = genProfile(s, {c.pc.fields.begin() + 3, c.pc.fields.end()}, true);
    for (int a = 0; a < 3; ++a) prof.erase(c.pc.fields[size_t(a)].name);
    for (auto& f : c.pc.fields) if (f.type == FieldType::FLOAT64 && prof.count(f.name) && prof[f.name] != 0) prof[f.name] = 0.01f;
    const float res = *c.pc.fields[0].resolution;
    const bool use_default = s.chance(1, 2);
    auto want = profileModel(prof, c.pc.fields, use_default ? std::optional<float>(res) : std::nullopt);
    for (auto& f : want) if (f.type == FieldType::FLOAT64 && !f.resolution) f.resolution = 1e-6f;
    const size_t n = c.data.size() / c.pc.point_step;
    if (n == 0) throw pbt::Discard{};
    Cloud model;
    applyResolutionProfile(prof, c.pc.fields, use_default ? std::optional<float>(res) : std::nullopt);
    applyVizLossyPreprocessing(c.pc);
    EncodingInfo info = toEncodingInfo(c.pc);
    info.compression_opt = s.pick({CompressionOption::NONE, CompressionOption::LZ4, CompressionOption::ZSTD});
    std::vector<uint8_t> comp, back;
    RosPointCloud2 moved = std::move(c.pc);
    convertPointCloud2ToCompressedCloud(moved, info, comp);
    RosPointCloud2 pc2 = getDeserializedPointCloudMessage(viewOf(comp));
    convertCompressedCloudToPointCloud2(pc2, back);
    refcdr::Msg m;
    try { m = refcdr::read(back, false); } catch (const std::exception& e) { ctx.fail("restored message: ", e.what()); }
    ctx.check();
    ctx.require(m.width == c.keep.size() && m.height == 1 && m.data.size() == c.keep.size() * moved.point_step, "dimensions of the restored message");
    ctx.require(m.fields.size() == want.size(), "number of fields of the restored message");
    for (size_t i = 0; i < want.size(); ++i) ctx.require(m.fields[i].name == want[i].name && m.fields[i].offset == want[i].offset && m.fields[i].type == uint8_t(want[i].type), "field ", i, " of the restored message");
    model.info = info;
    model.info.fields = want;
    model.info.width = m.width;
    model.info.height = 1;
    model.n = c.keep.size();
    for (size_t i : c.keep) model.data.insert(model.data.end(), c.data.begin() + long(i * moved.point_step), c.data.begin() + long((i + 1) * moved.point_step));
    checkSame(ctx, model, m.data.data(), m.data.size(), "restored message");
  };
  return pbt::run(argc, argv, "C16",
      "A case is a field list with a profile, or a message with a position triple (points placed near multiples of the resolution, with "
      "duplicates and non-finite values) or a nearly-triple layout. Non-trivial: a profile or default is given; points were dropped; or the "
      "layout is broken and the cloud not empty.",
      {{"profile", profile, 480000, 2000000},
       {"viz", [=](Src& s, Ctx& c) { checkViz(s, c, 60, false); }, 40000, 1000000},
       {"vizbig", [=](Src& s, Ctx& c) { checkViz(s, c, 20000, false); }, 300, 20000},
       {"vizhuge", [=](Src& s, Ctx& c) { checkViz(s, c, 260000, false); }, 24, 600, 60},
       {"noop", [=](Src& s, Ctx& c) { checkViz(s, c, 20, true); }, 40000, 1000000},
       {"pipeline", pipeline, 160000, 500000}});
}
