// C13: message-level compression round trip, read by an independent CDR reader.
#include "msg_gen.hpp"
using namespace gen;
using namespace cloudini_ros;
static refcdr::Msg readOrFail(Ctx& ctx, const std::vector<uint8_t>& b, bool compressed, const char* what) {
  try { return refcdr::read(b, compressed); } catch (const std::exception& e) { ctx.fail(what, ": not a well-formed message: ", e.what()); }
  return {};
}
static void verify(Src& s, Ctx& ctx, Cloud& c) {
  refcdr::Msg m = genMsg(s, c);
  for (size_t i = 0; i < c.info.fields.size(); ++i) c.info.fields[i].name = m.fields[i].name;
  ctx.note(showMsg(m));
  const auto raw = refcdr::write(m);
  RosPointCloud2 pc = getDeserializedPointCloudMessage(viewOf(raw));
  ctx.require(pc.data.size() == m.data.size() && (m.data.empty() || memcmp(pc.data.data(), m.data.data(), m.data.size()) == 0), "parsed data differs");
  EncodingInfo info = toEncodingInfo(pc);
  ctx.require(info.width == m.width && info.height == m.height && info.point_step == m.point_step && info.fields.size() == m.fields.size(), "toEncodingInfo: dimensions");
  for (size_t i = 0; i < info.fields.size(); ++i)
    ctx.require(info.fields[i].name == m.fields[i].name && info.fields[i].offset == m.fields[i].offset && uint8_t(info.fields[i].type) == m.fields[i].type && !info.fields[i].resolution,
                "toEncodingInfo: field ", i);
  const bool defaults = s.chance(1, 4);
  if (defaults) {
    ctx.require(info.encoding_opt == EncodingOptions::LOSSY && info.compression_opt == CompressionOption::ZSTD, "toEncodingInfo: default options");
    for (auto& f : c.info.fields) f.resolution.reset();
    c.info.encoding_opt = info.encoding_opt;
    c.info.compression_opt = info.compression_opt;
    c.info.version = info.version;
  } else {
    info = c.info;
  }
  std::vector<uint8_t> comp(s.draw(40), 0x5A);  // may be in use already
  convertPointCloud2ToCompressedCloud(pc, info, comp);
  ctx.check();
  refcdr::Msg cm = readOrFail(ctx, comp, true, "compressed message");
  std::string d = sameMeta(m, cm);
  ctx.require(d.empty(), "compressed message: ", d, " differs");
  ctx.require(cm.format == "cloudini", "format is '", cm.format, "'");
  if (c.n) {
    auto dec = decodeAll(cm.data);
    std::string si = sameInfo(dec.info, info);
    ctx.require(si.empty(), "header inside the compressed message: ", si);
    checkSame(ctx, c, dec.data.data(), dec.data.size(), "data of the compressed message");
  }
  RosPointCloud2 pc2 = getDeserializedPointCloudMessage(viewOf(comp));
  std::vector<uint8_t> back(s.draw(40), 0xA5);
  convertCompressedCloudToPointCloud2(pc2, back);
  refcdr::Msg bm = readOrFail(ctx, back, false, "restored message");
  d = sameMeta(m, bm);
  ctx.require(d.empty(), "restored message: ", d, " differs");
  checkSame(ctx, c, bm.data.data(), bm.data.size(), "restored message");
  ctx.label(m.le ? "little endian" : "big endian");
  ctx.label("frame length mod 4: " + std::to_string(m.frame.size() % 4));
  ctx.labelIf(defaults, "default options");
  ctx.labelIf(c.n == 0, "empty cloud");
  ctx.labelIf(m.height > 1, "organized");
  ctx.nontrivial(c.n > 0);
}
// A compressed message whose stream describes another cloud than the message announces must be reported: filling
// the rest of the announced data (with anything) would invent points.
static void mismatch(Src& s, Ctx& ctx) {
  InfoOpts o;
  o.max_fields = 5;
  o.threads_choice = s.chance(1, 8);
  auto c = s.chance(1, 12) ? genCloud(s, ctx, o, NOpts{}) : genSmallCloud(s, ctx, o, 12, false);
  refcdr::Msg m = genMsg(s, c);
  if (!c.n || !m.point_step) throw pbt::Discard{};
  for (size_t i = 0; i < c.info.fields.size(); ++i) c.info.fields[i].name = m.fields[i].name;
  const auto raw = refcdr::write(m);
  std::vector<uint8_t> comp, back;
  convertPointCloud2ToCompressedCloud(getDeserializedPointCloudMessage(viewOf(raw)), c.info, comp);
  refcdr::Msg cm = readOrFail(ctx, comp, true, "compressed message");
  const uint64_t points = uint64_t(cm.width) * cm.height;
  const char* what = "";
  switch (s.draw(6)) {
    case 0: what = "more columns"; cm.width += 1 + s.draw(s.chance(1, 2) ? 3 : 5000); break;
    case 1: what = "more rows"; cm.height += 1 + s.draw(3); break;
    case 2: what = "fewer points"; cm.width = uint32_t(s.draw(cm.width)); break;
    case 3: what = "longer points"; cm.point_step += 1 + uint32_t(s.draw(s.chance(1, 2) ? 3 : 64)); break;
    case 4: what = "shorter points"; cm.point_step = uint32_t(s.draw(cm.point_step)); break;
    default:  // as many bytes, differently divided
      what = "same number of bytes";
      cm.height = 1;
      cm.width = uint32_t(points * cm.point_step);
      cm.point_step = 1;
      break;
  }
  const uint64_t now = uint64_t(cm.width) * cm.height;
  if (now == 0 || cm.point_step == 0 || now * cm.point_step > (64u << 20)) throw pbt::Discard{};
  if (now == points && cm.point_step == m.point_step) throw pbt::Discard{};
  const auto bad = refcdr::write(cm);
  ctx.note(showMsg(m) + " announced as " + std::to_string(cm.width) + "x" + std::to_string(cm.height) + " of " + std::to_string(cm.point_step));
  ctx.check();
  bool thrown = false;
  try {
    convertCompressedCloudToPointCloud2(getDeserializedPointCloudMessage(viewOf(bad)), back);
  } catch (const std::exception&) { thrown = true; }
  ctx.require(thrown, "a stream of ", points, " points of ", m.point_step, " bytes was taken for the ", now, " points of ", cm.point_step, " bytes that the message announces");
  ctx.label(what);
  ctx.nontrivial(true);
}
// A message without points, as publishers send it before there is anything to say: perhaps no fields, no point step, no width.
static void blank(Src& s, Ctx& ctx) {
  InfoOpts o;
  o.max_fields = 4;
  auto c = genSmallCloud(s, ctx, o, 1, true);
  setDims(s, c.info, 0);
  c.n = 0;
  c.data.clear();
  if (s.chance(1, 2)) c.info.fields.clear();
  if (s.chance(1, 2)) c.info.point_step = 0;
  if (s.chance(1, 2)) { c.info.width = 0; c.info.height = uint32_t(s.pick({0, 1, 7})); }
  verify(s, ctx, c);
  ctx.labelIf(c.info.fields.empty(), "no fields");
  ctx.labelIf(c.info.point_step == 0, "no point step");
  ctx.nontrivial();
}
int main(int argc, char** argv) {
  auto small = [](Src& s, Ctx& ctx) {
    InfoOpts o;
    o.max_fields = 5;
    o.threads_choice = s.chance(1, 8);
    auto c = genSmallCloud(s, ctx, o, 6, true);
    verify(s, ctx, c);
  };
  auto wide = [](Src& s, Ctx& ctx) {
    InfoOpts o;
    o.threads_choice = s.chance(1, 8);
    auto c = genWideCloud(s, ctx, o);
    verify(s, ctx, c);
  };
  auto bulk = [](Src& s, Ctx& ctx) {
    auto c = genCloud(s, ctx, InfoOpts{}, NOpts{.zero = true});
    verify(s, ctx, c);
  };
  return pbt::run(argc, argv, "C13",
      "A case is a generated message (stamp, frame id, fields, dimensions, point data, byte order) with encoding options, compressed and decompressed at message level; non-trivial when the cloud is not empty.",
      {{"small", small, 200000, 1000000}, {"bulk", bulk, 15000, 60000}, {"mismatch", mismatch, 60000, 300000}, {"wide", wide, 800, 20000, 60}, {"blank", blank, 6000, 60000}});
}
