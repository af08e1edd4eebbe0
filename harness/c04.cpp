// C04: decoding writes only the declared fields; skip-store fields are consumed but not written.
#include "gen.hpp"
using namespace gen;
static void verify(Src& s, Ctx& ctx, const Cloud& c) {
  labelCloud(ctx, c);
  auto stream = encodeAll(c.info, c.view());
  ConstBufferView v(stream.data(), stream.size());
  EncodingInfo info = DecodeHeader(v);
  // reference decode (all fields stored)
  std::vector<uint8_t> ref;
  PointcloudDecoder().decode(info, v, ref);
  ctx.require(ref.size() == c.data.size(), "decoded size ", ref.size());
  // choose fields to skip
  std::vector<bool> skip(info.fields.size(), false);
  EncodingInfo skipped = info;
  bool any = false;
  for (size_t i = 0; i < info.fields.size(); ++i)
    if (s.chance(1, 3)) { skip[i] = true; skipped.fields[i].offset = kDecodeButSkipStore; any = true; }
  ctx.labelIf(any, "skip-store");
  const size_t guard = 64;
  const size_t extra = s.draw(3) * 37;  // output buffers may be larger than needed
  std::vector<uint8_t> mem(guard + c.data.size() + extra + guard);
  Rng r(s.seed());
  for (auto& b : mem) b = static_cast<uint8_t>(r.next());
  const std::vector<uint8_t> before = mem;
  BufferView out(mem.data() + guard, c.data.size() + extra);
  PointcloudDecoder dec;
  dec.decode(skipped, v, out);
  ctx.check();
  // expected image
  std::vector<uint8_t> expect = before;
  size_t covered = 0;
  for (size_t i = 0; i < c.n; ++i)
    for (size_t k = 0; k < info.fields.size(); ++k)
      if (!skip[k]) {
        const auto& f = info.fields[k];
        memcpy(expect.data() + guard + i * info.point_step + f.offset, ref.data() + i * info.point_step + f.offset, szOf(f.type));
        covered += szOf(f.type);
      }
  const bool padding = covered < c.data.size();
  ctx.labelIf(padding, "has bytes that must not change");
  ctx.nontrivial(c.n >= 1 && (padding || any));
  if (expect != mem) {
    size_t p = 0;
    while (expect[p] == mem[p]) ++p;
    long rel = long(p) - long(guard);
    ctx.fail("byte ", rel, " of the output (point ", rel / long(info.point_step), ", byte ", rel % long(info.point_step),
             " of the point) should be ", int(expect[p]), " (", expect[p] == before[p] ? "unchanged" : "decoded", "), is ", int(mem[p]));
  }
}
int main(int argc, char** argv) {
  auto mk = [](Src& s) {
    InfoOpts o;
    o.lead_pct = 55;
    o.opts = {EncodingOptions::LOSSY, EncodingOptions::LOSSY, EncodingOptions::LOSSLESS, EncodingOptions::NONE};
    (void)s;
    return o;
  };
  auto bulk = [mk](Src& s, Ctx& ctx) {
    auto c = genCloud(s, ctx, mk(s), NOpts{.zero = true});
    verify(s, ctx, c);
  };
  auto small = [mk](Src& s, Ctx& ctx) {
    auto o = mk(s);
    o.threads_choice = false;
    auto c = genSmallCloud(s, ctx, o, 6, true);
    verify(s, ctx, c);
  };
  auto wide = [mk](Src& s, Ctx& ctx) {
    auto c = genWideCloud(s, ctx, mk(s));
    verify(s, ctx, c);
  };
  return pbt::run(argc, argv, "C04",
      "A case is a cloud, a subset of fields marked decode-but-do-not-store, and an output buffer with random previous content, guard "
      "zones and optional slack; the whole memory image is compared. Non-trivial when some byte must stay unchanged inside the cloud.",
      {{"small", small, 150000, 800000}, {"bulk", bulk, 30000, 90000}, {"wide", wide, 4000, 30000}});
}
