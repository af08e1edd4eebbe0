// C03: lossless modes and fields without resolution are bit exact.
#include "gen.hpp"
using namespace gen;
static void verify(Ctx& ctx, const Cloud& c) {
  labelCloud(ctx, c);
  const bool lossy = c.info.encoding_opt == EncodingOptions::LOSSY;
  FieldFilter flt = lossy ? exactFloatFields : allFields;
  ctx.nontrivial(varied(c, flt));
  auto stream = encodeAll(c.info, c.view());
  auto d = decodeAll(stream);
  checkSame(ctx, c, d.data.data(), d.data.size(), "round trip", flt);
}
static InfoOpts opts(Src& s) {
  InfoOpts o;
  o.opts = {EncodingOptions::LOSSLESS, EncodingOptions::LOSSY, EncodingOptions::NONE, EncodingOptions::LOSSLESS};
  o.lead_pct = 30;
  o.float_res_pct = 25;
  o.types = {FieldType::FLOAT64, FieldType::FLOAT32, FieldType::FLOAT64, FieldType::UINT8, FieldType::INT8, FieldType::UINT16,
             FieldType::INT16, FieldType::UINT32, FieldType::INT32, FieldType::UINT64, FieldType::INT64};
  (void)s;
  return o;
}
int main(int argc, char** argv) {
  auto bulk = [](Src& s, Ctx& ctx) { verify(ctx, genCloud(s, ctx, opts(s), NOpts{.zero = true})); };
  auto small = [](Src& s, Ctx& ctx) {
    auto o = opts(s);
    o.max_fields = 3;
    o.threads_choice = s.chance(1, 8);
    verify(ctx, genSmallCloud(s, ctx, o, 10, true));
  };
  auto chunks = [](Src& s, Ctx& ctx) {
    auto o = opts(s);
    o.max_fields = 3;
    NOpts n;
    n.small_w = 0; n.mid_w = 10; n.big_w = 10; n.probe_w = 20; n.chunk_w = 30; n.multi_w = 30;
    verify(ctx, genCloud(s, ctx, o, n));
  };
  auto wide = [](Src& s, Ctx& ctx) { verify(ctx, genWideCloud(s, ctx, opts(s))); };
  return pbt::run(argc, argv, "C03",
      "A case is a cloud in lossless / no-first-stage mode (all fields compared) or in lossy mode with unresolved float fields (those "
      "compared); content includes controlled XOR windows, specials, NaN payloads. Non-trivial when a compared field varies.",
      {{"small", small, 200000, 1200000}, {"bulk", bulk, 30000, 100000}, {"chunks", chunks, 4500, 15000}, {"wide", wide, 4000, 30000}});
}
