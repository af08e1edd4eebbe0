// C01: integer fields survive compression unchanged (default lossy mode).
#include "gen.hpp"
using namespace gen;
static InfoOpts opts() {
  InfoOpts o;
  o.opts = {EncodingOptions::LOSSY};
  o.lead_pct = 35;
  o.types = {FieldType::UINT16, FieldType::INT16, FieldType::UINT32, FieldType::INT32, FieldType::UINT64, FieldType::INT64,
             FieldType::UINT8, FieldType::INT8, FieldType::UINT16, FieldType::UINT32, FieldType::INT64, FieldType::FLOAT32, FieldType::FLOAT64};
  return o;
}
static void verify(Ctx& ctx, const Cloud& c) {
  labelCloud(ctx, c);
  ctx.nontrivial(varied(c, intFields));
  auto stream = encodeAll(c.info, c.view());
  auto d = decodeAll(stream);
  checkSame(ctx, c, d.data.data(), d.data.size(), "round trip", intFields);
}
int main(int argc, char** argv) {
  auto bulk = [](Src& s, Ctx& ctx) { verify(ctx, genCloud(s, ctx, opts(), NOpts{.zero = true})); };
  auto small = [](Src& s, Ctx& ctx) {
    auto o = opts();
    o.max_fields = 3;
    o.threads_choice = s.chance(1, 8);
    verify(ctx, genSmallCloud(s, ctx, o, 6, true));
  };
  // one integer field, long sequences around the sampling window and the chunk size
  auto seam = [](Src& s, Ctx& ctx) {
    auto o = opts();
    o.lead_pct = s.chance(1, 3) ? 100 : 0;
    o.max_fields = 2;
    o.versions = {5, 5, 5, 4};
    o.types = {FieldType::UINT16, FieldType::INT16, FieldType::UINT32, FieldType::INT32, FieldType::UINT64, FieldType::INT64};
    NOpts n;
    n.small_w = 0; n.mid_w = 0; n.big_w = 5; n.probe_w = 40; n.chunk_w = 25; n.multi_w = 30;
    verify(ctx, genCloud(s, ctx, o, n));
  };
  auto wide = [](Src& s, Ctx& ctx) { verify(ctx, genWideCloud(s, ctx, opts())); };
  return pbt::run(argc, argv, "C01",
      "A case is a cloud description (fields, layout, version, compressor, threads) with generated content; it is non-trivial when some "
      "integer field takes at least two distinct values. Distinct = distinct choice sequences.",
      {{"small", small, 200000, 1500000}, {"bulk", bulk, 30000, 120000}, {"seam", seam, 6000, 25000}, {"wide", wide, 4000, 30000}});
}
