// C02: lossy float error bound, NaN preservation.
#include "gen.hpp"
using namespace gen;
static InfoOpts opts() {
  InfoOpts o;
  o.opts = {EncodingOptions::LOSSY};
  o.lead_pct = 75;
  o.float_res_pct = 90;
  o.types = {FieldType::FLOAT32, FieldType::FLOAT64, FieldType::UINT16, FieldType::FLOAT32, FieldType::UINT8, FieldType::INT64};
  return o;
}
static void verify(Ctx& ctx, const Cloud& c) {
  labelCloud(ctx, c);
  ctx.nontrivial(varied(c, lossyFields));
  for (auto& f : c.info.fields)
    if (isLossyField(c.info, f))
      for (size_t i = 0; i < c.n; ++i)
        if (std::isnan(asReal(f.type, loadField(c.data.data(), c.info, f, i)))) { ctx.label("has NaN"); break; }
  auto stream = encodeAll(c.info, c.view());
  auto d = decodeAll(stream);
  checkSame(ctx, c, d.data.data(), d.data.size(), "round trip", lossyFields);
}
int main(int argc, char** argv) {
  auto bulk = [](Src& s, Ctx& ctx) { verify(ctx, genCloud(s, ctx, opts(), NOpts{.zero = true})); };
  auto small = [](Src& s, Ctx& ctx) {
    auto o = opts();
    o.max_fields = 3;
    o.threads_choice = s.chance(1, 8);
    verify(ctx, genSmallCloud(s, ctx, o, 8, true));
  };
  auto chunks = [](Src& s, Ctx& ctx) {
    auto o = opts();
    o.max_fields = 2;
    NOpts n;
    n.small_w = 0; n.mid_w = 0; n.big_w = 0; n.probe_w = 20; n.chunk_w = 40; n.multi_w = 40;
    verify(ctx, genCloud(s, ctx, o, n));
  };
  auto wide = [](Src& s, Ctx& ctx) { verify(ctx, genWideCloud(s, ctx, opts())); };
  return pbt::run(argc, argv, "C02",
      "A case is a lossy cloud with float fields carrying resolutions (content in ticks: exact ticks, half ticks, walks, extremes, NaN "
      "bursts); non-trivial when some lossy float field takes at least two distinct values.",
      {{"small", small, 60000, 1000000}, {"bulk", bulk, 12000, 100000}, {"chunks", chunks, 1600, 15000}, {"wide", wide, 2000, 20000}});
}
