// C11: an independent strict reader of the published format recovers the same values as the library's decoder.
#include "ref_codec.hpp"
using namespace ref;
static void verify(Ctx& ctx, const Cloud& c) {
  labelCloud(ctx, c);
  ctx.nontrivial(c.n > 1 && varied(c, allFields));
  auto stream = encodeAll(c.info, c.view());
  EncodingInfo info;
  Read r;
  size_t hs = 0;
  try {
    hs = readHeaderText(stream, info);
    std::string e = sameInfo(c.info, info);
    ctx.require(e.empty(), "header: ", e);
    r = readPayload(info, stream.data() + hs, stream.size() - hs);
  } catch (const FormatError& e) {
    ctx.fail("the stream does not conform to the format: ", e.what());
  }
  ctx.check();
  ctx.require(r.chunks == (c.n + kChunk - 1) / kChunk, "number of chunks ", r.chunks);
  for (auto& sec : r.sections) ctx.label("section kind " + std::to_string(sec.mode));
  auto d = decodeAll(stream);
  for (size_t k = 0; k < info.fields.size(); ++k)
    for (size_t i = 0; i < c.n; ++i) {
      const auto& f = info.fields[k];
      std::string e = matches(info, f, r.cols[k][i], loadField(d.data.data(), info, f, i));
      if (!e.empty()) ctx.fail("point ", i, " of ", c.n, ": reference reader and library differ: ", e);
      // what the reference reader recovers is the cloud itself
      uint64_t a = loadField(c.data.data(), c.info, f, i);
      if (!isLossyField(info, f)) ctx.require(r.cols[k][i].raw == a, "point ", i, ": reference reader recovers 0x", std::hex, r.cols[k][i].raw, " instead of 0x", a);
      else {
        double x = asReal(f.type, a);
        const Val& v = r.cols[k][i];
        ctx.require(v.nan == std::isnan(x), "point ", i, ": NaN marker wrong for ", x);
        if (!v.nan) {
          double y = double(v.ticks) * double(*f.resolution);
          ctx.require(std::fabs(x - y) <= lossyBound(f.type, x, *f.resolution), "point ", i, " ", f.name, ": ", x, " stored as ", v.ticks, " ticks of ", *f.resolution);
        }
      }
    }
}
int main(int argc, char** argv) {
  auto small = [](Src& s, Ctx& ctx) {
    InfoOpts o;
    o.threads_choice = s.chance(1, 8);
    verify(ctx, genSmallCloud(s, ctx, o, 6, true));
  };
  auto bulk = [](Src& s, Ctx& ctx) {
    InfoOpts o;
    o.opts = {EncodingOptions::LOSSY, EncodingOptions::LOSSY, EncodingOptions::LOSSLESS, EncodingOptions::NONE};
    o.versions = {5, 5, 4, 3};
    NOpts n;
    n.zero = true;
    n.max = 70000;
    verify(ctx, genCloud(s, ctx, o, n));
  };
  auto wide = [](Src& s, Ctx& ctx) {
    InfoOpts o;
    o.versions = {5, 5, 4, 3};
    verify(ctx, genWideCloud(s, ctx, o));
  };
  return pbt::run(argc, argv, "C11",
      "A case is a cloud encoded by the library and read by an independent strict reader of the format. Non-trivial: more than one point and "
      "some field varies.",
      {{"small", small, 300000, 1500000}, {"bulk", bulk, 17500, 70000}, {"wide", wide, 2400, 20000}});
}
