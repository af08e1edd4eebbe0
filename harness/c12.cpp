// C12: the adaptive integer sections are the smallest possible; the choice is kept; no eligible field means version 4 payload.
#include "ref_codec.hpp"
using namespace ref;
static void sections(Ctx& ctx, const Cloud& c) {
  labelCloud(ctx, c);
  auto stream = encodeAll(c.info, c.view());
  EncodingInfo info;
  Read r;
  try {
    size_t hs = readHeaderText(stream, info);
    r = readPayload(info, stream.data() + hs, stream.size() - hs);
  } catch (const FormatError& e) {
    ctx.fail("the stream does not conform to the format: ", e.what());
  }
  auto cols = columnsOf(c);
  ctx.check();
  std::map<size_t, int> chosen;
  for (auto& sec : r.sections) {
    const auto& f = c.info.fields[sec.field];
    const size_t a = sec.chunk * kChunk, b = std::min(c.n, a + kChunk);
    ctx.label("section kind " + std::to_string(sec.mode));
    auto full = sectionSizes(f, cols[sec.field], a, b);
    ctx.require(sec.size <= full[sec.mode], "field ", f.name, " chunk ", sec.chunk, ": section of kind ", sec.mode, " takes ", sec.size, " bytes, ", full[sec.mode], " are enough");
    if (sec.chunk == 0) {
      const size_t probe = b - a > kProbe ? a + kProbe : b;
      auto sz = sectionSizes(f, cols[sec.field], a, probe);
      size_t best = *std::min_element(sz.begin(), sz.end());
      ctx.require(sz[sec.mode] == best, "field ", f.name, " (", tname(f.type), "): section kind ", sec.mode, " needs ", sz[sec.mode], " bytes for the first ", probe - a,
                  " points, the smallest kind needs ", best, " (sizes ", sz[0], " ", sz[1], " ", sz[2], " ", sz[3], ")");
      ctx.nontrivial(*std::max_element(sz.begin(), sz.end()) > best);
      chosen[sec.field] = sec.mode;
    } else {
      ctx.require(chosen[sec.field] == sec.mode, "field ", f.name, ": kind ", chosen[sec.field], " in the first chunk, ", sec.mode, " in chunk ", sec.chunk);
    }
  }
}
int main(int argc, char** argv) {
  auto base = [](Src& s) {
    InfoOpts o;
    o.versions = {5};
    o.opts = {EncodingOptions::LOSSY};
    o.comps = {CompressionOption::NONE, CompressionOption::NONE, CompressionOption::LZ4, CompressionOption::ZSTD};
    o.lead_pct = 30;
    o.max_fields = 4;
    o.types = {FieldType::UINT16, FieldType::INT16, FieldType::UINT32, FieldType::INT32, FieldType::UINT64, FieldType::INT64, FieldType::UINT8, FieldType::FLOAT32};
    o.threads_choice = s.chance(1, 10);
    return o;
  };
  auto small = [base](Src& s, Ctx& ctx) { sections(ctx, genSmallCloud(s, ctx, base(s), 14)); };
  auto bulk = [base](Src& s, Ctx& ctx) {
    NOpts n;
    n.small_w = 10; n.mid_w = 50; n.big_w = 15; n.probe_w = 12; n.chunk_w = 4; n.multi_w = 5;
    n.max = 70000;
    sections(ctx, genCloud(s, ctx, base(s), n));
  };
  // No eligible field (or another first-stage option): the payloads of versions 5 and 4 are byte-identical.
  auto same = [](Src& s, Ctx& ctx) {
    InfoOpts o;
    o.versions = {5};
    const bool lossy = s.chance(2, 3);
    o.opts = lossy ? std::vector<EncodingOptions>{EncodingOptions::LOSSY} : std::vector<EncodingOptions>{EncodingOptions::LOSSLESS, EncodingOptions::NONE};
    if (lossy) o.types = {FieldType::FLOAT32, FieldType::FLOAT64, FieldType::UINT8, FieldType::INT8};
    NOpts n;
    n.zero = true;
    n.max = 70000;
    Cloud c = genCloud(s, ctx, o, n);
    labelCloud(ctx, c);
    ctx.label("no eligible field");
    ctx.nontrivial(c.n > 1);
    auto p5 = payloadOf(encodeAll(c.info, c.view()));
    EncodingInfo i4 = c.info;
    i4.version = 4;
    auto p4 = payloadOf(encodeAll(i4, c.view()));
    ctx.check();
    ctx.require(p5 == p4, "version 5 payload of ", p5.size(), " bytes differs from version 4 payload of ", p4.size(), " bytes");
  };
  return pbt::run(argc, argv, "C12",
      "A case is a cloud whose version 5 sections are measured by an independent reader against the size of each legal section kind, or a "
      "cloud without eligible fields encoded in versions 5 and 4. Non-trivial: the four kinds differ in size / more than one point.",
      {{"small", small, 240000, 1500000}, {"bulk", bulk, 20000, 100000}, {"same", same, 12000, 60000}});
}
