// C27: quantisation is idempotent and does not depend on order, chunking or the other fields.
#include "gen.hpp"
using namespace gen;
static InfoOpts opts() {
  InfoOpts o;
  o.opts = {EncodingOptions::LOSSY};
  o.lead_pct = 60;
  o.float_res_pct = 90;
  o.types = {FieldType::FLOAT32, FieldType::FLOAT64, FieldType::FLOAT32, FieldType::UINT16, FieldType::UINT8};
  return o;
}
static NOpts counts() {
  NOpts n;
  n.max = 70000;
  n.multi_w = 6;
  return n;
}
int main(int argc, char** argv) {
  auto twice = [](Src& s, Ctx& ctx) {
    DataOpts d;
    d.max_ticks32 = d.max_ticks64 = 2097152.0;
    auto o = opts();
    Cloud c = s.chance(1, 2) ? genSmallCloud(s, ctx, o, 8, false, d) : genCloud(s, ctx, o, counts(), d);
    labelCloud(ctx, c);
    ctx.label("idempotence");
    ctx.nontrivial(varied(c, lossyFields));
    auto d1 = decodeAll(encodeAll(c.info, c.view()));
    EncodingInfo i2 = c.info;
    if (s.chance(1, 3)) i2.compression_opt = s.pick({CompressionOption::NONE, CompressionOption::LZ4, CompressionOption::ZSTD});
    if (s.chance(1, 4)) i2.version = uint8_t(s.pick({3, 4, 5}));
    auto d2 = decodeAll(encodeAll(i2, ConstBufferView(d1.data.data(), d1.data.size())));
    ctx.check();
    for (auto& f : c.info.fields)
      for (size_t i = 0; i < c.n; ++i) {
        uint64_t a = loadField(d1.data.data(), c.info, f, i), b = loadField(d2.data.data(), c.info, f, i);
        if (a != b) ctx.fail("point ", i, " field ", f.name, " (", tname(f.type), f.resolution ? " lossy" : "", "): first decode 0x", std::hex, a, ", second 0x", b,
                             " value ", asReal(f.type, a), " / ", asReal(f.type, b), " original ", asReal(f.type, loadField(c.data.data(), c.info, f, i)));
      }
  };
  auto permute = [](Src& s, Ctx& ctx) {
    Cloud c = s.chance(1, 2) ? genSmallCloud(s, ctx, opts(), 9) : genCloud(s, ctx, opts(), counts());
    labelCloud(ctx, c);
    std::vector<size_t> order(c.n);
    std::iota(order.begin(), order.end(), 0);
    if (s.chance(1, 4)) std::reverse(order.begin(), order.end());
    else if (s.chance(1, 3)) { size_t k = s.draw(c.n); std::rotate(order.begin(), order.begin() + long(k), order.end()); }
    else { Rng r(s.seed()); for (size_t i = c.n; i > 1; --i) std::swap(order[i - 1], order[r.below(i)]); }
    Cloud q = c;
    for (size_t i = 0; i < c.n; ++i) memcpy(&q.data[i * c.info.point_step], &c.data[order[i] * c.info.point_step], c.info.point_step);
    ctx.label("permutation");
    ctx.nontrivial(c.n > 1 && varied(c, lossyFields));
    auto a = decodeAll(encodeAll(c.info, c.view())), b = decodeAll(encodeAll(q.info, q.view()));
    ctx.check();
    for (auto& f : c.info.fields)
      for (size_t i = 0; i < c.n; ++i) {
        uint64_t x = loadField(b.data.data(), c.info, f, i), y = loadField(a.data.data(), c.info, f, order[i]);
        if (x != y && !(isLossyField(c.info, f) && std::isnan(asReal(f.type, x)) && std::isnan(asReal(f.type, y))))
          ctx.fail("field ", f.name, " (", tname(f.type), ") of point ", order[i], " decodes to ", asReal(f.type, y), ", at position ", i, " of a permuted cloud to ", asReal(f.type, x));
      }
  };
  auto split = [](Src& s, Ctx& ctx) {
    NOpts n = counts();
    n.small_w = 20; n.mid_w = 30; n.probe_w = 15; n.chunk_w = 10; n.multi_w = 25;
    Cloud c = genCloud(s, ctx, opts(), n);
    labelCloud(ctx, c);
    auto a = decodeAll(encodeAll(c.info, c.view()));
    size_t at = s.chance(1, 2) && c.n > kChunk ? kChunk : s.draw(c.n + 1);
    ctx.note("split at " + std::to_string(at));
    ctx.label("split");
    ctx.nontrivial(at > 0 && at < c.n);
    for (int part = 0; part < 2; ++part) {
      const size_t lo = part ? at : 0, hi = part ? c.n : at;
      if (lo == hi) continue;
      EncodingInfo i = c.info;
      i.width = uint32_t(hi - lo);
      i.height = 1;
      auto b = decodeAll(encodeAll(i, ConstBufferView(&c.data[lo * i.point_step], (hi - lo) * i.point_step)));
      ctx.check();
      for (auto& f : c.info.fields)
        for (size_t k = lo; k < hi; ++k) {
          uint64_t x = loadField(a.data.data(), c.info, f, k), y = loadField(b.data.data(), c.info, f, k - lo);
          if (x != y && !(isLossyField(c.info, f) && std::isnan(asReal(f.type, x)) && std::isnan(asReal(f.type, y))))
            ctx.fail("field ", f.name, " of point ", k, " decodes to ", asReal(f.type, x), ", in a cloud split at ", at, " to ", asReal(f.type, y));
        }
    }
  };
  auto fields = [](Src& s, Ctx& ctx) {
    Cloud c = s.chance(1, 2) ? genSmallCloud(s, ctx, opts(), 8) : genCloud(s, ctx, opts(), counts());
    labelCloud(ctx, c);
    auto a = decodeAll(encodeAll(c.info, c.view()));
    ctx.label("fields separately");
    ctx.nontrivial(c.info.fields.size() > 1 && varied(c, lossyFields));
    for (size_t k = 0; k < c.info.fields.size(); ++k) {
      EncodingInfo i = c.info;
      const PointField f = c.info.fields[k];
      i.fields = {f};
      auto b = decodeAll(encodeAll(i, c.view()));
      ctx.check();
      for (size_t p = 0; p < c.n; ++p) {
        uint64_t x = loadField(a.data.data(), c.info, f, p), y = loadField(b.data.data(), i, f, p);
        if (x == y) continue;
        const double u = asReal(f.type, x), v = asReal(f.type, y), o = asReal(f.type, loadField(c.data.data(), c.info, f, p));
        if (isLossyField(c.info, f)) {
          if (std::isnan(u) && std::isnan(v)) continue;
          // a value half way between two ticks may go either way
          const double t = o / double(*f.resolution), fr = std::fabs(t - std::floor(t) - 0.5);
          if (fr <= 4e-7 * (1 + std::fabs(t)) && std::fabs(u - v) <= double(*f.resolution) * 1.01 + 1e-6 * std::fabs(u)) { ctx.label("tie"); continue; }
        }
        ctx.fail("field ", f.name, " (", tname(f.type), ") of point ", p, ": ", o, " decodes to ", u, ", encoded alone to ", v);
      }
    }
  };
  return pbt::run(argc, argv, "C27",
      "A case compares related encodings of one cloud: encoded twice, permuted, split, or one field at a time. Non-trivial: some lossy field "
      "varies (twice, permuted, fields), or both parts are non-empty (split).",
      {{"twice", twice, 12000, 400000}, {"permute", permute, 10000, 300000}, {"split", split, 3000, 60000}, {"fields", fields, 8000, 200000}});
}
