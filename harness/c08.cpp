// C08: a buffer of the advertised worst-case size is always enough; nothing is written beyond it; results equal the allocating call.
#include "gen.hpp"
using namespace gen;
static void verify(Src& s, Ctx& ctx, const Cloud& c) {
  labelCloud(ctx, c);
  ctx.nontrivial(c.n > 0);
  const bool header = s.chance(1, 2);
  const size_t bound = MaxCompressedSize(c.info, c.n, header);
  std::vector<uint8_t> ref;
  size_t r0;
  {
    PointcloudEncoder e(c.info);
    r0 = e.encode(c.view(), ref);
    ctx.require(r0 == ref.size(), "allocating call returned ", r0, " for ", ref.size(), " bytes");
    ctx.require(ref.size() <= MaxCompressedSize(c.info, c.n, true), "output larger than MaxCompressedSize");
    ctx.require(e.getHeader().size() <= ref.size() && memcmp(e.getHeader().data(), ref.data(), e.getHeader().size()) == 0, "output does not start with the header");
    if (!header) ref.erase(ref.begin(), ref.begin() + e.getHeader().size());
  }
  ctx.check();
  const size_t guard = 256, slack = s.pick({0, 0, 0, 1, 1000, 100000});
  std::vector<uint8_t> mem(guard + bound + slack + guard);
  Rng rg(s.seed());
  const uint8_t fill = uint8_t(rg.next());
  std::fill(mem.begin(), mem.end(), fill);
  auto intact = [&](size_t from, size_t to, const char* what) {
    for (size_t i = from; i < to; ++i)
      if (mem[i] != fill) ctx.fail(what, ": byte ", long(i) - long(guard), " of the output buffer (worst case ", bound, ") was written");
  };
  PointcloudEncoder e(c.info);
  if (s.chance(1, 3) && bound > 0) {  // too small: refused, nothing written outside
    const size_t small = s.chance(1, 2) ? bound - 1 : s.draw(bound);
    BufferView out(mem.data() + guard, small);
    bool threw = false;
    try { e.encode(c.view(), out, header); } catch (const std::exception&) { threw = true; }
    ctx.require(threw, "a buffer of ", small, " bytes was accepted, worst case ", bound);
    intact(0, guard, "too small buffer");
    intact(guard + small, mem.size(), "too small buffer");
    std::fill(mem.begin(), mem.end(), fill);
    ctx.label("refusal checked");
  }
  BufferView out(mem.data() + guard, bound + slack);
  size_t r;
  try { r = e.encode(c.view(), out, header); } catch (const std::exception& x) { ctx.fail("encoding into ", bound + slack, " bytes (bound ", bound, ") failed: ", x.what()); }
  ctx.check();
  ctx.labelIf(header, "with header");
  ctx.require(r == ref.size(), "returned ", r, ", the allocating call produced ", ref.size());
  ctx.require(memcmp(mem.data() + guard, ref.data(), r) == 0, "bytes differ from the allocating call");
  intact(0, guard, "before the buffer");
  intact(guard + bound, mem.size(), "beyond the worst case");
  ctx.labelIf(c.n && double(r) > 0.98 * double(bound), "within 2% of the bound");
}
// Content that is as hard as possible for the section kind chosen on the first points.
static void hostile(Src& s, Cloud& c, const PointField& f) {
  const size_t sz = szOf(f.type);
  const uint64_t m = maskBits(sz), lo = uint64_t{1} << (8 * sz - 1);
  const int probe = int(s.draw(5)), rest = int(s.draw(6));
  const size_t cut = std::min(c.n, s.chance(1, 2) ? kProbe : s.draw(kProbe + 2));
  Rng r(s.seed());
  uint64_t acc = 0;
  for (size_t i = 0; i < c.n; ++i) {
    uint64_t v;
    const int k = i < cut ? probe : 5 + rest;
    switch (k) {
      case 0: v = i; break;                                   // one delta run
      case 1: v = 7; break;                                   // one run
      case 2: v = r.below(2) ? 0 : m; break;                  // two values
      case 3: v = r.next(); break;
      case 4: v = (i / 50) * 1000003; break;                  // runs
      case 5: v = r.next(); break;
      case 6: v = i & 1 ? lo : lo - 1; break;                 // largest deltas, alternating
      case 7: v = (acc += (uint64_t{1} << (8 * sz - 1)) + (i & 1)); break;
      case 8: v = i & 1 ? m : 0; break;
      case 9: v = (i >> 1) & 1 ? lo : lo - 1; break;          // largest runs overhead
      default: v = i * 0x9e3779b97f4a7c15ULL; break;
    }
    storeField(c.data, c.info, f, i, v & m);
  }
}
// Floats with a resolution whose quantised values are as far apart as they can be.
static void hostileFloat(Src& s, Cloud& c, const PointField& f) {
  Rng r(s.seed());
  const int mode = int(s.draw(4));
  const double top = s.pick({1e9, 4e9, 1e12, 9e15, 4e18, 9.2e18, 1e30, 3e38});
  const size_t from = s.chance(1, 3) ? s.draw(c.n + 1) : 0;
  for (size_t i = from; i < c.n; ++i) {
    double t = mode == 0 ? top * (i & 1 ? 1 : -1) : mode == 1 ? top * (double(r.next() >> 11) / 9007199254740992.0 * 2 - 1)
               : mode == 2 ? ((i >> 1) & 1 ? top : -top) : (i & 1 ? std::numeric_limits<double>::infinity() : -top);
    if (mode != 3 || !(i & 1)) t *= double(*f.resolution);
    if (r.below(1000) == 0) t = std::numeric_limits<double>::quiet_NaN();
    uint64_t v = 0;
    if (f.type == FieldType::FLOAT32) { const float x = std::isinf(t) || std::isnan(t) ? float(t) : float(std::max(-3.4e38, std::min(3.4e38, t))); memcpy(&v, &x, 4); }
    else memcpy(&v, &t, 8);
    storeField(c.data, c.info, f, i, v);
  }
}
int main(int argc, char** argv) {
  auto bulk = [](Src& s, Ctx& ctx) {
    InfoOpts o;
    verify(s, ctx, genCloud(s, ctx, o, NOpts{.zero = true}));
  };
  auto small = [](Src& s, Ctx& ctx) {
    InfoOpts o;
    o.threads_choice = s.chance(1, 6);
    verify(s, ctx, genSmallCloud(s, ctx, o, 5, true));
  };
  auto worst = [](Src& s, Ctx& ctx) {
    InfoOpts o;
    o.opts = {EncodingOptions::LOSSY, EncodingOptions::LOSSY, EncodingOptions::LOSSLESS};
    o.versions = {5, 5, 4, 3};
    o.comps = {CompressionOption::NONE, CompressionOption::LZ4, CompressionOption::ZSTD, CompressionOption::NONE};
    o.max_fields = 3;
    o.lead_pct = 15;
    NOpts n;
    n.small_w = 10; n.mid_w = 10; n.big_w = 10; n.probe_w = 30; n.chunk_w = 20; n.multi_w = 15;
    Cloud c = genCloud(s, ctx, o, n);
    for (auto& f : c.info.fields)
      if (isWideInt(f.type)) hostile(s, c, f);
      else if (isLossyField(c.info, f)) { if (s.chance(3, 4)) hostileFloat(s, c, f); }
      else {  // incompressible bits
        Rng r(s.seed());
        const bool sparse = s.chance(1, 2);
        for (size_t i = 0; i < c.n; ++i) storeField(c.data, c.info, f, i, sparse && (i & 1) ? 0 : (r.next() | (uint64_t{1} << 63) | 1));
      }
    ctx.label("hostile content");
    verify(s, ctx, c);
  };
  // A buffer much larger than needed (more than 2 or 4 GiB): address space only
  auto roomy = [](Src& s, Ctx& ctx) {
    InfoOpts o;
    Cloud c = genSmallCloud(s, ctx, o, s.chance(1, 30) ? 70000 : 200);
    const bool header = s.chance(1, 2);
    const uint64_t size = s.pick({uint64_t{1} << 31, uint64_t{1} << 32, uint64_t{1} << 33, uint64_t{3} << 30}) + uint64_t(s.range(-2000, 2000));
    auto ref = encodeAll(c.info, c.view());
    PointcloudEncoder e(c.info);
    if (!header) ref.erase(ref.begin(), ref.begin() + long(e.getHeader().size()));
    const size_t bound = MaxCompressedSize(c.info, c.n, header);
    void* p = mmap(nullptr, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) throw pbt::Discard{};
    struct Unmap {
      void* p;
      size_t n;
      ~Unmap() { munmap(p, n); }
    } unmap{p, size};
    BufferView v(static_cast<uint8_t*>(p), size);
    size_t r;
    try { r = e.encode(c.view(), v, header); } catch (const std::exception& x) { ctx.fail("encoding into ", size, " bytes (bound ", bound, ") failed: ", x.what()); }
    ctx.check();
    ctx.require(r == ref.size() && memcmp(p, ref.data(), r) == 0, "bytes differ from the allocating call");
    for (size_t i = bound; i < bound + 8192; ++i) ctx.require(static_cast<uint8_t*>(p)[i] == 0, "byte ", i, " beyond the worst case ", bound, " was written");
    ctx.nontrivial(c.n > 0);
    ctx.label("buffer of 2 GiB or more");
  };
  auto wide = [](Src& s, Ctx& ctx) { verify(s, ctx, genWideCloud(s, ctx, InfoOpts{})); };
  return pbt::run(argc, argv, "C08",
      "A case is a cloud encoded by the allocating call and into a guarded buffer of the advertised worst-case size (plus optional slack, "
      "with or without header), into a smaller one, or into one of 2 to 8 GiB of address space. Non-trivial: at least one point.",
      {{"small", small, 150000, 600000}, {"bulk", bulk, 20000, 80000}, {"worst", worst, 12500, 60000}, {"roomy", roomy, 10000, 40000}, {"wide", wide, 2400, 20000}});
}
