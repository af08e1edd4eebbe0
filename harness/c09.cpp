// C09: reuse histories of encoders and decoders equal fresh objects; threads and entry points do not matter.
#include "gen.hpp"
using namespace gen;
static std::string diffAt(const std::vector<uint8_t>& a, const std::vector<uint8_t>& b) {
  if (a.size() != b.size()) return "sizes " + std::to_string(a.size()) + " and " + std::to_string(b.size());
  for (size_t i = 0; i < a.size(); ++i)
    if (a[i] != b[i]) return "byte " + std::to_string(i);
  return "";
}
static NOpts hist() {
  NOpts n;
  n.small_w = 40; n.mid_w = 35; n.big_w = 10; n.probe_w = 8; n.chunk_w = 3; n.multi_w = 4;
  n.zero = true;
  n.max = 70000;
  return n;
}
int main(int argc, char** argv) {
  auto encoder = [](Src& s, Ctx& ctx) {
    InfoOpts o;
    o.versions = {5, 5, 4, 3};
    o.opts = {EncodingOptions::LOSSY, EncodingOptions::LOSSY, EncodingOptions::LOSSLESS, EncodingOptions::NONE};
    o.max_fields = 5;
    EncodingInfo info = genInfo(s, o);
    const EncodingInfo orig = info;
    PointcloudEncoder shared(info);
    const size_t steps = s.chance(1, 80) ? 30 + s.draw(300) : 2 + s.draw(6);
    const bool many = steps >= 30;
    size_t done = 0;
    bool failures = false;
    std::vector<uint8_t> out;  // reused as well
    for (size_t st = 0; st < steps; ++st) {
      size_t n = many && !s.chance(1, 30) ? s.draw(40) : genN(s, hist());
      while (n * (info.point_step + 8) > 3000000 && n > 64) n /= 2;
      Cloud c = genCloudFor(s, ctx, info, n);
      const int op = int(s.weighted({6, 3, 3, 2, 2}));
      ctx.note("step " + std::to_string(st) + ": op " + std::to_string(op) + " n=" + std::to_string(n));
      ctx.label("encode op " + std::to_string(op));
      auto fresh = [&](bool threads) {
        EncodingInfo i = orig;
        i.use_threads = threads;
        PointcloudEncoder e(i);
        std::vector<uint8_t> r;
        e.encode(c.view(), r);
        return r;
      };
      if (op == 0) {
        if (s.chance(1, 2)) out.assign(s.draw(100), 0xEE);
        size_t r = shared.encode(c.view(), out);
        auto f = fresh(orig.use_threads);
        ctx.check();
        std::string d = diffAt(out, f);
        ctx.require(d.empty(), "step ", st, " (", n, " points): reused encoder differs from a new one: ", d);
        ctx.require(r == f.size(), "returned size");
        auto g = fresh(!orig.use_threads);
        d = diffAt(g, f);
        ctx.require(d.empty(), "threads on/off differ: ", d);
        ++done;
      } else if (op == 1 || op == 2) {
        const bool header = op == 1;
        std::vector<uint8_t> buf(MaxCompressedSize(orig, n, header) + s.draw(50), 0xAB);
        BufferView v(buf.data(), buf.size());
        size_t r = shared.encode(c.view(), v, header);
        buf.resize(r);
        auto f = fresh(orig.use_threads);
        if (!header) f.erase(f.begin(), f.begin() + long(shared.getHeader().size()));
        ctx.check();
        std::string d = diffAt(buf, f);
        ctx.require(d.empty(), "step ", st, " (", n, " points, pre-allocated, header ", header, "): reused encoder differs from a new one: ", d);
        ++done;
      } else {  // a call that fails in between
        failures = true;
        bool threw = false;
        try {
          if (op == 3) {
            std::vector<uint8_t> buf(n ? MaxCompressedSize(orig, n, true) - 1 : 0);
            BufferView v(buf.data(), buf.size());
            shared.encode(c.view(), v, true);
          } else {
            std::vector<uint8_t> odd(c.data);
            odd.push_back(1);
            if (orig.point_step == 1) throw std::runtime_error("no odd size");
            shared.encode(ConstBufferView(odd.data(), odd.size()), out);
          }
        } catch (const std::exception&) { threw = true; }
        ctx.require(threw, "invalid call accepted");
      }
      ctx.require(sameInfo(shared.getEncodingInfo(), orig).empty(), "the encoder's description changed");
    }
    ctx.labelIf(many, "long history");
    ctx.labelIf(failures, "failure in the history");
    ctx.label(orig.use_threads ? "threads" : "nothreads");
    ctx.nontrivial(done >= 2);
  };
  auto decoder = [](Src& s, Ctx& ctx) {
    PointcloudDecoder shared;
    const size_t steps = s.chance(1, 80) ? 30 + s.draw(300) : 2 + s.draw(6);
    const bool many = steps >= 30;
    size_t done = 0;
    std::vector<uint8_t> out;
    for (size_t st = 0; st < steps; ++st) {
      InfoOpts o;
      o.versions = {5, 5, 4, 3};
      o.opts = {EncodingOptions::LOSSY, EncodingOptions::LOSSY, EncodingOptions::LOSSLESS, EncodingOptions::NONE};
      o.max_fields = 5;
      o.threads_choice = false;
      Cloud c = many && !s.chance(1, 30) ? genSmallCloud(s, ctx, o, 20, true) : genCloud(s, ctx, o, hist());
      auto stream = encodeAll(c.info, c.view());
      ConstBufferView v(stream.data(), stream.size());
      EncodingInfo info = DecodeHeader(v);
      std::vector<uint8_t> pay(v.data(), v.data() + v.size());
      const int op = int(s.weighted({5, 4, 3}));
      ctx.note("step " + std::to_string(st) + ": decode op " + std::to_string(op));
      ctx.label("decode op " + std::to_string(op));
      if (op == 2 && !pay.empty()) {  // damaged or cut payload: fails or not, must not matter afterwards
        if (s.chance(1, 2)) pay.resize(s.draw(pay.size()));
        else for (size_t k = 1 + s.draw(5); k; --k) pay[s.draw(pay.size())] ^= uint8_t(1 + s.draw(255));
        std::vector<uint8_t> a, b;
        bool ta = false, tb = false;
        try { shared.decode(info, ConstBufferView(pay.data(), pay.size()), a); } catch (const std::exception&) { ta = true; }
        try { PointcloudDecoder().decode(info, ConstBufferView(pay.data(), pay.size()), b); } catch (const std::exception&) { tb = true; }
        ctx.check();
        ctx.require(ta == tb, "reused decoder ", ta ? "rejects" : "accepts", " what a new one ", tb ? "rejects" : "accepts");
        ctx.labelIf(ta, "failure in the history");
        if (!ta) for (auto& f : info.fields) for (size_t i = 0; i < c.n; ++i) ctx.require(loadField(a.data(), info, f, i) == loadField(b.data(), info, f, i), "reused decoder differs on a damaged payload");
        continue;
      }
      std::vector<uint8_t> f(c.data.size(), 0);
      PointcloudDecoder().decode(info, ConstBufferView(pay.data(), pay.size()), BufferView(f.data(), f.size()));
      std::vector<uint8_t> got;
      if (op == 0) { if (s.chance(1, 2)) out.assign(s.draw(300), 0x77); shared.decode(info, ConstBufferView(pay.data(), pay.size()), out); got = out; }
      else { got.assign(c.data.size(), 0); shared.decode(info, ConstBufferView(pay.data(), pay.size()), BufferView(got.data(), got.size())); }
      ctx.check();
      ctx.require(got.size() == f.size(), "size ", got.size(), " vs ", f.size());
      for (auto& fl : info.fields)
        for (size_t i = 0; i < c.n; ++i)
          ctx.require(loadField(got.data(), info, fl, i) == loadField(f.data(), info, fl, i), "step ", st, ": point ", i, " field ", fl.name, " (", tname(fl.type), ") differs from a new decoder");
      ++done;
    }
    ctx.nontrivial(done >= 2);
  };
  return pbt::run(argc, argv, "C09",
      "A case is a history of 2 to 7 (some up to 330) calls on one encoder or decoder (different clouds, entry points, descriptions, failing calls in between), "
      "each compared with a new object and with the compression thread on and off. Non-trivial: at least two successful calls.",
      {{"encoder", encoder, 12000, 80000}, {"decoder", decoder, 12000, 80000}});
}
