// C18: the C interface agrees with the C++ library and reports failures by its return value (runs under ASan).
#include "capped_new.hpp"
#include "desc.hpp"
#include "msg_gen.hpp"
#include "mutate.hpp"
#include "cloudini_lib/wasm_functions.h"
using namespace gen;
using namespace cloudini_ros;
namespace {
using Bytes = std::vector<uint8_t>;
struct Block {  // exact-size heap block, filled with a pattern
  std::unique_ptr<uint8_t[]> p;
  size_t n;
  explicit Block(size_t n_, uint8_t v = 0) : p(new uint8_t[n_]), n(n_) { if (n_) memset(p.get(), v, n_); }
  explicit Block(const Bytes& b) : p(new uint8_t[b.size()]), n(b.size()) { if (n) memcpy(p.get(), b.data(), n); }
  uintptr_t ptr() const { return reinterpret_cast<uintptr_t>(p.get()); }
  ConstBufferView view() const { return ConstBufferView(p.get(), n); }
  Bytes bytes(size_t k) const { return Bytes(p.get(), p.get() + k); }
};
constexpr uint64_t kBig = 24u << 20;
struct Cpp { bool ok = false; Bytes out; std::string error; };
template <class F>
Cpp attempt(F f) {
  Cpp r;
  try { r.out = f(); r.ok = true; } catch (const std::exception& e) { r.error = e.what(); }
  return r;
}
template <class F>
uint32_t call(Ctx& ctx, const char* name, F f) {
  try { return f(); }
  catch (const pbt::Fail&) { throw; }
  catch (const std::exception& e) { ctx.fail(name, " let an exception escape: ", e.what()); }
  catch (...) { ctx.fail(name, " let an exception escape"); }
}
Bytes text(const std::string& s) { return Bytes(s.begin(), s.end()); }
void same(Ctx& ctx, const char* name, const Cpp& want, uint32_t got, const Block& out) {
  ctx.check();
  if (!want.ok) { ctx.require(got == 0, name, " returned ", got, " where the C++ call fails (", want.error, ")"); return; }
  ctx.require(got == want.out.size(), name, " returned ", got, ", the C++ call produces ", want.out.size(), " bytes");
  ctx.require(got <= out.n && out.bytes(got) == want.out, name, " wrote other bytes than the C++ call");
}
EncodingInfo withRes(EncodingInfo i, float res) {
  for (auto& f : i.fields) if (f.type == FieldType::FLOAT32) f.resolution = res;
  return i;
}
uint64_t product(uint64_t a, uint64_t b, uint64_t c) {
  unsigned __int128 p = (unsigned __int128)(a) * b;
  if (p > ~uint64_t{0}) return ~uint64_t{0};
  p *= c;
  return p > ~uint64_t{0} ? ~uint64_t{0} : uint64_t(p);
}
// Everything that takes a stream
void checkStream(Ctx& ctx, const Bytes& stream, std::string* label = nullptr) {
  Block in(stream);
  Cpp yaml = attempt([&] { auto v = in.view(); return text(EncodingInfoToYAML(DecodeHeader(v))); });
  {
    Block out(yaml.ok ? yaml.out.size() : 64);
    uint32_t r = call(ctx, "cldn_GetHeaderAsYAML", [&] { return cldn_GetHeaderAsYAML(in.ptr(), uint32_t(in.n), out.ptr()); });
    same(ctx, "cldn_GetHeaderAsYAML", yaml, r, out);
  }
  uint64_t need = 0;
  if (yaml.ok) { auto v = in.view(); auto i = DecodeHeader(v); need = product(i.width, i.height, i.point_step); }
  if (need <= kBig) {
    Block out(need);
    Cpp data = attempt([&] {
      auto v = in.view();
      EncodingInfo i = DecodeHeader(v);
      Bytes o(need, 0);
      BufferView ov(o.data(), o.size());
      PointcloudDecoder().decode(i, v, ov);
      return o;
    });
    uint32_t r = call(ctx, "cldn_DecodeCompressedData", [&] { return cldn_DecodeCompressedData(in.ptr(), uint32_t(in.n), out.ptr()); });
    same(ctx, "cldn_DecodeCompressedData", data, r, out);
    if (label) *label = data.ok ? "stream decoded" : "stream rejected";
  }
}
// Everything that takes a compressed message
void checkCompressed(Ctx& ctx, const Bytes& msg, std::string* label = nullptr) {
  Block in(msg);
  RosPointCloud2 pc;
  Cpp parsed = attempt([&] { pc = getDeserializedPointCloudMessage(in.view()); return Bytes{}; });
  const uint64_t need = product(pc.width, pc.height, pc.point_step);
  uint32_t announced = call(ctx, "cldn_GetDecompressedSize", [&] { return cldn_GetDecompressedSize(in.ptr(), uint32_t(in.n)); });
  ctx.check();
  if (!parsed.ok || need > 0xFFFFFFFFu) ctx.require(announced == 0, "cldn_GetDecompressedSize returned ", announced, parsed.ok ? " for a size that does not fit" : " for an unreadable message");
  else ctx.require(announced == need, "cldn_GetDecompressedSize returned ", announced, " instead of ", need);
  {
    Cpp y = parsed.ok ? attempt([&] { auto v = pc.data; return text(EncodingInfoToYAML(DecodeHeader(v))); }) : parsed;
    Block out(y.ok ? y.out.size() : 64);
    uint32_t r = call(ctx, "cldn_GetHeaderAsYAMLFromDDS", [&] { return cldn_GetHeaderAsYAMLFromDDS(in.ptr(), uint32_t(in.n), out.ptr()); });
    same(ctx, "cldn_GetHeaderAsYAMLFromDDS", y, r, out);
  }
  if (announced <= kBig) {
    // the output has the announced size
    Block out(announced);
    Cpp d = parsed.ok ? attempt([&] {
      auto v = pc.data;
      EncodingInfo i = DecodeHeader(v);
      const uint64_t inner = product(i.width, i.height, i.point_step);
      if (inner > announced) throw std::runtime_error("larger than announced");
      Bytes o(inner, 0);
      BufferView ov(o.data(), o.size());
      PointcloudDecoder().decode(i, v, ov);
      return o;
    }) : parsed;
    uint32_t r = call(ctx, "cldn_DecodeCompressedMessage", [&] { return cldn_DecodeCompressedMessage(in.ptr(), uint32_t(in.n), out.ptr()); });
    // a cloud that does not have the announced size may be refused as well
    if (d.ok && d.out.size() != announced && r == 0) { ctx.check(); }
    else same(ctx, "cldn_DecodeCompressedMessage", d, r, out);
    if (label) *label = d.ok ? "compressed message decoded" : "compressed message rejected";
  }
  if (need <= kBig) {
    Cpp d = parsed.ok ? attempt([&] { Bytes o; convertCompressedCloudToPointCloud2(pc, o); return o; }) : parsed;
    Block out(d.ok ? d.out.size() : 16);
    uint32_t r = call(ctx, "cldn_ConvertCompressedMsgToPointCloud2Msg", [&] { return cldn_ConvertCompressedMsgToPointCloud2Msg(in.ptr(), uint32_t(in.n), out.ptr()); });
    same(ctx, "cldn_ConvertCompressedMsgToPointCloud2Msg", d, r, out);
  }
}
// Everything that takes a point cloud message
void checkRaw(Ctx& ctx, const Bytes& msg, float res, std::string* label = nullptr) {
  Block in(msg);
  RosPointCloud2 pc;
  Cpp parsed = attempt([&] { pc = getDeserializedPointCloudMessage(in.view()); return Bytes{}; });
  Cpp enc = parsed.ok ? attempt([&] { Bytes o; PointcloudEncoder e(withRes(toEncodingInfo(pc), res)); e.encode(pc.data, o); return o; }) : parsed;
  const bool whole = parsed.ok && product(pc.width, pc.height, pc.point_step) == pc.data.size();
  {
    uint32_t r = call(ctx, "cldn_ComputeCompressedSize", [&] { return cldn_ComputeCompressedSize(in.ptr(), uint32_t(in.n), res); });
    ctx.check();
    if (!enc.ok) ctx.require(r == 0, "cldn_ComputeCompressedSize returned ", r, " where the C++ call fails (", enc.error, ")");
    else if (whole) ctx.require(r == enc.out.size(), "cldn_ComputeCompressedSize returned ", r, " instead of ", enc.out.size());
    else ctx.require(r == enc.out.size() || r == 0, "cldn_ComputeCompressedSize returned ", r, " instead of ", enc.out.size(), " or 0");
  }
  {
    Block out(in.n);  // the caller provides as many bytes as the message has
    uint32_t r = call(ctx, "cldn_EncodePointcloudMessage", [&] { return cldn_EncodePointcloudMessage(in.ptr(), uint32_t(in.n), res, out.ptr()); });
    Cpp want = enc;
    if (want.ok && !whole) { want.ok = false; want.error = "dimensions and data do not agree"; }
    if (want.ok && want.out.size() > in.n) { want.ok = false; want.error = "does not fit"; }
    same(ctx, "cldn_EncodePointcloudMessage", want, r, out);
    if (label) *label = want.ok ? "message encoded" : "message not encoded: " + want.error.substr(0, 20);
  }
}
void checkData(Ctx& ctx, const std::string& yaml, const Bytes& data, std::string* label = nullptr) {
  Block in(data), y(yaml.size() + 1);
  memcpy(y.p.get(), yaml.data(), yaml.size());
  Cpp want = attempt([&] {
    EncodingInfo i = EncodingInfoFromYAML(std::string_view((const char*)y.p.get()));
    if (product(i.width, i.height, i.point_step) != data.size()) throw std::runtime_error("size mismatch");
    Bytes o;
    PointcloudEncoder(i).encode(in.view(), o);
    if (o.size() > data.size()) throw std::runtime_error("does not fit");
    return o;
  });
  Block out(in.n);
  uint32_t r = call(ctx, "cldn_EncodePointcloudData", [&] { return cldn_EncodePointcloudData((const char*)y.p.get(), in.ptr(), uint32_t(in.n), out.ptr()); });
  same(ctx, "cldn_EncodePointcloudData", want, r, out);
  if (label) *label = want.ok ? "data encoded" : "data not encoded: " + want.error.substr(0, 20);
}
}  // namespace
int main(int argc, char** argv) {
  auto body = [](Src& s, Ctx& ctx, size_t maxn, bool mutate) {
    InfoOpts o;
    o.max_fields = 5;
    o.threads_choice = s.chance(1, 8);
    Cloud c;
    if (maxn < 100 && !mutate && s.chance(1, 60)) {  // headers and points beyond the usual sizes
      EncodingInfo info = genInfoWide(s, o, 1);
      c = genCloudFor(s, ctx, info, fewPoints(s.draw(maxn), info));
      ctx.label("wide description");
    } else if (maxn >= 100 && s.chance(1, 40)) {
      o.max_fields = 4;
      c = genCloudFor(s, ctx, genInfo(s, o), 60000 + s.draw(240000));
      ctx.label("large cloud");
    } else {
      c = maxn < 100 ? genSmallCloud(s, ctx, o, maxn, true) : genCloud(s, ctx, o, NOpts{.zero = true, .max = maxn});
    }
    for (auto& f : c.info.fields) if (f.type == FieldType::FLOAT32 && !f.resolution) {}
    refcdr::Msg m = genMsg(s, c);
    const float res = s.chance(1, 2) ? genRes(s) : s.pick({0.001f, 0.01f, 1.0f, 0.1f});
    refcdr::Msg cm = m;
    cm.compressed = true;
    cm.format = "cloudini";
    Bytes stream = encodeAll(c.info, c.view());
    if (c.n) cm.data = stream;
    std::string what;
    auto dims = [&](refcdr::Msg& x) {
      switch (s.draw(4)) {
        case 0: x.width = uint32_t(mut::oddNumber(s)); break;
        case 1: x.height = uint32_t(mut::oddNumber(s)); break;
        case 2: x.point_step = uint32_t(mut::oddNumber(s)); break;
        default: {  // the product is the same modulo 2^32
          uint64_t k = 1 + s.draw(15);
          if (x.height < 2) { x.height = 1u << k; uint64_t p = (uint64_t{1} << 32) >> k; x.width += uint32_t(p); }
          else x.point_step = 0;
        }
      }
      what += "dimensions " + std::to_string(x.width) + "x" + std::to_string(x.height) + "x" + std::to_string(x.point_step) + "; ";
    };
    if (mutate && c.n && s.chance(1, 6)) {  // the stream has other dimensions than the message
      std::vector<uint8_t> old, head;
      EncodingInfo other = c.info;
      EncodeHeader(c.info, old);
      refcdr::Msg x = m;
      x.width = other.width; x.height = other.height; x.point_step = other.point_step;
      what += "stream: ";
      dims(x);
      other.width = x.width; other.height = x.height; other.point_step = x.point_step;
      try {
        EncodeHeader(other, head);
        if (stream.size() >= old.size() && std::equal(old.begin(), old.end(), stream.begin())) {
          head.insert(head.end(), stream.begin() + old.size(), stream.end());
          stream = head;
          cm.data = stream;
        }
      } catch (const std::exception&) { }
    }
    if (mutate) {
      const uint64_t which = s.draw(6);
      std::string label;
      if (which == 0) {
        const int e = 1 + int(s.draw(3));
        for (int i = 0; i < e; ++i) what += mut::edit(s, stream, s.chance(1, 2) ? 12 : 0, stream.size()) + "; ";
        ctx.note("stream: " + what);
        checkStream(ctx, stream, &label);
      } else if (which <= 2) {
        if (s.chance(1, 3)) dims(cm);
        if (s.chance(1, 4)) what += "inner: " + mut::edit(s, cm.data, 0, cm.data.size()) + "; ";
        if (s.chance(1, 8)) cm.point_step = 0;
        Bytes b = refcdr::write(cm);
        const int e = int(s.draw(3));
        for (int i = 0; i < e; ++i) what += mut::edit(s, b, s.chance(3, 4) ? 4 : 0, s.chance(1, 2) ? 120 : b.size()) + "; ";
        if (s.chance(1, 20)) b.resize(s.draw(6));
        ctx.note("compressed message: " + what);
        checkCompressed(ctx, b, &label);
      } else if (which <= 4) {
        if (s.chance(1, 3)) dims(m);
        if (s.chance(1, 10)) { m.point_step = 0; if (s.chance(1, 2)) m.data.clear(); what += "point step 0; "; }
        if (s.chance(1, 10)) { m.width = 0; m.data.clear(); }
        Bytes b = refcdr::write(m);
        const int e = int(s.draw(3));
        for (int i = 0; i < e; ++i) what += mut::edit(s, b, s.chance(3, 4) ? 4 : 0, s.chance(1, 2) ? 120 : b.size()) + "; ";
        if (s.chance(1, 20)) b.resize(s.draw(6));
        ctx.note("message: " + what);
        checkRaw(ctx, b, s.chance(1, 6) ? s.pick({0.0f, -1.0f, NAN, INFINITY, 1e-45f}) : res, &label);
      } else {
        std::string y = EncodingInfoToYAML(c.info);
        Bytes yb = text(y), data = c.data;
        const int e = int(s.draw(3));
        for (int i = 0; i < e; ++i) what += mut::edit(s, yb, 0, yb.size()) + "; ";
        if (s.chance(1, 3)) { data.resize(s.draw(data.size() + 20)); what += "data size; "; }
        ctx.note("data: " + what);
        y.assign(yb.begin(), yb.end());
        checkData(ctx, y, data, &label);
      }
      ctx.label(label);
      ctx.nontrivial(!what.empty());
    }
    if (!mutate || s.chance(1, 3)) {  // valid inputs; after a failure the functions work as usual
      std::string l;
      Bytes good = encodeAll(c.info, c.view());
      cm = m;
      cm.le = true;
      if (mutate) { m = genMsg(s, c); cm = m; }
      cm.compressed = true;
      cm.format = "cloudini";
      cm.data = c.n ? good : Bytes{};
      checkStream(ctx, good, &l); ctx.label(l);
      if (!mutate) ctx.require(l == "stream decoded", "the library rejects a valid stream");
      checkCompressed(ctx, refcdr::write(cm), &l); ctx.label(l);
      checkRaw(ctx, refcdr::write(m), res, &l); ctx.label(l);
      checkData(ctx, EncodingInfoToYAML(c.info), c.data, &l); ctx.label(l);
      if (!mutate) ctx.nontrivial(c.n > 0);
    }
  };
  return pbt::run(argc, argv, "C18",
      "A case calls the functions of the C interface on a generated stream, compressed message, message and raw cloud (valid, or with mutated "
      "bytes and dimensions) in exact-size blocks and compares with the C++ calls. Non-trivial: something was mutated, or the cloud is not empty.",
      {{"valid", [=](Src& s, Ctx& c) { body(s, c, 12, false); }, 10000, 400000, 30},
       {"bulk", [=](Src& s, Ctx& c) { body(s, c, 40000, false); }, 800, 20000, 60},
       {"malformed", [=](Src& s, Ctx& c) { body(s, c, 8, true); }, 60000, 3000000, 30}});
}
