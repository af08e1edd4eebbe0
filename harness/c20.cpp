// C20: the encoder reports an error or produces a decodable stream that reproduces the cloud.
#include <cfloat>

#include "desc.hpp"
using namespace gen;
static bool useful(float r) { return std::isnormal(r) && r > 0; }
int main(int argc, char** argv) {
  auto odd = [](Src& s, Ctx& ctx) {
    InfoOpts o;
    o.threads_choice = s.chance(1, 5);
    o.max_fields = 4;
    o.float_res_pct = 70;
    EncodingInfo info = genInfo(s, o);
    const size_t n = s.draw(8);
    setDims(s, info, n);
    size_t size = n * info.point_step;
    std::string what;
    const int defects = int(s.weighted({1, 6, 2}));
    for (int k = 0; k < defects; ++k) switch (s.draw(8)) {
      case 0: info.version = uint8_t(s.draw(256)); what += "version " + std::to_string(info.version) + "; "; ctx.label("odd version"); break;
      case 1: case 2: {
        size_t f = s.draw(info.fields.size());
        float r = s.pick({0.0f, -0.0f, -1.0f, -0.001f, NAN, -NAN, INFINITY, -INFINITY, 1e-45f, 1e-40f, 1e-39f, 1.1e-38f, FLT_MIN, FLT_MAX, 1e38f, 1e30f, 1e-30f, -1e-45f});
        info.fields[f].resolution = r;
        what += "resolution of field " + std::to_string(f) + " " + std::to_string(r) + "; ";
        ctx.label("odd resolution");
        break;
      }
      case 3: { size_t f = s.draw(info.fields.size()); int t = int(s.draw(256)); info.fields[f].type = FieldType(t); what += "type " + std::to_string(t) + "; "; ctx.label("odd type"); break; }
      case 4: {
        size_t f = s.draw(info.fields.size());
        switch (s.draw(3)) { case 0: info.fields[f].offset = uint32_t(info.point_step - s.draw(std::min<size_t>(8, info.point_step))); break; case 1: info.fields[f].offset = uint32_t(info.point_step + s.draw(100)); break; default: info.fields[f].offset = uint32_t(s.u64()); }
        what += "offset " + std::to_string(info.fields[f].offset) + " of field " + std::to_string(f) + "; ";
        ctx.label("odd offset");
        break;
      }
      case 5: size += 1 + s.draw(info.point_step + 3); what += "data size " + std::to_string(size) + "; "; ctx.label("odd data size"); break;
      case 6: if (s.chance(1, 2)) info.encoding_opt = EncodingOptions(s.draw(256)); else info.compression_opt = CompressionOption(s.draw(256));
        what += "options " + std::to_string(int(info.encoding_opt)) + "/" + std::to_string(int(info.compression_opt)) + "; "; ctx.label("odd option"); break;
      default:
        if (s.chance(1, 2)) { info.fields.clear(); what += "no fields; "; ctx.label("no fields"); return; }
        else { info.point_step = s.pick({0u, 1u, 2u, 3u}); size = n * info.point_step; what += "point_step " + std::to_string(info.point_step) + "; "; ctx.label("odd point step"); }
        if (info.fields.empty()) return;
        break;
    }
    // overlapping fields have no single decoded value
    for (size_t a = 0; a < info.fields.size(); ++a)
      for (size_t b = 0; b < a; ++b) {
        const auto &x = info.fields[a], &y = info.fields[b];
        if (uint64_t(x.offset) < uint64_t(y.offset) + szOf(y.type) && uint64_t(y.offset) < uint64_t(x.offset) + szOf(x.type)) throw pbt::Discard{};
      }
    // data lies in an exact-size heap block
    std::vector<uint8_t> data(size);
    Rng r(s.seed());
    for (auto& b : data) b = uint8_t(r.next());
    for (auto& f : info.fields) {
      const size_t sz = szOf(f.type);
      if (!isLossyField(info, f) || !useful(*f.resolution) || size_t(f.offset) + sz > info.point_step) continue;
      for (size_t i = 0; (i + 1) * info.point_step <= size; ++i) {  // values that the resolution can represent
        double x = double(r.range(-1000, 1000)) * 0.5 * double(*f.resolution);
        if (f.type == FieldType::FLOAT32) { float y = float(x); if (!std::isfinite(y)) y = 0; memcpy(&data[i * info.point_step + f.offset], &y, 4); }
        else memcpy(&data[i * info.point_step + f.offset], &x, 8);
      }
    }
    ctx.note(what + descr(info) + " n=" + std::to_string(n));
    ctx.nontrivial(defects > 0 && size > 0);
    ctx.check();
    std::vector<uint8_t> out;
    const bool preallocated = s.chance(1, 3);
    try {
      PointcloudEncoder e(info);
      if (preallocated) {
        size_t m = info.point_step ? size / info.point_step : 0;
        out.resize(MaxCompressedSize(info, m, true));
        BufferView v(out.data(), out.size());
        out.resize(e.encode(ConstBufferView(data.data(), data.size()), v, true));
      } else {
        e.encode(ConstBufferView(data.data(), data.size()), out);
      }
    } catch (const std::exception& e) {
      ctx.label("refused");
      return;
    }
    ctx.label("accepted");
    if (size != size_t(info.width) * info.height * info.point_step) {
      // only whole points are accepted; the declared dimensions are then simply those of another cloud
      ctx.require(info.point_step && size % info.point_step == 0, "a data size that is not a multiple of the point step was accepted");
      info.width = uint32_t(size / info.point_step);
      info.height = 1;
      std::vector<uint8_t> hdr;
      PointcloudEncoder e(info);
      e.encode(ConstBufferView(data.data(), data.size()), out);
    }
    Decoded d;
    std::vector<uint8_t> exact(out);
    try { d = decodeAll(exact); } catch (const std::exception& e) { ctx.fail("the encoder accepted the description but its output cannot be decoded: ", e.what()); }
    ctx.check();
    Cloud c;
    c.info = info;
    c.n = size / info.point_step;
    c.data = data;
    for (auto& f : info.fields) {
      ctx.require(szOf(f.type) > 0 || c.n == 0, "unknown field type ", int(f.type), " was accepted");
      ctx.require(size_t(f.offset) + szOf(f.type) <= info.point_step || c.n == 0, "field outside the point was accepted");
      if (isLossyField(info, f) && c.n > 0) ctx.require(useful(*f.resolution), "resolution ", *f.resolution, " was accepted");
    }
    checkSame(ctx, c, d.data.data(), d.data.size(), "accepted description");
  };
  return pbt::run(argc, argv, "C20",
      "A case is a description with zero to two defects (version, resolution, type, offset, point step, options, data size). Non-trivial: at "
      "least one defect and a non-empty cloud.",
      {{"odd", odd, 480000, 3000000}});
}
