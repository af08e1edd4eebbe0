// C10: streams written by an independent encoder, in any version and with any legal choice, decode to what they encode.
#include "ref_codec.hpp"
using namespace ref;
static InfoOpts opts(Src& s) {
  InfoOpts o;
  o.versions = {5, 4, 3, 2, 5, 5};
  o.opts = {EncodingOptions::LOSSY, EncodingOptions::LOSSY, EncodingOptions::LOSSLESS, EncodingOptions::NONE};
  o.unused_resolution = s.chance(1, 4);
  return o;
}
static void verify(Src& s, Ctx& ctx, Cloud c) {
  if (c.n == 0 && c.info.version == 2) throw pbt::Discard{};  // an empty single-block payload is not specified
  labelCloud(ctx, c);
  auto cols = columnsOf(c);
  std::string d;
  for (size_t k = 0; k < cols.size(); ++k)
    if (coderOf(c.info, c.info.fields[k]) == Coder::LOSSY) genTickColumn(s, cols[k], c.info.fields[k].type, d);
  WriterChoices ch;
  ch.rng = Rng(s.seed());
  ch.split_runs = s.chance(1, 3);
  ch.shuffle_palette = s.chance(1, 2);
  ch.odd_windows = s.chance(1, 2);
  std::vector<int> modes;
  for (size_t k = 0; k < c.info.fields.size(); ++k) modes.push_back(int(s.draw(5)));
  Rng mr(s.seed());
  ch.mode = [&](size_t k, size_t) {
    int m = modes[k] == 4 ? int(mr.below(4)) : modes[k];  // 4: changes from chunk to chunk
    ctx.label("section kind " + std::to_string(m));
    return m;
  };
  Bytes payload = writePayload(c.info, cols, c.n, ch);
  Rng hr(s.seed());
  const bool text = s.chance(2, 3);
  Bytes stream = text ? writeHeaderText(c.info, hr) : writeHeaderBinary(c.info);
  stream.insert(stream.end(), payload.begin(), payload.end());
  ctx.note(std::string(text ? "text header" : "binary header") + (d.empty() ? "" : " " + d));
  ctx.label(text ? "text header" : "binary header");
  for (auto& f : c.info.fields) {
    static const char* cn[] = {"copy", "int", "lossy", "xor", "gorilla"};
    ctx.label(std::string("coder ") + cn[int(coderOf(c.info, f))]);
  }
  if (leadingFloats(c.info)) ctx.label("vector coder");
  ctx.nontrivial(c.n > 1);
  // an exact-size copy, so that a sanitizer would notice any access past the end
  std::vector<uint8_t> exact(stream);
  ConstBufferView v(exact.data(), exact.size());
  EncodingInfo info;
  std::vector<uint8_t> out;
  try {
    info = DecodeHeader(v);
    PointcloudDecoder().decode(info, v, out);
  } catch (const std::exception& e) {
    ctx.fail("valid stream rejected: ", e.what());
  }
  ctx.check();
  std::string e = sameInfo(c.info, info);
  ctx.require(e.empty(), "header: ", e);
  ctx.require(out.size() == c.n * c.info.point_step, "decoded size");
  for (size_t k = 0; k < cols.size(); ++k)
    for (size_t i = 0; i < c.n; ++i) {
      e = matches(c.info, c.info.fields[k], cols[k][i], loadField(out.data(), c.info, c.info.fields[k], i));
      if (!e.empty()) ctx.fail("point ", i, " of ", c.n, ": ", e);
    }
}
int main(int argc, char** argv) {
  auto small = [](Src& s, Ctx& ctx) {
    auto o = opts(s);
    o.threads_choice = false;
    verify(s, ctx, genSmallCloud(s, ctx, o, 6, true));
  };
  auto bulk = [](Src& s, Ctx& ctx) {
    auto o = opts(s);
    o.threads_choice = false;
    NOpts n;
    n.zero = true;
    n.max = 70000;
    verify(s, ctx, genCloud(s, ctx, o, n));
  };
  // clouds of more than 4 GiB: few points, each very large
  auto huge = [](Src& s, Ctx& ctx) {
    EncodingInfo info;
    info.version = uint8_t(s.pick({5, 4, 3}));
    info.encoding_opt = EncodingOptions::LOSSY;
    info.compression_opt = CompressionOption::NONE;
    info.use_threads = false;
    info.point_step = uint32_t((1u << 20) + s.draw(1000));
    const size_t n = (size_t{1} << 32) / info.point_step + 1 + s.draw(20);
    info.width = uint32_t(n);
    info.height = 1;
    if (s.chance(1, 2) && n % 2 == 0) { info.width = uint32_t(n / 2); info.height = 2; }
    PointField f;
    f.name = "a";
    f.type = FieldType::UINT8;
    f.offset = uint32_t(s.pick({size_t(0), size_t(info.point_step - 1)}));
    info.fields.push_back(f);
    Bytes values(n);
    Rng r(s.seed());
    for (auto& v : values) v = uint8_t(r.next());
    Rng hr(s.seed());
    Bytes stream = s.chance(1, 2) ? writeHeaderText(info, hr) : writeHeaderBinary(info);
    putLE<uint32_t>(stream, uint32_t(n));
    stream.insert(stream.end(), values.begin(), values.end());
    ctx.note(descr(info));
    ctx.nontrivial();
    ConstBufferView v(stream.data(), stream.size());
    std::vector<uint8_t> out;
    try {
      EncodingInfo back = DecodeHeader(v);
      PointcloudDecoder().decode(back, v, out);
    } catch (const std::bad_alloc&) {
      throw pbt::Discard{};
    } catch (const std::exception& e) {
      ctx.fail("valid stream of a cloud of ", n * info.point_step, " bytes rejected: ", e.what());
    }
    ctx.check();
    ctx.require(out.size() == n * info.point_step, "decoded size ", out.size(), " instead of ", n * info.point_step);
    for (size_t i = 0; i < n; ++i) ctx.require(out[i * info.point_step + f.offset] == values[i], "point ", i, " of ", n);
  };
  return pbt::run(argc, argv, "C10",
      "A case is a stream written by an independent encoder for a random description of version 2 to 5 with random content and random legal "
      "choices (section kinds per chunk, run splitting, palette order, Gorilla windows, compressor levels, header form). Non-trivial: more "
      "than one point.",
      {{"small", small, 180000, 1500000}, {"bulk", bulk, 9000, 60000}, {"huge", huge, 2, 4, 120}});
}
