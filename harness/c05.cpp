// C05: headers round-trip in both encodings and consume exactly themselves.
#include "desc.hpp"
using namespace gen;
static std::vector<uint8_t> genPayload(Src& s) {
  Rng r(s.seed());
  size_t n = s.chance(1, 2) ? s.draw(4) : s.draw(300);
  std::vector<uint8_t> p(n);
  const int mode = int(s.draw(4));
  for (auto& b : p) b = mode == 0 ? uint8_t(r.next()) : mode == 1 ? 0 : mode == 2 ? '\n' : uint8_t(r.below(2) ? 0 : 'v');
  return p;
}
static void roundTrip(Src& s, Ctx& ctx, const EncodingInfo& info, HeaderEncoding enc) {
  ctx.note(std::string(enc == HeaderEncoding::YAML ? "text " : "binary ") + descrFull(info));
  std::vector<uint8_t> buf;
  if (s.chance(1, 3)) buf.assign(s.draw(200), 0xEE);  // previous content must not matter
  EncodeHeader(info, buf, enc);
  const size_t hs = buf.size();
  ctx.require(hs >= 12 && memcmp(buf.data(), "CLOUDINI_V0", 11) == 0 && buf[11] == '0' + info.version, "magic");
  auto payload = genPayload(s);
  buf.insert(buf.end(), payload.begin(), payload.end());
  ConstBufferView v(buf.data(), buf.size());
  EncodingInfo d;
  try {
    d = DecodeHeader(v);
  } catch (const std::exception& e) {
    ctx.fail("DecodeHeader rejected a header written by EncodeHeader: ", e.what());
  }
  ctx.check();
  ctx.require(v.size() == payload.size(), "header of ", hs, " bytes: consumed ", buf.size() - v.size(), " bytes");
  ctx.require(v.data() == buf.data() + hs, "payload view does not start after the header");
  std::string e = sameInfo(info, d);
  ctx.require(e.empty(), e);
  if (enc == HeaderEncoding::YAML) ctx.require(d.encoding_config == info.encoding_config, "encoding_config '", showText(info.encoding_config), "' became '", showText(d.encoding_config), "'");
  // writing the header that was read gives the same bytes
  std::vector<uint8_t> again;
  EncodeHeader(d, again, enc);
  ctx.require(again.size() == hs && memcmp(again.data(), buf.data(), hs) == 0, "re-encoding the decoded header gives different bytes");
}
int main(int argc, char** argv) {
  auto text = [](Src& s, Ctx& ctx) {
    auto i = genDesc(s, s.chance(1, 2));
    if (s.chance(1, 4)) i.encoding_config = genName(s, true);
    if (s.chance(1, 4)) i.use_threads = false;
    ctx.label("text");
    ctx.nontrivial(!i.fields.empty());
    roundTrip(s, ctx, i, HeaderEncoding::YAML);
  };
  auto binary = [](Src& s, Ctx& ctx) {
    auto i = genDesc(s, true);
    ctx.label("binary");
    ctx.labelIf((i.width & 255) == 10, "binary header that starts with a newline");
    ctx.nontrivial(!i.fields.empty());
    roundTrip(s, ctx, i, HeaderEncoding::BINARY);
  };
  auto reject = [](Src& s, Ctx& ctx) {
    auto i = genDesc(s, false);
    std::vector<uint8_t> buf;
    EncodeHeader(i, buf, s.pick({HeaderEncoding::YAML, HeaderEncoding::BINARY}));
    const int mode = int(s.draw(4));
    std::string what;
    if (mode == 0) {  // any change of the magic prefix
      size_t p = s.draw(10);
      uint8_t b = uint8_t(buf[p] ^ (1 + s.draw(255)));
      buf[p] = b;
      what = "magic byte " + std::to_string(p) + " changed";
    } else if (mode == 1) {  // unsupported version number
      int v = int(s.draw(96));
      v = v < 2 ? v : v + 4;  // 0,1,6..99
      buf[10] = uint8_t('0' + v / 10);
      buf[11] = uint8_t('0' + v % 10);
      what = "version " + std::to_string(v);
    } else if (mode == 2) {  // shorter than the prefix
      buf.resize(s.draw(12));
      what = "short";
    } else {  // cut anywhere inside the header
      buf.resize(s.draw(buf.size()));
      what = "header cut at " + std::to_string(buf.size());
    }
    ctx.note(what + " of " + descrFull(i));
    ctx.label("reject:" + std::to_string(mode));
    ctx.nontrivial();
    std::vector<uint8_t> exact(buf);
    ConstBufferView v(exact.data(), exact.size());
    bool ok = false;
    try {
      DecodeHeader(v);
      ok = true;
    } catch (const std::exception&) {
    }
    ctx.check();
    ctx.require(!ok, "accepted: ", what);
  };
  return pbt::run(argc, argv, "C05",
      "A case is an arbitrary cloud description written in one encoding followed by an arbitrary payload, or a damaged header. Non-trivial: "
      "at least one field (round trip) or any damaged header.",
      {{"text", text, 300000, 1500000}, {"binary", binary, 300000, 1500000}, {"reject", reject, 200000, 800000}});
}
