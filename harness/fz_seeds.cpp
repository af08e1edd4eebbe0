// Writes seed inputs for the fuzz targets: fz_seeds KIND DIR COUNT SEED
#include "msg_gen.hpp"
#include "ref_codec.hpp"
#include "desc.hpp"
using namespace ref;
static void save(const std::string& dir, int i, const Bytes& b) {
  std::ofstream o(dir + "/seed" + std::to_string(i), std::ios::binary);
  o.write((const char*)b.data(), long(b.size()));
}
int main(int argc, char** argv) {
  const std::string kind = argv[1], dir = argv[2];
  const int count = atoi(argv[3]);
  const uint64_t seed = strtoull(argv[4], nullptr, 10);
  for (int i = 0, made = 0; made < count && i < count * 20; ++i) {
    Src s(pbt::mix(seed, uint64_t(i)));
    Ctx ctx;
    try {
      InfoOpts o;
      o.versions = {5, 4, 3, 2, 5};
      o.opts = {EncodingOptions::LOSSY, EncodingOptions::LOSSY, EncodingOptions::LOSSLESS, EncodingOptions::NONE};
      o.threads_choice = false;
      o.max_fields = 4;
      if (kind == "msg") o.versions = {5};
      Cloud c = genSmallCloud(s, ctx, o, 6, true);
      auto cols = columnsOf(c);
      std::string d;
      for (size_t k = 0; k < cols.size(); ++k)
        if (coderOf(c.info, c.info.fields[k]) == Coder::LOSSY) genTickColumn(s, cols[k], c.info.fields[k].type, d);
      WriterChoices ch;
      ch.rng = Rng(s.seed());
      ch.odd_windows = true;
      ch.mode = [&](size_t k, size_t) { return int((k + size_t(i)) % 4); };
      Rng hr(s.seed());
      if (kind == "stream") {
        EncodingInfo raw = c.info;
        raw.compression_opt = CompressionOption::NONE;
        const bool below = s.chance(1, 2);
        Bytes b = s.chance(1, 2) ? writeHeaderText(c.info, hr) : writeHeaderBinary(c.info);
        Bytes p = writePayload(below ? raw : c.info, cols, c.n, ch);
        b.insert(b.begin(), uint8_t(below ? 1 : 0) | uint8_t(s.draw(4) << 1));
        b.insert(b.end(), p.begin(), p.end());
        save(dir, made++, b);
      } else if (kind == "yaml") {
        Bytes b = writeHeaderText(c.info, hr);
        b.erase(b.begin(), b.begin() + 13);
        b.pop_back();
        save(dir, made++, b);
      } else {
        refcdr::Msg m = genMsg(s, c);
        if (s.chance(1, 2)) {  // compressed message
          Bytes h = writeHeaderText(c.info, hr), p = writePayload(c.info, cols, c.n, ch);
          h.insert(h.end(), p.begin(), p.end());
          m.data = h;
          m.compressed = true;
          m.format = "cloudini";
        }
        Bytes b = refcdr::write(m);
        b.insert(b.begin(), uint8_t(s.draw(256)));
        save(dir, made++, b);
      }
    } catch (const pbt::Discard&) {
    }
  }
}
