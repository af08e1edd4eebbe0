// Coverage-guided part of C06: header and payload from arbitrary bytes.
// First byte: bit 0 = the chunks are given before the second stage and get compressed here; bits 1-2 = output mode.
#include "capped_new.hpp"
#include <memory>
#include "fz.hpp"
#include "ref_codec.hpp"
using namespace ref;
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
  if (size < 1) return 0;
  fz::begin();
  const uint8_t flags = data[0];
  std::unique_ptr<uint8_t[]> block(new uint8_t[size - 1]);
  memcpy(block.get(), data + 1, size - 1);
  ConstBufferView v(block.get(), size - 1);
  static PointcloudDecoder* reused = new PointcloudDecoder;
  try {
    EncodingInfo info = DecodeHeader(v);
    fz::deep(data, size);
    std::unique_ptr<uint8_t[]> payload;
    size_t plen = v.size();
    if ((flags & 1) && info.compression_opt != CompressionOption::NONE) {
      Bytes out;
      Rng r(flags);
      const uint8_t* p = v.data();
      size_t left = v.size();
      if (info.version < 3) out = compress(info.compression_opt, Bytes(p, p + left), r);
      else
        while (left >= 4) {
          uint32_t n;
          memcpy(&n, p, 4);
          p += 4; left -= 4;
          if (n > left) n = uint32_t(left);
          Bytes z = compress(info.compression_opt, Bytes(p, p + n), r);
          putLE<uint32_t>(out, uint32_t(z.size()));
          out.insert(out.end(), z.begin(), z.end());
          p += n; left -= n;
        }
      plen = out.size();
      payload.reset(new uint8_t[plen]);
      memcpy(payload.get(), out.data(), plen);
    } else {
      payload.reset(new uint8_t[plen]);
      if (plen) memcpy(payload.get(), v.data(), plen);
    }
    ConstBufferView pv(payload.get(), plen);
    const unsigned __int128 need = (unsigned __int128)(info.width) * info.height * info.point_step;
    size_t osz = need <= (1u << 20) ? size_t(need) : 4096;
    if ((flags & 6) == 6) osz = osz / 2;
    std::unique_ptr<uint8_t[]> o(new uint8_t[osz]);
    PointcloudDecoder fresh;
    PointcloudDecoder& d = (flags & 2) ? *reused : fresh;
    d.decode(info, pv, BufferView(o.get(), osz));
    fz::accepted();
  } catch (const std::exception&) {
  }
  return 0;
}
