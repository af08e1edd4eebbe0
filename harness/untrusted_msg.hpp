// Everything the library can do with an untrusted message; used by the PBT and the fuzz target of C25.
#pragma once
#include <memory>
#include "msg_gen.hpp"
#include "cloudini_lib/ros_msg_utils.hpp"
namespace um {
using namespace gen;
using namespace cloudini_ros;
struct Outcome { bool parsed = false, done = false; std::string error; };
// op: bits 0-1: 0 = parse, 1 = decompress, 2 = compress, 3 = preprocess + compress; bits 2..: options
inline Outcome use(const uint8_t* p, size_t n, uint8_t op) {
  Outcome r;
  std::unique_ptr<uint8_t[]> block(new uint8_t[n]);
  if (n) memcpy(block.get(), p, n);
  try {
    RosPointCloud2 pc = getDeserializedPointCloudMessage(ConstBufferView(block.get(), n));
    r.parsed = true;
    // the view of the data lies inside the message
    if (pc.data.size()) {
      if (pc.data.data() < block.get() || pc.data.data() + pc.data.size() > block.get() + n) throw pbt::Fail("the data view lies outside of the message");
    }
    std::vector<uint8_t> out;
    if ((op & 3) == 0) {
      for (auto& f : pc.fields) (void)ToString(f.type);
      RosPointCloud2 copy = pc;
      (void)EncodingInfoToYAML(toEncodingInfo(copy));
    } else if ((op & 3) == 1) {
      convertCompressedCloudToPointCloud2(pc, out);
      RosPointCloud2 back = getDeserializedPointCloudMessage(ConstBufferView(out.data(), out.size()));
      if ((unsigned __int128)(back.width) * back.height * back.point_step != back.data.size()) throw pbt::Fail("the restored message does not contain the number of points it declares");
    } else {
      ResolutionProfile prof;
      if (op & 4) prof["x"] = 0;
      if (op & 8) prof["intensity"] = 0.5f;
      applyResolutionProfile(prof, pc.fields, (op & 16) ? std::optional<float>(0.01f) : std::nullopt);
      if ((op & 3) == 3) {
        const size_t before = pc.data.size();
        applyVizLossyPreprocessing(pc);
        if (pc.data.size() > before) throw pbt::Fail("preprocessing added data");
        unsigned s = 0;
        for (size_t i = 0; i < pc.data.size(); ++i) s += pc.data.data()[i];
        volatile unsigned keep = s;
        (void)keep;
      }
      EncodingInfo info = toEncodingInfo(pc);
      info.use_threads = false;
      info.compression_opt = CompressionOption((op >> 5) % 3);
      if (op & 128) info.encoding_opt = EncodingOptions::LOSSLESS;
      convertPointCloud2ToCompressedCloud(pc, info, out);
      RosPointCloud2 pc2 = getDeserializedPointCloudMessage(ConstBufferView(out.data(), out.size()));
      std::vector<uint8_t> back;
      r.done = true;
      convertCompressedCloudToPointCloud2(pc2, back);  // may fail: the declared dimensions need not match the data
    }
    r.done = true;
  } catch (const pbt::Fail&) {
    throw;
  } catch (const std::exception& e) {
    r.error = e.what();
  }
  return r;
}
}  // namespace um
