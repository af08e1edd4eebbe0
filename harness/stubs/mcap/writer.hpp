#pragma once
#include "types.hpp"
namespace mcap {
struct McapWriterOptions {
  bool noChunking = false, noMessageIndex = false, noSummary = false, noChunkCRC = false;
  uint64_t chunkSize = 768 * 1024;
  Compression compression = Compression::Zstd;
  int compressionLevel = 0;
  std::string profile, library = "stand-in";
  McapWriterOptions(const std::string_view p) : profile(p) {}
};
class McapWriter {
 public:
  ~McapWriter() { close(); }
  Status open(std::string_view name, const McapWriterOptions& o) {
    close();
    rec_ = {};
    rec_.profile = o.profile;
    rec_.library = o.library;
    rec_.compression = int(o.compression);
    out_.open(std::string(name), std::ios::binary | std::ios::trunc);
    if (!out_) return StatusCode::OpenFailed;
    open_ = true;
    return StatusCode::Success;
  }
  void close() {
    if (!open_) return;
    const std::string b = mcapstub::serialize(rec_);
    out_.write(b.data(), std::streamsize(b.size()));
    out_.close();
    open_ = false;
  }
  void terminate() {
    out_.close();
    open_ = false;
  }
  void addSchema(Schema& s) {
    s.id = SchemaId(rec_.schemas.size() + 1);
    rec_.schemas.push_back(s);
  }
  void addChannel(Channel& c) {
    c.id = ChannelId(rec_.channels.size() + 1);
    rec_.channels.push_back(c);
  }
  Status write(const Message& m) {
    if (!open_) return StatusCode::NotOpen;
    if (m.channelId == 0 || m.channelId > rec_.channels.size()) return StatusCode::InvalidChannelId;
    const auto& c = rec_.channels[m.channelId - 1u];
    if (c.schemaId > rec_.schemas.size()) return StatusCode::InvalidSchemaId;
    mcapstub::Msg x;
    x.channel = m.channelId;
    x.sequence = m.sequence;
    x.logTime = m.logTime;
    x.publishTime = m.publishTime;
    x.data.assign(reinterpret_cast<const char*>(m.data), m.dataSize);
    rec_.messages.push_back(x);
    return StatusCode::Success;
  }
  Status write(const Metadata& m) {
    if (!open_) return StatusCode::NotOpen;
    rec_.metadata.push_back(m);
    return StatusCode::Success;
  }
  Status write(Attachment&) { return StatusCode::Success; }
  const Statistics& statistics() const { return stats_; }

 private:
  bool open_ = false;
  std::ofstream out_;
  mcapstub::Recording rec_;
  Statistics stats_;
};
}  // namespace mcap
