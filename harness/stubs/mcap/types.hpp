// Stand-in for the mcap library (not installed here): same interface for what the tools use, its own simple file format.
// It keeps the rules that matter: ids are assigned by the writer, schema id 0 means "no schema" (null pointer), a message's
// data is valid only until the next message is read, and writing to an unknown channel or schema is an error.
#pragma once
#include <cstddef>
#include <cstdint>
#include <algorithm>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <unordered_map>
#include <vector>
namespace mcap {
using SchemaId = uint16_t;
using ChannelId = uint16_t;
using Timestamp = uint64_t;
using ByteOffset = uint64_t;
using ByteArray = std::vector<std::byte>;
using KeyValueMap = std::unordered_map<std::string, std::string>;
constexpr Timestamp MaxTime = std::numeric_limits<Timestamp>::max();
enum class StatusCode { Success = 0, NotOpen, InvalidSchemaId, InvalidChannelId, FileTooSmall, ReadFailed, MagicMismatch, InvalidFile, InvalidRecord, OpenFailed };
struct Status {
  StatusCode code;
  std::string message;
  Status() : code(StatusCode::Success) {}
  Status(StatusCode c) : code(c), message(c == StatusCode::Success ? "" : "error " + std::to_string(int(c))) {}
  Status(StatusCode c, const std::string& m) : code(c), message(m) {}
  bool ok() const { return code == StatusCode::Success; }
};
enum class Compression { None, Lz4, Zstd };
enum class OpCode : uint8_t { Metadata = 0x0C, Attachment = 0x09 };
struct Record {
  OpCode opcode = OpCode::Metadata;
  uint64_t dataSize = 0;
  std::byte* data = nullptr;
};
struct Header {
  std::string profile, library;
};
struct Schema {
  SchemaId id = 0;
  std::string name, encoding;
  ByteArray data;
  Schema() = default;
  Schema(const std::string_view n, const std::string_view e, const std::string_view d) : name(n), encoding(e) {
    data.resize(d.size());
    if (!d.empty()) std::memcpy(data.data(), d.data(), d.size());
  }
  Schema(const std::string_view n, const std::string_view e, const ByteArray& d) : name(n), encoding(e), data(d) {}
};
struct Channel {
  ChannelId id = 0;
  std::string topic, messageEncoding;
  SchemaId schemaId = 0;
  KeyValueMap metadata;
  Channel() = default;
  Channel(const std::string_view t, const std::string_view e, SchemaId s, const KeyValueMap& m = {}) : topic(t), messageEncoding(e), schemaId(s), metadata(m) {}
};
using SchemaPtr = std::shared_ptr<Schema>;
using ChannelPtr = std::shared_ptr<Channel>;
struct Message {
  ChannelId channelId = 0;
  uint32_t sequence = 0;
  Timestamp logTime = 0, publishTime = 0;
  uint64_t dataSize = 0;
  const std::byte* data = nullptr;
};
struct Attachment {
  Timestamp logTime = 0, createTime = 0;
  std::string name, mediaType;
  uint64_t dataSize = 0;
  const std::byte* data = nullptr;
  uint32_t crc = 0;
};
struct Metadata {
  std::string name;
  KeyValueMap metadata;
};
struct MetadataIndex {
  uint64_t offset = 0, length = 0;
  std::string name;
};
struct AttachmentIndex {
  ByteOffset offset = 0, length = 0;
  Timestamp logTime = 0, createTime = 0;
  uint64_t dataSize = 0;
  std::string name, mediaType;
};
struct Statistics {
  uint64_t messageCount = 0;
  uint16_t schemaCount = 0;
  uint32_t channelCount = 0, attachmentCount = 0, metadataCount = 0, chunkCount = 0;
  Timestamp messageStartTime = 0, messageEndTime = 0;
  std::unordered_map<ChannelId, uint64_t> channelMessageCounts;
};
using ProblemCallback = std::function<void(const Status&)>;
}  // namespace mcap

// The stand-in's file content; used by the harness as well.
namespace mcapstub {
using mcap::KeyValueMap;
struct Msg {
  uint16_t channel = 0;
  uint32_t sequence = 0;
  uint64_t logTime = 0, publishTime = 0;
  std::string data;
};
struct Recording {
  std::string profile, library;
  int compression = 0;
  std::vector<mcap::Schema> schemas;
  std::vector<mcap::Channel> channels;
  std::vector<Msg> messages;
  std::vector<mcap::Metadata> metadata;
  std::vector<uint64_t> metadataOffsets;
};
constexpr const char* kMagic = "STANDIN-MCAP-1\n";
struct Out {
  std::string b;
  void num(uint64_t v) { b.append(reinterpret_cast<const char*>(&v), 8); }
  void str(const std::string& s) { num(s.size()); b += s; }
  void kv(const KeyValueMap& m) {
    num(m.size());
    for (auto& [k, v] : std::map<std::string, std::string>(m.begin(), m.end())) { str(k); str(v); }
  }
};
struct In {
  const std::string& b;
  size_t p;
  uint64_t num() {
    if (p + 8 > b.size()) throw std::runtime_error("truncated");
    uint64_t v;
    std::memcpy(&v, b.data() + p, 8);
    p += 8;
    return v;
  }
  std::string str() {
    const uint64_t n = num();
    if (n > b.size() - p) throw std::runtime_error("truncated");
    std::string s = b.substr(p, n);
    p += n;
    return s;
  }
  KeyValueMap kv() {
    KeyValueMap m;
    for (uint64_t n = num(); n; --n) { std::string k = str(); m[k] = str(); }
    return m;
  }
};
inline std::string serialize(const Recording& r) {
  Out o;
  o.b = kMagic;
  o.str(r.profile);
  o.str(r.library);
  o.num(uint64_t(r.compression));
  o.num(r.schemas.size());
  for (auto& s : r.schemas) { o.num(s.id); o.str(s.name); o.str(s.encoding); o.str(std::string(reinterpret_cast<const char*>(s.data.data()), s.data.size())); }
  o.num(r.channels.size());
  for (auto& c : r.channels) { o.num(c.id); o.str(c.topic); o.str(c.messageEncoding); o.num(c.schemaId); o.kv(c.metadata); }
  o.num(r.messages.size());
  for (auto& m : r.messages) { o.num(m.channel); o.num(m.sequence); o.num(m.logTime); o.num(m.publishTime); o.str(m.data); }
  o.num(r.metadata.size());
  for (auto& m : r.metadata) { o.str(m.name); o.kv(m.metadata); }
  o.str("end");
  return o.b;
}
inline Recording parse(const std::string& b) {
  if (b.compare(0, std::strlen(kMagic), kMagic) != 0) throw std::runtime_error("no magic");
  In i{b, std::strlen(kMagic)};
  Recording r;
  r.profile = i.str();
  r.library = i.str();
  r.compression = int(i.num());
  for (uint64_t n = i.num(); n; --n) {
    mcap::Schema s;
    s.id = uint16_t(i.num());
    s.name = i.str();
    s.encoding = i.str();
    const std::string d = i.str();
    s.data.resize(d.size());
    if (!d.empty()) std::memcpy(s.data.data(), d.data(), d.size());
    r.schemas.push_back(s);
  }
  for (uint64_t n = i.num(); n; --n) {
    mcap::Channel c;
    c.id = uint16_t(i.num());
    c.topic = i.str();
    c.messageEncoding = i.str();
    c.schemaId = uint16_t(i.num());
    c.metadata = i.kv();
    r.channels.push_back(c);
  }
  for (uint64_t n = i.num(); n; --n) {
    Msg m;
    m.channel = uint16_t(i.num());
    m.sequence = uint32_t(i.num());
    m.logTime = i.num();
    m.publishTime = i.num();
    m.data = i.str();
    r.messages.push_back(m);
  }
  for (uint64_t n = i.num(); n; --n) {
    r.metadataOffsets.push_back(i.p);
    mcap::Metadata m;
    m.name = i.str();
    m.metadata = i.kv();
    r.metadata.push_back(m);
  }
  if (i.str() != "end") throw std::runtime_error("no end");
  return r;
}
}  // namespace mcapstub
