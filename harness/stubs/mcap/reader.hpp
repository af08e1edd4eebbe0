#pragma once
#include "types.hpp"
namespace mcap {
struct IReadable {
  virtual ~IReadable() = default;
  virtual uint64_t size() const = 0;
  virtual uint64_t read(std::byte** output, uint64_t offset, uint64_t size) = 0;
};
class FileStreamReader final : public IReadable {
 public:
  FileStreamReader(std::ifstream& s) : stream_(s) {
    stream_.seekg(0, stream_.end);
    size_ = stream_.tellg();
    stream_.seekg(0, stream_.beg);
  }
  uint64_t size() const override { return uint64_t(size_); }
  uint64_t read(std::byte** output, uint64_t offset, uint64_t size) override {
    if (offset >= uint64_t(size_) || !stream_) return 0;
    if (offset != position_) { stream_.seekg(std::streamoff(offset)); position_ = offset; }
    if (size > buffer_.size()) buffer_.resize(size);
    stream_.read(reinterpret_cast<char*>(buffer_.data()), std::streamsize(size));
    *output = buffer_.data();
    const uint64_t n = uint64_t(stream_.gcount());
    position_ += n;
    return n;
  }

 private:
  std::ifstream& stream_;
  std::vector<std::byte> buffer_;
  std::streamoff size_ = 0;
  uint64_t position_ = 0;
};
enum struct ReadSummaryMethod { NoFallbackScan, AllowFallbackScan, ForceScan };
struct ReadMessageOptions {
  Timestamp startTime = 0, endTime = MaxTime;
  std::function<bool(std::string_view)> topicFilter;
  enum struct ReadOrder { FileOrder, LogTimeOrder, ReverseLogTimeOrder };
  ReadOrder readOrder = ReadOrder::FileOrder;
  ReadMessageOptions() = default;
  ReadMessageOptions(Timestamp a, Timestamp b) : startTime(a), endTime(b) {}
};
struct MessageView {
  const Message& message;
  const ChannelPtr channel;
  const SchemaPtr schema;
};
class McapReader;
class LinearMessageView {
 public:
  struct Iterator {
    using iterator_category = std::input_iterator_tag;
    using difference_type = int64_t;
    using value_type = MessageView;
    using pointer = const MessageView*;
    using reference = const MessageView&;
    reference operator*() const { return *view; }
    pointer operator->() const { return view.get(); }
    Iterator& operator++() { ++at; load(); return *this; }
    void operator++(int) { ++*this; }
    friend bool operator==(const Iterator& a, const Iterator& b) { return a.done() == b.done() && (a.done() || a.at == b.at); }
    friend bool operator!=(const Iterator& a, const Iterator& b) { return !(a == b); }
    bool done() const { return !owner || at >= owner->order.size(); }
    void load();
    const LinearMessageView* owner = nullptr;
    size_t at = 0;
    std::shared_ptr<MessageView> view;
    std::shared_ptr<Message> msg;
    std::unique_ptr<std::byte[]> data;
    size_t size = 0;
    ~Iterator() { wipe(); }
    Iterator() = default;
    Iterator(Iterator&&) = default;
    void wipe() { if (data) std::memset(data.get(), 0xDD, size); data.reset(); }
  };
  Iterator begin() const {
    Iterator i;
    i.owner = this;
    i.load();
    return i;
  }
  Iterator end() const { return Iterator(); }
  McapReader* reader = nullptr;
  ProblemCallback problem;
  std::vector<size_t> order;
};
class McapReader {
 public:
  Status open(IReadable& r) {
    if (r.size() < std::strlen(mcapstub::kMagic)) return StatusCode::FileTooSmall;
    if (r.size() > (uint64_t{1} << 40)) return StatusCode::ReadFailed;
    std::byte* p = nullptr;
    const uint64_t n = r.read(&p, 0, r.size());
    if (n != r.size()) return StatusCode::ReadFailed;
    try {
      rec_ = mcapstub::parse(std::string(reinterpret_cast<const char*>(p), n));
    } catch (const std::exception& e) {
      return Status(StatusCode::InvalidFile, e.what());
    }
    header_ = Header{rec_.profile, rec_.library};
    source_ = &r;
    return StatusCode::Success;
  }
  Status open(std::ifstream& s) { own_ = std::make_unique<FileStreamReader>(s); return open(*own_); }
  Status open(std::string_view name) {
    stream_.open(std::string(name), std::ios::binary);
    return open(stream_);
  }
  void close() { rec_ = {}; channels_.clear(); schemas_.clear(); metadataIndexes_.clear(); header_.reset(); source_ = nullptr; }
  Status readSummary(ReadSummaryMethod, const ProblemCallback& = [](const Status&) {}) {
    if (!source_) return StatusCode::NotOpen;
    for (auto& s : rec_.schemas) schemas_[s.id] = std::make_shared<Schema>(s);
    for (auto& c : rec_.channels) channels_[c.id] = std::make_shared<Channel>(c);
    for (size_t i = 0; i < rec_.metadata.size(); ++i) metadataIndexes_.insert({rec_.metadata[i].name, MetadataIndex{rec_.metadataOffsets[i], 0, rec_.metadata[i].name}});
    stats_.messageCount = rec_.messages.size();
    stats_.channelCount = uint32_t(rec_.channels.size());
    stats_.schemaCount = uint16_t(rec_.schemas.size());
    for (auto& m : rec_.messages) ++stats_.channelMessageCounts[m.channel];
    return StatusCode::Success;
  }
  LinearMessageView readMessages(const ProblemCallback& p, const ReadMessageOptions& o) {
    LinearMessageView v;
    v.reader = this;
    v.problem = p;
    for (size_t i = 0; i < rec_.messages.size(); ++i) {
      auto& m = rec_.messages[i];
      if (m.logTime < o.startTime || m.logTime >= o.endTime) continue;
      if (o.topicFilter && !o.topicFilter(channel(m.channel)->topic)) continue;
      v.order.push_back(i);
    }
    if (o.readOrder == ReadMessageOptions::ReadOrder::LogTimeOrder)
      std::stable_sort(v.order.begin(), v.order.end(), [&](size_t a, size_t b) { return rec_.messages[a].logTime < rec_.messages[b].logTime; });
    if (o.readOrder == ReadMessageOptions::ReadOrder::ReverseLogTimeOrder)
      std::stable_sort(v.order.begin(), v.order.end(), [&](size_t a, size_t b) { return rec_.messages[a].logTime > rec_.messages[b].logTime; });
    return v;
  }
  LinearMessageView readMessages(const ProblemCallback& p, Timestamp a = 0, Timestamp b = MaxTime) { return readMessages(p, ReadMessageOptions(a, b)); }
  LinearMessageView readMessages(Timestamp a = 0, Timestamp b = MaxTime) { return readMessages([](const Status&) {}, ReadMessageOptions(a, b)); }
  IReadable* dataSource() { return source_; }
  const std::optional<Header>& header() const { return header_; }
  const std::optional<Statistics> statistics() const { return stats_; }
  const std::unordered_map<ChannelId, ChannelPtr> channels() const { return channels_; }
  const std::unordered_map<SchemaId, SchemaPtr> schemas() const { return schemas_; }
  ChannelPtr channel(ChannelId id) const { auto i = channels_.find(id); return i == channels_.end() ? nullptr : i->second; }
  SchemaPtr schema(SchemaId id) const { auto i = schemas_.find(id); return i == schemas_.end() ? nullptr : i->second; }
  const std::multimap<std::string, MetadataIndex>& metadataIndexes() const { return metadataIndexes_; }
  const std::multimap<std::string, AttachmentIndex>& attachmentIndexes() const { return attachmentIndexes_; }
  static Status ReadRecord(IReadable& r, uint64_t offset, Record* out) {
    std::byte* p = nullptr;
    const uint64_t n = r.read(&p, offset, r.size() - offset);
    if (n == 0) return StatusCode::ReadFailed;
    out->opcode = OpCode::Metadata;
    out->data = p;
    out->dataSize = n;
    return StatusCode::Success;
  }
  static Status ParseMetadata(const Record& rec, Metadata* m) {
    try {
      const std::string b(reinterpret_cast<const char*>(rec.data), rec.dataSize);
      mcapstub::In i{b, 0};
      m->name = i.str();
      m->metadata = i.kv();
    } catch (const std::exception& e) {
      return Status(StatusCode::InvalidRecord, e.what());
    }
    return StatusCode::Success;
  }
  mcapstub::Recording rec_;

 private:
  std::unique_ptr<FileStreamReader> own_;
  std::ifstream stream_;
  IReadable* source_ = nullptr;
  std::optional<Header> header_;
  Statistics stats_;
  std::unordered_map<ChannelId, ChannelPtr> channels_;
  std::unordered_map<SchemaId, SchemaPtr> schemas_;
  std::multimap<std::string, MetadataIndex> metadataIndexes_;
  std::multimap<std::string, AttachmentIndex> attachmentIndexes_;
};
inline void LinearMessageView::Iterator::load() {
  wipe();
  view.reset();
  while (!done()) {
    auto& m = owner->reader->rec_.messages[owner->order[at]];
    const ChannelPtr c = owner->reader->channel(m.channel);
    const SchemaPtr s = c ? owner->reader->schema(c->schemaId) : nullptr;
    if (!c || (c->schemaId != 0 && !s)) {
      owner->problem(Status(StatusCode::InvalidChannelId));
      ++at;
      continue;
    }
    size = m.data.size();
    data.reset(new std::byte[size]);
    std::memcpy(data.get(), m.data.data(), size);
    msg = std::make_shared<Message>();
    msg->channelId = m.channel;
    msg->sequence = m.sequence;
    msg->logTime = m.logTime;
    msg->publishTime = m.publishTime;
    msg->dataSize = size;
    msg->data = data.get();
    view = std::make_shared<MessageView>(MessageView{*msg, c, s});
    return;
  }
}
}  // namespace mcap
