// C32: the web page reports the sizes of the clouds of a recording.
#include "capped_new.hpp"
#include "coproc.hpp"
#include "mutate.hpp"
#include "rec_gen.hpp"
using namespace recs;
namespace {
CoProc& node() {
  static CoProc p({"node", "--expose-gc", getenv("VF_NODE_SERVER")});
  return p;
}
std::string quoted(const std::string& s) {
  std::string r = "\"";
  char b[8];
  for (unsigned char c : s) {
    if (c < 0x20 || c == '"' || c == '\\' || c == 0x7f) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += char(c);
  }
  return r + "\"";
}
struct Chan { uint16_t id, schema; std::string topic; };
struct Sch { uint16_t id; std::string name; };
struct Message { uint16_t ch; std::vector<uint8_t> data; uint64_t t = 0; uint64_t size = 0; };  // size: of the compressed data, 0 if it cannot be compressed
// The number of points and the data may not agree; such messages may be refused
bool whole(const std::vector<uint8_t>& b) {
  try {
    RosPointCloud2 pc = getDeserializedPointCloudMessage(viewOf(b));
    return (unsigned __int128)(uint64_t(pc.width) * pc.height) * pc.point_step == pc.data.size();
  } catch (const std::exception&) { return false; }
}
constexpr uint64_t kNoMemory = ~uint64_t{0};
uint64_t compressedSize(const std::vector<uint8_t>& b) {
  try {
    RosPointCloud2 pc = getDeserializedPointCloudMessage(viewOf(b));
    EncodingInfo i = toEncodingInfo(pc);
    for (auto& f : i.fields) if (f.type == FieldType::FLOAT32) f.resolution = 0.001f;
    std::vector<uint8_t> o;
    PointcloudEncoder(i).encode(pc.data, o);
    return o.size();
  } catch (const std::bad_alloc&) { return kNoMemory;  // e.g. a huge point step; others may have more memory
  } catch (const std::exception&) { return 0; }
}
std::string label(Src& s, bool odd) {
  std::string t = "/";
  t += s.pick({"points", "lidar/front", "a", "camera/depth/points", "t1"});
  if (odd) t += s.pick({" & co", "<b>bold</b>", "\"quoted\"", "'single'", "<script>alert(1)</script>", "&lt;", "</div>", "\xc3\xa9"});
  return t;
}
void page(Src& s, Ctx& ctx, bool large) {
  const size_t memory = (large ? size_t(s.pick({16, 1, 4})) : size_t(s.pick({1, 1, 4, 16}))) << 20;
  auto r0 = node().call('N', vec(std::to_string(memory) + " 64"));
  ctx.require(!r0.dead && r0.text == "OK", "the page cannot be loaded: ", r0.text);
  const size_t files = large ? 1 : 1 + s.draw(3);
  std::string before;  // the results shown so far
  for (size_t fi = 0; fi < files; ++fi) {
    std::vector<Sch> sch;
    std::vector<Chan> ch;
    std::vector<Message> msgs;
    const bool odd = s.chance(1, 5);
    const size_t ns = 1 + s.draw(4);
    for (size_t i = 0; i < ns; ++i) {
      Sch x;
      x.id = uint16_t(i + 1);
      x.name = s.weighted({3, 2}) == 0 ? kPc : s.pick({std::string("std_msgs/msg/String"), std::string("sensor_msgs/msg/PointCloud"), std::string("sensor_msgs/msg/PointCloud2Extra"), kComp, std::string("foxglove.PointCloud"), std::string("my<T>")});
      sch.push_back(x);
    }
    const size_t nc = s.draw(6);
    for (size_t i = 0; i < nc; ++i) {
      Chan c;
      c.id = uint16_t(i * 3 + s.draw(3));
      c.schema = s.chance(1, 10) ? uint16_t(0) : sch[s.draw(sch.size())].id;
      c.topic = label(s, odd && s.chance(1, 2)) + (s.chance(1, 2) ? std::to_string(i) : "");
      ch.push_back(c);
    }
    auto name = [&](uint16_t cid) -> std::string {
      for (auto& c : ch) if (c.id == cid) for (auto& x : sch) if (x.id == c.schema) return x.name;
      return "";
    };
    const size_t nm = ch.empty() ? 0 : (large ? 2 + s.draw(4) : s.chance(1, 15) ? 50 + s.draw(250) : s.draw(9));
    uint64_t bytes = 0;
    for (size_t i = 0; i < nm; ++i) {
      Message m;
      m.ch = ch[s.draw(ch.size())].id;
      m.t = s.draw(1000);
      if (name(m.ch) == kPc || s.chance(1, 4)) {
        InfoOpts o;
        o.max_fields = 5;
        o.threads_choice = false;
        EncodingInfo info = genInfo(s, o);
        for (auto& f : info.fields) if (f.type == FieldType::FLOAT32) f.resolution = 0.001f;
        Cloud c = genCloudFor(s, ctx, info, large ? 20000 + s.draw(20000) : s.draw(nm > 20 ? 6 : 120));
        refcdr::Msg g = genMsg(s, c);
        if (s.chance(1, 8)) {
          switch (s.draw(4)) {
            case 0: g.point_step = uint32_t(mut::oddNumber(s)); break;
            case 1: g.width = uint32_t(mut::oddNumber(s)); break;
            case 2: g.data.resize(s.draw(g.data.size() + 1)); break;
            default: if (g.fields.size()) g.fields[0].offset = g.point_step;
          }
        }
        m.data = refcdr::write(g);
        if (s.chance(1, 12)) m.data.resize(s.draw(m.data.size() + 1));
      } else {
        m.data.resize(s.draw(50));
        Rng g(s.seed());
        for (auto& b : m.data) b = uint8_t(g.next());
      }
      if (name(m.ch) == kPc) m.size = compressedSize(m.data);
      bytes += m.data.size();
      msgs.push_back(std::move(m));
    }
    const bool mcapName = !s.chance(1, 12), broken = s.chance(1, 15), scriptFails = s.chance(1, 20), moduleFails = s.chance(1, 20), atEnd = s.chance(1, 15), grow = s.chance(1, 4);
    const int failAt = s.chance(1, 6) ? int(s.draw(6)) : -1;
    const std::string file = std::string(odd && s.chance(1, 3) ? "a<i>b</i>" : "bag_0") + (mcapName ? ".mcap" : s.pick({".bag", ".mcap.zip", "", ".db3"}));
    std::ostringstream t;
    t << "{\"name\":" << quoted(file) << ",\"drop\":" << (s.chance(1, 2) ? "true" : "false") << ",\"broken\":" << (broken ? "true" : "false") << ",\"script_fails\":" << (scriptFails ? "true" : "false")
      << ",\"module_fails\":" << (moduleFails ? "true" : "false") << ",\"fails_at_end\":" << (atEnd ? "true" : "false") << ",\"growAfter\":" << (grow ? "true" : "false");
    if (failAt >= 0) t << ",\"failAt\":" << failAt;
    if (s.chance(1, 5)) {
      t << ",\"disturb\":" << s.draw(3);
      ctx.label("another file is dropped while the page is busy");
    }
    t << ",\"channels\":[";
    for (size_t i = 0; i < ch.size(); ++i) t << (i ? "," : "") << "{\"id\":" << ch[i].id << ",\"topic\":" << quoted(ch[i].topic) << ",\"schemaId\":" << ch[i].schema << "}";
    t << "],\"schemas\":[";
    for (size_t i = 0; i < sch.size(); ++i) t << (i ? "," : "") << "{\"id\":" << sch[i].id << ",\"name\":" << quoted(sch[i].name) << ",\"encoding\":\"ros2msg\"}";
    t << "],\"messages\":[";
    std::vector<uint8_t> body;
    for (size_t i = 0; i < msgs.size(); ++i) {
      t << (i ? "," : "") << "{\"ch\":" << msgs[i].ch << ",\"len\":" << msgs[i].data.size() << ",\"t\":" << msgs[i].t << ",\"seq\":" << i << "}";
      body.insert(body.end(), msgs[i].data.begin(), msgs[i].data.end());
    }
    t << "]}";
    ctx.note(t.str());
    auto req = vec(t.str() + "\n\n");
    req.insert(req.end(), body.begin(), body.end());
    auto r = node().call('F', req);
    ctx.check();
    ctx.require(!r.dead, "the process running the page crashed");
    std::string status;
    std::vector<std::string> res;
    std::vector<std::pair<int64_t, double>> did;
    for (auto& l : r.lines()) {
      if (l.rfind("STATUS ", 0) == 0) status = l.substr(7);
      else if (l.rfind("R ", 0) == 0) res.push_back(l.substr(2));
      else if (l.rfind("M ", 0) == 0) { int64_t v = 0; double x = 0; sscanf(l.c_str(), "M %ld %lf", &v, &x); did.push_back({v, x}); }
      else if (l.rfind("EXTRA ", 0) == 0) ctx.require(l == "EXTRA 0", "something else than the messages of the recording was compressed (", l, ")");
      else if (l.rfind("HEAP ", 0) == 0) ctx.fail("memory of the module: ", l);
      else if (l.rfind("LEAK ", 0) == 0) ctx.fail("blocks of memory were not released: ", l);
      else ctx.fail(l);
    }
    std::string text;
    for (auto& x : res) text += x + "\n";
    struct Keep { std::string& to; const std::string& from; ~Keep() { to = from; } } keep{before, text};
    std::vector<Chan> pcs;
    std::set<std::string> names;
    for (auto& c : ch) {
      if (!name(c.id).empty()) names.insert(name(c.id));
      if (name(c.id) == kPc) pcs.push_back(c);
    }
    if (!mcapName || broken || scriptFails || moduleFails) {
      ctx.require(status.find("rror") != std::string::npos, "status is '", status, "' although the file cannot be analysed");
      ctx.require(res.empty() || (!mcapName && text == before), "results are shown for a file that cannot be analysed:\n", text);
      ctx.label("refused");
      ctx.nontrivial();
      continue;
    }
    if (atEnd && !pcs.empty()) {
      ctx.require(status.find("rror") != std::string::npos, "status is '", status, "' although the recording is damaged");
      ctx.require(res.empty(), "results are shown for a damaged recording:\n", text);
      ctx.label("damaged recording");
      ctx.nontrivial();
      continue;
    }
    ctx.require(status == "File: " + file + " | Channels: " + std::to_string(ch.size()) + " | Schemas: " + std::to_string(names.size()), "status is '", status, "' for ", file, " with ", ch.size(), " channels of ", names.size(), " schemas");
    auto after = [&](const std::string& key) -> std::string {
      for (size_t i = 0; i + 1 < res.size(); ++i) if (res[i] == key) return res[i + 1];
      ctx.fail("there is no '", key, "' in\n", text);
    };
    if (pcs.empty()) {
      ctx.require(text.find("No PointCloud2 Channels Found") != std::string::npos, "results are\n", text);
      for (auto& n : names) ctx.require(std::find(res.begin(), res.end(), n) != res.end(), "schema '", n, "' is not listed in\n", text);
      ctx.label("no clouds");
      continue;
    }
    ctx.require(text.find("Found " + std::to_string(pcs.size()) + " PointCloud2 Channel") != std::string::npos, "the number of channels is not ", pcs.size(), ":\n", text);
    // which messages were compressed, and what should have come out
    ctx.require(did.size() == msgs.size(), "protocol");
    uint64_t original = 0, compressed = 0, done = 0, all = 0;
    const bool starved = failAt >= 0;
    for (size_t i = 0; i < msgs.size(); ++i) {
      if (name(msgs[i].ch) != kPc) { ctx.require(did[i].first < 0, "message ", i, ", which is not a cloud, was compressed"); continue; }
      ++all;
      const bool large_msg = msgs[i].data.size() > memory / 4;
      if (did[i].first < 0) {  // not tried
        ctx.labelIf(large_msg, "message larger than a quarter of the memory");
        ctx.require(large_msg || starved || msgs[i].data.empty(), "message ", i, " of ", msgs[i].data.size(), " bytes was left out");
        continue;
      }
      ctx.require(std::abs(did[i].second - 0.001) < 1e-9, "compressed with a resolution of ", did[i].second, " instead of one millimetre");
      if (msgs[i].size == kNoMemory) msgs[i].size = uint64_t(did[i].first);
      if (did[i].first == 0 && !whole(msgs[i].data)) continue;
      ctx.require(uint64_t(did[i].first) == msgs[i].size, "message ", i, " compresses to ", did[i].first, " bytes instead of ", msgs[i].size);
      if (!msgs[i].size) continue;
      original += msgs[i].data.size();
      compressed += msgs[i].size;
      ++done;
    }
    std::map<std::string, std::multiset<size_t>> counts;  // messages of the channels of a topic
    for (auto& c : pcs) {
      size_t k = 0;
      for (auto& m : msgs) k += m.ch == c.id;
      counts[c.topic].insert(k);
    }
    std::map<std::string, std::multiset<size_t>> shown;
    for (size_t i = 0; i < res.size(); ++i)
      if (res[i] == "Messages:" && i + 1 < res.size()) {
        size_t k = i;
        while (k > 0 && res[k] != "Schema:") --k;
        ctx.require(k > 0, "no topic in\n", text);
        shown[res[k - 1]].insert(size_t(atoll(res[i + 1].c_str())));
      }
    ctx.require(shown == counts, "topics and numbers of messages are not those of the recording:\n", text);
    auto number = [&](const std::string& key) {
      const std::string v = after(key);
      char* e = nullptr;
      const double d = strtod(v.c_str(), &e);
      ctx.require(e != v.c_str(), key, " is '", v, "'");
      return d;
    };
    const double o = number("Original Size (uncompressed)"), c = number("Compressed Size"), q = number("Compression Ratio");
    ctx.require(std::abs(o - double(original) / 1048576.0) <= 0.0501, "original size is ", o, " MB instead of ", original, " bytes (", done, " of ", all, " messages)");
    ctx.require(std::abs(c - double(compressed) / 1048576.0) <= 0.0501, "compressed size is ", c, " MB instead of ", compressed, " bytes");
    if (original) ctx.require(std::abs(q - double(compressed) / double(original)) <= 0.000501, "compression ratio is ", q, " instead of ", double(compressed) / double(original), " (", done, " of ", all, " messages)");
    ctx.labelIf(done < all, "messages that cannot be compressed");
    ctx.labelIf(counts.size() < pcs.size(), "channels of the same topic");
    ctx.labelIf(odd, "text that needs escaping");
    ctx.label("analysed");
    ctx.nontrivial(done > 0);
  }
  ctx.labelIf(files > 1, "several files");
}
}  // namespace
int main(int argc, char** argv) {
  return pbt::run(argc, argv, "C32",
      "A case gives generated recordings (channels, schemas, clouds, some damaged; failing allocations, growing memory, failing downloads) to the web page one after another and compares what the page shows "
      "with the library. Non-trivial: a cloud was compressed or a file refused.",
      {{"small", [](Src& s, Ctx& c) { page(s, c, false); }, 14000, 150000, 30}, {"large", [](Src& s, Ctx& c) { page(s, c, true); }, 1200, 15000, 60}});
}
