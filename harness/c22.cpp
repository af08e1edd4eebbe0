// C22: the Python decoder module against the C++ library.
#include "capped_new.hpp"
#include <map>
#include <set>
#include "msg_gen.hpp"
#include "mutate.hpp"
#include "coproc.hpp"
using namespace gen;
using namespace cloudini_ros;
static CoProc& server() {
  static CoProc p({getenv("VF_PYTHON"), getenv("VF_SERVER")});
  return p;
}
static std::string hexOf(const std::string& s) {
  static const char* h = "0123456789abcdef";
  std::string r;
  for (unsigned char c : s) { r += h[c >> 4]; r += h[c & 15]; }
  return r;
}
struct Got {
  bool exc = false, empty = false;
  std::string why;
  std::map<std::string, std::string> head;
  std::vector<std::map<std::string, std::string>> fields;
  std::vector<size_t> shape;
  size_t item = 0;
  std::map<std::string, std::pair<std::string, size_t>> dtype;  // hex name -> kind+size, offset
  std::vector<uint8_t> data;
};
static Got ask(Ctx& ctx, char op, const std::vector<uint8_t>& msg) {
  auto r = server().call(op, msg);
  if (r.dead) ctx.fail("the decoder process crashed");
  Got g;
  g.data = std::move(r.data);
  for (auto& l : r.lines()) {
    std::istringstream i(l);
    std::string k;
    i >> k;
    if (k == "EXC") { g.exc = true; g.why = l; }
    else if (k == "EMPTY") g.empty = true;
    else if (k == "HEAP") ctx.fail("memory of the module: ", l);
    else if (k == "LEAK") ctx.fail("blocks of memory were not released: ", l);
    else if (k == "H") { std::string a, b; i >> a >> b; g.head[a] = b; }
    else if (k == "F") {
      g.fields.emplace_back();
      std::string kv;
      while (i >> kv) { auto e = kv.find('='); g.fields.back()[kv.substr(0, e)] = kv.substr(e + 1); }
    } else if (k == "SHAPE") { size_t v; while (i >> v) g.shape.push_back(v); }
    else if (k == "ITEM") i >> g.item;
    else if (k == "T") { std::string n, t; size_t off; int nat; i >> n >> t >> off >> nat; g.dtype[n] = {t, off}; if (!nat) ctx.fail("field is not in native byte order"); }
  }
  return g;
}
static const char* typeText(FieldType t) {
  switch (t) {
    case FieldType::INT8: return "INT8"; case FieldType::UINT8: return "UINT8"; case FieldType::INT16: return "INT16"; case FieldType::UINT16: return "UINT16";
    case FieldType::INT32: return "INT32"; case FieldType::UINT32: return "UINT32"; case FieldType::INT64: return "INT64"; case FieldType::UINT64: return "UINT64";
    case FieldType::FLOAT32: return "FLOAT32"; case FieldType::FLOAT64: return "FLOAT64"; default: return "?";
  }
}
static std::string npType(FieldType t) {
  const bool fl = t == FieldType::FLOAT32 || t == FieldType::FLOAT64;
  return std::string(fl ? "f" : isSigned(t) ? "i" : "u") + std::to_string(szOf(t));
}
static void checkHeader(Ctx& ctx, const Got& g, const EncodingInfo& i) {
  ctx.check();
  auto num = [&](const char* k, uint64_t v) {
    auto it = g.head.find(k);
    ctx.require(it != g.head.end() && it->second == "i" + std::to_string(v), "header: ", k, " is ", it == g.head.end() ? std::string("missing") : it->second, " instead of ", v);
  };
  num("version", i.version);
  num("width", i.width);
  num("height", i.height);
  num("point_step", i.point_step);
  auto text = [&](const char* k, const std::string& v) {
    auto it = g.head.find(k);
    ctx.require(it != g.head.end() && it->second == "s" + hexOf(v), "header: ", k, " is ", it == g.head.end() ? std::string("missing") : it->second, " instead of ", v);
  };
  text("encoding_opt", i.encoding_opt == EncodingOptions::LOSSY ? "LOSSY" : i.encoding_opt == EncodingOptions::LOSSLESS ? "LOSSLESS" : "NONE");
  text("compression_opt", i.compression_opt == CompressionOption::ZSTD ? "ZSTD" : i.compression_opt == CompressionOption::LZ4 ? "LZ4" : "NONE");
  ctx.require(g.fields.size() == i.fields.size(), "header: ", g.fields.size(), " fields instead of ", i.fields.size());
  for (size_t k = 0; k < i.fields.size(); ++k) {
    auto f = g.fields[k];
    auto& e = i.fields[k];
    ctx.require(f["name"] == "s" + hexOf(e.name), "header: name of field ", k, " is ", f["name"], " (hex) instead of s", hexOf(e.name), " ('", e.name, "')");
    ctx.require(f["offset"] == "i" + std::to_string(e.offset), "header: offset of ", e.name, " is ", f["offset"]);
    ctx.require(f["type"] == "s" + hexOf(typeText(e.type)), "header: type of ", e.name, " is ", f["type"]);
    if (e.resolution) {
      double v = NAN;
      const std::string& t = f["resolution"];
      if (!t.empty() && t[0] == 'f') v = strtod(t.c_str() + 1, nullptr);
      if (!t.empty() && t[0] == 'i') v = strtod(t.c_str() + 1, nullptr);
      ctx.require(float(v) == *e.resolution, "header: resolution of ", e.name, " is ", t, " instead of ", *e.resolution);
    } else {
      ctx.require(f["resolution"] == "null" || f["resolution"].empty(), "header: resolution of ", e.name, " is ", f["resolution"], " instead of none");
    }
  }
}
static void checkData(Ctx& ctx, const Got& g, const EncodingInfo& i, const std::vector<uint8_t>& want) {
  ctx.check();
  const size_t n = size_t(i.width) * i.height;
  ctx.require(g.shape.size() == 1 && g.shape[0] == n, "shape is not (", n, ",)");
  ctx.require(g.item == i.point_step, "item size ", g.item, " instead of ", i.point_step);
  ctx.require(g.dtype.size() == i.fields.size(), "array has ", g.dtype.size(), " fields instead of ", i.fields.size());
  ctx.require(g.data.size() == want.size(), "array has ", g.data.size(), " bytes instead of ", want.size());
  for (auto& f : i.fields) {
    auto it = g.dtype.find(hexOf(f.name));
    ctx.require(it != g.dtype.end(), "field '", f.name, "' is missing in the array");
    ctx.require(it->second.first == npType(f.type), "field '", f.name, "' is ", it->second.first, " in the array instead of ", npType(f.type));
    ctx.require(it->second.second == f.offset, "field '", f.name, "' is at ", it->second.second, " in the array instead of ", f.offset);
    for (size_t k = 0; k < n; ++k) {
      const uint64_t a = loadField(want.data(), i, f, k), b = loadField(g.data.data(), i, f, k);
      if (a != b) ctx.fail("point ", k, " of ", n, ", field '", f.name, "': ", std::hex, b, " in Python, ", a, " in C++");
    }
  }
}
struct Ref {
  bool ok = false;
  EncodingInfo info;
  std::vector<uint8_t> data;
  std::string why;
};
static Ref reference(const std::vector<uint8_t>& msg) {
  Ref r;
  try {
    auto pc = getDeserializedPointCloudMessage(viewOf(msg));
    ConstBufferView v = pc.data;
    r.info = DecodeHeader(v);
    PointcloudDecoder().decode(r.info, v, r.data);
    r.ok = true;
  } catch (const std::exception& e) { r.why = e.what(); }
  return r;
}
static void names(Src& s, EncodingInfo& info) {
  static const char* odd[] = {"a b", "x:y", "a: b", "#5", "col #3", "\"q\"", "it's", " lead", "trail ", "1", "007", "null", "None", "1.5", "- name: z", "fields:",
                              "temp\xC2\xB0" "C", "\xE7\x82\xB9", "back\\slash", "tab\tname", "new\nline", "width", "type", "~", "[1]", "{k: v}", "\xC2\xA0nbsp", "wide\xE2\x80\x83",
                              "a,b", "\\x41", "true", "\xC2\x85nel"};
  std::set<std::string> used;
  for (auto& f : info.fields) {
    if (s.chance(1, 4)) f.name = s.chance(1, 8) ? std::string(1 + s.draw(300), 'n') + std::to_string(s.draw(99)) : odd[s.draw(sizeof(odd) / sizeof(odd[0]))];
    while (!used.insert(f.name).second) f.name += "_";
  }
}
static std::vector<uint8_t> makeMsg(Src& s, Ctx& ctx, const Cloud& c) {
  refcdr::Msg m = genMsg(s, c);
  for (size_t i = 0; i < c.info.fields.size(); ++i) m.fields[i].name = c.info.fields[i].name;
  m.format = "cloudini";
  m.compressed = true;
  PointcloudEncoder e(c.info);
  e.encode(c.view(), m.data);
  ctx.note(showMsg(m));
  return refcdr::write(m);
}
static void verifyValid(Src& s, Ctx& ctx, const std::vector<uint8_t>& msg, const Cloud& c) {
  Ref r = reference(msg);
  if (!r.ok) throw pbt::Discard{};  // other properties judge the C++ library
  if (s.chance(1, 3)) {
    Got h = ask(ctx, 'H', msg);
    ctx.require(!h.exc && !h.empty, "get_header_info failed on a valid message: ", h.why);
    checkHeader(ctx, h, r.info);
  }
  Got g = ask(ctx, 'D', msg);
  ctx.require(!g.exc, "decode_message failed on a valid message: ", g.why);
  checkHeader(ctx, g, r.info);
  checkData(ctx, g, r.info, r.data);
  (void)c;
}
static void verifyBad(Src& s, Ctx& ctx, const std::vector<uint8_t>& msg) {
  Ref r = reference(msg);
  Got g = ask(ctx, s.chance(1, 5) ? 'H' : 'D', msg);
  if (g.exc) { ctx.label("corrupted: exception"); return; }
  if (g.shape.empty()) {  // header only
    if (g.empty) ctx.label("corrupted: empty header");
    return;
  }
  if (g.shape.size() == 1 && g.shape[0] == 0) { ctx.label("corrupted: no points"); return; }
  ctx.require(r.ok, "a message that the C++ library rejects (", r.why, ") was decoded in Python");
  ctx.label("corrupted: still decodes");
  ctx.require(g.data.size() == r.data.size(), "corrupted message: ", g.data.size(), " bytes in Python, ", r.data.size(), " in C++");
}
static void body(Src& s, Ctx& ctx, bool small) {
  InfoOpts o;
  o.versions = {5, 4, 3};
  const size_t ops = 1 + s.weighted({3, 2, 2, 1});
  bool any = false;
  for (size_t k = 0; k < ops; ++k) {
    Cloud c;
    if (small) {
      EncodingInfo info = genInfo(s, o);
      names(s, info);
      c = genCloudFor(s, ctx, info, s.draw(9));
    } else {
      InfoOpts w = o;
      const bool big = s.chance(1, 12);
      if (big) w.max_fields = 3;
      EncodingInfo info = big ? genInfo(s, w) : genInfoWide(s, w, 12);
      names(s, info);
      c = genCloudFor(s, ctx, info, fewPoints(big ? 40000 + s.draw(160000) : genN(s, NOpts{.max = 40000, .zero = true, .chunk_w = 1, .multi_w = 1}), info));
      ctx.labelIf(big, "large cloud");
    }
    ctx.labelIf(c.n == 0, "empty cloud");
    for (auto& f : c.info.fields) ctx.label(std::string("type:") + tname(f.type));
    auto msg = makeMsg(s, ctx, c);
    if (s.chance(1, 3)) {
      auto bad = msg;
      size_t n = 1 + s.draw(3);
      for (size_t e = 0; e < n; ++e) ctx.note(" [" + mut::edit(s, bad, 0, bad.size()) + "]");
      verifyBad(s, ctx, bad);
    }
    if (s.chance(1, 4)) {  // the module runs out of memory once
      const Ref r = reference(msg);
      auto req = msg;
      req.insert(req.begin(), uint8_t(1 + s.draw(4)));
      ctx.note(" [allocation " + std::to_string(req[0]) + " fails]");
      Got g = ask(ctx, 'M', req);
      ctx.label(g.exc ? "out of memory: exception" : "out of memory: not noticed");
      if (!g.exc && r.ok) checkData(ctx, g, r.info, r.data);
    }
    verifyValid(s, ctx, msg, c);
    any |= c.n > 0;
  }
  ctx.labelIf(ops > 1, "several messages");
  ctx.nontrivial(any);
}
static std::vector<uint8_t> raw(const std::string& s) { return std::vector<uint8_t>(s.begin(), s.end()); }
// The command line tool on a whole recording
static void recording(Src& s, Ctx& ctx) {
  static const char* schemas[] = {"point_cloud_interfaces/msg/CompressedPointCloud2", "sensor_msgs/msg/PointCloud2", "std_msgs/msg/String", ""};
  const size_t nc = 1 + s.draw(4);
  std::vector<int> kind;
  std::ostringstream t;
  const bool indexed = !s.chance(1, 5), stats = !s.chance(1, 8);
  t << "{\"indexed\":" << (indexed ? "true" : "false") << ",\"statistics\":" << (stats ? "true" : "false") << ",\"channels\":[";
  for (size_t i = 0; i < nc; ++i) {
    kind.push_back(int(s.weighted({4, 1, 1, 1})));
    t << (i ? "," : "") << "{\"topic\":\"/t" << i << "\",\"schema\":\"" << schemas[kind.back()] << "\"}";
  }
  t << "],\"messages\":[";
  std::vector<uint8_t> body;
  struct Want { std::string topic; uint64_t t; size_t size; bool known, ok; size_t points, step; };
  std::vector<Want> want;
  const size_t nm = s.chance(1, 15) ? 50 + s.draw(300) : s.draw(7);
  for (size_t i = 0; i < nm; ++i) {
    const size_t ch = s.draw(nc);
    const uint64_t at = s.chance(1, 4) ? 1000000000 * s.draw(3) : s.draw(2000000000);
    std::vector<uint8_t> m;
    if (kind[ch] < 2) {
      InfoOpts o;
      o.max_fields = 4;
      EncodingInfo info = genInfo(s, o);
      names(s, info);
      Cloud c = genCloudFor(s, ctx, info, s.draw(nm > 20 ? 4 : 40));
      m = makeMsg(s, ctx, c);
      bool known = true;
      if (s.chance(1, 5)) { ctx.note(" [" + mut::edit(s, m, 0, m.size()) + "]"); known = false; }
      if (kind[ch] == 0) {
        Ref r = reference(m);
        if (known && !r.ok) throw pbt::Discard{};
        want.push_back({"/t" + std::to_string(ch), at, m.size(), known, r.ok, size_t(r.info.width) * r.info.height, r.info.point_step});
      }
    } else {
      m.resize(s.draw(20));
    }
    t << (i ? "," : "") << "{\"channel\":" << ch << ",\"t\":" << at << ",\"len\":" << m.size() << "}";
    body.insert(body.end(), m.begin(), m.end());
  }
  const size_t limit = s.chance(1, 3) ? 1 + s.draw(nm > 20 ? nm : 4) : 0;
  t << "],\"max\":" << limit << "}";
  ctx.note(t.str());
  std::stable_sort(want.begin(), want.end(), [](const Want& a, const Want& b) { return a.t < b.t; });  // the reader's order
  if (limit && want.size() > limit) want.resize(limit);
  auto req = raw(t.str() + "\n\n");
  req.insert(req.end(), body.begin(), body.end());
  auto r = server().call('R', req);
  ctx.check();
  if (r.dead) ctx.fail("the process of the tool crashed");
  std::vector<std::string> out;
  for (auto& l : r.lines()) {
    if (l.rfind("| ", 0) == 0) out.push_back(l.substr(2));
    else if (l.rfind("EXC", 0) == 0) ctx.fail("the tool ended with ", l);
    else if (l.rfind("HEAP", 0) == 0 || l.rfind("LEAK", 0) == 0) ctx.fail("memory of the module: ", l);
    else if (l.rfind("RC ", 0) == 0) ctx.require(l == "RC 0", "the tool returned ", l);
  }
  std::string all;
  for (auto& l : out) all += l + "\n";
  size_t at = 0;
  auto value = [&](const std::string& key) -> std::string {
    for (; at < out.size(); ++at) {
      const size_t p = out[at].find_first_not_of(' ');
      if (p != std::string::npos && out[at].compare(p, key.size(), key) == 0) return out[at++].substr(p + key.size());
    }
    ctx.fail("there is no '", key, "' (any more) in\n", all);
  };
  bool any = false;
  if (indexed) {
    if (stats) ctx.require(value("Message count: ") == std::to_string(nm), "the recording has ", nm, " messages:\n", all);
    ctx.require(value("Channels: ") == std::to_string(nc), "the recording has ", nc, " channels:\n", all);
    for (size_t i = 0; i < nc; ++i) value("Channel " + std::to_string(i + 1) + ": /t" + std::to_string(i) + " (cdr)");
  }
  for (auto& w : want) {
    ctx.require(value("Topic: ") == w.topic, "the next message is not the one of ", w.topic, ":\n", all);
    char sec[40];
    snprintf(sec, sizeof sec, "%.3fs", double(w.t) / 1e9);
    ctx.require(value("Timestamp: ") == sec, "timestamp is not ", sec, ":\n", all);
    // what follows up to the next message
    size_t e = at;
    while (e < out.size() && out[e].rfind("Topic: ", 0) != 0) ++e;
    bool ok = false, failed = false;
    std::string ratio;
    for (size_t k = at; k < e; ++k) {
      ok = ok || out[k].find("Decoded successfully") != std::string::npos;
      failed = failed || out[k].find("Failed to decode") != std::string::npos;
      const size_t q = out[k].find("Compression ratio: ");
      if (q != std::string::npos) ratio = out[k].substr(q + 19);
    }
    if (w.known) {
      ctx.require(ok && !failed, "a message that the C++ library decodes is not reported as decoded:\n", all);
      char x[40];
      const double v = double(w.points) * double(w.step) / double(w.size);
      snprintf(x, sizeof x, "%.2f", v);
      ctx.require(std::abs(atof(ratio.c_str()) - v) < 0.00501, "compression ratio is ", ratio, " instead of ", x);
      any = any || w.points;
    } else {
      ctx.label("damaged message in a recording");
      ctx.require(ok != failed, "a damaged message is neither decoded nor reported:\n", all);
      if (ok && w.points) ctx.require(w.ok, "a message that the C++ library rejects is reported as decoded");
    }
  }
  for (size_t k = at; k < out.size(); ++k) ctx.require(out[k].rfind("Topic: ", 0) != 0, "more messages are reported than there are:\n", all);
  ctx.require(value("Messages parsed: ") == std::to_string(want.size()), "the number of messages is not ", want.size(), ":\n", all);
  ctx.labelIf(!indexed, "recording without an index");
  ctx.label("recording");
  ctx.nontrivial(any);
}
int main(int argc, char** argv) {
  auto small = [](Src& s, Ctx& ctx) { body(s, ctx, true); };
  auto bulk = [](Src& s, Ctx& ctx) { body(s, ctx, false); };
  auto many = [](Src& s, Ctx& ctx) {  // descriptions of many fields
    EncodingInfo info;
    info.compression_opt = CompressionOption::ZSTD;
    info.use_threads = false;
    const size_t nf = 20 + s.draw(s.chance(1, 4) ? 380 : 120);
    for (size_t i = 0; i < nf; ++i) {
      PointField f;
      f.name = "field_" + std::to_string(i) + std::string(s.draw(20), 'x');
      f.type = s.pick(allTypes());
      if (s.chance(1, 3)) f.resolution = 0.001f;
      info.fields.push_back(f);
    }
    info.point_step = genLayout(s, info.fields);
    Cloud c = genCloudFor(s, ctx, info, s.draw(5));
    auto msg = makeMsg(s, ctx, c);
    ctx.nontrivial();
    verifyValid(s, ctx, msg, c);
  };
  auto large = [](Src& s, Ctx& ctx) {  // clouds of tens of megabytes
    EncodingInfo info;
    info.compression_opt = CompressionOption::ZSTD;
    info.fields = {{"x", 0, FieldType::FLOAT32, 0.001f}, {"id", 4, FieldType::UINT64, std::nullopt}};
    info.point_step = uint32_t(64 + s.draw(64));
    Cloud c;
    c.n = (size_t{30} << 20) / info.point_step + s.draw((size_t{20} << 20) / info.point_step);
    info.width = uint32_t(c.n);
    info.height = 1;
    c.info = info;
    c.data.resize(c.n * info.point_step);
    for (size_t i = 0; i < c.n; ++i) storeField(c.data, info, info.fields[1], i, i / 3);
    ctx.note(descr(info));
    auto msg = makeMsg(s, ctx, c);
    ctx.nontrivial();
    verifyValid(s, ctx, msg, c);
  };
  return pbt::run(argc, argv, "C22",
      "A case is a sequence of 1 to 4 compressed messages, some preceded by a corrupted one, given to one Python decoder object; every reported "
      "value and type is compared with the C++ library, and the heap of the module is guarded. Non-trivial: at least one message with points.",
      {{"small", small, 9000, 200000}, {"bulk", bulk, 4000, 60000}, {"many_fields", many, 400, 6000}, {"large", large, 4, 40}, {"recording", recording, 16000, 200000}});
}
