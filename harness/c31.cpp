// C31: the inspection and measurement tools report what a recording contains.
#include "cli.hpp"
#include "rec_gen.hpp"
using namespace recs;
namespace {
struct TempDir : cli::TempDir { TempDir() : cli::TempDir("c31") {} };
using cli::put;
std::string trim(const std::string& s) {
  const size_t a = s.find_first_not_of(" \t\r"), b = s.find_last_not_of(" \t\r");
  return a == std::string::npos ? "" : s.substr(a, b - a + 1);
}
std::vector<std::string> linesOf(const std::string& t) {
  std::vector<std::string> r;
  std::istringstream i(t);
  for (std::string l; std::getline(i, l);) r.push_back(l);
  return r;
}
// The value of "key: value", the first one at or after line `from` (which is moved behind it)
std::optional<std::string> valueOf(const std::vector<std::string>& l, const std::string& key, size_t& from) {
  for (size_t i = from; i < l.size(); ++i) {
    const std::string t = trim(l[i]);
    if (t.rfind(key + ":", 0) == 0) { from = i + 1; return trim(t.substr(key.size() + 1)); }
  }
  return std::nullopt;
}
// Mostly recordings in which there is something of the kind that the tool looks for
void steer(Src& s, Rec& rec, const std::string& kind) {
  if (s.chance(1, 8)) return;
  auto& r = rec.r;
  std::vector<uint16_t> of;
  for (auto& c : r.channels) { auto* p = schemaPtr(r, c.schemaId); if (p && p->name == kind) of.push_back(c.id); }
  if (of.empty()) {
    auto& c = r.channels[s.draw(r.channels.size())];
    if (!c.schemaId) return;
    for (auto& x : r.schemas) if (x.id == c.schemaId) x.name = kind;
    of.push_back(c.id);
  }
  for (auto& m : r.messages) if (s.chance(1, 2)) m.channel = of[s.draw(of.size())];
}
void inspector(Src& s, Ctx& ctx) {
  const char* exe = getenv("VF_INSPECTOR_TOOL");
  if (!exe) throw pbt::Discard{};
  TempDir t;
  Setup u = genSetup(s);
  Rec rec = genRec(s, ctx, u, false);
  steer(s, rec, kComp);
  std::optional<size_t> first;
  EncodingInfo want;
  bool channel = false;
  for (auto& c : rec.r.channels) { auto* p = schemaPtr(rec.r, c.schemaId); channel = channel || (p && p->name == kComp); }
  for (size_t i = 0; i < rec.r.messages.size() && !first; ++i)
    if (schemaOf(rec.r, rec.r.messages[i].channel) == kComp) first = i;
  if (first) {
    // a stream of any description: only its header is looked at
    const PcMsg p = genPc(s, ctx, u);
    InfoOpts o;
    o.max_fields = 9;
    want = genInfo(s, o);
    setDims(s, want, s.draw(1000));
    if (s.chance(1, 3)) { want.width = uint32_t(s.pick({uint64_t(0xffffffff), uint64_t(65536), uint64_t(1) << 31, s.u64() & 0xffffffff})); }
    if (s.chance(1, 3)) { want.height = uint32_t(s.pick({uint64_t(0xffffffff), uint64_t(65536), uint64_t(1) << 31, s.u64() & 0xffffffff})); }
    for (auto& f : want.fields) if (s.chance(1, 4)) f.name = s.pick({"x", "intensity", "a_longer_name", "Ring0"});
    std::vector<uint8_t> b;
    EncodeHeader(want, b, s.chance(1, 2) ? HeaderEncoding::YAML : HeaderEncoding::BINARY);
    for (size_t k = s.draw(30); k; --k) b.push_back(uint8_t(s.draw(256)));
    refcdr::Msg cm = p.msg;
    cm.compressed = true;
    cm.format = "cloudini";
    cm.data = b;
    auto& m = rec.r.messages[*first];
    m.data = str(refcdr::write(cm));
    const bool damaged = s.chance(1, 6);
    if (damaged) { m.data = m.data.substr(0, s.draw(m.data.size() - b.size() + 8)); }
    else ctx.note("header " + descr(want));
    const std::string in = t.path + "/in.mcap", input = mcapstub::serialize(rec.r);
    put(in, input);
    std::string log;
    const int rc = cli::run({exe, s.chance(1, 2) ? "-f" : "--filename", in}, t.path, log);
    ctx.check();
    ctx.require(rc < 90, "the inspector ended with status ", rc, ": ", log.substr(0, 300));
    ctx.require(cli::get(in) == input, "the recording was modified");
    if (damaged) { ctx.require(rc != 0, "a message that cannot be read is reported as inspected:\n", log.substr(0, 600)); ctx.label("damaged message"); ctx.nontrivial(); return; }
    ctx.require(rc == 0, "status ", rc, ": ", log.substr(0, 300));
    const auto l = linesOf(log);
    size_t at = 0;
    auto expect = [&](const std::string& key, const std::string& v) {
      auto got = valueOf(l, key, at);
      ctx.require(got.has_value(), "there is no '", key, "' in\n", log);
      ctx.require(*got == v, key, " is '", *got, "' instead of '", v, "'");
    };
    expect("Topic", channelOf(rec.r, m.channel).topic);
    expect("Timestamp", std::to_string(m.logTime) + " ns");
    expect("Message size", std::to_string(m.data.size()) + " bytes");
    expect("Compressed data size", std::to_string(b.size()) + " bytes");
    // the text form of the header is a text form of the header
    size_t y = at;
    ctx.require(valueOf(l, "YAML Header", y).has_value(), "no text form");
    std::string text;
    for (; y < l.size() && l[y].find("---") == std::string::npos; ++y) text += l[y] + "\n";
    EncodingInfo shown;
    try { shown = EncodingInfoFromYAML(text); } catch (const std::exception& e) { ctx.fail("the text form cannot be read: ", e.what(), "\n", text); }
    ctx.require(shown.width == want.width && shown.height == want.height && shown.point_step == want.point_step && shown.fields == want.fields &&
                shown.encoding_opt == want.encoding_opt && shown.compression_opt == want.compression_opt && shown.version == want.version, "the text form describes another cloud:\n", text);
    at = y;
    const uint64_t points = uint64_t(want.width) * want.height;
    const unsigned __int128 bytes = (unsigned __int128)(points) * want.point_step;
    expect("Version", std::to_string(int(want.version)));
    expect("Width", std::to_string(want.width));
    expect("Height", std::to_string(want.height));
    expect("Point step", std::to_string(want.point_step));
    expect("Total points", std::to_string(points));
    if (bytes <= ~uint64_t{0}) expect("Total data size", std::to_string(uint64_t(bytes)) + " bytes");
    expect("Encoding option", ToString(want.encoding_opt));
    expect("Compression option", ToString(want.compression_opt));
    expect("Number of fields", std::to_string(want.fields.size()));
    for (auto& f : want.fields) {
      expect("Name", f.name);
      expect("Offset", std::to_string(f.offset));
      expect("Type", ToString(f.type));
      auto r = valueOf(l, "Resolution", at);
      ctx.require(r.has_value(), "no resolution of '", f.name, "'");
      char* end = nullptr;
      const double v = strtod(r->c_str(), &end);
      const bool number = end != r->c_str();
      if (f.resolution) ctx.require(number && std::abs(v - double(*f.resolution)) <= 1e-5 * std::abs(double(*f.resolution)), "resolution of '", f.name, "' is '", *r, "' instead of ", *f.resolution);
      else ctx.require(!number, "field '", f.name, "' has no resolution, but '", *r, "' is shown");
    }
    ctx.label("inspected");
    ctx.labelIf(points > 0xffffffffu, "more than 2^32 points");
    ctx.nontrivial();
  } else {
    const std::string in = t.path + "/in.mcap", input = mcapstub::serialize(rec.r);
    put(in, input);
    std::string log;
    const int rc = cli::run({exe, "-f", in}, t.path, log);
    ctx.check();
    ctx.require(rc < 90, "the inspector ended with status ", rc, ": ", log.substr(0, 300));
    ctx.require(log.find("Version:") == std::string::npos, "a header is shown although there is no compressed message");
    ctx.label(channel ? "no message" : "no channel");
  }
}
// ---------------------------------------------------------------- codec benchmark
const char* kModes[4] = {"V4", "V5", "V4-viz", "V5-viz"};
uint64_t fnv(uint64_t h, const std::vector<uint8_t>& d) {
  for (uint8_t b : d) { h ^= b; h *= 0x100000001b3ULL; }
  return h;
}
struct Sum { uint64_t messages = 0, points = 0, raw = 0, out[4] = {0, 0, 0, 0}, in[4] = {0, 0, 0, 0}; };
void benchmark(Src& s, Ctx& ctx) {
  const char* exe = getenv("VF_BENCHMARK_TOOL");
  if (!exe) throw pbt::Discard{};
  TempDir t;
  Setup u;  // no profile; the default resolution is the argument of the tool
  u.def = s.chance(1, 3) ? 0.001f : genRes(s);
  Rec rec = genRec(s, ctx, u, false);
  steer(s, rec, kPc);
  const std::string in = t.path + "/in.mcap";
  // clouds: positions first, all fields without gaps, so that the decoded bytes are determined
  std::map<size_t, bool> bad;
  size_t clouds = 0;
  for (size_t i = 0; i < rec.r.messages.size(); ++i) {
    auto& m = rec.r.messages[i];
    if (schemaOf(rec.r, m.channel) != kPc) continue;
    EncodingInfo info;
    info.version = 5;
    info.encoding_opt = EncodingOptions::LOSSY;
    uint32_t off = 0;
    auto add = [&](const std::string& n, FieldType ty) {
      PointField f;
      f.name = n;
      f.type = ty;
      f.offset = off;
      if (ty == FieldType::FLOAT32) f.resolution = *u.def;
      off += uint32_t(szOf(ty));
      info.fields.push_back(f);
    };
    if (s.chance(4, 5)) for (auto n : {"x", "y", "z"}) add(n, FieldType::FLOAT32);
    const size_t k = s.draw(4) + (info.fields.empty() ? 1 : 0);
    for (size_t j = 0; j < k; ++j) add("f" + std::to_string(j), s.pick({FieldType::FLOAT32, FieldType::UINT8, FieldType::UINT16, FieldType::INT32, FieldType::FLOAT64, FieldType::UINT64}));
    info.point_step = off;
    Cloud c = genCloudFor(s, ctx, info, s.chance(1, 10) ? 0 : 1 + s.draw(s.chance(1, 60) ? 150000 : s.chance(1, 10) ? 5000 : 80));
    // positions within the range of the voxels (2^20 ticks), doubles within the one of microseconds
    for (auto& f : info.fields)
      for (size_t p = 0; p < c.n; ++p) {
        uint8_t* at = &c.data[p * info.point_step + f.offset];
        if (f.type == FieldType::FLOAT32) {
          float v;
          memcpy(&v, at, 4);
          if (!std::isnan(v) && !(std::abs(v) < 500000.0f * *u.def)) { v = *u.def * float(p % 97); memcpy(at, &v, 4); }
        } else if (f.type == FieldType::FLOAT64) {
          double v;
          memcpy(&v, at, 8);
          if (!std::isnan(v) && !(std::abs(v) < 1e9)) { v = 1e-6 * double(p % 97); memcpy(at, &v, 8); }
        }
      }
    refcdr::Msg g = genMsg(s, c);
    for (size_t j = 0; j < info.fields.size(); ++j) g.fields[j].name = info.fields[j].name;
    m.data = str(refcdr::write(g));
    ++clouds;
    if (s.chance(1, 8)) {  // a message that cannot be read, or not be compressed
      bad[i] = true;
      const int how = int(s.draw(5));
      if (how == 0) m.data = m.data.substr(0, s.draw(m.data.size()));
      else {
        if (how == 1) g.point_step = s.chance(1, 2) ? 0 : g.point_step + 1;
        if (how == 2) g.width = uint32_t(s.pick({uint64_t(0), uint64_t(0xffffffff), uint64_t(g.width) + 1, s.u64() & 0xfffff}));
        if (how == 3) g.height = uint32_t(s.pick({uint64_t(0), uint64_t(0xffffffff), uint64_t(g.height) + 1, s.u64() & 0xfffff}));
        if (how == 4) { if (g.fields.size()) g.fields[s.draw(g.fields.size())].offset = g.point_step; }
        m.data = str(refcdr::write(g));
      }
    }
  }
  const std::string input = mcapstub::serialize(rec.r);
  put(in, input);
  std::vector<std::string> args = {exe};
  if (s.chance(1, 2)) args.push_back("-f");
  args.push_back(in);
  char res[32];
  snprintf(res, sizeof res, "%.9g", double(*u.def));
  if (*u.def != 0.001f || s.chance(1, 2)) { args.push_back("-r"); args.push_back(res); }
  uint64_t limit = 0, every = 1;
  int mode = -1;
  bool zstd = false, replay = false, hash = false;
  const bool explain = s.chance(1, 3);
  if (explain) args.push_back("--explain");
  else {
    if (s.chance(1, 3)) { limit = 1 + s.draw(4); args.push_back("--max-messages"); args.push_back(std::to_string(limit)); }
    if (s.chance(1, 3)) { every = 1 + s.draw(3); args.push_back("--sample-every"); args.push_back(std::to_string(every)); }
    if (s.chance(1, 3)) { zstd = true; args.push_back("--zstd"); }
    if (s.chance(2, 3)) { mode = int(s.draw(4)); args.push_back("--mode"); args.push_back(kModes[mode]); }
    if (mode >= 0 && s.chance(2, 3)) {
      replay = true;
      args.push_back("--decode-replay");
      if (s.chance(1, 3)) { args.push_back("--decode-repeat"); args.push_back("2"); }
      if (s.chance(3, 4)) { hash = true; args.push_back("--hash"); }
    } else if (s.chance(1, 4)) args.push_back("--encode-only");
  }
  ctx.note(cli::show(args));
  std::string log;
  const int rc = cli::run(args, t.path, log, "", uint64_t{2} << 30);
  ctx.check();
  ctx.require(rc < 90, "the benchmark ended with status ", rc, ": ", log.substr(0, 600));
  ctx.require(cli::get(in) == input, "the recording was modified");
  bool channel = false;
  std::set<std::string> topics;
  for (auto& c : rec.r.channels) {
    auto* p = schemaPtr(rec.r, c.schemaId);
    if (p && p->name == kPc) { channel = true; topics.insert(c.topic); }
  }
  if (!channel) { ctx.label("no channel"); return; }
  ctx.require(rc == 0, "status ", rc, ": ", log.substr(0, 600));
  const auto l = linesOf(log);
  ctx.labelIf(!bad.empty(), "with bad messages");
  // What the library says
  std::map<std::string, Sum> sums;
  std::map<std::string, uint64_t> seen;
  std::set<std::string> doubtful, uncounted, explained;  // topics with a message that may or may not be counted
  uint64_t h = 0xcbf29ce484222325ULL;
  bool hash_known = true;
  struct Explained { size_t n_in, n_out, step; size_t fields; };
  std::map<std::string, Explained> ex;
  for (size_t i = 0; i < rec.r.messages.size(); ++i) {
    auto& m = rec.r.messages[i];
    if (schemaOf(rec.r, m.channel) != kPc) continue;
    const std::string topic = channelOf(rec.r, m.channel).topic;
    const uint64_t k = ++seen[topic];
    if (explain && explained.count(topic)) continue;
    if (limit && k > limit) continue;
    if ((k - 1) % every) continue;
    const auto b = vec(m.data);
    RosPointCloud2 pc;
    if (bad.count(i)) {
      explained.insert(topic);
      if (explain) { doubtful.insert(topic); continue; }
      try { pc = getDeserializedPointCloudMessage(viewOf(b)); } catch (const std::exception&) { continue; }  // not counted
      uncounted.insert(topic);  // it may be counted although it cannot be compressed; the sizes and ratios are those of the others
      applyResolutionProfile({}, pc.fields, *u.def);
      for (int q = 0; q < 4; ++q) {
        if (mode >= 0 && q != mode) continue;
        try {
          RosPointCloud2 v = pc;
          if (q >= 2) applyVizLossyPreprocessing(v);
          EncodingInfo info = toEncodingInfo(v);
          std::vector<uint8_t> o;
          info.version = q % 2 ? 5 : 4;
          PointcloudEncoder(info).encode(v.data, o);
          doubtful.insert(topic);
        } catch (const std::exception&) { }
      }
      if (doubtful.count(topic)) hash_known = false;
      continue;
    }
    pc = getDeserializedPointCloudMessage(viewOf(b));
    applyResolutionProfile({}, pc.fields, *u.def);
    explained.insert(topic);
    if (explain) {
      RosPointCloud2 v = pc;
      applyVizLossyPreprocessing(v);
      ex[topic] = {pc.data.size() / pc.point_step, v.data.size() / pc.point_step, pc.point_step, pc.fields.size()};
      continue;
    }
    if (pc.data.size() == 0) continue;
    Sum& a = sums[topic];
    a.messages += 1;
    a.points += pc.data.size() / pc.point_step;
    a.raw += pc.data.size();
    for (int q = 0; q < 4; ++q) {
      if (mode >= 0 && q != mode) continue;
      RosPointCloud2 v = pc;
      if (q >= 2) applyVizLossyPreprocessing(v);
      EncodingInfo info = toEncodingInfo(v);
      info.encoding_opt = EncodingOptions::LOSSY;
      info.compression_opt = zstd ? CompressionOption::ZSTD : CompressionOption::NONE;
      info.version = q % 2 ? 5 : 4;
      std::vector<uint8_t> o;
      try {
        PointcloudEncoder(info).encode(v.data, o);
      } catch (const std::exception&) { throw pbt::Discard{}; }
      a.out[q] += o.size();
      a.in[q] += pc.data.size();
      if (hash) h = fnv(h, decodeAll(o).data);
    }
  }
  if (explain) {
    for (auto& topic : topics) {
      if (doubtful.count(topic) || !ex.count(topic)) continue;
      size_t at = 0;
      while (at < l.size() && trim(l[at]) != "Topic: " + topic) ++at;
      ctx.require(at < l.size(), "topic ", topic, " is not explained:\n", log);
      size_t end = at + 1;
      while (end < l.size() && trim(l[end]).rfind("Topic:", 0) != 0) ++end;
      std::string part;
      for (size_t i = at; i < end; ++i) part += l[i] + "\n";
      const Explained& e = ex[topic];
      auto has = [&](const std::string& x) { ctx.require(part.find(x) != std::string::npos, "'", x, "' is not in the explanation of ", topic, ":\n", part); };
      has("point_step=" + std::to_string(e.step) + " ");
      has("n_points=" + std::to_string(e.n_in) + " ");
      has("points: " + std::to_string(e.n_in) + " -> " + std::to_string(e.n_out) + " ");
      has("removed " + std::to_string(e.n_in - e.n_out) + " ");
      has("[" + std::to_string(e.fields - 1) + "]");
      ctx.require(part.find("[" + std::to_string(e.fields) + "]") == std::string::npos, "too many fields:\n", part);
      ctx.nontrivial(e.n_in > 0);
    }
    ctx.label("explained");
    return;
  }
  for (auto& [topic, a] : sums) {
    if (doubtful.count(topic)) continue;
    size_t at = 0;
    while (at < l.size() && trim(l[at]).rfind("Topic: " + topic + " ", 0) != 0 && trim(l[at]) != "Topic: " + topic) ++at;
    ctx.require(at < l.size(), "topic ", topic, " is not reported:\n", log);
    ctx.require(at + 1 < l.size(), "nothing is reported about ", topic);
    unsigned long long ms = 0, ps = 0;
    double raw = -1;
    ctx.require(sscanf(l[at + 1].c_str(), " messages=%llu points=%llu raw=%lf", &ms, &ps, &raw) == 3, "cannot read '", l[at + 1], "'");
    const bool counted = !uncounted.count(topic);
    ctx.labelIf(!counted, "figures without the bad messages");
    if (counted) ctx.require(ms == a.messages, topic, ": ", ms, " messages instead of ", a.messages);
    if (counted) ctx.require(ps == a.points, topic, ": ", ps, " points instead of ", a.points);
    if (counted) ctx.require(std::abs(raw - double(a.raw) / 1048576.0) <= 0.00501, topic, ": raw size ", raw, " MiB instead of ", a.raw, " bytes");
    for (int q = 0; q < 4; ++q) {
      size_t i = at + 2;
      std::string name, mib, ratio;
      for (; i < l.size() && trim(l[i]).rfind("Topic:", 0) != 0 && trim(l[i]).rfind("FILE TOTAL", 0) != 0; ++i) {
        std::istringstream f(l[i]);
        f >> name >> mib >> ratio;
        if (name == kModes[q]) break;
      }
      ctx.require(name == kModes[q], topic, ": mode ", kModes[q], " is not reported:\n", log);
      if (mode >= 0 && q != mode) continue;
      ctx.require(std::abs(atof(mib.c_str()) - double(a.out[q]) / 1048576.0) <= 0.00501, topic, ": ", kModes[q], ": ", mib, " MiB instead of ", a.out[q], " bytes");
      ctx.require(std::abs(atof(ratio.c_str()) - 100.0 * double(a.out[q]) / double(a.in[q])) <= 0.0501, topic, ": ", kModes[q], ": ratio ", ratio, " instead of ", 100.0 * double(a.out[q]) / double(a.in[q]));
    }
    ctx.nontrivial();
  }
  if (sums.empty() && doubtful.empty()) { ctx.label("nothing measured"); return; }
  if (sums.size() > 1 && doubtful.empty() && uncounted.empty()) {
    uint64_t m = 0, p = 0;
    for (auto& [k, a] : sums) { m += a.messages; p += a.points; }
    size_t at = 0;
    while (at < l.size() && trim(l[at]).rfind("FILE TOTAL", 0) != 0) ++at;
    ctx.require(at + 1 < l.size(), "no total");
    unsigned long long ms = 0, ps = 0;
    ctx.require(sscanf(l[at + 1].c_str(), " messages=%llu points=%llu", &ms, &ps) == 2 && ms == m && ps == p, "total: '", l[at + 1], "' instead of ", m, " messages, ", p, " points");
    ctx.label("total of several topics");
  }
  if (hash && hash_known && !sums.empty()) {
    char x[40];
    snprintf(x, sizeof x, "0x%llx", (unsigned long long)h);
    bool found = false;
    for (auto& line : l) {
      std::istringstream f(line);
      std::string a, c, v;
      f >> a >> c >> v;
      if (a == kModes[mode] && c == ":") { found = true; ctx.require(v == x, "fingerprint of the decoded clouds is ", v, " instead of ", x); }
    }
    ctx.require(found, "no fingerprint");
    ctx.label("fingerprint");
  }
  ctx.labelIf(replay, "decode replay");
  ctx.label("measured");
}
// What cannot be done is reported by the exit status; nothing is modified or left behind.
void errors(Src& s, Ctx& ctx) {
  const bool inspect = s.chance(1, 2);
  const char* exe = getenv(inspect ? "VF_INSPECTOR_TOOL" : "VF_BENCHMARK_TOOL");
  if (!exe) throw pbt::Discard{};
  TempDir t;
  Setup u = genSetup(s);
  Rec rec = genRec(s, ctx, u, false);
  steer(s, rec, inspect ? kComp : kPc);
  std::string in = t.path + "/in.mcap", input = mcapstub::serialize(rec.r);
  std::vector<std::string> args = {exe};
  auto add = [&](std::initializer_list<std::string> l) { args.insert(args.end(), l); };
  const std::string mode = s.pick({"V4", "V5", "V4-viz", "V5-viz"});
  switch (s.draw(inspect ? 4 : 8)) {
    case 0: ctx.label("no input"); break;
    case 1: add({"-f", t.path + "/nothing.mcap"}); ctx.label("no such file"); break;
    case 2: input = input.substr(0, s.draw(8)); add({"-f", in}); ctx.label("not a recording"); break;
    case 3:
      if (inspect) { in = t.path + "/" + s.pick({"in.bag", "in", "in.mcap.gz", "mcap"}); add({"-f", in}); ctx.label("another kind of file"); break; }
      for (auto& x : rec.r.schemas) if (x.name == kPc) x.name = s.pick({std::string("sensor_msgs/msg/Image"), std::string("sensor_msgs/PointCloud2"), std::string(kComp)});
      input = mcapstub::serialize(rec.r);
      add({"-f", in});
      ctx.label("no point clouds");
      break;
    case 4: add({"-f", in, "--mode", s.pick({"V6", "v4", "", "V4viz", "zstd"})}); ctx.label("unknown mode"); break;
    case 5: add({"-f", in, "--encode-only", "--decode-replay", "--mode", mode}); ctx.label("contradiction"); break;
    case 6: add({"-f", in, "--decode-replay"}); ctx.label("replay of all modes"); break;
    default: add({"-f", in, "--hash"}); if (s.chance(1, 2)) add({"--mode", mode}); ctx.label("fingerprint without replay");
  }
  put(in, input);
  ctx.note(cli::show(args));
  std::string log;
  const int rc = cli::run(args, t.path, log);
  ctx.check();
  ctx.require(rc < 90, "the tool ended with status ", rc, ": ", log.substr(0, 300));
  ctx.require(rc != 0, "the tool reports success: ", log.substr(0, 400));
  ctx.require(cli::get(in) == input, "the recording was modified");
  size_t files = 0;
  for (auto& e : std::filesystem::directory_iterator(t.path)) { (void)e; ++files; }
  ctx.require(files == 1, files, " files in the directory instead of one");
  ctx.nontrivial();
}
}  // namespace
int main(int argc, char** argv) {
  return pbt::run(argc, argv, "C31",
      "A case is a generated recording (some with unreadable messages) given to the header inspector or to the codec benchmark with generated options; every figure and name that does not "
      "depend on time is compared with the library. Non-trivial: a header was shown or refused, or a topic with points was measured or explained.",
      {{"inspector", inspector, 12000, 200000}, {"benchmark", benchmark, 16000, 300000}, {"errors", errors, 1500, 25000}});
}
