// C26: recordings are converted without losing or altering messages.
#include <dirent.h>

#include "cli.hpp"
#include "mcap_converter.hpp"
#include "rec_gen.hpp"
using namespace gen;
using namespace cloudini_ros;
namespace {
using namespace recs;
struct TempDir : cli::TempDir { TempDir() : cli::TempDir("c26") {} };
using cli::get;
using cli::put;
void checkCloud(Ctx& ctx, const PcMsg& p, const EncodingInfo& kept, const std::vector<uint8_t>& data, const std::string& what) {
  Cloud c = p.cloud;
  c.info = kept;
  checkSame(ctx, c, data.data(), data.size(), what.c_str());
}
// p was compressed with the profile: the message restores to the remaining fields within their resolution
void checkEncoded(Ctx& ctx, const PcMsg& p, const std::string& data, const std::string& what) {
  refcdr::Msg cm = readOrFail(ctx, data, true, what);
  std::string d = sameMeta(keptMeta(p), cm);
  ctx.require(d.empty(), what, ": ", d, " differs");
  ctx.require(cm.format == "cloudini", what, ": format is '", cm.format, "'");
  if (p.cloud.n) checkCloud(ctx, p, p.kept, decodeAll(cm.data).data, what);
}
void checkDecoded(Ctx& ctx, const PcMsg& p, bool profile, const std::string& data, const std::string& what) {
  refcdr::Msg m = readOrFail(ctx, data, false, what);
  std::string d = sameMeta(profile ? keptMeta(p) : p.msg, m);
  ctx.require(d.empty(), what, ": ", d, " differs");
  checkCloud(ctx, p, profile ? p.kept : p.cloud.info, m.data, what);
}
Cloudini::CompressionOption genMethod(Src& s) { return s.pick({CompressionOption::ZSTD, CompressionOption::NONE, CompressionOption::LZ4}); }
int expectCompression(Cloudini::CompressionOption c) { return c == CompressionOption::NONE ? 0 : c == CompressionOption::LZ4 ? 1 : 2; }

void converter(Src& s, Ctx& ctx) {
  TempDir t;
  McapConverter shared;  // used for all the steps, or a new one for each
  const bool reuse = s.chance(1, 2);
  const Setup u = genSetup(s);
  if (!u.text.empty() && reuse) shared.addProfile(u.text);
  const size_t rounds = reuse ? 1 + s.draw(2) : 1;
  size_t converted = 0;
  for (size_t k = 0; k < rounds; ++k) {
    Rec rec = genRec(s, ctx, u, false);
    const std::string in = t.path + "/in" + std::to_string(k) + ".mcap", mid = t.path + "/mid" + std::to_string(k) + ".mcap", out = t.path + "/out" + std::to_string(k) + ".mcap";
    const std::string input = mcapstub::serialize(rec.r);
    put(in, input);
    const auto m1 = genMethod(s), m2 = genMethod(s);
    auto expectTopics = [&](const McapConverter::TopicsMap& topics, const mcapstub::Recording& r) {
      std::map<std::string, std::set<std::string>> want;
      for (auto& c : r.channels) {
        const mcap::Schema* sc = schemaPtr(r, c.schemaId);
        if (sc && (sc->name == kPc || sc->name == kComp)) want[c.topic].insert(sc->name);
      }
      ctx.require(topics.size() == want.size(), "open() lists ", topics.size(), " topics instead of ", want.size());
      for (auto& [topic, type] : topics) ctx.require(want.count(topic) && want[topic].count(type), "open() lists ", topic, " as ", type);
    };
    if (s.chance(3, 4)) {
      std::optional<McapConverter> own;
      if (!reuse) { own.emplace(); if (!u.text.empty()) own->addProfile(u.text); }
      McapConverter& c = reuse ? shared : *own;
      expectTopics(c.open(in), rec.r);
      const bool twice = s.chance(1, 6);
      if (twice) c.encodePointClouds(t.path + "/first.mcap", u.def, m1, false);
      c.encodePointClouds(mid, u.def, m1, false);
      if (twice) ctx.require(get(t.path + "/first.mcap") == get(mid), "converting twice gives different recordings");
      const mcapstub::Recording enc = mcapstub::parse(get(mid));
      sameRecording(ctx, rec.r, enc, true, "encoded recording");
      ctx.require(enc.compression == expectCompression(m1), "compression of the recording");
      for (auto& [i, p] : rec.pcs) checkEncoded(ctx, p, enc.messages[i].data, "encoded message " + std::to_string(i));
      // and back
      own.reset();
      if (!reuse) own.emplace();
      McapConverter& d = reuse ? shared : *own;
      expectTopics(d.open(mid), enc);
      d.decodePointClouds(out, m2);
      const mcapstub::Recording dec = mcapstub::parse(get(out));
      sameRecording(ctx, enc, dec, false, "decoded recording");
      ctx.require(dec.compression == expectCompression(m2), "compression of the recording");
      for (auto& [i, p] : rec.pcs) checkDecoded(ctx, p, true, dec.messages[i].data, "restored message " + std::to_string(i));
      for (auto& [i, p] : rec.comps) checkDecoded(ctx, p, false, dec.messages[i].data, "restored message " + std::to_string(i));
      converted += rec.pcs.size() + rec.comps.size();
      ctx.labelIf(twice, "converted twice");
    } else {
      std::optional<McapConverter> own;
      if (!reuse) own.emplace();
      McapConverter& d = reuse ? shared : *own;
      d.open(in);
      d.decodePointClouds(out, m2);
      const mcapstub::Recording dec = mcapstub::parse(get(out));
      sameRecording(ctx, rec.r, dec, false, "decoded recording");
      for (auto& [i, p] : rec.comps) checkDecoded(ctx, p, false, dec.messages[i].data, "restored message " + std::to_string(i));
      converted += rec.comps.size();
      ctx.label("decoded only");
    }
    ctx.require(get(in) == input, "the input recording was modified");
    ctx.labelIf(rec.others > 0, "other messages");
    ctx.labelIf(u.removes, "fields removed");
  }
  ctx.labelIf(rounds > 1, "one converter for several recordings");
  ctx.nontrivial(converted > 0);
}

// Preprocessing for visualisation: equals the library calls it is made of.
// Puts clouds with a position triple in the recording, so that there is something to do.
std::map<size_t, std::vector<uint8_t>> scenes(Src& s, Rec& rec) {
  std::map<size_t, std::vector<uint8_t>> raw;
  for (auto& [i, p] : rec.pcs) {
    refcdr::Msg m = p.msg;
    m.fields.clear();
    static const char* names[] = {"x", "y", "z", "intensity", "timestamp"};
    for (uint32_t a = 0; a < 5; ++a) {
      refcdr::Field f;
      f.name = names[a];
      f.offset = 4 * a;
      f.type = uint8_t(a == 4 ? FieldType::FLOAT64 : FieldType::FLOAT32);
      m.fields.push_back(f);
    }
    m.point_step = 24;
    const size_t n = 1 + s.draw(50);
    m.width = uint32_t(n);
    m.height = 1;
    m.row_step = m.point_step * m.width;
    m.data.assign(n * 24, 0);
    Rng r(s.seed());
    for (size_t k = 0; k < n; ++k) {
      for (uint32_t a = 0; a < 4; ++a) {
        const float v = r.below(20) ? float(r.range(-3, 3)) : NAN;
        memcpy(&m.data[24 * k + 4 * a], &v, 4);
      }
      const double v = double(r.range(-1000, 1000)) * 0.01;
      memcpy(&m.data[24 * k + 16], &v, 8);
    }
    raw[i] = refcdr::write(m);
    rec.r.messages[i].data = str(raw[i]);
  }
  return raw;
}
// True when points were dropped
bool checkScenes(Ctx& ctx, const Setup& u, bool lossy, const std::map<size_t, std::vector<uint8_t>>& raw, const mcapstub::Recording& enc) {
  bool smaller = false;
  for (auto& [i, b] : raw) {
    RosPointCloud2 pc = getDeserializedPointCloudMessage(viewOf(b));
    const size_t before = pc.data.size();
    applyResolutionProfile(u.profile, pc.fields, u.def);
    if (lossy) applyVizLossyPreprocessing(pc);
    smaller = smaller || pc.data.size() < before;
    EncodingInfo info = toEncodingInfo(pc);
    std::vector<uint8_t> want, a, w;
    convertPointCloud2ToCompressedCloud(pc, info, want);
    // compare what they restore to: the compression inside is up to the converter
    const auto got = vec(enc.messages[i].data);
    RosPointCloud2 pa = getDeserializedPointCloudMessage(viewOf(got)), pw = getDeserializedPointCloudMessage(viewOf(want));
    convertCompressedCloudToPointCloud2(pa, a);
    convertCompressedCloudToPointCloud2(pw, w);
    ctx.check();
    refcdr::Msg ma = readOrFail(ctx, str(a), false, "message"), mw = readOrFail(ctx, str(w), false, "message");
    const std::string d = sameMeta(mw, ma);
    ctx.require(d.empty(), "message ", i, ": ", d, " differs from the library's preprocessing");
    ctx.require(ma.data.size() == mw.data.size(), "message ", i, ": data size ", ma.data.size(), " instead of ", mw.data.size());
    for (size_t k = 0; k + ma.point_step <= ma.data.size(); k += ma.point_step)
      for (auto& f : ma.fields) ctx.require(memcmp(&ma.data[k + f.offset], &mw.data[k + f.offset], szOf(FieldType(f.type))) == 0, "message ", i, ": field ", f.name, " differs from the library's preprocessing");
  }
  return smaller;
}
void viz(Src& s, Ctx& ctx) {
  TempDir t;
  Setup u = genSetup(s);
  Rec rec = genRec(s, ctx, u, false);
  const auto raw = scenes(s, rec);
  const std::string in = t.path + "/in.mcap", out = t.path + "/out.mcap";
  put(in, mcapstub::serialize(rec.r));
  const auto m1 = genMethod(s);
  McapConverter c;
  if (!u.text.empty()) c.addProfile(u.text);
  c.open(in);
  const bool lossy = !s.chance(1, 5);
  c.encodePointClouds(out, u.def, m1, lossy);
  const mcapstub::Recording enc = mcapstub::parse(get(out));
  sameRecording(ctx, rec.r, enc, true, "encoded recording");
  const bool smaller = checkScenes(ctx, u, lossy, raw, enc);
  ctx.labelIf(smaller, "points dropped");
  ctx.nontrivial(!raw.empty());
}

void profiles(Src& s, Ctx& ctx) {
  const Setup u = genSetup(s);
  if (u.text.empty()) throw pbt::Discard{};
  ctx.note("'" + u.text + "'");
  McapConverter c;
  auto show = [](const std::vector<std::pair<std::string, float>>& v) {
    std::map<std::string, float> m(v.begin(), v.end());
    return m.size() == v.size() ? m : std::map<std::string, float>{{"duplicate", 1.0f}};
  };
  if (s.chance(1, 3)) {  // malformed text is refused
    std::string bad = u.text;
    switch (s.draw(4)) {
      case 0: bad += ";x"; break;
      case 1: bad += ";x:abc"; break;
      case 2: bad += ";x:1:2"; break;
      default: bad += "; x : "; break;
    }
    bool threw = false;
    try { c.addProfile(bad); } catch (const std::exception&) { threw = true; }
    ctx.check();
    ctx.require(threw, "'", bad, "' was accepted");
    ctx.label("malformed");
    ctx.nontrivial();
    return;
  }
  c.addProfile(u.text);
  ctx.check();
  ctx.require(show(c.getProfile()) == u.profile, "the profile is not what the text says");
  // a second text adds to the first
  const Setup w = genSetup(s);
  if (!w.text.empty()) {
    c.addProfile(w.text);
    auto m = u.profile;
    for (auto& [k, v] : w.profile) m[k] = v;
    ctx.check();
    ctx.require(show(c.getProfile()) == m, "after '", w.text, "' the profile is not the combination of both");
  }
  ctx.nontrivial(!u.profile.empty());
}

// The command line tool: same guarantees, and its handling of files.
int runTool(const std::vector<std::string>& args, const std::string& cwd, std::string& output, const std::string& input = "") { return cli::run(args, cwd, output, input); }
std::string yaml(const mcapstub::Recording& r, const std::string& file, bool mapped, bool encoding, bool quotes) {
  auto name = [&](const std::string& n) { return !mapped ? n : encoding ? (n == kPc ? kComp : n) : (n == kComp ? kPc : n); };
  std::ostringstream o;
  o << "rosbag2_bagfile_information:\n  version: 5\n  storage_identifier: mcap\n  duration:\n    nanoseconds: 123456\n  message_count: " << r.messages.size() << "\n  topics_with_message_count:\n";
  for (auto& c : r.channels) {
    const mcap::Schema* s = schemaPtr(r, c.schemaId);
    if (!s || s->name.empty()) continue;
    o << "    - topic_metadata:\n        name: " << c.topic << "\n        type: " << name(s->name) << "\n        serialization_format: cdr\n        offered_qos_profiles: \"\"\n      message_count: 3\n";
  }
  (void)quotes;
  o << "  compression_format: \"\"\n  compression_mode: \"\"\n  relative_file_paths:\n    - " << file << "\n  files:\n    - path: " << file << "\n      starting_time:\n        nanoseconds_since_epoch: 0\n      message_count: " << r.messages.size() << "\n";
  return o.str();
}
void tool(Src& s, Ctx& ctx) {
  const char* exe = getenv("VF_ROSBAG_TOOL");
  if (!exe) throw pbt::Discard{};
  TempDir t;
  Setup u = genSetup(s);
  if (!u.def) u.def = 0.001f;  // the tool's default
  const bool encoding = s.chance(2, 3);
  Rec rec = genRec(s, ctx, u, false);
  const std::string wanted = encoding ? kPc : kComp;
  // preprocessing for visualisation
  const bool lossy = encoding && s.chance(1, 4);
  std::map<size_t, std::vector<uint8_t>> raw;
  if (lossy) raw = scenes(s, rec);
  bool has = false;
  for (auto& c : rec.r.channels) { const auto* p = schemaPtr(rec.r, c.schemaId); has = has || (p && p->name == wanted); }
  // two channels of the same topic hide each other in the list of topics
  std::set<std::string> topics;
  for (auto& c : rec.r.channels) if (!topics.insert(c.topic).second) throw pbt::Discard{};
  const std::string bag = t.path + "/bag", file = s.pick({"bag_0.mcap", "rec.mcap", "my bag.mcap"}), in = bag + "/" + file;
  std::filesystem::create_directories(bag);
  const std::string input = mcapstub::serialize(rec.r);
  put(in, input);
  const bool with_yaml = s.chance(1, 2), by_dir = with_yaml && s.chance(1, 2);
  const std::string meta = yaml(rec.r, file, false, encoding, false);
  if (with_yaml) put(bag + "/metadata.yaml", meta);
  std::vector<std::string> args = {exe, "-f", by_dir ? bag : in, encoding ? "-c" : "-d"};
  if (lossy) args.push_back("--viz");
  if (s.chance(1, 6)) args.push_back(s.chance(1, 2) ? "-s" : "--stats");
  char res[32];
  snprintf(res, sizeof res, "%.9g", double(*u.def));
  if (encoding && (*u.def != 0.001f || s.chance(1, 2))) { args.push_back("-r"); args.push_back(res); }
  if (encoding && !u.text.empty()) {
    args.push_back("--profile");
    if (s.chance(1, 2)) {
      put(t.path + "/profile.txt", u.text + (s.chance(1, 2) ? "\n" : ""));
      args.push_back(t.path + "/profile.txt");
      ctx.label("profile from a file");
    } else args.push_back(u.text);
  }
  int method = 2;
  if (s.chance(1, 2)) { method = s.chance(1, 2) ? 2 : 0; args.push_back("-m"); args.push_back(method ? "zstd" : "none"); }
  const int where = int(s.draw(4));
  std::string out;
  if (where == 0) { out = t.path + "/o/result.mcap"; args.push_back("-o"); args.push_back(out); }
  else if (where == 1) { out = t.path + "/deep/er/result.mcap"; args.push_back("-o"); args.push_back(t.path + "/deep/er/result"); }
  else if (where == 2) {  // onto the input itself
    const int how = int(s.draw(3));
    if (how == 2) { std::error_code ec; std::filesystem::create_symlink(in, t.path + "/link.mcap", ec); }
    args.push_back("-o");
    args.push_back(how == 0 ? in : how == 1 ? bag + "/../bag/" + file : t.path + "/link.mcap");
  } else {
    const std::string suffix = encoding ? "_encoded" : "_decoded", stem = file.substr(0, file.size() - 5);
    out = with_yaml ? bag + suffix + "/" + stem + suffix + ".mcap" : t.path + "/" + stem + suffix + ".mcap";
  }
  // an output that exists is replaced when that is confirmed
  const bool exists = where != 2 && s.chance(1, 4);
  const std::string before = "previous content" + std::string(s.draw(20000), 'x');
  std::string answer;
  if (exists) {
    std::filesystem::create_directories(std::filesystem::path(out).parent_path());
    put(out, before);
  }
  if (!exists || s.chance(1, 3)) { if (where == 2 || exists || s.chance(1, 2)) args.push_back("-y"); }
  else answer = s.pick({"y\n", "Y\n", "n\n", "N\n", "", "q\n", "\n"});
  const bool asked = exists && args.back() != "-y", go = !asked || answer == "y\n" || answer == "Y\n";
  if (asked) ctx.note("answer '" + answer + "'");
  std::string cmd, log;
  for (size_t i = 1; i < args.size(); ++i) cmd += " '" + args[i] + "'";
  ctx.note("cloudini_rosbag_converter" + cmd);
  const int rc = runTool(args, t.path, log, answer);
  ctx.check();
  ctx.require(rc < 90, "the tool ended with status ", rc, ": ", log.substr(0, 300));
  ctx.require(get(in) == input, "the input recording was modified (status ", rc, ")");
  if (with_yaml) ctx.require(get(bag + "/metadata.yaml") == meta, "the input's metadata.yaml was modified");
  if (where == 2) {
    ctx.require(rc != 0 || !has, "writing onto the input succeeded");
    ctx.label("output is the input");
    ctx.nontrivial(has);
    return;
  }
  if (!go) {
    ctx.require(get(out) == before, "the output was replaced without confirmation");
    ctx.label("not confirmed");
    ctx.nontrivial();
    return;
  }
  ctx.labelIf(exists, "output existed");
  if (!has) {  // nothing to convert
    ctx.label("nothing to convert");
    return;
  }
  ctx.require(rc == 0, "status ", rc, ": ", log.substr(0, 300));
  ctx.require(std::filesystem::exists(out), "there is no ", out);
  const mcapstub::Recording r = mcapstub::parse(get(out));
  sameRecording(ctx, rec.r, r, encoding, "converted recording");
  ctx.require(r.compression == method, "compression of the recording is ", r.compression);
  if (lossy) { if (checkScenes(ctx, u, true, raw, r)) ctx.label("points dropped"); }
  else if (encoding) for (auto& [i, p] : rec.pcs) checkEncoded(ctx, p, r.messages[i].data, "encoded message " + std::to_string(i));
  else for (auto& [i, p] : rec.comps) checkDecoded(ctx, p, false, r.messages[i].data, "restored message " + std::to_string(i));
  if (with_yaml) {
    const std::string got = get(std::filesystem::path(out).parent_path().string() + "/metadata.yaml"), want = yaml(rec.r, std::filesystem::path(out).filename().string(), true, encoding, false);
    ctx.require(got == want, "metadata.yaml is\n", got, "instead of\n", want);
    ctx.label("metadata.yaml");
  }
  ctx.label(encoding ? "tool encodes" : "tool decodes");
  ctx.nontrivial(true);
}
// What cannot be done is reported by the exit status, and changes neither the input nor an existing output.
void errors(Src& s, Ctx& ctx) {
  const char* exe = getenv("VF_ROSBAG_TOOL");
  if (!exe) throw pbt::Discard{};
  TempDir t;
  Setup u;
  u.def = 0.001f;
  const bool encoding = s.chance(1, 2);
  Rec rec = genRec(s, ctx, u, false);
  std::vector<size_t> clouds;
  if (encoding) for (auto& [i, p] : rec.pcs) { if (p.cloud.n) clouds.push_back(i); }
  else for (auto& [i, p] : rec.comps) if (p.cloud.n) clouds.push_back(i);
  const std::string bag = t.path + "/bag", in = bag + "/rec.mcap", out = t.path + "/out.mcap", before = "previous content";
  std::filesystem::create_directories(bag);
  std::string input = mcapstub::serialize(rec.r);
  const bool exists = s.chance(1, 2);
  if (exists) put(out, before);
  const std::string what = encoding ? "-c" : "-d";
  std::vector<std::string> args = {exe};
  auto add = [&](std::initializer_list<std::string> l) { args.insert(args.end(), l); };
  bool keeps = true;  // an output that exists is not touched
  const int kind = int(s.draw(14));
  switch (kind) {
    case 0: add({what, "-o", out, "-y"}); ctx.label("no input"); break;
    case 1: add({"-f", bag + "/nothing.mcap", what, "-o", out, "-y"}); ctx.label("no such file"); break;
    case 2: add({"-f", in, "-c", "-d", "-o", out, "-y"}); ctx.label("both directions"); break;
    case 3: add({"-f", in, "-o", out, "-y"}); ctx.label("no direction"); break;
    case 4: add({"-f", in, "-d", "--viz", "-o", out, "-y"}); ctx.label("preprocessing while decoding"); break;
    case 5: add({"-f", in, what, "-m", s.pick({"lz4", "", "ZSTD", "zst", "gzip"}), "-o", out, "-y"}); ctx.label("unknown method"); break;
    case 6: add({"-f", in, "-d", "--profile", "xyz:0.01", "-o", out, "-y"}); ctx.label("profile while decoding"); break;
    case 7: add({"-f", bag, what, "-o", out, "-y"}); ctx.label("directory that is no bag"); break;
    case 8:
      put(bag + "/metadata.yaml", "rosbag2_bagfile_information:\n");
      put(bag + "/second.mcap", input);
      add({"-f", bag, what, "-o", out, "-y"});
      ctx.label("several recordings");
      break;
    case 9:
      put(bag + "/metadata.yaml", "rosbag2_bagfile_information:\n");
      add({"-f", in, what, "-o", s.chance(1, 2) ? bag + "/other.mcap" : bag + "/../bag/other", "-y"});
      ctx.label("into the directory of the bag");
      break;
    case 10:
      input = input.substr(0, s.draw(8));
      add({"-f", in, what, "-o", out, "-y"});
      ctx.label("not a recording");
      break;
    case 11: {
      add({"-f", in, "-c", "--profile", s.pick({"xyz", "x:abc", "x:1:2", "x:"}), "-o", out, "-y"});
      ctx.label("bad profile");
      break;
    }
    default: {  // a message that is not a cloud although its channel says so
      if (clouds.empty()) throw pbt::Discard{};
      const size_t i = clouds[s.draw(clouds.size())];
      auto& d = rec.r.messages[i].data;
      d.resize(s.draw(d.size() / 2));
      input = mcapstub::serialize(rec.r);
      add({"-f", in, what, "-o", out, "-y"});
      keeps = false;
      ctx.label("damaged message");
    }
  }
  put(in, input);
  ctx.note(cli::show(args));
  std::string log;
  const int rc = runTool(args, t.path, log);
  ctx.check();
  ctx.require(rc < 90, "the tool ended with status ", rc, ": ", log.substr(0, 300));
  ctx.require(get(in) == input, "the input recording was modified (status ", rc, ")");
  // without a channel of point clouds there is nothing to do, whatever the rest
  bool any = false;
  for (auto& c : rec.r.channels) { const std::string n = schemaOf(rec.r, c.id); any = any || n == kPc || n == kComp; }
  if (kind == 11 && !any) return;
  ctx.require(rc != 0, "the tool reports success: ", log.substr(0, 400));
  if (keeps && exists) ctx.require(get(out) == before, "the existing output was modified although nothing was converted");
  if (keeps && !exists) ctx.require(!std::filesystem::exists(out), "an output was left behind although nothing was converted");
  ctx.require(!std::filesystem::exists(bag + "/other.mcap"), "a recording was written into the directory of the input");
  ctx.nontrivial();
}
// The cutter keeps the first messages of every channel with point clouds.
void cutter(Src& s, Ctx& ctx) {
  const char* exe = getenv("VF_CUTTER_TOOL");
  if (!exe) throw pbt::Discard{};
  TempDir t;
  Setup u;
  Rec rec = genRec(s, ctx, u, false);
  const size_t more = s.chance(1, 15) ? 100 + s.draw(s.chance(1, 3) ? 2500 : 400) : s.draw(30);
  Rng pick(s.seed());
  for (size_t i = more; i && !rec.r.messages.empty(); --i) {  // more messages, unaltered whatever they contain
    mcapstub::Msg m = rec.r.messages[pick.below(rec.r.messages.size())];
    m.channel = rec.r.channels[pick.below(rec.r.channels.size())].id;
    m.sequence = uint32_t(1000 + i);
    m.logTime = 1000 * i;
    rec.r.messages.push_back(m);
  }
  const std::string in = t.path + "/in.mcap", input = mcapstub::serialize(rec.r);
  put(in, input);
  std::vector<std::string> args = {exe, "-f", in};
  size_t limit = 1000;
  if (s.chance(5, 6)) {
    limit = 1 + (s.chance(3, 4) ? s.draw(5) : s.draw(rec.r.messages.size() + 10));
    args.push_back(s.chance(1, 2) ? "-n" : "--max-messages");
    args.push_back(std::to_string(limit));
  }
  std::string out = t.path + "/in_cut.mcap";
  const bool onto = s.chance(1, 10);
  if (onto) {
    args.push_back("-o");
    args.push_back(s.chance(1, 2) ? in : t.path + "/../" + std::filesystem::path(t.path).filename().string() + "/in");
  } else if (s.chance(1, 2)) {
    out = t.path + "/o.mcap";
    args.push_back("-o");
    args.push_back(s.chance(1, 2) ? out : t.path + "/o");
  }
  ctx.note(cli::show(args));
  std::string log;
  const int rc = cli::run(args, t.path, log);
  ctx.check();
  ctx.require(rc < 90, "the cutter ended with status ", rc, ": ", log.substr(0, 300));
  ctx.require(get(in) == input, "the input recording was modified (status ", rc, ")");
  if (onto) {
    ctx.label("output is the input");
    ctx.require(rc != 0, "writing onto the input succeeded");
    ctx.nontrivial();
    return;
  }
  ctx.require(rc == 0, "status ", rc, ": ", log.substr(0, 300));
  std::vector<mcapstub::Msg> want;
  std::map<uint16_t, size_t> count;
  size_t channels = 0, left_out = 0;
  for (auto& c : rec.r.channels) channels += schemaOf(rec.r, c.id) == kPc;
  for (auto& m : rec.r.messages) {
    if (schemaOf(rec.r, m.channel) != kPc) continue;
    if (count[m.channel]++ < limit) want.push_back(m);
    else ++left_out;
  }
  if (!channels) {
    ctx.label("nothing to cut");
    return;
  }
  const mcapstub::Recording r = mcapstub::parse(get(out));
  ctx.require(r.profile == rec.r.profile, "profile '", r.profile, "' instead of '", rec.r.profile, "'");
  ctx.require(r.messages.size() == want.size(), r.messages.size(), " messages instead of ", want.size());
  for (size_t i = 0; i < want.size(); ++i) {
    const mcapstub::Msg &x = want[i], &y = r.messages[i];
    ctx.require(x.sequence == y.sequence && x.logTime == y.logTime && x.publishTime == y.publishTime, "message ", i, ": sequence or time differs");
    ctx.require(x.data == y.data, "message ", i, " was altered");
    ctx.require(channelOf(rec.r, x.channel).topic == channelOf(r, y.channel).topic, "message ", i, " is on another topic");
    ctx.require(kvText(channelOf(rec.r, x.channel).metadata) == kvText(channelOf(r, y.channel).metadata), "message ", i, ": metadata of the channel differs");
    ctx.require(schemaOf(r, y.channel) == kPc, "message ", i, " is on a channel of schema ", schemaOf(r, y.channel));
    described(ctx, r, y, "message " + std::to_string(i));
  }
  ctx.require(r.channels.size() == channels, r.channels.size(), " channels instead of ", channels);
  ctx.labelIf(left_out > 0, "messages over the limit");
  ctx.label("cut");
  ctx.nontrivial(left_out > 0);
}
void cutterErrors(Src& s, Ctx& ctx) {
  const char* exe = getenv("VF_CUTTER_TOOL");
  if (!exe) throw pbt::Discard{};
  TempDir t;
  Setup u;
  Rec rec = genRec(s, ctx, u, false);
  std::string in = t.path + "/in.mcap", input = mcapstub::serialize(rec.r);
  const std::string out = t.path + "/out.mcap", before = "previous content";
  const bool exists = s.chance(1, 2);
  if (exists) put(out, before);
  std::vector<std::string> args = {exe, "-o", out};
  auto add = [&](std::initializer_list<std::string> l) { args.insert(args.end(), l); };
  switch (s.draw(5)) {
    case 0: ctx.label("no input"); break;
    case 1: add({"-f", t.path + "/nothing.mcap"}); ctx.label("no such file"); break;
    case 2: input = input.substr(0, s.draw(8)); add({"-f", in}); ctx.label("not a recording"); break;
    case 3: in = t.path + "/" + s.pick({"in.bag", "in", "in.mcap.gz", "mcap"}); add({"-f", in}); ctx.label("another kind of file"); break;
    default: add({"-f", in, s.pick({"--max-messages=0", "--max-messages=-1", "-n0", "--max-messages=-2147483648"})}); ctx.label("no messages");
  }
  put(in, input);
  ctx.note(cli::show(args));
  std::string log;
  const int rc = cli::run(args, t.path, log);
  ctx.check();
  ctx.require(rc < 90, "the cutter ended with status ", rc, ": ", log.substr(0, 300));
  ctx.require(rc != 0, "the cutter reports success: ", log.substr(0, 400));
  ctx.require(get(in) == input, "the input recording was modified");
  if (exists) ctx.require(get(out) == before, "the existing output was modified although nothing was cut");
  else ctx.require(!std::filesystem::exists(out), "an output was left behind although nothing was cut");
  ctx.nontrivial();
}
}  // namespace
int main(int argc, char** argv) {
  return pbt::run(argc, argv, "C26",
      "A case is a generated recording (schemas, channels, messages of several kinds, metadata, resolution profile) converted and converted back by the "
      "converter class or the command line tool, over a stand-in for the mcap library, or cut to its first messages; or a profile text. Non-trivial: something was converted or left out, or a non-empty profile.",
      {{"converter", converter, 6000, 150000}, {"viz", viz, 2000, 50000}, {"profiles", profiles, 20000, 400000}, {"tool", tool, 1200, 25000}, {"errors", errors, 1500, 25000}, {"cutter", cutter, 800, 15000}, {"cuterrors", cutterErrors, 600, 8000}});
}
