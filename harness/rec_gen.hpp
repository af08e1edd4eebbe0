// Generated recordings (over the stand-in for the mcap library).
#pragma once
#include <mcap/types.hpp>

#include "msg_gen.hpp"
#include "ros_schema.hpp"
namespace recs {
using namespace gen;
using namespace cloudini_ros;
inline const std::string kPc = "sensor_msgs/msg/PointCloud2", kComp = "point_cloud_interfaces/msg/CompressedPointCloud2";
inline std::string str(const std::vector<uint8_t>& v) { return std::string(v.begin(), v.end()); }
inline std::vector<uint8_t> vec(const std::string& s) { return std::vector<uint8_t>(s.begin(), s.end()); }
// ---- resolutions of the fields: profile and default
struct Setup {
  std::map<std::string, float> profile;
  bool removes = false;
  std::optional<float> def;
  std::string text;  // profile string
};
inline Setup genSetup(Src& s) {
  Setup u;
  static const char* names[] = {"x", "y", "z", "intensity", "ring", "timestamp", "a", "b"};
  auto blank = [&] { return std::string(s.draw(3), ' '); };
  const size_t n = s.draw(5);
  for (size_t i = 0; i < n; ++i) {
    const bool xyz = s.chance(1, 3);
    const std::string name = xyz ? "xyz" : names[s.draw(8)];
    const bool remove = s.chance(1, 4);
    static const char* res[] = {"0.001", "0.01", "1", "0.5", "1e-3", "2.5", "0.0005"};
    std::string r = remove ? "remove" : res[s.draw(7)];
    if (!remove && s.chance(1, 2)) {
      char b[40];
      const float any = genRes(s);
      snprintf(b, sizeof b, s.pick({"%.9g", "%g", "%.5f", "%e"}), double(any));
      if (strtof(b, nullptr) > 0) r = b;
    }
    u.text += (i ? ";" : "") + blank() + name + blank() + ":" + blank() + r + blank();
    const float v = remove ? 0.0f : strtof(r.c_str(), nullptr);
    if (xyz) for (auto a : {"x", "y", "z"}) u.profile[a] = v;
    else u.profile[name] = v;
  }
  for (auto& [k, v] : u.profile) u.removes = u.removes || v == 0;
  if (s.chance(2, 3)) u.def = s.chance(1, 4) ? 0.001f : genRes(s);
  return u;
}
// A cloud whose values fit the resolutions it will be compressed with. `kept` has the fields that survive.
struct PcMsg {
  Cloud cloud;
  refcdr::Msg msg;
  EncodingInfo kept;
};
inline PcMsg genPc(Src& s, Ctx& ctx, const Setup& u, bool tiny = false) {
  PcMsg r;
  InfoOpts o;
  o.versions = {5};
  o.opts = {EncodingOptions::LOSSY};
  o.threads_choice = false;
  o.max_fields = 5;
  EncodingInfo info = genInfo(s, o);
  static const char* names[] = {"x", "y", "z", "intensity", "ring", "timestamp", "a", "b", "other", "t"};
  const size_t start = s.draw(3) ? 0 : s.draw(10);
  for (size_t i = 0; i < info.fields.size(); ++i) info.fields[i].name = i < 10 ? names[(start + i) % 10] : "f" + std::to_string(i);
  r.kept = info;
  r.kept.fields.clear();
  for (auto& f : info.fields) {
    auto it = u.profile.find(f.name);
    f.resolution.reset();
    if (it != u.profile.end()) f.resolution = it->second == 0 ? std::optional<float>() : it->second;
    else if (u.def && f.type == FieldType::FLOAT32) f.resolution = *u.def;
    if (it == u.profile.end() || it->second != 0) r.kept.fields.push_back(f);
  }
  // at least one field stays
  if (r.kept.fields.empty()) throw pbt::Discard{};
  r.cloud = genCloudFor(s, ctx, info, s.chance(1, 10) ? 0 : 1 + s.draw(tiny ? 4 : s.chance(1, 20) ? 3000 : 60));
  if (r.cloud.n == 0 && s.chance(1, 3)) {  // a message of a publisher that has nothing to say yet
    info.fields.clear();
    r.cloud.info.fields.clear();
    r.kept.fields.clear();
    r.cloud.info.point_step = 0;
    ctx.label("blank message");
  }
  r.msg = genMsg(s, r.cloud);
  for (size_t i = 0; i < info.fields.size(); ++i) r.msg.fields[i].name = info.fields[i].name;
  r.kept.width = r.cloud.info.width;
  r.kept.height = r.cloud.info.height;
  return r;
}
struct Rec {
  mcapstub::Recording r;
  std::map<size_t, PcMsg> pcs;                         // message index -> cloud on a PointCloud2 channel
  std::map<size_t, PcMsg> comps;                       // message index -> cloud compressed on a CompressedPointCloud2 channel
  size_t others = 0;
};
inline std::string schemaOf(const mcapstub::Recording& r, uint16_t ch) {
  for (auto& c : r.channels)
    if (c.id == ch)
      for (auto& s : r.schemas)
        if (s.id == c.schemaId) return s.name;
  return "";
}
inline Rec genRec(Src& s, Ctx& ctx, const Setup& u, bool real_names) {
  Rec x;
  auto& r = x.r;
  r.profile = s.pick({"ros2", "", "ros1"});
  r.library = "gen";
  Rng g(s.seed());
  auto bytes = [&](size_t n) { std::string b; for (size_t i = 0; i < n; ++i) b += char(g.next()); return b; };
  static const char* others[] = {"std_msgs/msg/String", "sensor_msgs/msg/PointCloud2Extra", "sensor_msgs/PointCloud2", "sensor_msgs/msg/PointCloud", "point_cloud_interfaces/msg/CompressedPointCloud2Stamped", "", "foxglove.PointCloud"};
  std::set<uint16_t> ids;
  auto freshId = [&](std::set<uint16_t>& used) {
    uint16_t id;
    do { id = uint16_t(1 + (g.below(3) ? g.below(12) : g.below(65535))); } while (!used.insert(id).second);
    return id;
  };
  std::set<uint16_t> sids, cids;
  const size_t ns = 1 + s.draw(4);
  for (size_t i = 0; i < ns; ++i) {
    const int k = int(s.weighted({5, 3, 4}));
    mcap::Schema sc(k == 0 ? kPc : k == 1 ? kComp : std::string(others[s.draw(7)]), s.pick({"ros2msg", "ros2idl", ""}), bytes(s.draw(20)));
    sc.id = freshId(sids);
    r.schemas.push_back(sc);
  }
  const size_t nc = 1 + (s.chance(1, 40) ? s.draw(400) : s.draw(5));
  for (size_t i = 0; i < nc; ++i) {
    const bool none = s.chance(1, 8);
    mcap::Channel c("/t" + std::to_string(s.draw(nc > 5 ? 2 * nc : 4)), s.pick({"cdr", "json", ""}), none ? uint16_t(0) : r.schemas[s.draw(r.schemas.size())].id);
    if (s.chance(1, 2)) c.metadata["offered_qos_profiles"] = bytes(s.draw(12));
    if (s.chance(1, 4)) c.metadata["k" + std::to_string(s.draw(3))] = "v";
    c.id = freshId(cids);
    ctx.labelIf(none, "channel without schema");
    r.channels.push_back(c);
  }
  // now and then a recording of many messages (of small clouds)
  const size_t nm = s.chance(1, 25) ? 100 + s.draw(400) : s.draw(9);
  for (size_t i = 0; i < nm; ++i) {
    mcapstub::Msg m;
    m.channel = r.channels[s.draw(r.channels.size())].id;
    m.sequence = uint32_t(s.pick({uint64_t(0), uint64_t(i), g.next()}));
    m.logTime = s.chance(1, 2) ? i * 1000 : g.next() >> 1;
    m.publishTime = s.chance(1, 2) ? m.logTime : s.chance(1, 4) ? uint64_t(s.draw(2)) : g.next();
    const std::string sc = schemaOf(r, m.channel);
    if (sc == kPc) {
      PcMsg p = genPc(s, ctx, u, nm > 9);
      m.data = str(refcdr::write(p.msg));
      x.pcs[i] = p;
    } else if (sc == kComp) {
      PcMsg p = genPc(s, ctx, u, nm > 9);
      EncodingInfo info = p.cloud.info;
      refcdr::Msg cm = p.msg;
      cm.compressed = true;
      cm.format = "cloudini";
      cm.data = p.cloud.n ? encodeAll(info, p.cloud.view()) : std::vector<uint8_t>();
      m.data = str(refcdr::write(cm));
      x.comps[i] = p;
    } else {
      if (s.chance(1, 5)) m.data = str(refcdr::write(genPc(s, ctx, u, nm > 9).msg));  // looks like one, but isn't declared as one
      else m.data = bytes(s.draw(40));
      ++x.others;
    }
    r.messages.push_back(m);
  }
  const size_t nmd = s.draw(3);
  for (size_t i = 0; i < nmd; ++i) {
    mcap::Metadata m;
    m.name = s.pick({"rosbag2", "calibration", ""});
    m.metadata["a" + std::to_string(i)] = bytes(s.draw(9));
    r.metadata.push_back(m);
  }
  (void)real_names;
  ctx.note(std::to_string(r.schemas.size()) + " schemas, " + std::to_string(nc) + " channels, " + std::to_string(nm) + " messages (" + std::to_string(x.pcs.size()) + " clouds, " + std::to_string(x.comps.size()) + " compressed), profile '" + u.text + "'" + (u.def ? " default " + std::to_string(*u.def) : ""));
  return x;
}
inline std::string kvText(const mcap::KeyValueMap& m) {
  std::string t;
  for (auto& [k, v] : std::map<std::string, std::string>(m.begin(), m.end())) t += k + "=" + v + ";";
  return t;
}
inline const mcap::Channel& channelOf(const mcapstub::Recording& r, uint16_t id) {
  for (auto& c : r.channels)
    if (c.id == id) return c;
  throw pbt::Fail("a message of channel " + std::to_string(id) + ", which is not in the recording");
}
inline const mcap::Schema* schemaPtr(const mcapstub::Recording& r, uint16_t id) {
  for (auto& s : r.schemas)
    if (s.id == id) return &s;
  return nullptr;
}
// The definition stored with the channel tells how the message is to be read
inline void described(Ctx& ctx, const mcapstub::Recording& r, const mcapstub::Msg& m, const std::string& what) {
  const mcap::Schema* s = schemaPtr(r, channelOf(r, m.channel).schemaId);
  if (!s) return;
  const std::string text(reinterpret_cast<const char*>(s->data.data()), s->data.size());
  const auto b = vec(m.data);
  std::string got, want;
  try { want = rosschema::expected(refcdr::read(b, s->name == kComp)); } catch (const std::exception&) { return; }  // judged elsewhere
  try { got = rosschema::dump(text, s->name, b); } catch (const std::exception& e) { ctx.fail(what, " cannot be read with the definition in the recording: ", e.what(), "\n", text.substr(0, 400)); }
  ctx.check();
  ctx.require(got == want, what, " read with the definition in the recording gives\n", got, "instead of\n", want);
}
// Everything but the data of converted messages
inline void sameRecording(Ctx& ctx, const mcapstub::Recording& a, const mcapstub::Recording& b, bool encoding, const std::string& what) {
  auto mapped = [&](const std::string& n) { return encoding ? (n == kPc ? kComp : n) : (n == kComp ? kPc : n); };
  ctx.check();
  ctx.require(b.profile == a.profile, what, ": profile '", b.profile, "' instead of '", a.profile, "'");
  ctx.require(b.messages.size() == a.messages.size(), what, ": ", b.messages.size(), " messages instead of ", a.messages.size());
  auto chText = [&](const mcapstub::Recording& r, const mcap::Channel& c, bool map) {
    const mcap::Schema* s = schemaPtr(r, c.schemaId);
    std::string t = c.topic + "|" + c.messageEncoding + "|" + kvText(c.metadata) + "|";
    if (!s) return t + "no schema";
    const std::string n = map ? mapped(s->name) : s->name;
    t += n + "|" + s->encoding + "|";
    const bool converted = encoding ? n == kComp : n == kPc;
    if (!converted) t += std::string(reinterpret_cast<const char*>(s->data.data()), s->data.size());
    return t;
  };
  for (size_t i = 0; i < a.messages.size(); ++i) {
    auto &x = a.messages[i], &y = b.messages[i];
    ctx.require(x.sequence == y.sequence && x.logTime == y.logTime && x.publishTime == y.publishTime, what, ": message ", i, ": sequence or time differs");
    ctx.require(chText(a, channelOf(a, x.channel), true) == chText(b, channelOf(b, y.channel), false), what, ": message ", i, ": channel is '", chText(b, channelOf(b, y.channel), false), "' instead of '", chText(a, channelOf(a, x.channel), true), "'");
    const std::string sc = schemaOf(a, x.channel);
    if (sc != (encoding ? kPc : kComp)) ctx.require(x.data == y.data, what, ": message ", i, " of schema '", sc, "' was altered");
    else described(ctx, b, y, what + ": message " + std::to_string(i));
  }
  // channels without messages are there as well
  std::multiset<std::string> ca, cb;
  for (auto& c : a.channels) ca.insert(chText(a, c, true));
  for (auto& c : b.channels) cb.insert(chText(b, c, false));
  ctx.require(ca == cb, what, ": the channels differ");
  std::multiset<std::string> ma, mb;
  for (auto& m : a.metadata) ma.insert(m.name + "|" + kvText(m.metadata));
  for (auto& m : b.metadata) mb.insert(m.name + "|" + kvText(m.metadata));
  ctx.require(ma == mb, what, ": the metadata records differ");
}
inline refcdr::Msg readOrFail(Ctx& ctx, const std::string& b, bool compressed, const std::string& what) {
  try { return refcdr::read(vec(b), compressed); } catch (const std::exception& e) { ctx.fail(what, ": not a well-formed message: ", e.what()); }
}
inline refcdr::Msg keptMeta(const PcMsg& p) {
  refcdr::Msg m = p.msg;
  m.fields.clear();
  for (auto& f : p.msg.fields)
    for (auto& k : p.kept.fields)
      if (k.name == f.name) m.fields.push_back(f);
  return m;
}
}  // namespace recs
