// Generator of point cloud messages.
#pragma once
#include "gen.hpp"
#include "ref_cdr.hpp"
#include "cloudini_lib/ros_msg_utils.hpp"
namespace gen {
inline std::string genText(Src& s, size_t maxlen) {
  static const char* nm[] = {"map", "", "lidar", "base_link", "a", "os_sensor/frame", "velodyne_1"};
  if (s.chance(1, 2)) return nm[s.draw(7)];
  std::string r;
  if (s.chance(1, 60)) {  // long ones, up to what the header of a stream can describe
    Rng g(s.seed());
    for (size_t n = (size_t(1) << s.draw(16)) + s.draw(9); n; --n) r += char(1 + g.below(254));
    return r;
  }
  size_t n = s.draw(maxlen);
  for (size_t i = 0; i < n; ++i) r += char(1 + s.draw(254));
  return r;
}
// A message for the given cloud: metadata generated, data taken from the cloud.
inline refcdr::Msg genMsg(Src& s, const Cloud& c) {
  refcdr::Msg m;
  m.le = !s.chance(1, 3);
  m.sec = int32_t(s.pick({0u, 1u, 1700000000u, 0x7fffffffu, 0xffffffffu, 0x80000000u}));
  m.nsec = uint32_t(s.pick({0u, 999999999u, 123456u, 0xffffffffu}));
  m.frame = genText(s, 24);
  m.height = c.info.height;
  m.width = c.info.width;
  const bool odd_names = s.chance(1, 3);
  for (auto& f : c.info.fields) {
    refcdr::Field g;
    g.name = odd_names ? genText(s, 12) : f.name;
    g.offset = f.offset;
    g.type = uint8_t(f.type);
    m.fields.push_back(g);
  }
  m.point_step = c.info.point_step;
  m.row_step = m.point_step * m.width;
  m.data = c.data;
  m.dense = s.chance(1, 2);
  return m;
}
inline std::string showMsg(const refcdr::Msg& m) {
  std::string o = std::string(m.le ? "LE" : "BE") + " frame(" + std::to_string(m.frame.size()) + ") " + std::to_string(m.width) + "x" + std::to_string(m.height) +
                  " step " + std::to_string(m.point_step) + " dense " + std::to_string(m.dense) + " data " + std::to_string(m.data.size()) + " fields";
  for (auto& f : m.fields) o += " (" + std::to_string(f.name.size()) + ")@" + std::to_string(f.offset) + ":" + std::to_string(f.type);
  return o;
}
// "" when the metadata of a and b agree
inline std::string sameMeta(const refcdr::Msg& a, const refcdr::Msg& b) {
  if (a.le != b.le) return "byte order";
  if (a.sec != b.sec || a.nsec != b.nsec) return "stamp";
  if (a.frame != b.frame) return "frame id";
  if (a.height != b.height) return "height";
  if (a.width != b.width) return "width";
  if (a.fields.size() != b.fields.size()) return "number of fields";
  for (size_t i = 0; i < a.fields.size(); ++i) {
    auto &x = a.fields[i], &y = b.fields[i];
    if (x.name != y.name) return "name of field " + std::to_string(i);
    if (x.offset != y.offset) return "offset of field " + std::to_string(i);
    if (x.type != y.type) return "type of field " + std::to_string(i);
    if (x.count != y.count) return "count of field " + std::to_string(i);
  }
  if (a.bigendian != b.bigendian) return "is_bigendian";
  if (a.point_step != b.point_step) return "point_step";
  if (a.row_step != b.row_step) return "row_step";
  if (a.dense != b.dense) return "is_dense";
  return "";
}
inline ConstBufferView viewOf(const std::vector<uint8_t>& v) { return ConstBufferView(v.data(), v.size()); }
}  // namespace gen
