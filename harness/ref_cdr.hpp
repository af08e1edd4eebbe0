// Independent implementation of classic CDR (written from the OMG rules, no library code):
// 4 encapsulation bytes, then a body in which a primitive of size s is aligned to min(s, max_align)
// relative to the start of the body; strings are u32 length including the terminator; sequences are u32 count.
#pragma once
#include <cstdint>
#include <cstring>
#include <stdexcept>
#include <string>
#include <vector>
namespace refcdr {
struct Writer {
  std::vector<uint8_t> b;
  bool le;
  size_t max_align;
  Writer(bool little, uint8_t kind = 0, size_t ma = 8) : le(little), max_align(ma) { b = {0, uint8_t(kind | (little ? 1 : 0)), 0, 0}; }
  void align(size_t s) {
    if (s > max_align) s = max_align;
    while ((b.size() - 4) % s) b.push_back(0);
  }
  void prim(uint64_t v, size_t s) {
    align(s);
    for (size_t i = 0; i < s; ++i) b.push_back(uint8_t(v >> (8 * (le ? i : s - 1 - i))));
  }
  void str(const std::string& s) {
    prim(s.size() + 1, 4);
    b.insert(b.end(), s.begin(), s.end());
    b.push_back(0);
  }
  void bytes(const uint8_t* p, size_t n) {
    prim(n, 4);
    b.insert(b.end(), p, p + n);
  }
};
struct Reader {
  const uint8_t* p;
  size_t n, pos = 4;
  bool le;
  size_t max_align;
  Reader(const uint8_t* d, size_t size, size_t ma = 8) : p(d), n(size), max_align(ma) {
    if (n < 4 || p[0] != 0 || (p[1] & ~1) != 0 || p[2] || p[3]) throw std::runtime_error("bad encapsulation");
    le = p[1] & 1;
  }
  uint64_t prim(size_t s) {
    size_t a = s > max_align ? max_align : s;
    while ((pos - 4) % a) ++pos;
    if (pos + s > n) throw std::runtime_error("message too short");
    uint64_t v = 0;
    for (size_t i = 0; i < s; ++i) v |= uint64_t(p[pos + i]) << (8 * (le ? i : s - 1 - i));
    pos += s;
    return v;
  }
  std::string str() {
    size_t l = prim(4);
    if (l == 0 || l > n - pos) throw std::runtime_error("bad string length");
    if (p[pos + l - 1] != 0) throw std::runtime_error("string without terminator");
    std::string s(reinterpret_cast<const char*>(p + pos), l - 1);
    pos += l;
    return s;
  }
  std::vector<uint8_t> bytes() {
    size_t l = prim(4);
    if (l > n - pos) throw std::runtime_error("bad sequence length");
    std::vector<uint8_t> r(p + pos, p + pos + l);
    pos += l;
    return r;
  }
  bool end() const { return pos == n; }
};
struct Field {
  std::string name;
  uint32_t offset = 0;
  uint8_t type = 0;
  uint32_t count = 1;
};
// sensor_msgs/PointCloud2 or point_cloud_interfaces/CompressedPointCloud2
struct Msg {
  bool le = true;
  int32_t sec = 0;
  uint32_t nsec = 0;
  std::string frame;
  uint32_t height = 1, width = 0;
  std::vector<Field> fields;
  bool bigendian = false;
  uint32_t point_step = 0, row_step = 0;
  std::vector<uint8_t> data;
  bool dense = true;
  bool compressed = false;
  std::string format;
};
inline std::vector<uint8_t> write(const Msg& m, size_t* data_at = nullptr) {
  Writer w(m.le);
  w.prim(uint32_t(m.sec), 4);
  w.prim(m.nsec, 4);
  w.str(m.frame);
  w.prim(m.height, 4);
  w.prim(m.width, 4);
  w.prim(m.fields.size(), 4);
  for (auto& f : m.fields) {
    w.str(f.name);
    w.prim(f.offset, 4);
    w.prim(f.type, 1);
    w.prim(f.count, 4);
  }
  w.prim(m.bigendian, 1);
  w.prim(m.point_step, 4);
  w.prim(m.row_step, 4);
  w.bytes(m.data.data(), m.data.size());
  if (data_at) *data_at = w.b.size() - m.data.size();
  w.prim(m.dense, 1);
  if (m.compressed) w.str(m.format);
  return w.b;
}
inline Msg read(const std::vector<uint8_t>& b, bool compressed) {
  Reader r(b.data(), b.size());
  Msg m;
  m.le = r.le;
  m.compressed = compressed;
  m.sec = int32_t(r.prim(4));
  m.nsec = uint32_t(r.prim(4));
  m.frame = r.str();
  m.height = uint32_t(r.prim(4));
  m.width = uint32_t(r.prim(4));
  size_t n = r.prim(4);
  if (n > b.size()) throw std::runtime_error("bad field count");
  for (size_t i = 0; i < n; ++i) {
    Field f;
    f.name = r.str();
    f.offset = uint32_t(r.prim(4));
    f.type = uint8_t(r.prim(1));
    f.count = uint32_t(r.prim(4));
    m.fields.push_back(f);
  }
  m.bigendian = r.prim(1) != 0;
  m.point_step = uint32_t(r.prim(4));
  m.row_step = uint32_t(r.prim(4));
  m.data = r.bytes();
  uint64_t d = r.prim(1);
  if (d > 1) throw std::runtime_error("bad bool");
  m.dense = d != 0;
  if (compressed) m.format = r.str();
  if (!r.end()) throw std::runtime_error("trailing bytes after the message");
  return m;
}
}  // namespace refcdr
