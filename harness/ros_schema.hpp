// Reads a message with the help of a message definition in text form ("ros2msg", as stored in recordings): what a viewer
// does that knows nothing about point clouds. Gives one "path=value" per line; long byte arrays by size and hash.
#pragma once
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include "ref_cdr.hpp"
namespace rosschema {
struct Member { std::string type, name; bool sequence = false; };
struct Definition { std::string package; std::vector<Member> members; };
inline std::string lastOf(const std::string& t) { return t.substr(t.find_last_of('/') + 1); }
inline std::map<std::string, Definition> parse(const std::string& text, const std::string& root) {
  std::map<std::string, Definition> defs;
  std::string current = root;
  auto key = [](std::string t) {  // package/msg/Type and package/Type are the same
    const size_t m = t.find("/msg/");
    if (m != std::string::npos) t.erase(m, 4);
    return t;
  };
  current = key(root);
  defs[current].package = current.substr(0, current.find('/'));
  std::istringstream in(text);
  for (std::string line; std::getline(in, line);) {
    if (line.rfind("=====", 0) == 0) { current.clear(); continue; }
    if (line.rfind("MSG: ", 0) == 0) {
      current = line.substr(5);
      while (!current.empty() && isspace((unsigned char)current.back())) current.pop_back();
      current = key(current);
      defs[current].package = current.substr(0, current.find('/'));
      continue;
    }
    std::string code = line.substr(0, line.find('#'));
    std::istringstream f(code);
    Member m;
    std::string rest;
    if (!(f >> m.type)) continue;
    if (current.empty()) throw std::runtime_error("the definition has a section without a name");
    if (!(f >> m.name)) throw std::runtime_error("cannot read '" + line + "' of the definition");
    if (m.name.find('=') != std::string::npos || ((f >> rest) && rest[0] == '=')) continue;  // a constant
    const size_t b = m.type.find('[');
    if (b != std::string::npos) {
      if (m.type.substr(b) != "[]") throw std::runtime_error("unexpected array '" + m.type + "'");
      m.sequence = true;
      m.type.resize(b);
    }
    defs[current].members.push_back(m);
  }
  return defs;
}
inline size_t primitive(const std::string& t) {
  static const std::map<std::string, size_t> sizes = {{"bool", 1}, {"byte", 1}, {"char", 1}, {"int8", 1}, {"uint8", 1}, {"int16", 2}, {"uint16", 2}, {"int32", 4}, {"uint32", 4}, {"float32", 4}, {"int64", 8}, {"uint64", 8}, {"float64", 8}};
  auto i = sizes.find(t);
  return i == sizes.end() ? 0 : i->second;
}
inline std::string number(uint64_t v, const std::string& t) {
  if (t == "int8") return std::to_string(int8_t(v));
  if (t == "int16") return std::to_string(int16_t(v));
  if (t == "int32") return std::to_string(int32_t(v));
  if (t == "int64") return std::to_string(int64_t(v));
  return std::to_string(v);
}
inline std::string bytesText(const std::vector<uint8_t>& d) {
  uint64_t h = 0xcbf29ce484222325ULL;
  for (uint8_t x : d) { h ^= x; h *= 0x100000001b3ULL; }
  return std::to_string(d.size()) + " bytes " + std::to_string(h);
}
inline void readInto(const std::map<std::string, Definition>& defs, const std::string& type, refcdr::Reader& r, const std::string& path, std::string& out, int depth = 0) {
  if (depth > 8) throw std::runtime_error("recursive definition");
  auto d = defs.find(type);
  if (d == defs.end()) throw std::runtime_error("the definition lacks '" + type + "'");
  for (auto& m : d->second.members) {
    const std::string p = path + m.name;
    std::string t = m.type;
    const size_t mm = t.find("/msg/");
    if (mm != std::string::npos) t.erase(mm, 4);
    if (m.sequence && primitive(t) == 1) { out += p + "=" + bytesText(r.bytes()) + "\n"; continue; }
    const uint64_t n = m.sequence ? r.prim(4) : 1;
    if (n > 100000) throw std::runtime_error("sequence of " + std::to_string(n));
    for (uint64_t k = 0; k < n; ++k) {
      const std::string q = m.sequence ? p + "[" + std::to_string(k) + "]" : p;
      if (t == "string") out += q + "=" + r.str() + "\n";
      else if (const size_t s = primitive(t)) out += q + "=" + number(r.prim(s), t) + "\n";
      else readInto(defs, t.find('/') == std::string::npos ? d->second.package + "/" + t : t, r, q + ".", out, depth + 1);
    }
  }
}
inline std::string dump(const std::string& text, std::string root, const std::vector<uint8_t>& message) {
  auto defs = parse(text, root);
  const size_t m = root.find("/msg/");
  if (m != std::string::npos) root.erase(m, 4);
  refcdr::Reader r(message.data(), message.size());
  std::string out;
  readInto(defs, root, r, "", out);
  if (!r.end()) throw std::runtime_error("the message is longer than its definition says");
  return out;
}
// What it should give for a cloud
inline std::string expected(const refcdr::Msg& m) {
  std::ostringstream o;
  o << "header.stamp.sec=" << m.sec << "\nheader.stamp.nanosec=" << m.nsec << "\nheader.frame_id=" << m.frame << "\nheight=" << m.height << "\nwidth=" << m.width << "\n";
  for (size_t k = 0; k < m.fields.size(); ++k) {
    auto& f = m.fields[k];
    o << "fields[" << k << "].name=" << f.name << "\nfields[" << k << "].offset=" << f.offset << "\nfields[" << k << "].datatype=" << int(f.type) << "\nfields[" << k << "].count=" << f.count << "\n";
  }
  o << "is_bigendian=" << int(m.bigendian) << "\npoint_step=" << m.point_step << "\nrow_step=" << m.row_step << "\n" << (m.compressed ? "compressed_data=" : "data=") << bytesText(m.data) << "\nis_dense=" << int(m.dense) << "\n";
  if (m.compressed) o << "format=" << m.format << "\n";
  return o.str();
}
}  // namespace rosschema
