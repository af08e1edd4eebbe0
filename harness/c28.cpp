// C28: the PCD converter does what its options say.
#include <dirent.h>
#include <sys/stat.h>

#include <filesystem>
#include <fstream>

#include <map>

#include "cli.hpp"
#include "gen.hpp"
using namespace gen;
using cli::get;
using cli::put;
namespace {
struct Pcd {
  Cloud cloud;       // packed, no resolutions
  std::string bytes;
};
const char* kNames[] = {"x", "y", "z", "intensity", "ring", "rgb", "timestamp", "label", "normal_x", "Intensity"};
Pcd genPcd(Src& s, Ctx& ctx, double max_ticks_res, bool small) {
  Pcd p;
  EncodingInfo info;
  const size_t nf = 1 + (s.chance(1, 20) ? s.draw(100) : s.draw(7));
  uint32_t off = 0;
  const size_t shift = s.chance(3, 4) ? 0 : s.draw(10);
  for (size_t i = 0; i < nf; ++i) {
    PointField f;
    f.name = i < 10 ? kNames[(i + shift) % 10] : "f" + std::to_string(i);
    f.type = s.chance(1, 2) ? FieldType::FLOAT32 : s.pick(allTypes());
    f.offset = off;
    // values are generated to fit the finest resolution that is going to be used
    if (f.type == FieldType::FLOAT32 && max_ticks_res > 0) f.resolution = float(max_ticks_res);
    off += uint32_t(szOf(f.type));
    info.fields.push_back(f);
  }
  info.point_step = off;
  info.encoding_opt = EncodingOptions::LOSSY;
  p.cloud = genCloudFor(s, ctx, info, 1 + (small || nf > 10 ? s.draw(30) : s.chance(1, 12) ? 30000 + s.draw(10000) : s.draw(400)));
  if (p.cloud.n == 0) throw pbt::Discard{};
  std::ostringstream o;
  if (s.chance(1, 2)) o << "# .PCD v0.7 - Point Cloud Data file format\n";
  o << "VERSION 0.7\nFIELDS";
  for (auto& f : info.fields) o << ' ' << f.name;
  o << "\nSIZE";
  for (auto& f : info.fields) o << ' ' << szOf(f.type);
  o << "\nTYPE";
  for (auto& f : info.fields) o << ' ' << (f.type == FieldType::FLOAT32 || f.type == FieldType::FLOAT64 ? 'F' : (f.type == FieldType::INT8 || f.type == FieldType::INT16 || f.type == FieldType::INT32 || f.type == FieldType::INT64) ? 'I' : 'U');
  o << "\nCOUNT";
  for (size_t i = 0; i < nf; ++i) o << " 1";
  o << "\nWIDTH " << p.cloud.info.width << "\nHEIGHT " << p.cloud.info.height << "\nVIEWPOINT 0 0 0 1 0 0 0\nPOINTS " << p.cloud.n << "\nDATA binary\n";
  p.bytes = o.str() + std::string(p.cloud.data.begin(), p.cloud.data.end());
  for (auto& f : p.cloud.info.fields) f.resolution.reset();
  return p;
}
struct Options {
  std::vector<std::string> args;
  double xyz = 0.001, intensity = 0.001;
  EncodingOptions enc = EncodingOptions::LOSSY;
  CompressionOption comp = CompressionOption::ZSTD;
};
std::string num(double v) {
  char b[40];
  snprintf(b, sizeof b, "%.17g", v);
  return b;
}
Options genOptions(Src& s) {
  Options o;
  auto res = [&] { return s.chance(1, 2) ? s.pick({0.01, 0.001, 0.0005, 0.25, 1.0, 0.0}) : double(genRes(s)) ; };
  if (s.chance(2, 3)) {
    o.xyz = res();
    o.args.push_back(s.chance(1, 2) ? "-r" : "--resolution");
    o.args.push_back(num(o.xyz));
  }
  if (s.chance(2, 3)) {
    o.intensity = res();
    o.args.push_back(s.chance(1, 2) ? "-i" : "--intensity-resolution");
    o.args.push_back(num(o.intensity));
  }
  if (s.chance(2, 3)) {
    o.enc = s.pick({EncodingOptions::LOSSY, EncodingOptions::LOSSLESS, EncodingOptions::NONE});
    o.args.push_back(s.chance(1, 2) ? "-e" : "--encoding");
    o.args.push_back(o.enc == EncodingOptions::LOSSY ? "lossy" : o.enc == EncodingOptions::LOSSLESS ? "lossless" : "none");
  }
  if (s.chance(2, 3)) {
    o.comp = s.pick({CompressionOption::ZSTD, CompressionOption::NONE, CompressionOption::LZ4});
    o.args.push_back(s.chance(1, 2) ? "-c" : "--compression");
    o.args.push_back(o.comp == CompressionOption::ZSTD ? "zstd" : o.comp == CompressionOption::LZ4 ? "lz4" : "none");
  }
  return o;
}
void checkOutput(Ctx& ctx, const Pcd& p, const Options& o, const std::string& file) {
  const std::string b = get(file);
  const std::vector<uint8_t> stream(b.begin(), b.end());
  ctx.check();
  Cloud c = p.cloud;
  for (auto& f : c.info.fields) {
    if (f.type != FieldType::FLOAT32 || o.enc != EncodingOptions::LOSSY) continue;
    const double r = f.name == "intensity" ? o.intensity : o.xyz;
    if (r > 0) f.resolution = float(r);
  }
  c.info.encoding_opt = o.enc;
  c.info.compression_opt = o.comp;
  Decoded d;
  try {
    d = decodeAll(stream);
  } catch (const std::exception& e) {
    ctx.fail("the file cannot be decoded: ", e.what());
  }
  ctx.require(d.info.encoding_opt == o.enc, "the file is encoded with option ", int(d.info.encoding_opt), " instead of ", int(o.enc));
  ctx.require(d.info.compression_opt == o.comp, "the file is compressed with ", int(d.info.compression_opt), " instead of ", int(o.comp));
  ctx.require(d.info.width == c.info.width && d.info.height == c.info.height, "dimensions ", d.info.width, "x", d.info.height);
  ctx.require(d.info.fields.size() == c.info.fields.size(), d.info.fields.size(), " fields");
  for (size_t i = 0; i < c.info.fields.size(); ++i) {
    auto &f = c.info.fields[i], &g = d.info.fields[i];
    ctx.require(g.name == f.name && g.offset == f.offset && g.type == f.type, "field ", i, " is ", g.name, "@", g.offset, " ", tname(g.type));
  }
  checkSame(ctx, c, d.data.data(), d.data.size(), file.c_str());
}
double finest(const Options& o) {
  double r = 1;
  for (double x : {o.xyz, o.intensity}) if (x > 0) r = std::min(r, x);
  return o.xyz <= 0 && o.intensity <= 0 ? 0 : r;
}

void single(Src& s, Ctx& ctx) {
  const char* exe = getenv("VF_PCD_TOOL");
  if (!exe) throw pbt::Discard{};
  cli::TempDir t("c28");
  Options o = genOptions(s);
  Pcd p = genPcd(s, ctx, finest(o), false);
  const std::string stem = s.pick({"cloud", "my cloud", "a.b"}), in = t.path + "/" + stem + ".pcd";
  put(in, p.bytes);
  std::vector<std::string> args = {exe, "-f", in};
  std::string out = t.path + "/" + stem + ".cldn";
  if (s.chance(1, 2)) {
    out = t.path + "/" + s.pick({"out.cldn", "out", "out.bin"});
    args.push_back("-o");
    args.push_back(out);
    out = std::filesystem::path(out).replace_extension(".cldn").string();
  }
  args.insert(args.end(), o.args.begin(), o.args.end());
  const bool exists = s.chance(1, 3), yes = s.chance(1, 2);
  const std::string before = std::string("previous content") + std::string(s.draw(5000), 'x');
  std::string answer;
  if (exists) put(out, before);
  if (yes) args.push_back("-y");
  else if (exists) answer = s.pick({"n\n", "y\n", "Y\n", "", "q\n"});
  if (s.chance(1, 4)) args.push_back("-v");
  const bool go = !exists || yes || answer == "y\n" || answer == "Y\n";
  ctx.note(cli::show(args));
  std::string log;
  const int rc = cli::run(args, t.path, log, answer);
  ctx.check();
  ctx.require(rc < 90, "the tool ended with status ", rc, ": ", log.substr(0, 300));
  ctx.require(get(in) == p.bytes, "the input file was modified");
  if (!go && answer.empty() && s.chance(1, 4) && std::filesystem::exists("/usr/bin/valgrind")) {
    // without an answer the decision must not depend on what happened to be on the stack
    std::vector<std::string> a = {"/usr/bin/valgrind", "-q"};
    a.insert(a.end(), args.begin(), args.end());
    std::string vlog;
    cli::run(a, t.path, vlog, answer);
    ctx.require(vlog.find("depends on uninitialised value") == std::string::npos || get(out) != before ||
                    vlog.find("overwrite") == std::string::npos,
                "replacing the output depends on an uninitialised value: ", vlog.substr(0, 600));
    ctx.label("no answer, under valgrind");
  }
  if (!go) {
    ctx.require(get(out) == before, "the output was overwritten without confirmation");
    ctx.label("not confirmed");
  } else {
    ctx.require(rc == 0, "status ", rc, ": ", log.substr(0, 300));
    ctx.require(std::filesystem::exists(out), "there is no ", out);
    checkOutput(ctx, p, o, out);
    ctx.label(o.enc == EncodingOptions::LOSSY ? "lossy" : o.enc == EncodingOptions::LOSSLESS ? "lossless" : "not encoded");
  }
  ctx.labelIf(exists, "output existed");
  ctx.nontrivial(!o.args.empty());
}

void batch(Src& s, Ctx& ctx) {
  const char* exe = getenv("VF_PCD_TOOL");
  if (!exe) throw pbt::Discard{};
  cli::TempDir t("c28");
  Options o = genOptions(s);
  const std::string dir = t.path + "/in";
  std::filesystem::create_directories(dir);
  std::map<std::string, Pcd> good;
  std::map<std::string, std::string> before;
  size_t bad = 0;
  const size_t n = s.draw(5);
  for (size_t i = 0; i < n; ++i) {
    const std::string stem = "f" + std::to_string(i);
    const int kind = int(s.weighted({6, 1, 1}));
    if (kind == 0) {
      good[stem] = genPcd(s, ctx, finest(o), true);
      before[stem + ".pcd"] = good[stem].bytes;
    } else if (kind == 1) {
      before[stem + ".pcd"] = "this is not a point cloud\n";
      ++bad;
    } else before[stem + (s.chance(1, 2) ? ".txt" : ".PCD")] = "something else\n";
  }
  for (auto& [f, b] : before) put(dir + "/" + f, b);
  std::vector<std::string> args = {exe, s.chance(1, 2) ? "-b" : "--batch", dir};
  args.insert(args.end(), o.args.begin(), o.args.end());
  if (s.chance(1, 2)) args.push_back("-y");
  ctx.note(cli::show(args));
  std::string log;
  const int rc = cli::run(args, t.path, log, "");
  ctx.check();
  ctx.require(rc < 90, "the tool ended with status ", rc, ": ", log.substr(0, 300));
  ctx.require(bad > 0 || rc == 0, "status ", rc, ": ", log.substr(0, 300));
  for (auto& [f, b] : before) ctx.require(get(dir + "/" + f) == b, f, " was modified");
  size_t outputs = 0;
  for (auto& e : std::filesystem::directory_iterator(dir)) outputs += e.path().extension() == ".cldn";
  for (auto& [stem, p] : good) {
    ctx.require(std::filesystem::exists(dir + "/" + stem + ".cldn"), "there is no ", stem, ".cldn");
    checkOutput(ctx, p, o, dir + "/" + stem + ".cldn");
  }
  ctx.require(outputs == good.size(), outputs, " files were written for ", good.size(), " clouds");
  ctx.labelIf(bad > 0, "with files that cannot be read");
  ctx.nontrivial(good.size() > 1);
}

// Anything that cannot be done is reported by the exit status.
void errors(Src& s, Ctx& ctx) {
  const char* exe = getenv("VF_PCD_TOOL");
  if (!exe) throw pbt::Discard{};
  cli::TempDir t("c28");
  Pcd p = genPcd(s, ctx, 0.001, true);
  const std::string in = t.path + "/c.pcd", out = t.path + "/o.cldn";
  put(in, p.bytes);
  std::vector<std::string> args = {exe};
  auto usual = [&] { for (auto a : {std::string("-f"), in, std::string("-o"), out, std::string("-y")}) args.push_back(a); };
  const bool exists = s.chance(1, 2);
  const std::string before = "previous content";
  if (exists) put(out, before);
  bool touched = false;
  switch (s.draw(10)) {
    case 0: usual(); args[2] = t.path + "/absent.pcd"; ctx.label("absent input"); break;
    case 1: usual(); put(in, "no cloud\n"); ctx.label("input is no cloud"); break;
    case 2: usual(); args.push_back("-e"); args.push_back(s.pick({"Lossy", "", "zstd", "lossless "})); ctx.label("unknown encoding"); break;
    case 3: usual(); args.push_back("-c"); args.push_back(s.pick({"gzip", "", "lossy", "ZSTD"})); ctx.label("unknown compression"); break;
    case 4: usual(); args.push_back("-b"); args.push_back(t.path); ctx.label("file and directory"); break;
    case 5: args.push_back("-y"); ctx.label("no input"); break;
    case 6: args.push_back("-b"); args.push_back(s.chance(1, 2) ? in : t.path + "/nowhere"); ctx.label("no such directory"); break;
    case 7: usual(); std::filesystem::rename(in, t.path + "/c.txt"); args[2] = t.path + "/c.txt"; ctx.label("other extension"); break;
    case 8:  // a disk without space
      usual();
      std::filesystem::remove(out);
      std::filesystem::create_symlink("/dev/full", out);
      touched = true;
      ctx.label("no space for the output");
      break;
    default:  // output in a directory that does not exist
      usual();
      args[4] = t.path + "/nowhere/o.cldn";
      ctx.label("output cannot be created");
      break;
  }
  const std::string input = get(in);
  ctx.note(cli::show(args));
  std::string log;
  const int rc = cli::run(args, t.path, log, "");
  ctx.check();
  ctx.require(rc != 0, "the tool succeeded: ", log.substr(0, 300));
  ctx.require(rc < 90, "the tool ended with status ", rc, ": ", log.substr(0, 300));
  if (!touched && exists) ctx.require(get(out) == before, "the existing output was altered");
  if (!touched && !exists) ctx.require(!std::filesystem::exists(out), "an output was created");
  ctx.require(get(in) == input, "the input was altered");
  ctx.nontrivial();
}
}  // namespace
int main(int argc, char** argv) {
  return pbt::run(argc, argv, "C28",
      "A case is a run of the PCD converter on generated files with generated options. Non-trivial: some option is given (single file), at least two "
      "clouds (directory), or a condition that must be reported (errors).",
      {{"single", single, 1500, 30000}, {"batch", batch, 500, 10000}, {"errors", errors, 500, 8000}});
}
