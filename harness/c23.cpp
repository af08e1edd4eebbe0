// C23: the text description and the enum names are faithful; malformed text is an error.
#include "desc.hpp"
using namespace gen;
template <class F>
static bool throws(F f) {
  try { f(); } catch (const std::exception&) { return true; }
  return false;
}
int main(int argc, char** argv) {
  auto round = [](Src& s, Ctx& ctx) {
    auto i = genDesc(s, s.chance(1, 2));
    if (s.chance(1, 3)) i.encoding_config = genName(s, true);
    ctx.note(descrFull(i));
    ctx.nontrivial(!i.fields.empty());
    ctx.label("round trip");
    std::string y = EncodingInfoToYAML(i);
    EncodingInfo d;
    // the parser gets its own exact-size copy, without a terminator
    std::vector<char> exact(y.begin(), y.end());
    try { d = EncodingInfoFromYAML(std::string_view(exact.data(), exact.size())); }
    catch (const std::exception& e) { ctx.fail("rejected its own text: ", e.what()); }
    ctx.check();
    std::string e = sameInfo(i, d);
    ctx.require(e.empty(), e);
    ctx.require(d.encoding_config == i.encoding_config, "encoding_config '", showText(i.encoding_config), "' became '", showText(d.encoding_config), "'");
    ctx.require(d.fields == i.fields, "fields differ");
    ctx.require(EncodingInfoToYAML(d) == y, "text differs after a round trip");
    ctx.require(y.find('\0') == std::string::npos, "the text contains a NUL");
  };
  // text written by others: comments, blank lines, spacing, key order, extra keys
  auto foreign = [](Src& s, Ctx& ctx) {
    auto i = genDesc(s, false);
    if (i.fields.size() > 20) i.fields.resize(20);
    ctx.nontrivial(!i.fields.empty());
    ctx.label("foreign layout");
    auto noise = [&]() -> std::string {
      switch (s.draw(5)) { case 0: return "# a comment: x\n"; case 1: return "\n"; case 2: return "   \n"; default: return ""; }
    };
    auto num = [&](uint64_t v) { return std::string(s.draw(3) + 1, ' ') + std::to_string(v) + (s.chance(1, 5) ? "  # note" : "") + (s.chance(1, 6) ? " " : "") + "\n"; };
    const bool enumsAsNumbers = s.chance(1, 4);
    auto en = [&](const char* n, int v) { return " " + (enumsAsNumbers ? std::to_string(v) : std::string(n)) + "\n"; };
    std::vector<std::string> keys{"version:" + num(i.version), "width:" + num(i.width), "height:" + num(i.height), "point_step:" + num(i.point_step),
        "encoding_opt:" + en(ToString(i.encoding_opt), int(i.encoding_opt)), "compression_opt:" + en(ToString(i.compression_opt), int(i.compression_opt))};
    if (s.chance(1, 2)) keys.push_back("unknown_key: 17\n");
    std::string fl = "fields:\n";
    for (auto& f : i.fields) {
      char r[64] = "null";
      if (f.resolution) snprintf(r, 64, s.chance(1, 2) ? "%.9g" : "%.12f", double(*f.resolution));
      if (f.resolution) f.resolution = strtof(r, nullptr);
      if (f.resolution && *f.resolution < 1e-30f) { f.resolution.reset(); snprintf(r, 64, "null"); }
      fl += "  - name: " + f.name + "\n" + noise() + "    offset: " + std::to_string(f.offset) + "\n    type:" + en(ToString(f.type), int(f.type)) + "    resolution: " + r + "\n" + noise();
    }
    keys.push_back(fl);
    for (size_t k = keys.size(); k > 1; --k) std::swap(keys[k - 1], keys[s.draw(k)]);
    std::string y;
    for (auto& k : keys) y += noise() + k;
    ctx.note(showText(y, 1200));
    EncodingInfo d;
    try { d = EncodingInfoFromYAML(y); } catch (const std::exception& e) { ctx.fail("rejected well-formed text: ", e.what()); }
    ctx.check();
    std::string e = sameInfo(i, d);
    ctx.require(e.empty(), e);
  };
  auto malformed = [](Src& s, Ctx& ctx) {
    auto i = genDesc(s, false);
    if (i.fields.empty()) i.fields.push_back({"x", 0, FieldType::FLOAT32, 0.5f});
    if (i.fields.size() > 6) i.fields.resize(6);
    std::string y = EncodingInfoToYAML(i);
    std::vector<std::string> lines;
    std::istringstream is(y);
    for (std::string l; std::getline(is, l);) lines.push_back(l);
    auto key = [](const std::string& l) { size_t a = l.find_first_not_of(" -"); return l.substr(a, l.find(':') - a); };
    const int mode = int(s.draw(4));
    size_t k = s.draw(lines.size());
    std::string kk = key(lines[k]);
    if (kk == "fields") { k = 0; kk = key(lines[0]); }
    static const char* bad[] = {"abc", "x12", "--5", "{}", ".", "nope"};
    if (mode == 0) {  // a required entry is missing
      if (kk == "name") { k = 0; kk = key(lines[0]); }
      lines.erase(lines.begin() + k);
    } else if (mode == 1) {  // a number or a name that is not one
      if (kk == "name") { k = 0; kk = key(lines[0]); }
      lines[k] = lines[k].substr(0, lines[k].find(':') + 2) + bad[s.draw(6)];
    } else if (mode == 2) {  // out of range number / enum
      const bool en = kk == "type" || kk == "encoding_opt" || kk == "compression_opt";
      if (kk == "name" || kk == "resolution") { k = 0; kk = key(lines[0]); }
      lines[k] = lines[k].substr(0, lines[k].find(':') + 2) + (en ? (s.chance(1, 2) ? "-1" : std::to_string(11 + s.draw(1000))) : kk == "version" ? std::to_string(256 + s.draw(100000)) : std::to_string(4294967296ULL + s.draw(1ULL << 50)));
    } else {  // trailing junk after a number / name, or a negative number
      if (kk == "name") { k = 0; kk = key(lines[0]); }
      const bool en = kk == "type" || kk == "encoding_opt" || kk == "compression_opt";
      if (kk == "resolution") { k = 0; kk = key(lines[0]); }
      if (en || s.chance(1, 2)) lines[k] += s.pick({std::string("x"), std::string("+1junk"), std::string(" 7"), std::string(",")});
      else lines[k] = lines[k].substr(0, lines[k].find(':') + 2) + "-" + std::to_string(1 + s.draw(500));
    }
    std::string t;
    for (auto& l : lines) t += l + "\n";
    ctx.note("mode " + std::to_string(mode) + " line " + std::to_string(k) + ": " + showText(t, 1200));
    ctx.label("malformed:" + std::to_string(mode));
    ctx.nontrivial();
    std::vector<char> exact(t.begin(), t.end());
    ctx.check();
    EncodingInfo d;
    if (!throws([&] { d = EncodingInfoFromYAML(std::string_view(exact.data(), exact.size())); })) ctx.fail("accepted malformed text (", kk, "): ", descr(d));
  };
  // arbitrary damage: an error or a value, nothing else
  auto fuzz = [](Src& s, Ctx& ctx) {
    std::string y;
    if (s.chance(1, 6)) { Rng r(s.seed()); size_t n = s.draw(400); for (size_t k = 0; k < n; ++k) y += "\n: -#ab0\t"[r.below(9)]; }
    else {
      auto i = genDesc(s, true);
      if (i.fields.size() > 20) i.fields.resize(20);
      y = EncodingInfoToYAML(i);
    }
    size_t m = 1 + s.draw(6);
    for (size_t k = 0; k < m && !y.empty(); ++k) {
      size_t p = s.draw(y.size());
      switch (s.draw(6)) {
        case 0: y[p] = static_cast<char>(s.draw(256)); break;
        case 1: y.erase(p, 1 + s.draw(30)); break;
        case 2: y.insert(p, s.pick({std::string("\n"), std::string(": "), std::string("- "), std::string("#"), std::string("\""), std::string("\\x"), std::string("  "), std::string("\t")})); break;
        case 3: y.resize(p); break;
        case 4: { std::string part = y.substr(p, 1 + s.draw(60)); y.insert(s.draw(y.size()), part); break; }
        default: y[p] = s.pick({'\n', ':', ' ', '"', '\\', '-'}); break;
      }
    }
    ctx.note(showText(y, 1200));
    ctx.label("damaged");
    ctx.nontrivial(!y.empty());
    std::vector<char> exact(y.begin(), y.end());
    ctx.check();
    try {
      auto d = EncodingInfoFromYAML(std::string_view(exact.data(), exact.size()));
      EncodingInfoToYAML(d);
      ctx.label("damaged: accepted");
    } catch (const std::exception&) {
      ctx.label("damaged: rejected");
    }
  };
  auto names = [](Src& s, Ctx& ctx) {
    ctx.nontrivial();
    ctx.check();
    for (int t = 1; t <= 10; ++t) {
      auto ft = static_cast<FieldType>(t);
      ctx.require(FieldTypeFromString(ToString(ft)) == ft, "type name ", ToString(ft));
      for (int u = 1; u < t; ++u) ctx.require(std::string(ToString(ft)) != ToString(static_cast<FieldType>(u)), "two types share the name ", ToString(ft));
    }
    static const int sizes[] = {0, 1, 1, 2, 2, 4, 4, 4, 8, 8, 8};
    for (int t = 1; t <= 10; ++t) ctx.require(SizeOf(static_cast<FieldType>(t)) == int(szOf(static_cast<FieldType>(t))), "size of type ", t);
    (void)sizes;
    for (int t = 0; t <= 2; ++t) {
      ctx.require(EncodingOptionsFromString(ToString(static_cast<EncodingOptions>(t))) == static_cast<EncodingOptions>(t), "encoding option ", t);
      ctx.require(CompressionOptionFromString(ToString(static_cast<CompressionOption>(t))) == static_cast<CompressionOption>(t), "compression option ", t);
      ctx.require(EncodingOptionsFromString(std::to_string(t)) == static_cast<EncodingOptions>(t), "encoding option by number ", t);
      ctx.require(CompressionOptionFromString(std::to_string(t)) == static_cast<CompressionOption>(t), "compression option by number ", t);
    }
    std::string n;
    switch (s.draw(4)) {
      case 0: { Rng r(s.seed()); size_t k = s.draw(12); for (size_t i = 0; i < k; ++i) n += static_cast<char>(r.below(256)); break; }
      case 1: { n = ToString(static_cast<FieldType>(1 + s.draw(10))); n[s.draw(n.size())] ^= static_cast<char>(1 + s.draw(127)); break; }
      case 2: { n = s.pick({std::string("NONE"), std::string("LOSSY"), std::string("LOSSLESS"), std::string("LZ4"), std::string("ZSTD"), std::string("FLOAT32")}); if (s.chance(1, 2)) n += static_cast<char>(s.draw(256)); else n.resize(s.draw(n.size())); break; }
      default:
        switch (s.draw(4)) {
          case 0: n = std::to_string(s.range(-3, 14)); break;
          case 1: n = std::to_string(s.range(-300, 70000)); break;
          case 2: n = std::to_string((int64_t(1) << s.draw(42)) + s.range(-3, 13)); break;  // truncated to a valid number?
          default: n = std::to_string(s.range(-2000000000000LL, 2000000000000LL)); break;
        }
        break;
    }
    ctx.note("name '" + showText(n) + "'");
    ctx.label("names");
    auto isNumber = [&](int lo, int hi) {  // optional blanks and sign as the C library reads them
      try { size_t p; int v = std::stoi(n, &p); return p == n.size() && v >= lo && v <= hi; } catch (...) { return false; }
    };
    bool known = false;
    for (int t = 1; t <= 10; ++t) known |= n == ToString(static_cast<FieldType>(t));
    if (!known && !isNumber(0, 10)) ctx.require(throws([&] { FieldTypeFromString(n); }), "FieldTypeFromString accepted '", showText(n), "'");
    if (n != "NONE" && n != "LOSSY" && n != "LOSSLESS" && !isNumber(0, 2)) ctx.require(throws([&] { EncodingOptionsFromString(n); }), "EncodingOptionsFromString accepted '", showText(n), "'");
    if (n != "NONE" && n != "LZ4" && n != "ZSTD" && !isNumber(0, 2)) ctx.require(throws([&] { CompressionOptionFromString(n); }), "CompressionOptionFromString accepted '", showText(n), "'");
  };
  return pbt::run(argc, argv, "C23",
      "A case is a cloud description converted to text and back, a well-formed text in another layout, a malformed text, or an option or "
      "type name. Non-trivial: the description has a field, or the text/name is not the library's own.",
      {{"round", round, 120000, 800000}, {"foreign", foreign, 80000, 400000}, {"malformed", malformed, 80000, 400000}, {"fuzz", fuzz, 160000, 2000000}, {"names", names, 40000, 200000}});
}
