// C25: parsing, converting and preprocessing untrusted messages and descriptions is memory safe (runs under ASan).
#include "capped_new.hpp"
#include "untrusted_msg.hpp"
#include "desc.hpp"
#include "mutate.hpp"
#include "ref_codec.hpp"
using namespace gen;
int main(int argc, char** argv) {
  auto message = [](Src& s, Ctx& ctx) {
    InfoOpts o;
    o.threads_choice = false;
    o.max_fields = 5;
    Cloud c = genSmallCloud(s, ctx, o, 8, true);
    refcdr::Msg m = genMsg(s, c);
    if (s.chance(1, 2) && !m.fields.empty()) m.fields[0].name = s.pick({std::string("x"), std::string("intensity")});
    uint8_t op = uint8_t(s.draw(256));
    std::string what;
    bool touched = false;
    if ((op & 3) == 1 || s.chance(1, 8)) {
      m.data = encodeAll(c.info, c.view());
      m.compressed = true;
      m.format = "cloudini";
      if (s.chance(1, 3)) { what += "inner: " + mut::edit(s, m.data, 0, m.data.size()) + "; "; touched = true; }
    }
    const int k = int(s.draw(3));
    for (int i = 0; i < k; ++i) {
      refcdr::Field* f = m.fields.empty() ? nullptr : &m.fields[s.draw(std::min<size_t>(4, m.fields.size()))];
      touched = true;
      switch (s.draw(9)) {
        case 0: m.width = uint32_t(mut::oddNumber(s)); what += "width " + std::to_string(m.width); break;
        case 1: m.height = uint32_t(mut::oddNumber(s)); what += "height " + std::to_string(m.height); break;
        case 2: m.point_step = uint32_t(mut::oddNumber(s)); what += "point_step " + std::to_string(m.point_step); break;
        case 3: if (f) { f->offset = uint32_t(mut::oddNumber(s)); what += "offset " + std::to_string(f->offset); } break;
        case 4: if (f) { f->type = uint8_t(s.draw(13)); what += "type " + std::to_string(f->type); } break;
        case 5: if (m.data.size()) { m.data.resize(s.draw(m.data.size())); what += "data size " + std::to_string(m.data.size()); } break;
        case 6:  // a position triple anywhere
          if (m.fields.size() >= 3) {
            uint32_t b = uint32_t(s.chance(1, 2) ? s.draw(m.point_step + 4) : ~uint32_t{0} - s.draw(16));
            for (uint32_t j = 0; j < 3; ++j) { m.fields[j].type = 7; m.fields[j].offset = b + 4 * j; m.fields[j].name = j ? std::string(1, char('x' + j)) : "a"; }
            op |= 16 + 3;
            what += "triple at " + std::to_string(b);
            ctx.label("triple");
          }
          break;
        case 7: if (m.height == 1 && s.chance(2, 3)) { uint64_t k = 1 + s.draw(15); m.height = 1u << k; m.width += uint32_t((uint64_t{1} << 32) >> k); what += "dimensions " + std::to_string(m.width) + "x" + std::to_string(m.height); break; }
          m.fields.clear(); what += "no fields"; break;
        default: if (f) { auto g = *f; m.fields.push_back(g); what += "field repeated"; } break;
      }
      what += "; ";
    }
    auto b = refcdr::write(m);
    if (s.chance(1, 2)) {
      const int e = 1 + int(s.draw(3));
      for (int i = 0; i < e; ++i) what += mut::edit(s, b, s.chance(3, 4) ? 4 : 0, s.chance(1, 2) ? 120 : b.size()) + "; ";
      touched = true;
    }
    static const char* ops[] = {"parse", "decompress", "compress", "preprocess"};
    ctx.note(std::string(ops[op & 3]) + " options " + std::to_string(op >> 2) + ": " + what + showMsg(m));
    ctx.nontrivial(touched);
    ctx.check();
    auto r = um::use(b.data(), b.size(), op);
    ctx.label(std::string(ops[op & 3]) + (r.done ? " done" : r.parsed ? " failed after parsing" : " failed to parse"));
  };
  auto text = [](Src& s, Ctx& ctx) {
    EncodingInfo info = genDesc(s, true);
    std::string y = EncodingInfoToYAML(info);
    mut::Bytes b(y.begin(), y.end());
    std::string what;
    const int e = 1 + int(s.draw(4));
    for (int i = 0; i < e; ++i) what += mut::edit(s, b, 0, b.size()) + "; ";
    ctx.note(what + showText(std::string(b.begin(), b.end())));
    ctx.nontrivial();
    std::unique_ptr<char[]> block(new char[b.size()]);
    if (!b.empty()) memcpy(block.get(), b.data(), b.size());
    ctx.check();
    try {
      EncodingInfo r = EncodingInfoFromYAML(std::string_view(block.get(), b.size()));
      ctx.label("accepted");
      (void)EncodingInfoToYAML(r);
    } catch (const std::exception&) { ctx.label("reported"); }
  };
  return pbt::run(argc, argv, "C25",
      "A case is a message with mutated members and bytes (or a mutated text description) given in an exact-size block to one of the "
      "operations: parse, decompress, compress, preprocess and compress. Non-trivial: something was mutated.",
      {{"message", message, 120000, 6000000, 20}, {"text", text, 40000, 2000000, 20}});
}
