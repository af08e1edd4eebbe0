// C06: parsing a header and decoding a payload made of arbitrary bytes is memory safe and terminates (runs under ASan).
#include "capped_new.hpp"
#include "desc.hpp"
#include "mutate.hpp"
#include "ref_codec.hpp"
using namespace ref;
// Decodes the bytes in exact-size heap blocks with one decoder object. The sanitizer is the oracle for out-of-bounds accesses.
struct Run {
  bool ok = false;
  std::string error;
  std::vector<uint8_t> out;
};
static Run decodeBytes(PointcloudDecoder& dec, const EncodingInfo* given, const Bytes& in, int outmode, size_t small) {
  Run r;
  std::unique_ptr<uint8_t[]> block(new uint8_t[in.size()]);
  if (!in.empty()) memcpy(block.get(), in.data(), in.size());
  try {
    ConstBufferView v(block.get(), in.size());
    EncodingInfo info = given ? *given : DecodeHeader(v);
    const unsigned __int128 need = (unsigned __int128)(info.width) * info.height * info.point_step;
    if (outmode == 0 && need <= (32u << 20)) {
      std::unique_ptr<uint8_t[]> o(new uint8_t[size_t(need)]);
      memset(o.get(), 0, size_t(need));
      BufferView ov(o.get(), size_t(need));
      dec.decode(info, v, ov);
      r.out.assign(o.get(), o.get() + size_t(need));
    } else if (outmode == 1 || need > (32u << 20)) {
      std::unique_ptr<uint8_t[]> o(new uint8_t[small]);
      memset(o.get(), 0, small);
      BufferView ov(o.get(), small);
      dec.decode(info, v, ov);
      r.out.assign(o.get(), o.get() + small);
    } else {
      dec.decode(info, v, r.out);
    }
    r.ok = true;
  } catch (const std::exception& e) {
    r.error = e.what();
  }
  return r;
}
int main(int argc, char** argv) {
  auto body = [](Src& s, Ctx& ctx, bool big) {
    InfoOpts o;
    o.versions = {5, 4, 3, 2, 5, 5};
    o.opts = {EncodingOptions::LOSSY, EncodingOptions::LOSSY, EncodingOptions::LOSSLESS, EncodingOptions::NONE};
    o.unused_resolution = s.chance(1, 4);
    o.threads_choice = false;
    o.max_fields = 5;
    Cloud c;
    if (big) { NOpts n; n.max = 40000; c = genCloud(s, ctx, o, n); }
    else c = genSmallCloud(s, ctx, o, 8, true);
    labelCloud(ctx, c);
    auto cols = columnsOf(c);
    std::string d;
    for (size_t k = 0; k < cols.size(); ++k)
      if (coderOf(c.info, c.info.fields[k]) == Coder::LOSSY) genTickColumn(s, cols[k], c.info.fields[k].type, d);
    WriterChoices ch;
    ch.rng = Rng(s.seed());
    ch.odd_windows = s.chance(1, 2);
    ch.split_runs = s.chance(1, 3);
    const int fixed_mode = s.chance(1, 3) ? int(2 + s.draw(2)) : -1;
    std::vector<int> modes;
    for (size_t k = 0; k < c.info.fields.size(); ++k) modes.push_back(fixed_mode >= 0 ? fixed_mode : int(s.draw(4)));
    // 0. numbers of the sections as the writer writes them
    bool touched = false;
    if (s.chance(1, 3)) {
      const unsigned every = unsigned(s.pick({2, 3, 5, 12}));
      ch.warp = [r = std::make_shared<Rng>(s.seed()), every, n = c.n, &touched](uint64_t v) -> uint64_t {
        if (r->below(every)) return v;
        touched = true;
        switch (r->below(9)) {
          case 0: return 0;
          case 1: return v + 1;
          case 2: return v - 1;
          case 3: return v + (uint64_t{1} << (1 + r->below(63)));
          case 4: return ~uint64_t{0} - r->below(n + 2);       // wraps around when added to a position
          case 5: return (uint64_t{1} << 32) - r->below(n + 2);
          case 6: return (uint64_t{1} << 63) - r->below(n + 2);
          case 7: return n + r->below(3);
          default: return r->next() >> r->below(64);
        }
      };
    }
    ch.mode = [&](size_t k, size_t) { return modes[k]; };
    // the chunks before the second stage
    EncodingInfo raw = c.info;
    raw.compression_opt = CompressionOption::NONE;
    Bytes plain = writePayload(raw, cols, c.n, ch);
    std::vector<Bytes> chunks;
    if (c.info.version < 3) chunks.push_back(plain);
    else
      for (size_t i = 0; i + 4 <= plain.size();) {
        uint32_t len;
        memcpy(&len, &plain[i], 4);
        chunks.push_back(Bytes(plain.begin() + long(i + 4), plain.begin() + long(i + 4 + len)));
        i += 4 + len;
      }
    std::string what;
    ctx.labelIf(touched, "mutated section numbers");
    // 1. content of a chunk, below the compressor
    if (!chunks.empty() && s.chance(3, 5)) {
      Bytes& b = chunks[s.draw(chunks.size())];
      const int k = 1 + int(s.draw(3));
      for (int i = 0; i < k; ++i) {
        // the sections of adaptive fields are at the end
        bool tail = s.chance(1, 3);
        what += "content: " + mut::edit(s, b, tail && b.size() > 40 ? b.size() - 40 : 0, s.chance(1, 4) ? 64 : b.size()) + "; ";
      }
      touched = true;
      ctx.label("mutated below the compressor");
    }
    Rng cr(s.seed());
    Bytes payload;
    for (auto& b : chunks) {
      Bytes z = compress(c.info.compression_opt, b, cr);
      if (c.info.version >= 3) putLE<uint32_t>(payload, uint32_t(z.size()));
      payload.insert(payload.end(), z.begin(), z.end());
    }
    // 2. the payload itself
    if (s.chance(2, 5)) {
      const int k = 1 + int(s.draw(3));
      for (int i = 0; i < k; ++i) what += "payload: " + mut::edit(s, payload, 0, s.chance(1, 3) ? 16 : payload.size()) + "; ";
      touched = true;
      ctx.label("mutated payload");
    }
    // 3. the description
    EncodingInfo info = c.info;
    if (s.chance(2, 5)) {
      const int k = 1 + int(s.draw(2));
      for (int i = 0; i < k; ++i) {
        PointField* f = info.fields.empty() ? nullptr : &info.fields[s.draw(info.fields.size())];
        switch (s.draw(11)) {
          case 0: info.width = uint32_t(mut::oddNumber(s)); what += "width " + std::to_string(info.width); break;
          case 1: info.height = uint32_t(mut::oddNumber(s)); what += "height " + std::to_string(info.height); break;
          case 2: info.point_step = uint32_t(mut::oddNumber(s)); what += "point_step " + std::to_string(info.point_step); break;
          case 3: info.version = uint8_t(2 + s.draw(4)); what += "version " + std::to_string(info.version); break;
          case 4: info.encoding_opt = EncodingOptions(s.draw(5)); what += "encoding " + std::to_string(int(info.encoding_opt)); break;
          case 5: info.compression_opt = CompressionOption(s.draw(5)); what += "compression " + std::to_string(int(info.compression_opt)); break;
          case 6: if (f) { f->offset = s.chance(1, 3) ? kDecodeButSkipStore : uint32_t(s.chance(1, 2) ? ~uint32_t{0} - s.draw(20) : mut::oddNumber(s)); what += "offset " + std::to_string(f->offset); } break;
          case 7: if (f) { f->type = FieldType(s.draw(14)); what += "type " + std::to_string(int(f->type)); } break;
          case 8: if (f) { if (s.chance(1, 3)) f->resolution.reset(); else f->resolution = s.pick({1.0f, 0.0f, -1.0f, NAN, INFINITY, 1e-45f, 1e38f}); what += "resolution"; } break;
          case 9: if (f) { if (s.chance(1, 2)) info.fields.erase(info.fields.begin() + (f - info.fields.data())); else { PointField g = *f; info.fields.push_back(g); } what += "field list"; } break;
          default: info.fields.clear(); what += "no fields"; break;
        }
        what += "; ";
      }
      touched = true;
      ctx.label("mutated description");
    }
    // 4. serialized header
    const int form = int(s.draw(3));  // text, binary, description passed directly
    Bytes stream;
    if (form < 2) {
      Rng hr(s.seed());
      try {
        stream = form == 0 ? writeHeaderText(info, hr) : writeHeaderBinary(info);
      } catch (const std::exception&) { throw pbt::Discard{}; }
      if (s.chance(1, 4)) {
        const int k = 1 + int(s.draw(3));
        for (int i = 0; i < k; ++i) what += "header: " + mut::edit(s, stream, s.chance(3, 4) ? 10 : 0, stream.size()) + "; ";
        touched = true;
        ctx.label("mutated header");
      }
    }
    stream.insert(stream.end(), payload.begin(), payload.end());
    ctx.note((form == 0 ? "text header; " : form == 1 ? "binary header; " : "description passed; ") + what);
    ctx.nontrivial(touched);
    const int outmode = int(s.draw(3));
    const size_t small = s.draw(2 * c.n * c.info.point_step + 10);
    PointcloudDecoder dec;
    ctx.check();
    Run a = decodeBytes(dec, form == 2 ? &info : nullptr, stream, outmode, small);
    ctx.label(a.ok ? "accepted" : "reported");
    if (!a.ok) ctx.label("error: " + a.error.substr(0, 28));
    if (s.chance(1, 2)) {  // the outcome depends on the input only
      Run b = decodeBytes(dec, form == 2 ? &info : nullptr, stream, outmode, small);
      PointcloudDecoder fresh;
      Run b2 = decodeBytes(fresh, form == 2 ? &info : nullptr, stream, outmode, small);
      ctx.check();
      ctx.require(a.ok == b.ok && a.ok == b2.ok, "the same bytes are accepted once and rejected once: '", a.error, "' '", b.error, "' '", b2.error, "'");
      if (a.ok) ctx.require(a.out == b.out && a.out == b2.out, "the same bytes decode to different clouds");
    }
    // the object works after the attempt
    {
      Rng hr(7);
      WriterChoices ch2;
      ch2.rng = Rng(9);
      ch2.mode = [](size_t, size_t) { return 0; };
      if (c.n == 0 && c.info.version == 2) return;
      Bytes good = writeHeaderText(c.info, hr), gp = writePayload(c.info, cols, c.n, ch2);
      good.insert(good.end(), gp.begin(), gp.end());
      PointcloudDecoder fresh;
      Run x = decodeBytes(dec, nullptr, good, 0, 0), y = decodeBytes(fresh, nullptr, good, 0, 0);
      ctx.check();
      ctx.require(x.ok && y.ok, "a valid stream is rejected after the attempt: ", x.error, " / ", y.error);
      ctx.require(x.out == y.out, "a valid stream decodes differently after the attempt");
    }
  };
  auto garbage = [](Src& s, Ctx& ctx) {
    Bytes b;
    const char* magic = "CLOUDINI_V";
    if (!s.chance(1, 10)) b.assign(magic, magic + 10);
    static const char* ver[] = {"05", "04", "03", "02", "06", "01", "00", "5", "", "0", "\xff\xff", "05\n"};
    const char* v = ver[s.draw(12)];
    b.insert(b.end(), v, v + strlen(v));
    static const char* lines[] = {"\n", "version: 5\n", "width: 3\n", "height: 1\n", "point_step: 4\n", "encoding_opt: LOSSY\n", "compression_opt: NONE\n", "fields:\n", "  - name: x\n", "    offset: 0\n", "    type: UINT32\n",
      "    resolution: null\n", "    resolution: 0.001\n", "encoding_config: q\n", "  -\n", "- a\n", ":\n", "a:b: c\n", "# c\n", "\t- x: \"\\\n", "fields: x\n", "fields:\n  - \n  - name\n", "\"", "\\x4", "{", "null", "version: 99999999999\n", "\r\n", "    name: \"\\x41\\\"\"\n", "---\n"};
    const size_t n = s.draw(24);
    bool structured = s.chance(1, 2);
    for (size_t i = 0; i < n; ++i) {
      const char* t = structured ? lines[i % 12] : lines[s.draw(30)];
      b.insert(b.end(), t, t + strlen(t));
    }
    const size_t k = s.draw(30);
    if (s.chance(3, 4)) b.push_back(0);
    for (size_t i = 0; i < k; ++i) b.push_back(uint8_t(s.pick({0, 1, 255, 128, int(s.draw(256))})));
    const int e = int(s.draw(4));
    std::string what;
    for (int i = 0; i < e; ++i) what += mut::edit(s, b, 0, b.size()) + "; ";
    ctx.note(what + showText(std::string(b.begin(), b.end())));
    ctx.nontrivial(b.size() > 12);
    PointcloudDecoder dec;
    ctx.check();
    Run r = decodeBytes(dec, nullptr, b, int(s.draw(3)), s.draw(100));
    ctx.label(r.ok ? "accepted" : "error: " + r.error.substr(0, 28));
  };
  return pbt::run(argc, argv, "C06",
      "A case is a stream with mutations below the compressor, in the payload, in the description and in the serialized header (or header "
      "text assembled from fragments), decoded from an exact-size block into exact-size, too small and allocated outputs. Non-trivial: "
      "something was mutated.",
      {{"small", [=](Src& s, Ctx& c) { body(s, c, false); }, 60000, 4000000, 20},
       {"bulk", [=](Src& s, Ctx& c) { body(s, c, true); }, 2500, 60000, 30},
       {"header", garbage, 60000, 4000000, 20}});
}
