// C07: incomplete or overlong payloads are reported.
#include "ref_codec.hpp"
using namespace ref;
static std::string tryDecode(const EncodingInfo& info, const uint8_t* p, size_t n, std::vector<uint8_t>& out) {
  std::vector<uint8_t> exact(p, p + n);
  try {
    PointcloudDecoder().decode(info, ConstBufferView(exact.data(), exact.size()), out);
  } catch (const std::exception& e) {
    return e.what();
  }
  return "";
}
static void verify(Src& s, Ctx& ctx, const Cloud& c) {
  labelCloud(ctx, c);
  auto full = encodeAll(c.info, c.view());
  ConstBufferView v(full.data(), full.size());
  EncodingInfo info = DecodeHeader(v);
  std::vector<uint8_t> p(v.data(), v.data() + v.size());
  std::vector<std::pair<size_t, size_t>> chunks;  // position of the prefix, length of the content
  for (size_t i = 0; i + 4 <= p.size();) {
    uint32_t n;
    memcpy(&n, &p[i], 4);
    chunks.push_back({i, n});
    i += 4 + n;
  }
  ctx.require(chunks.size() == (c.n + kChunk - 1) / kChunk, "unexpected chunk count ", chunks.size());
  std::vector<uint8_t> out;
  ctx.nontrivial(c.n > 0);
  auto mustFail = [&](const EncodingInfo& i, const std::vector<uint8_t>& q, const std::string& what) {
    ctx.check();
    std::string e = tryDecode(i, q.data(), q.size(), out);
    if (e.empty()) ctx.fail("accepted: ", what, " (payload ", p.size(), " bytes, ", chunks.size(), " chunks, ", c.n, " points)");
  };
  // sanity: the complete payload is fine
  { std::string e = tryDecode(info, p.data(), p.size(), out); ctx.require(e.empty(), "complete payload rejected: ", e); }
  // cut
  if (!p.empty()) {
    const size_t tries = p.size() <= 200 ? p.size() : p.size() > 50000 ? 4 : 24;
    for (size_t t = 0; t < tries; ++t) {
      size_t k;
      if (p.size() <= 200) k = t;
      else if (t % 3 == 0) { auto& ch = chunks[s.draw(chunks.size())]; k = std::min(p.size() - 1, ch.first + s.pick({0, 1, 2, 3, 4, 5})); }
      else if (t % 3 == 1) k = p.size() - 1 - s.draw(std::min<size_t>(40, p.size()));
      else k = s.draw(p.size());
      mustFail(info, std::vector<uint8_t>(p.begin(), p.begin() + long(k)), "payload cut at byte " + std::to_string(k));
    }
    ctx.label("cut");
  }
  // a chunk whose content is cut, with a consistent length prefix
  if (!chunks.empty()) {
    auto [pos, len] = chunks[s.draw(chunks.size())];
    if (len) {
      uint32_t keep = uint32_t(s.chance(1, 2) ? len - 1 - s.draw(std::min<size_t>(8, len)) : s.draw(len));
      auto q = p;
      q.erase(q.begin() + long(pos + 4 + keep), q.begin() + long(pos + 4 + len));
      memcpy(&q[pos], &keep, 4);
      mustFail(info, q, "chunk content cut to " + std::to_string(keep) + " of " + std::to_string(len) + " bytes");
      ctx.label("short chunk");
    }
  }
  // appended
  {
    auto q = p;
    const size_t k = 1 + s.draw(3);
    for (size_t i = 0; i < k; ++i) q.push_back(uint8_t(s.draw(256)));
    mustFail(info, q, std::to_string(k) + " leftover bytes");
    q = p;
    if (!chunks.empty() && s.chance(3, 4)) {
      auto [pos, len] = chunks[s.draw(chunks.size())];
      q.insert(q.end(), p.begin() + long(pos), p.begin() + long(pos + 4 + len));
    } else {
      for (int i = 0; i < 4; ++i) q.push_back(0);  // an empty chunk
    }
    mustFail(info, q, "extra chunk appended");
    ctx.label("appended");
  }
  // removed or repeated chunk in the middle
  if (chunks.size() > 1) {
    auto [pos, len] = chunks[s.draw(chunks.size())];
    auto q = p;
    q.erase(q.begin() + long(pos), q.begin() + long(pos + 4 + len));
    mustFail(info, q, "chunk removed");
    ctx.label("chunk removed");
  }
  // declared number of points that needs another number of chunks
  for (int t = 0; t < 3; ++t) {
    size_t n2;
    switch (s.draw(4)) {
      case 0: n2 = 0; break;
      case 1: n2 = chunks.size() * kChunk + 1 + s.draw(70000); break;
      case 2: n2 = chunks.size() > 1 ? s.draw((chunks.size() - 1) * kChunk + 1) : 0; break;
      default: n2 = (chunks.size() + 1) * kChunk; break;
    }
    if ((n2 + kChunk - 1) / kChunk == chunks.size()) continue;
    EncodingInfo j = info;
    j.width = uint32_t(n2);
    j.height = 1;
    mustFail(j, p, "declared " + std::to_string(n2) + " points instead of " + std::to_string(c.n));
    ctx.label("other point count");
  }
  // the header is still there
  mustFail(info, full, "payload with header");
  // output buffer too small
  if (c.n) {
    const size_t need = c.n * info.point_step;
    const size_t small = s.chance(1, 2) ? need - 1 - s.draw(std::min<size_t>(need, info.point_step)) : s.draw(need);
    std::vector<uint8_t> mem(small + 128, 0xC3);
    bool threw = false;
    try {
      PointcloudDecoder().decode(info, ConstBufferView(p.data(), p.size()), BufferView(mem.data() + 64, small));
    } catch (const std::exception&) {
      threw = true;
    }
    ctx.check();
    ctx.require(threw, "output buffer of ", small, " bytes accepted, ", need, " needed");
    for (size_t i = 0; i < 64; ++i) ctx.require(mem[i] == 0xC3 && mem[64 + small + i] == 0xC3, "written outside of the too small buffer");
    ctx.label("small output");
  }
}
// Chunks whose content does not describe exactly their points, made with the independent writer.
static void malformed(Src& s, Ctx& ctx, Cloud c) {
  if (c.n == 0 || c.info.fields.empty()) throw pbt::Discard{};
  labelCloud(ctx, c);
  auto cols = columnsOf(c);
  std::string d;
  for (size_t k = 0; k < cols.size(); ++k)
    if (coderOf(c.info, c.info.fields[k]) == Coder::LOSSY) genTickColumn(s, cols[k], c.info.fields[k].type, d);
  const auto adaptive = adaptiveFields(c.info);
  const size_t chunks = (c.n + kChunk - 1) / kChunk;
  std::vector<int> modes;
  for (size_t k = 0; k < c.info.fields.size(); ++k) modes.push_back(int(s.draw(4)));
  for (size_t k : adaptive) {  // sometimes few values or long runs, so that every section kind has something to damage
    if (!s.chance(1, 2)) continue;
    const size_t kinds = 1 + s.draw(7), period = 1 + s.draw(5);
    for (size_t i = 0; i < c.n; ++i) cols[k][i].raw = (i / period * 5 % kinds) & (szOf(c.info.fields[k].type) == 8 ? ~uint64_t(0) : ((uint64_t(1) << (8 * szOf(c.info.fields[k].type))) - 1));
  }
  const uint64_t wseed = s.seed();
  auto choices = [&] {
    WriterChoices ch;
    ch.rng = Rng(wseed);
    ch.mode = [&](size_t k, size_t) { return modes[k]; };
    return ch;
  };
  std::vector<uint8_t> out;
  {
    auto ch = choices();
    Bytes p = writePayload(c.info, cols, c.n, ch);
    std::string e = tryDecode(c.info, p.data(), p.size(), out);
    ctx.require(e.empty(), "valid payload rejected: ", e);
  }
  ctx.nontrivial(true);
  auto mustFail = [&](WriterChoices& ch, const EncodingInfo& declared, const std::string& what) {
    Bytes p = writePayload(c.info, cols, c.n, ch);
    ctx.check();
    std::string e = tryDecode(declared, p.data(), p.size(), out);
    if (e.empty()) ctx.fail("accepted: ", what, " (", c.n, " points)");
  };
  const size_t target = s.draw(chunks);
  const size_t ta = target * kChunk, tb = std::min(c.n, ta + kChunk), tn = tb - ta;
  // bytes after the last point, or after the compressed block
  {
    auto ch = choices();
    const size_t k = s.chance(3, 4) ? 1 + s.draw(9) : 1 + s.draw(200);
    Bytes extra;
    for (size_t i = 0; i < k; ++i) extra.push_back(uint8_t(s.draw(256)));
    ch.content_hook = [&](size_t q, Bytes& b) { if (q == target) b.insert(b.end(), extra.begin(), extra.end()); };
    mustFail(ch, c.info, std::to_string(k) + " bytes left over in chunk " + std::to_string(target));
    extra.resize(1 + s.draw(std::min<size_t>(3, k)));
    ch = choices();
    ch.packed_hook = [&](size_t q, Bytes& b) { if (q == target) b.insert(b.end(), extra.begin(), extra.end()); };
    mustFail(ch, c.info, std::to_string(extra.size()) + " bytes after the compressed block of chunk " + std::to_string(target));
    ctx.label("leftover in chunk");
  }
  // content cut before compression
  {
    auto ch = choices();
    const size_t back = s.draw(12), pos = s.draw(1u << 30);
    const bool tail = s.chance(1, 2);
    size_t len = 0, keep = 0;
    ch.content_hook = [&](size_t q, Bytes& b) {
      if (q != target || b.empty()) return;
      len = b.size();
      keep = tail ? len - 1 - std::min(back, len - 1) : pos % len;
      b.resize(keep);
    };
    mustFail(ch, c.info, "chunk content cut before compression");
    ctx.label("cut content");
  }
  // another number of points in the last chunk; only where every such change is visible in the content
  const bool regular_only = adaptive.empty();
  const bool one_section = adaptive.size() == c.info.fields.size() &&
                           (modes[adaptive[0]] >= 2 || (adaptive.size() == 1 && modes[adaptive[0]] == 0));
  if (regular_only || one_section) {
    const size_t lo = (chunks - 1) * kChunk + 1, hi = chunks * kChunk;
    const size_t near = c.n + s.draw(9) - 4;
    size_t n2 = s.chance(2, 3) ? near : lo + s.draw(hi - lo + 1);
    if (n2 >= lo && n2 <= hi && n2 != c.n) {
      EncodingInfo j = c.info;
      j.width = uint32_t(n2);
      j.height = 1;
      auto ch = choices();
      mustFail(ch, j, "declared " + std::to_string(n2) + " points");
      ctx.label(n2 < c.n ? "fewer points declared" : "more points declared");
    }
  }
  // Gorilla windows
  for (size_t k = 0; k < c.info.fields.size(); ++k) {
    if (tn < 2 || coderOf(c.info, c.info.fields[k]) != Coder::GORILLA || !s.chance(2, 3)) continue;
    auto ch = choices();
    const bool reuse = s.chance(1, 2);
    const size_t at = ta + 1 + s.draw(std::min<size_t>(tn - 1, 30));
    const unsigned lead = 1 + unsigned(s.draw(31)), len = unsigned(65 - lead + s.draw(lead));
    const uint64_t bits = s.u64();
    ch.value_hook = [&](size_t f, size_t i, Bytes& o) {
      if (f != k || i < ta || i > at) return false;
      if (i < at) {
        if (!reuse || i == ta) return false;
        BitWriter w(o);
        w.put(0, 1);  // the same value again: no window yet
        return true;
      }
      BitWriter w(o);
      w.put(1, 1);
      if (reuse) { w.put(0, 1); w.put(bits, 64); }
      else { w.put(1, 1); w.put(lead, 5); w.put(len - 1, 6); w.put(bits, len); }
      return true;
    };
    mustFail(ch, c.info, reuse ? "window reused before one was given, point " + std::to_string(at)
                               : "window of " + std::to_string(lead) + " leading and " + std::to_string(len) + " stored bits, point " + std::to_string(at));
    ctx.label(reuse ? "no window to reuse" : "window too large");
  }
  // integers that are none: the NaN marker, or more than 64 bits
  auto badVarint = [&](bool marker_allowed) {
    Bytes b;
    const bool marker = marker_allowed && s.chance(1, 2);
    if (marker) { b.push_back(0); ctx.label("NaN marker for an integer"); return b; }
    const int how = int(s.draw(3));
    for (int i = 0; i < 9; ++i) b.push_back(uint8_t(0x80 | s.draw(128)));
    if (how == 0) { b[0] |= 1; b.push_back(uint8_t(2 + s.draw(126))); }       // 65 bits or more
    else if (how == 1) { b.push_back(uint8_t(0x82 + s.draw(126))); b.push_back(uint8_t(s.draw(128))); }
    else { b.push_back(uint8_t(0x80 | s.draw(2))); b.push_back(uint8_t(1 + s.draw(127))); }
    ctx.label("integer of more than 64 bits");
    return b;
  };
  for (size_t k = 0; k < c.info.fields.size(); ++k) {
    const Coder co = coderOf(c.info, c.info.fields[k]);
    if ((co != Coder::INT && co != Coder::LOSSY) || std::find(adaptive.begin(), adaptive.end(), k) != adaptive.end() || !s.chance(1, 2)) continue;
    auto ch = choices();
    const size_t at = ta + s.draw(std::min<size_t>(tn, 40));
    const Bytes v = badVarint(co == Coder::INT);
    ch.value_hook = [&](size_t f, size_t i, Bytes& o) { if (f != k || i != at) return false; o.insert(o.end(), v.begin(), v.end()); return true; };
    mustFail(ch, c.info, "value of " + std::to_string(v.size()) + " bytes, field " + std::to_string(k) + " point " + std::to_string(at));
  }
  // sections
  for (size_t k : adaptive) {
    if (!s.chance(2, 3)) continue;
    const auto& f = c.info.fields[k];
    const size_t sz = szOf(f.type);
    auto ch = choices();
    const int kind = int(s.draw(4));
    std::string what;
    Bytes repl;
    const bool last = k == adaptive.back();
    if (kind == 0) {  // tag
      const uint8_t tag = uint8_t(s.chance(1, 2) ? 4 + s.draw(8) : 4 + s.draw(252));
      const bool alone = s.chance(1, 2);
      ch.section_hook = [&, tag, alone](size_t q, size_t cn, size_t, size_t, Bytes& b) {
        if (q != k || cn != target) return;
        if (alone) b.resize(1);
        b[0] = tag;
      };
      what = "section tag " + std::to_string(tag);
      ctx.label("unknown section tag");
    } else if (kind == 1) {  // palette
      repl.push_back(1);
      const uint32_t how = uint32_t(s.draw(last ? 4 : 2));
      if (how == 0) {
        putLE<uint16_t>(repl, 0);
        const size_t zeros = s.draw(3) == 0 ? tn : 0;
        repl.insert(repl.end(), zeros, 0);
        what = "empty palette";
      } else if (how == 1) {
        unsigned bits = 2 + unsigned(s.draw(4));
        size_t count = (size_t(1) << (bits - 1)) + 1 + s.draw((size_t(1) << (bits - 1)) - 1);
        putLE<uint16_t>(repl, uint16_t(count));
        for (size_t i = 0; i < count; ++i) putLE<uint64_t>(repl, i * 3, sz);
        const size_t at = s.chance(1, 3) ? tn - 1 : s.chance(1, 2) ? 0 : s.draw(tn);
        const size_t idx = s.chance(1, 2) ? count : count + s.draw((size_t(1) << bits) - count);
        const uint64_t other = s.u64();
        Rng r(other);
        BitWriter w(repl);
        for (size_t i = 0; i < tn; ++i) w.put(i == at ? idx : r.below(count), bits);
        what = "index " + std::to_string(idx) + " into a palette of " + std::to_string(count) + ", point " + std::to_string(at);
      } else {  // a palette longer or shorter than announced, in the last section
        const size_t count = 1 + s.draw(6);
        const size_t announced = how == 2 ? count + 1 + s.draw(300) : count - 1;
        putLE<uint16_t>(repl, uint16_t(announced));
        for (size_t i = 0; i < count; ++i) putLE<uint64_t>(repl, i, sz);
        BitWriter w(repl);
        for (size_t i = 0; i < tn; ++i) w.put(0, count <= 1 ? 0 : bitLen(count - 1));
        what = "palette of " + std::to_string(count) + " announced as " + std::to_string(announced);
      }
      ctx.label("palette damage");
    } else if (kind == 3) {  // integers that are none
      const int where = int(s.draw(3));
      Bytes v = badVarint(where != 2);
      if (where == 2 && s.chance(1, 4)) v = {0x81, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x02};  // 2^64 + 1
      const size_t at = s.draw(std::min<size_t>(tn, 30));
      if (where == 0) {
        repl.push_back(0);
        for (size_t i = 0; i < tn; ++i)
          if (i == at) repl.insert(repl.end(), v.begin(), v.end());
          else putVarint(repl, int64_t(i % 7));
      } else {  // runs of one point, or one run
        repl.push_back(where == 1 || s.chance(1, 2) ? 3 : 2);
        putLE<uint32_t>(repl, uint32_t(tn));
        for (size_t i = 0; i < tn; ++i) {
          if (repl[0] == 2) putLE<uint64_t>(repl, i, sz);
          else if (where == 1 && i == at) repl.insert(repl.end(), v.begin(), v.end());
          else putVarint(repl, int64_t(i % 3));
          if (where == 2 && i == at) repl.insert(repl.end(), v.begin(), v.end());
          else putUVarint(repl, 1);
        }
      }
      what = where == 2 ? "run length that does not fit" : where == 1 ? "run difference" : "difference";
      what += " of " + std::to_string(v.size()) + " bytes at " + std::to_string(at);
    } else {  // runs
      const bool delta = s.chance(1, 2);
      repl.push_back(delta ? 3 : 2);
      std::vector<size_t> lens;
      for (size_t left = tn; left;) {
        size_t l = 1 + s.draw(lens.size() < 20 && s.chance(2, 3) ? std::min<size_t>(left, 6) : left);
        lens.push_back(l);
        left -= l;
      }
      size_t count_delta = 0;
      const uint32_t how = uint32_t(s.draw(last ? 6 : 5));
      const size_t at = s.draw(lens.size());
      bool fewer_count = false;
      switch (how) {
        case 0: lens[at] += s.chance(1, 2) ? 1 : 1 + s.draw(100000); what = "a run too long"; break;
        case 1: if (lens[at] > 1) { lens[at] -= 1 + s.draw(lens[at] - 1); what = "a run too short"; } else { lens.erase(lens.begin() + long(at)); what = "a run missing"; } break;
        case 2: lens.erase(lens.begin() + long(at)); what = "a run missing"; break;
        case 3: lens.insert(lens.begin() + long(at), 1 + s.draw(5)); what = "a run too many"; break;
        case 4: fewer_count = true; what = "fewer runs announced"; break;
        default: count_delta = 1 + s.draw(3); what = "more runs announced"; break;
      }
      putLE<uint32_t>(repl, uint32_t(fewer_count ? s.draw(lens.size()) : lens.size() + count_delta));
      for (size_t i = 0; i < lens.size(); ++i) {
        if (delta) putVarint(repl, int64_t(i % 5) - 2);
        else putLE<uint64_t>(repl, i * 7, sz);
        putUVarint(repl, lens[i]);
      }
      what += delta ? " (differences)" : " (values)";
      ctx.label(what);
    }
    if (!repl.empty()) ch.section_hook = [&](size_t q, size_t cn, size_t, size_t, Bytes& b) { if (q == k && cn == target) b = repl; };
    mustFail(ch, c.info, what + ", field " + std::to_string(k) + " chunk " + std::to_string(target));
  }
}
int main(int argc, char** argv) {
  auto bulk = [](Src& s, Ctx& ctx) {
    InfoOpts o;
    o.versions = {5, 5, 4, 3};
    o.opts = {EncodingOptions::LOSSY, EncodingOptions::LOSSY, EncodingOptions::LOSSLESS, EncodingOptions::NONE};
    o.threads_choice = false;
    NOpts n;
    n.small_w = 35; n.mid_w = 45; n.big_w = 8; n.probe_w = 4; n.chunk_w = 4; n.multi_w = 4;
    n.zero = true;
    n.max = 70000;
    verify(s, ctx, genCloud(s, ctx, o, n));
  };
  auto small = [](Src& s, Ctx& ctx) {
    InfoOpts o;
    o.threads_choice = false;
    verify(s, ctx, genSmallCloud(s, ctx, o, 5, true));
  };
  auto malformed_small = [](Src& s, Ctx& ctx) {
    InfoOpts o;
    o.threads_choice = false;
    o.versions = {5, 5, 5, 4, 3};
    malformed(s, ctx, genSmallCloud(s, ctx, o, 8, true));
  };
  auto malformed_bulk = [](Src& s, Ctx& ctx) {
    InfoOpts o;
    o.threads_choice = false;
    o.versions = {5, 5, 5, 4, 3};
    NOpts n;
    n.small_w = 25; n.mid_w = 55; n.big_w = 8; n.probe_w = 4; n.chunk_w = 4; n.multi_w = 4;
    n.max = 70000;
    malformed(s, ctx, genCloud(s, ctx, o, n));
  };
  return pbt::run(argc, argv, "C07",
      "A case is a valid payload with every (small) or many sampled truncations, appended bytes and chunks, removed chunks, wrong point "
      "counts, the header left in place and too small outputs, or a payload of an independent writer in which one chunk does not describe "
      "exactly its points (leftover or missing bytes, runs, palettes, tags, bit windows, another count); every one must be reported. "
      "Non-trivial: at least one point.",
      {{"small", small, 40000, 200000}, {"bulk", bulk, 20000, 60000},
       {"malformed_small", malformed_small, 100000, 600000}, {"malformed_bulk", malformed_bulk, 12000, 60000}});
}
