// C19: variable-length integers.
#include "cloudini_lib/encoding_utils.hpp"
#include "ref_codec.hpp"
using namespace ref;
int main(int argc, char** argv) {
  auto genVal = [](Src& s) -> int64_t {
    switch (s.weighted({3, 2, 2})) {
      case 0: return int64_t(s.u64());
      case 1: { unsigned k = unsigned(s.draw(10)); int64_t base = k * 7 >= 64 ? INT64_MIN : int64_t(uint64_t{1} << (k * 7 ? k * 7 - 1 : 0)); int64_t d = s.range(-3, 3); int64_t v = int64_t(uint64_t(base) + uint64_t(d)); return s.chance(1, 2) ? v : int64_t(-uint64_t(v)); }
      default: return s.pick({int64_t(0), INT64_MIN, INT64_MAX, INT64_MIN + 1, int64_t(-1), int64_t(1), int64_t(INT32_MIN), int64_t(INT32_MAX), INT64_MAX - 1});
    }
  };
  auto one = [genVal](Src& s, Ctx& ctx) {
    const int64_t v = genVal(s);
    ctx.note("value " + std::to_string(v));
    std::vector<uint8_t> mem(10 + 32, 0x5A);
    const size_t n = encodeVarint64(v, mem.data() + 16);
    ctx.check();
    ctx.label("bytes:" + std::to_string(n));
    ctx.nontrivial(n > 1);
    ctx.require(n >= 1 && n <= 10, "length ", n);
    ctx.require(mem[16] != 0, "first byte is the NaN marker");
    for (size_t i = 0; i < mem.size(); ++i)
      if (i < 16 || i >= 16 + n) ctx.require(mem[i] == 0x5A, "byte ", long(i) - 16, " written, length ", n);
    Bytes r;
    putVarint(r, v);
    ctx.require(r.size() == n && memcmp(r.data(), mem.data() + 16, n) == 0, "bytes differ from the published encoding");
    // decode with arbitrary bytes following
    Rng g(s.seed());
    const size_t follow = s.draw(12);
    std::vector<uint8_t> in(mem.begin() + 16, mem.begin() + 16 + long(n));
    for (size_t i = 0; i < follow; ++i) in.push_back(uint8_t(g.next()));
    int64_t back = ~v;
    size_t used = 0;
    try { used = decodeVarint(in.data(), in.size(), back); } catch (const std::exception& e) { ctx.fail("own encoding rejected: ", e.what()); }
    ctx.require(used == n, "consumed ", used, " of ", n);
    ctx.require(back == v, "decoded ", back);
    // every truncation is an error, and does not read past the end (exact-size copies)
    for (size_t k = 0; k < n; ++k) {
      std::unique_ptr<uint8_t[]> cut(new uint8_t[std::max<size_t>(k, 1)]);
      memcpy(cut.get(), in.data(), k);
      std::unique_ptr<uint8_t[]> exact(k ? new uint8_t[k] : nullptr);
      if (k) memcpy(exact.get(), in.data(), k);
      bool threw = false;
      int64_t x = 0;
      try { decodeVarint(exact.get() ? exact.get() : cut.get(), k, x); } catch (const std::exception&) { threw = true; }
      ctx.require(threw, "truncation to ", k, " of ", n, " bytes accepted");
    }
    // monotone length
    const int64_t smaller = v == INT64_MIN ? INT64_MAX : int64_t((v < 0 ? -1 : 1) * int64_t(uint64_t(v < 0 ? -v : v) >> s.draw(63)));
    uint8_t t[10];
    const size_t ns = encodeVarint64(smaller, t);
    ctx.require(ns <= n, smaller, " takes ", ns, " bytes, ", v, " takes ", n);
    const uint64_t mag = v < 0 ? uint64_t(-(v + 1)) : uint64_t(v);
    for (int64_t w : {int64_t(mag), int64_t(-int64_t(mag))}) {
      const size_t nw = encodeVarint64(w, t);
      ctx.require(nw <= n, w, " takes ", nw, " bytes, ", v, " takes ", n);
    }
  };
  // concatenations are uniquely decodable
  auto many = [genVal](Src& s, Ctx& ctx) {
    size_t n = 1 + s.draw(30);
    std::vector<int64_t> v;
    Bytes b;
    for (size_t i = 0; i < n; ++i) {
      v.push_back(genVal(s));
      uint8_t t[10];
      size_t k = encodeVarint64(v.back(), t);
      b.insert(b.end(), t, t + k);
    }
    ctx.note(std::to_string(n) + " values");
    ctx.nontrivial(n > 1);
    ctx.check();
    size_t p = 0;
    for (size_t i = 0; i < n; ++i) {
      int64_t x;
      p += decodeVarint(b.data() + p, b.size() - p, x);
      ctx.require(x == v[i], "value ", i, ": ", v[i], " became ", x);
    }
    ctx.require(p == b.size(), "consumed ", p, " of ", b.size());
  };
  // arbitrary bytes: agree with the reference reader, error or value
  auto bytes = [](Src& s, Ctx& ctx) {
    size_t n = s.draw(16);
    std::vector<uint8_t> b;
    const int mode = int(s.draw(4));
    for (size_t i = 0; i < n; ++i) b.push_back(mode == 0 ? uint8_t(s.draw(256)) : mode == 1 ? uint8_t(0x80 | s.draw(128)) : mode == 2 ? s.pick({uint8_t(0x80), uint8_t(0x81), uint8_t(0xff)}) : s.pick({uint8_t(0), uint8_t(1), uint8_t(0x80), uint8_t(0xff), uint8_t(2), uint8_t(3), uint8_t(0x7f)}));
    if (mode >= 1 && n && s.chance(2, 3)) b.back() = uint8_t(s.draw(4));
    if (s.chance(1, 2)) {  // a number padded to any length, with or without bits beyond the 64th
      b.clear();
      const uint64_t u = s.chance(1, 3) ? 0 : s.chance(1, 2) ? (uint64_t{1} << s.draw(64)) - s.draw(2) : s.u64() >> s.draw(64);
      const size_t len = 1 + s.draw(12);
      for (size_t i = 0; i < len; ++i) b.push_back(uint8_t((7 * i < 64 ? u >> (7 * i) & 0x7f : 0) | (i + 1 < len ? 0x80 : 0)));
      if (s.chance(1, 4)) b[s.draw(len)] |= uint8_t(1u << s.draw(8));
      const size_t more = s.draw(3);
      for (size_t i = 0; i < more; ++i) b.push_back(uint8_t(s.draw(256)));
      n = b.size();
    }
    std::string d = "bytes";
    for (auto c : b) { char t[8]; snprintf(t, 8, " %02x", c); d += t; }
    ctx.note(d);
    ctx.nontrivial(n > 0);
    std::unique_ptr<uint8_t[]> exact(n ? new uint8_t[n] : new uint8_t[1]);
    memcpy(exact.get(), b.data(), n);
    int64_t want = 0, got = 0;
    bool refOk = true, ok = true;
    size_t refUsed = 0, used = 0;
    In in{b.data(), n};
    try { want = getVarint(in); refUsed = n - in.n; } catch (const FormatError&) { refOk = false; }
    try { used = decodeVarint(exact.get(), n, got); } catch (const std::exception&) { ok = false; }
    ctx.check();
    ctx.label(refOk ? "valid" : "invalid");
    ctx.require(ok == refOk, refOk ? "valid varint rejected" : "invalid varint accepted", ok ? " as " : "", ok ? std::to_string(got) : "");
    if (ok) ctx.require(got == want && used == refUsed, "decoded ", got, " using ", used, " bytes, expected ", want, " using ", refUsed);
  };
  return pbt::run(argc, argv, "C19",
      "A case is a value (biased to byte-count boundaries and extremes), a concatenation of values, or an arbitrary byte string. "
      "Non-trivial: more than one byte / value.",
      {{"one", one, 1500000, 8000000}, {"many", many, 250000, 1000000}, {"bytes", bytes, 1500000, 8000000}});
}
