// C14: nanocdr Encoder/Decoder against an independent CDR implementation; truncation.
#include <array>
#include "gen.hpp"
#include "ref_cdr.hpp"
#include "cloudini_lib/contrib/nanocdr.hpp"
using namespace gen;
struct Pod { uint8_t a = 0; double b = 0; std::string c; int16_t d = 0; std::vector<uint32_t> e; };
namespace nanocdr {
template <> struct TypeDefinition<Pod> {
  template <class Op> void operator()(Pod& o, Op& op) { op(o.a); op(o.b); op(o.c); op(o.d); op(o.e); }
};
}
enum K { I8, U8, I16, U16, I32, U32, I64, U64, F32, F64, BOOL, CHAR, STR, VU8, VU16, VI32, VF64, VSTR, A3F32, A5U64, A2U8, BUF, POD, VPOD, NK };
struct Val { int k; std::vector<uint64_t> n; std::vector<std::string> s; std::vector<uint8_t> b; };
static size_t psize(int k) {
  switch (k) { case I8: case U8: case BOOL: case CHAR: case VU8: case A2U8: return 1; case I16: case U16: case VU16: return 2; case I32: case U32: case F32: case VI32: case A3F32: return 4; default: return 8; }
}
static std::string genS(Src& s) { std::string r; size_t n = s.draw(9); if (s.chance(1, 400)) { const size_t big = size_t(1) << s.draw(17); Rng g(s.seed()); for (size_t i = big + 6 + s.draw(big) - s.draw(6); i; --i) r += char(97 + g.below(26)); } for (size_t i = 0; i < n; ++i) r += char(s.chance(1, 6) ? s.draw(256) : 97 + s.draw(26)); return r; }
static uint64_t trunc(uint64_t v, size_t b) { return b >= 8 ? v : v & ((1ull << (8 * b)) - 1); }
static Val genVal(Src& s) {
  Val v;
  v.k = int(s.draw(NK));
  size_t count = 1;
  switch (v.k) {
    case VU8: case VU16: case VI32: case VF64: case VSTR: count = s.draw(5); break;
    case A3F32: count = 3; break;
    case A5U64: count = 5; break;
    case A2U8: count = 2; break;
    case VPOD: count = s.draw(3); break;
    default: break;
  }
  const bool many = count != 1 && v.k != A3F32 && v.k != A5U64 && v.k != A2U8 && v.k != VSTR && v.k != VPOD && s.chance(1, 200);
  if (many) count = (size_t(1) << s.draw(17)) + s.draw(5);
  if (v.k == STR || v.k == VSTR) { for (size_t i = 0; i < count; ++i) v.s.push_back(genS(s)); }
  else if (v.k == BUF) { v.b.resize(s.chance(1, 200) ? size_t(1) << s.draw(18) : s.draw(12)); Rng g(s.seed()); for (auto& x : v.b) x = uint8_t(g.next()); }
  else if (v.k == POD || v.k == VPOD) { for (size_t i = 0; i < count; ++i) { v.n.push_back(s.draw(256)); v.n.push_back(s.u64()); v.n.push_back(s.draw(65536)); v.n.push_back(s.draw(3)); v.s.push_back(genS(s)); } }
  else if (v.k == BOOL) v.n.push_back(s.draw(2));
  else if (many) { Rng g(s.seed()); for (size_t i = 0; i < count; ++i) v.n.push_back(trunc(g.next(), psize(v.k))); }
  else for (size_t i = 0; i < count; ++i) v.n.push_back(trunc(s.u64(), psize(v.k)));
  return v;
}
template <class T> static T as(uint64_t v) { T t; memcpy(&t, &v, sizeof(T)); return t; }
template <class T> static uint64_t raw(const T& t) { uint64_t v = 0; memcpy(&v, &t, sizeof(T)); return v; }
static Pod pod(const Val& v, size_t i) {
  Pod p; p.a = uint8_t(v.n[4 * i]); p.b = as<double>(v.n[4 * i + 1]); p.c = v.s[i]; p.d = int16_t(v.n[4 * i + 2]);
  for (uint64_t k = 0; k < v.n[4 * i + 3]; ++k) p.e.push_back(uint32_t(v.n[4 * i + 1] >> k));
  return p;
}
static void refWrite(refcdr::Writer& w, const Val& v) {
  auto rpod = [&](size_t i) { Pod p = pod(v, i); w.prim(p.a, 1); w.prim(raw(p.b), 8); w.str(p.c); w.prim(uint16_t(p.d), 2); w.prim(p.e.size(), 4); for (auto x : p.e) w.prim(x, 4); };
  switch (v.k) {
    case STR: w.str(v.s[0]); break;
    case VSTR: w.prim(v.s.size(), 4); for (auto& x : v.s) w.str(x); break;
    case BUF: w.bytes(v.b.data(), v.b.size()); break;
    case POD: rpod(0); break;
    case VPOD: w.prim(v.s.size(), 4); for (size_t i = 0; i < v.s.size(); ++i) rpod(i); break;
    case VU8: case VU16: case VI32: case VF64: w.prim(v.n.size(), 4); [[fallthrough]];
    default: for (auto x : v.n) w.prim(x, psize(v.k)); break;
  }
}
template <class T> static std::vector<T> vec(const Val& v) { std::vector<T> r; for (auto x : v.n) r.push_back(as<T>(x)); return r; }
template <class T, size_t N> static std::array<T, N> arr(const Val& v) { std::array<T, N> r; for (size_t i = 0; i < N; ++i) r[i] = as<T>(v.n[i]); return r; }
static void libWrite(nanocdr::Encoder& e, const Val& v) {
  switch (v.k) {
    case I8: e.encode(as<int8_t>(v.n[0])); break;   case U8: e.encode(as<uint8_t>(v.n[0])); break;
    case I16: e.encode(as<int16_t>(v.n[0])); break; case U16: e.encode(as<uint16_t>(v.n[0])); break;
    case I32: e.encode(as<int32_t>(v.n[0])); break; case U32: e.encode(as<uint32_t>(v.n[0])); break;
    case I64: e.encode(as<int64_t>(v.n[0])); break; case U64: e.encode(as<uint64_t>(v.n[0])); break;
    case F32: e.encode(as<float>(v.n[0])); break;   case F64: e.encode(as<double>(v.n[0])); break;
    case BOOL: e.encode(v.n[0] != 0); break;        case CHAR: e.encode(as<char>(v.n[0])); break;
    case STR: e.encode(v.s[0]); break;
    case VU8: e.encode(vec<uint8_t>(v)); break;     case VU16: e.encode(vec<uint16_t>(v)); break;
    case VI32: e.encode(vec<int32_t>(v)); break;    case VF64: e.encode(vec<double>(v)); break;
    case VSTR: e.encode(v.s); break;
    case A3F32: e.encode(arr<float, 3>(v)); break;  case A5U64: e.encode(arr<uint64_t, 5>(v)); break;
    case A2U8: e.encode(arr<uint8_t, 2>(v)); break;
    case BUF: e.encode(nanocdr::ConstBuffer(v.b.data(), v.b.size())); break;
    case POD: e.encode(pod(v, 0)); break;
    case VPOD: { std::vector<Pod> p; for (size_t i = 0; i < v.s.size(); ++i) p.push_back(pod(v, i)); e.encode(p); break; }
  }
}
template <class T> static bool eq1(nanocdr::Decoder& d, const Val& v) { T t{}; d.decode(t); return raw(t) == raw(as<T>(v.n[0])); }
template <class T> static bool eqv(nanocdr::Decoder& d, const Val& v) {
  std::vector<T> t{T{}, T{}}; d.decode(t);
  if (t.size() != v.n.size()) return false;
  for (size_t i = 0; i < t.size(); ++i) if (raw(t[i]) != raw(as<T>(v.n[i]))) return false;
  return true;
}
template <class T, size_t N> static bool eqa(nanocdr::Decoder& d, const Val& v) {
  std::array<T, N> t{}; d.decode(t);
  for (size_t i = 0; i < N; ++i) if (raw(t[i]) != raw(as<T>(v.n[i]))) return false;
  return true;
}
static bool eqp(const Pod& a, const Pod& b) { return a.a == b.a && raw(a.b) == raw(b.b) && a.c == b.c && a.d == b.d && a.e == b.e; }
static bool libReadEq(nanocdr::Decoder& d, const Val& v) {
  switch (v.k) {
    case I8: return eq1<int8_t>(d, v);   case U8: return eq1<uint8_t>(d, v);
    case I16: return eq1<int16_t>(d, v); case U16: return eq1<uint16_t>(d, v);
    case I32: return eq1<int32_t>(d, v); case U32: return eq1<uint32_t>(d, v);
    case I64: return eq1<int64_t>(d, v); case U64: return eq1<uint64_t>(d, v);
    case F32: return eq1<float>(d, v);   case F64: return eq1<double>(d, v);
    case BOOL: { bool b = false; d.decode(b); return b == (v.n[0] != 0); }
    case CHAR: return eq1<char>(d, v);
    case STR: { std::string t = "old"; d.decode(t); return t == v.s[0]; }
    case VU8: return eqv<uint8_t>(d, v); case VU16: return eqv<uint16_t>(d, v);
    case VI32: return eqv<int32_t>(d, v); case VF64: return eqv<double>(d, v);
    case VSTR: { std::vector<std::string> t{"x", "y"}; d.decode(t); return t == v.s; }
    case A3F32: return eqa<float, 3>(d, v); case A5U64: return eqa<uint64_t, 5>(d, v); case A2U8: return eqa<uint8_t, 2>(d, v);
    case BUF: { nanocdr::ConstBuffer b; d.decode(b); return b.size() == v.b.size() && (b.size() == 0 || memcmp(b.data(), v.b.data(), b.size()) == 0); }
    case POD: { Pod p; d.decode(p); return eqp(p, pod(v, 0)); }
    case VPOD: { std::vector<Pod> p; d.decode(p); if (p.size() != v.s.size()) return false; for (size_t i = 0; i < p.size(); ++i) if (!eqp(p[i], pod(v, i))) return false; return true; }
  }
  return false;
}
static const char* kn[] = {"i8","u8","i16","u16","i32","u32","i64","u64","f32","f64","bool","char","str","u8[]","u16[]","i32[]","f64[]","str[]","f32[3]","u64[5]","u8[2]","buf","pod","pod[]"};
int main(int argc, char** argv) {
  auto seq = [](Src& s, Ctx& ctx) {
    std::vector<Val> vals(1 + s.draw(9));
    std::string note;
    for (auto& v : vals) { v = genVal(s); note += std::string(" ") + kn[v.k]; ctx.label(kn[v.k]); }
    const bool le = !s.chance(1, 2), v2 = s.chance(1, 4);
    ctx.note(std::string(le ? "LE" : "BE") + (v2 ? " XCDRv2" : "") + note);
    ctx.label(le ? "LE" : "BE");
    ctx.labelIf(v2, "XCDRv2");
    nanocdr::CdrHeader h;
    h.endianness = le ? nanocdr::Endianness::CDR_LITTLE_ENDIAN : nanocdr::Endianness::CDR_BIG_ENDIAN;
    if (v2) { h.encoding = nanocdr::EncodingFlag::PLAIN_CDR2; h.version = nanocdr::CdrVersion::XCDRv2; }
    refcdr::Writer w(le, v2 ? 4 : 0, v2 ? 4 : 8);
    std::vector<uint8_t> out(s.draw(20), 0x77);  // previous content is discarded
    nanocdr::Encoder own(h);
    std::vector<size_t> ends;
    {
      nanocdr::Encoder e(h, out);
      for (auto& v : vals) {
        libWrite(e, v);
        libWrite(own, v);
        refWrite(w, v);
        ends.push_back(w.b.size());
        ctx.check();
        ctx.require(out.size() == w.b.size(), "after ", kn[v.k], ": ", out.size(), " bytes written, expected ", w.b.size());
      }
      ctx.require(e.encodedBuffer().size() == out.size(), "encodedBuffer size");
    }
    ctx.require(out == w.b, "bytes differ from the CDR layout");
    ctx.require(own.encodedBuffer().size() == w.b.size() && memcmp(own.encodedBuffer().data(), w.b.data(), w.b.size()) == 0, "internal buffer differs");
    const auto ver = v2 ? nanocdr::CdrVersion::XCDRv1 : nanocdr::CdrVersion::DDS_CDR;
    // what follows the values must not matter
    auto full = out;
    size_t extra = s.draw(10);
    for (size_t i = 0; i < extra; ++i) full.push_back(uint8_t(s.draw(256)));
    std::vector<uint8_t> exact(full);  // exactly sized copy: reads past the end are seen by the sanitizer
    {
      nanocdr::Decoder d(nanocdr::ConstBuffer(exact.data(), exact.size()), ver);
      ctx.require(d.header().endianness == h.endianness && d.header().encoding == h.encoding, "header");
      for (size_t i = 0; i < vals.size(); ++i) {
        ctx.check();
        ctx.require(libReadEq(d, vals[i]), "value ", i, " (", kn[vals[i].k], ") reads back differently");
        ctx.require(d.currentBuffer().size() == full.size() - ends[i], "position after value ", i, " (", kn[vals[i].k], ")");
      }
    }
    // every truncation point (small buffers), some otherwise
    const size_t cuts = out.size() <= 80 ? out.size() : out.size() <= 4000 ? 24 : 3;
    for (size_t c = 0; c < cuts; ++c) {
      const size_t cut = out.size() <= 80 ? c : s.draw(out.size());
      std::vector<uint8_t> t(out.begin(), out.begin() + long(cut));
      t.shrink_to_fit();
      bool threw = false;
      size_t at = 0;
      try {
        nanocdr::Decoder d(nanocdr::ConstBuffer(t.data(), t.size()), ver);
        for (; at < vals.size(); ++at) ctx.require(libReadEq(d, vals[at]), "cut at ", cut, ": value ", at, " differs");
      } catch (const pbt::Fail&) { throw; } catch (const std::exception&) { threw = true; }
      ctx.check();
      ctx.require(threw, "cut at ", cut, " of ", out.size(), ": no error");
      size_t whole = 0;
      while (whole < ends.size() && ends[whole] <= cut) ++whole;
      ctx.require(at >= whole, "cut at ", cut, ": only ", at, " of ", whole, " complete values were read");
    }
    ctx.nontrivial(vals.size() > 1);
  };
  return pbt::run(argc, argv, "C14",
      "A case is a sequence of 1 to 9 typed values (primitives, strings, sequences, arrays, byte views, structures) in one byte order, with its truncations; non-trivial when it has at least two values.",
      {{"sequences", seq, 240000, 2500000}});
}
