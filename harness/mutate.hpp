// Byte level mutations of serialized inputs.
#pragma once
#include "pbt.hpp"
namespace mut {
using Bytes = std::vector<uint8_t>;
inline uint64_t oddNumber(pbt::Src& s) {
  switch (s.draw(6)) {
    case 0: return s.draw(4);
    case 1: return ~uint64_t{0} - s.draw(4);
    case 2: return (uint64_t{1} << s.draw(64)) + s.draw(3) - 1;
    case 3: return s.u64();
    case 4: return s.draw(300);
    default: return s.draw(70000);
  }
}
// One random edit of b; lo/hi limit the region.
inline std::string edit(pbt::Src& s, Bytes& b, size_t lo, size_t hi) {
  hi = std::min(hi, b.size());
  if (lo > hi) lo = hi;
  const size_t n = hi - lo;
  auto pos = [&] { return lo + (n ? s.draw(n) : 0); };
  std::ostringstream o;
  const uint64_t k = n == 0 ? 3 : s.draw(9);
  switch (k) {
    case 0: { size_t p = pos(); int bit = int(s.draw(8)); b[p] ^= uint8_t(1u << bit); o << "flip bit " << bit << " of byte " << p; break; }
    case 1: { size_t p = pos(); b[p] = uint8_t(s.draw(256)); o << "byte " << p << " = " << int(b[p]); break; }
    case 2: { size_t p = pos(); size_t c = 1 + s.draw(std::min<size_t>(16, hi - p)); b.erase(b.begin() + long(p), b.begin() + long(p + c)); o << "erase " << c << " at " << p; break; }
    case 3: { size_t p = pos(); size_t c = 1 + s.draw(12); Bytes x; for (size_t i = 0; i < c; ++i) x.push_back(uint8_t(s.pick({0, 255, 128, 1, 127, int(s.draw(256))}))); b.insert(b.begin() + long(p), x.begin(), x.end()); o << "insert " << c << " at " << p; break; }
    case 4: { static const size_t w[] = {2, 4, 4, 8}; size_t p = pos(), c = std::min(w[s.draw(4)], hi - p); uint64_t v = oddNumber(s); memcpy(&b[p], &v, c); o << "number " << v << " at " << p << " (" << c << " bytes)"; break; }
    case 5: { size_t p = pos(); b.resize(p); o << "cut at " << p; break; }
    case 6: { size_t p = pos(), q = pos(); size_t c = 1 + s.draw(std::min<size_t>(32, hi - q)); Bytes x(b.begin() + long(q), b.begin() + long(q + c)); b.insert(b.begin() + long(p), x.begin(), x.end()); o << "copy " << c << " from " << q << " to " << p; break; }
    case 7: { size_t p = pos(); size_t c = 1 + s.draw(std::min<size_t>(24, hi - p)); uint8_t v = s.pick({uint8_t(0), uint8_t(255), uint8_t(128)}); std::fill(b.begin() + long(p), b.begin() + long(p + c), v); o << "fill " << c << " at " << p << " with " << int(v); break; }
    default: {  // a decimal number in a text
      std::vector<size_t> digits;
      for (size_t i = lo; i < hi; ++i) if (b[i] >= '0' && b[i] <= '9') digits.push_back(i);
      if (digits.empty()) { size_t p = pos(); b[p] ^= 0xFF; o << "invert byte " << p; break; }
      size_t p = digits[s.draw(digits.size())];
      size_t e = p;
      while (e < hi && b[e] >= '0' && b[e] <= '9') ++e;
      static const char* nums[] = {"0", "1", "-1", "4294967295", "4294967296", "2147483648", "18446744073709551615", "99999999999999999999999", "65536", "", "1e9", "0x10", "4294967291", "null", "16777216"};
      std::string t = nums[s.draw(15)];
      b.erase(b.begin() + long(p), b.begin() + long(e));
      b.insert(b.begin() + long(p), t.begin(), t.end());
      o << "decimal at " << p << " = '" << t << "'";
    }
  }
  return o.str();
}
}  // namespace mut
