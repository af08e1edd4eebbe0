// Coverage-guided part of C25. First byte: operation.
#include "capped_new.hpp"
#include "fz.hpp"
#include "untrusted_msg.hpp"
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
  if (size < 1) return 0;
  fz::begin();
  try {
    auto r = um::use(data + 1, size - 1, data[0]);
    if (r.parsed) fz::deep(data, size);
    if (r.done) fz::accepted();
  } catch (const pbt::Fail& f) {
    fz::violation(f.what());
  }
  return 0;
}
