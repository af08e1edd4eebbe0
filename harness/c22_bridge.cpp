// The C interface as a shared library.
#include "cloudini_lib/wasm_functions.h"
extern "C" int vf_bridge_marker() { return 1; }
