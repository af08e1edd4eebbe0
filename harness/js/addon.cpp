// Node addon: the C interface of the library, working on the memory of an ArrayBuffer.
#include <node_api.h>
#include <cstdint>
#include <cstring>
#include "cloudini_lib/wasm_functions.h"
namespace {
struct Args {
  napi_env env;
  napi_value v[6];
  uint8_t* base = nullptr;
  size_t len = 0;
  Args(napi_env e, napi_callback_info info) : env(e) {
    size_t n = 6;
    napi_get_cb_info(e, info, &n, v, nullptr, nullptr);
    void* p = nullptr;
    napi_get_arraybuffer_info(e, v[0], &p, &len);
    base = static_cast<uint8_t*>(p);
  }
  uint32_t u(int i) const { uint32_t r = 0; napi_get_value_uint32(env, v[i], &r); return r; }
  float f(int i) const { double r = 0; napi_get_value_double(env, v[i], &r); return float(r); }
  uintptr_t p(int i) const { const uint32_t r = u(i); return r ? reinterpret_cast<uintptr_t>(base + r) : 0; }
  napi_value ret(uint32_t r) const { napi_value o; napi_create_uint32(env, r, &o); return o; }
};
#define FN(name, call) napi_value name(napi_env e, napi_callback_info i) { Args a(e, i); return a.ret(call); }
FN(header, cldn_GetHeaderAsYAML(a.p(1), a.u(2), a.p(3)))
FN(headerDDS, cldn_GetHeaderAsYAMLFromDDS(a.p(1), a.u(2), a.p(3)))
FN(computeSize, cldn_ComputeCompressedSize(a.p(1), a.u(2), a.f(3)))
FN(decompressedSize, cldn_GetDecompressedSize(a.p(1), a.u(2)))
FN(decodeMessage, cldn_DecodeCompressedMessage(a.p(1), a.u(2), a.p(3)))
FN(decodeData, cldn_DecodeCompressedData(a.p(1), a.u(2), a.p(3)))
FN(convert, cldn_ConvertCompressedMsgToPointCloud2Msg(a.p(1), a.u(2), a.p(3)))
FN(encodeMessage, cldn_EncodePointcloudMessage(a.p(1), a.u(2), a.f(3), a.p(4)))
FN(encodeData, cldn_EncodePointcloudData(reinterpret_cast<const char*>(a.p(1)), a.p(2), a.u(3), a.p(4)))
}  // namespace
NAPI_MODULE_INIT() {
  auto add = [&](const char* n, napi_callback f) {
    napi_value v;
    napi_create_function(env, n, NAPI_AUTO_LENGTH, f, nullptr, &v);
    napi_set_named_property(env, exports, n, v);
  };
  add("_cldn_GetHeaderAsYAML", header);
  add("_cldn_GetHeaderAsYAMLFromDDS", headerDDS);
  add("_cldn_ComputeCompressedSize", computeSize);
  add("_cldn_GetDecompressedSize", decompressedSize);
  add("_cldn_DecodeCompressedMessage", decodeMessage);
  add("_cldn_DecodeCompressedData", decodeData);
  add("_cldn_ConvertCompressedMsgToPointCloud2Msg", convert);
  add("_cldn_EncodePointcloudMessage", encodeMessage);
  add("_cldn_EncodePointcloudData", encodeData);
  return exports;
}
