// Runs the Foxglove extension of the repository (bundled into VF_BUNDLE) on the stand-in for the emscripten module.
// Request:  op(1) length(u32) payload     Reply: length(u32) text length(u32) bytes
"use strict";
const Module = require("module");
const { Memory, makeModule, serve } = require("./common.js");
let mem = null, gate = null;
function factory() {
  makeModule(mem);
  return gate.promise;
}
const load = Module._load;
Module._load = function (req, ...rest) {
  if (/cloudini_wasm_single(\.js)?$/.test(req)) return { __esModule: true, default: factory };
  return load.call(this, req, ...rest);
};

let converter = null;
function fresh(bytes, guard) {  // a new page with the extension
  mem = new Memory(bytes, guard);
  gate = {};
  gate.promise = new Promise((ok, bad) => { gate.ok = ok; gate.bad = bad; });
  delete require.cache[require.resolve(process.env.VF_BUNDLE)];
  module.children.length = 0;
  const ext = require(process.env.VF_BUNDLE);
  const conv = [];
  ext.activate({ registerMessageConverter: (c) => conv.push(c) });
  const c = conv.filter((x) => x.fromSchemaName === "point_cloud_interfaces/msg/CompressedPointCloud2" && x.toSchemaName === "sensor_msgs/msg/PointCloud2");
  converter = c.length === 1 ? c[0].converter : null;
  return converter ? "OK" : "BAD no converter registered";
}

function parse(p) {
  const cut = p.indexOf("\n\n");
  const t = JSON.parse(p.subarray(0, cut).toString("latin1"));
  const body = p.subarray(cut + 2);
  // a view of a larger buffer, as in a player that keeps several messages in one block
  const pre = t.pre | 0;
  const big = new Uint8Array(pre + body.length + 7).fill(0x77);
  big.set(body, pre);
  t.msg.compressed_data = new Uint8Array(big.buffer, pre, body.length);
  return t;
}
const kept = [];
function convert(p) {
  const t = parse(p);
  const before = JSON.stringify(t.msg, (k, v) => (v instanceof Uint8Array ? Buffer.from(v).toString("base64") : v));
  mem.error = "";
  mem.count = 0;
  mem.failAt = t.failAt === undefined ? -1 : t.failAt;
  mem.growAfter = !!t.growAfter;
  const limit = mem.buf.byteLength / 4;
  let out = null, lines = [];
  try {
    out = converter(t.msg, { topic: "/x", message: t.msg, schemaName: "point_cloud_interfaces/msg/CompressedPointCloud2" });
    if (out && typeof out.then === "function") throw new Error("a promise");
  } catch (e) {
    lines.push("EXC " + String(e && e.message).replace(/\n/g, " ").slice(0, 200));
  }
  mem.check();
  lines.push("LIMIT " + Math.floor(limit));
  lines.push("MALLOCS " + mem.count);
  if (mem.error) lines.push("HEAP " + mem.error);
  if (mem.live.size) lines.push("LEAK " + mem.live.size);
  const after = JSON.stringify(t.msg, (k, v) => (v instanceof Uint8Array ? Buffer.from(v).toString("base64") : v));
  if (before !== after) lines.push("INPUT the message given to the converter was changed");
  mem.module.HEAPU8.fill(0x11, 1024, Math.min(mem.buf.byteLength, Math.max(mem.top, 4096) + 256));  // a later user of the memory
  mem.live.clear();
  mem.top = 1024;
  let data = Buffer.alloc(0);
  if (out) {
    if (!(out.data instanceof Uint8Array)) lines.push("BAD data is not a Uint8Array");
    else data = Buffer.from(out.data);
    const o = Object.assign({}, out);
    delete o.data;
    lines.push("OUT " + JSON.stringify(o, (k, v) => (v instanceof Uint8Array ? "bytes" : v)));
    const w = { header: t.msg.header, height: t.msg.height, width: t.msg.width, fields: t.msg.fields, is_bigendian: false,
                point_step: t.msg.point_step, row_step: t.msg.width * t.msg.point_step, is_dense: t.msg.is_dense };
    for (const k of Object.keys(w))
      if (canon(o[k]) !== canon(w[k])) lines.push("META " + k + " is " + JSON.stringify(o[k]) + " instead of " + JSON.stringify(w[k]));
    kept.push([out, Buffer.from(data)]);
    if (kept.length > 4) kept.shift();
  }
  for (const [o, d] of kept) if (Buffer.compare(Buffer.from(o.data), d) !== 0) lines.push("KEPT the data of a returned message changed later");
  return [lines.join("\n"), data];
}
function canon(v) {
  if (v && typeof v === "object" && !Array.isArray(v)) return "{" + Object.keys(v).sort().map((k) => k + ":" + canon(v[k])).join() + "}";
  if (Array.isArray(v)) return "[" + v.map(canon).join() + "]";
  return JSON.stringify(v);
}
const none = Buffer.alloc(0);
serve({
  N: (p) => { const [b, g] = p.toString().split(" ").map(Number); kept.length = 0; return [fresh(b, g), none]; },
  L: async () => { gate.ok(mem.module); await gate.promise; await new Promise((r) => setImmediate(r)); return ["OK", none]; },
  C: (p) => convert(p),
});
