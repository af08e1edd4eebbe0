// A stand-in for the emscripten module (a growing memory with guarded blocks and a native build of the same C functions,
// VF_ADDON), and the protocol of the helper processes.
"use strict";
const fs = require("fs");
const dl = { exports: {} };  // with its own libraries: node has another version of zstd inside
process.dlopen(dl, process.env.VF_ADDON, require("os").constants.dlopen.RTLD_NOW | require("os").constants.dlopen.RTLD_DEEPBIND);
const native = dl.exports;
const quiet = () => {};
console.log = console.warn = console.error = console.info = console.debug = quiet;
process.on("unhandledRejection", quiet);
let spent = 0;  // bytes of array buffers allocated since the last garbage collection
const MAX = 128 << 20, GUARD = 0xc5;

class Memory {
  constructor(bytes, guard) {
    this.buf = new ArrayBuffer(bytes);
    spent += bytes;
    this.guard = guard;
    this.live = new Map();
    this.error = "";
    this.count = 0;
    this.failAt = -1;
    this.growAfter = false;
    this.top = 1024;
    this.module = {};
    this.views();
  }
  views() {
    const m = this.module, b = this.buf;
    m.HEAPU8 = new Uint8Array(b); m.HEAP8 = new Int8Array(b);
    m.HEAPU16 = new Uint16Array(b); m.HEAP16 = new Int16Array(b);
    m.HEAPU32 = new Uint32Array(b); m.HEAP32 = new Int32Array(b);
    m.HEAPF32 = new Float32Array(b); m.HEAPF64 = new Float64Array(b);
  }
  grow(n) {  // as in wasm: the old buffer is detached
    const size = Math.min(MAX, Math.max((n + 65535) & ~65535, Math.ceil((this.buf.byteLength * 1.2) / 65536) * 65536));
    this.buf = this.buf.transfer(size);
    spent += size;
    this.views();
  }
  malloc(n) {
    n = n >>> 0;
    if (this.count++ === this.failAt) return 0;
    const end = this.top + n + this.guard;
    if (end > MAX) return 0;
    if (end > this.buf.byteLength) this.grow(end);
    const p = this.top;
    const h = this.module.HEAPU8;
    h.fill(0xdb, p, p + n);
    h.fill(GUARD, p + n, end);
    this.live.set(p, n);
    this.top = (end + 15) & ~15;
    return p;
  }
  free(p) {
    p = p >>> 0;
    if (p === 0) return;
    if (!this.live.has(p)) { this.error = this.error || "free of a pointer that is not allocated"; return; }
    this.check();
    this.module.HEAPU8.fill(0xdd, p, p + this.live.get(p));
    this.live.delete(p);
    if (this.live.size === 0) this.top = 1024;
  }
  check() {
    const h = this.module.HEAPU8;
    for (const [p, n] of this.live)
      for (let i = p + n; i < p + n + this.guard; i++)
        if (h[i] !== GUARD) { this.error = this.error || "bytes beyond a block of " + n + " were written"; return; }
  }
  // A call of a native function: what it reads and writes must lie in allocated blocks
  inside(p, n) {
    if (n === 0) return true;
    for (const [q, m] of this.live) if (q <= p && p + n <= q + m) return true;
    return false;
  }
}

// The emscripten module on a memory
function makeModule(m) {
  m.module._malloc = (n) => m.malloc(n);
  m.module._free = (p) => m.free(p);
  for (const name of Object.keys(native))
    m.module[name] = (...a) => {
      const real = name === "_cldn_ComputeCompressedSize" || name === "_cldn_EncodePointcloudMessage";  // argument 2 is the resolution
      const c = a.map((x, i) => (real && i === 2 ? x : x >>> 0));
      if (name !== "_cldn_EncodePointcloudData" && !m.inside(c[0], c[1])) m.error = m.error || name + " was given an input of " + c[1] + " bytes outside of its block";
      const r = native[name](m.buf, ...c);
      m.check();
      if (m.growAfter) m.grow(m.buf.byteLength + 1);
      return r;
    };
  m.module.UTF8ToString = (p) => { const h = m.module.HEAPU8; let e = p; while (h[e]) e++; return Buffer.from(h.slice(p, e)).toString("utf8"); };
  m.module.ccall = (n, r, t, a) => m.module["_" + n](...a);
  m.module.cwrap = (n) => (...a) => m.module["_" + n](...a);
  return m.module;
}
function readN(n) {
  const b = Buffer.alloc(n);
  let k = 0;
  while (k < n) {
    let r = 0;
    try { r = fs.readSync(0, b, k, n - k, null); } catch (e) { if (e.code === "EAGAIN") continue; if (e.code === "EOF") return null; throw e; }
    if (r === 0) return null;
    k += r;
  }
  return b;
}
function writeAll(b) {
  let k = 0;
  while (k < b.length) { try { k += fs.writeSync(1, b, k, b.length - k); } catch (e) { if (e.code !== "EAGAIN") throw e; } }
}
// Answers requests with handlers[op](payload) -> [text, bytes]
async function serve(handlers) {
  for (;;) {
    if (spent > 256 << 20) { spent = 0; await new Promise((r) => setImmediate(r)); global.gc(); }
    const h = readN(5);
    if (!h) process.exit(0);
    const p = readN(h.readUInt32LE(1));
    if (!p) process.exit(0);
    const [text, data] = await handlers[String.fromCharCode(h[0])](p);
    const t = Buffer.from(text), o = Buffer.alloc(4), l = Buffer.alloc(4);
    o.writeUInt32LE(t.length, 0);
    l.writeUInt32LE(data.length, 0);
    writeAll(Buffer.concat([o, t, l, data]));
  }
}
module.exports = { Memory, makeModule, serve };
