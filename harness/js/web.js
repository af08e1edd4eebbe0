// Runs the web page of the repository (bundled into VF_BUNDLE) with a small document, a recording in memory instead of
// the mcap library, and the stand-in for the emscripten module.
"use strict";
const Module = require("module");
const { Memory, makeModule, serve } = require("./common.js");
let mem = null, page = null, current = null, calls = [];

class Element {
  constructor(id) {
    this.id = id;
    this.html = "";
    this.style = {};
    this.handlers = {};
    this.classes = new Set();
    this.classList = { add: (...c) => c.forEach((x) => this.classes.add(x)), remove: (...c) => c.forEach((x) => this.classes.delete(x)), contains: (c) => this.classes.has(c),
                       toggle: (c, on) => { const f = on === undefined ? !this.classes.has(c) : on; if (f) this.classes.add(c); else this.classes.delete(c); return f; } };
    this.children = [];
  }
  addEventListener(t, f) { (this.handlers[t] = this.handlers[t] || []).push(f); }
  removeEventListener(t, f) { this.handlers[t] = (this.handlers[t] || []).filter((x) => x !== f); }
  fire(t, e) { const ev = Object.assign({ type: t, target: this, preventDefault() {}, stopPropagation() {} }, e); for (const f of [...(this.handlers[t] || [])]) f(ev); if (typeof this["on" + t] === "function") this["on" + t](ev); }
  click() { this.fire("click", {}); }
  setAttribute(k, v) { this[k] = v; }
  getAttribute(k) { return this[k]; }
  get innerHTML() { return this.html; }
  set innerHTML(h) {
    this.html = String(h);
    this.children = [];
    if (this.id === "dropZone") page.elements.delete("fileInput");  // its content is replaced
    for (const m of this.html.matchAll(/<input\b[^>]*\bid\s*=\s*["']?([\w-]+)/g)) page.elements.set(m[1], new Element(m[1]));
  }
  get textContent() { return textOf(this.html).join(" "); }
  set textContent(t) { this.innerHTML = String(t).replace(/&/g, "&amp;").replace(/</g, "&lt;").replace(/>/g, "&gt;"); }
  get innerText() { return this.textContent; }
  set innerText(t) { this.textContent = t; }
  insertAdjacentHTML(w, h) { this.innerHTML = w === "afterbegin" ? h + this.html : this.html + h; }
  appendChild(e) { this.children.push(e); page.attached(e); return e; }
  append(...e) { e.forEach((x) => this.appendChild(x)); }
  removeChild(e) { this.children = this.children.filter((x) => x !== e); return e; }
  remove() {}
}
function textOf(html) {
  const names = { lt: "<", gt: ">", quot: '"', apos: "'", amp: "&", nbsp: " " };
  return html.replace(/<!--[\s\S]*?-->/g, "\n").replace(/<[a-zA-Z\/][^>]*>/g, "\n").split("\n")
    .map((l) => l.replace(/&(#x?[0-9a-fA-F]+|\w+);/g, (a, e) => (e[0] === "#" ? String.fromCodePoint(e[1] === "x" ? parseInt(e.slice(2), 16) : parseInt(e.slice(1), 10)) : e in names ? names[e] : a)).trim())
    .filter((l) => l !== "");
}
function newPage(bytes, guard) {
  mem = new Memory(bytes, guard);
  page = { elements: new Map(), attached: (e) => {
    if (e.tagName !== "SCRIPT") return;
    const fails = current && current.script_fails;
    setImmediate(() => {
      if (fails) { if (e.onerror) e.onerror(new Error("not found")); e.fire("error", {}); return; }
      globalThis.CloudiniModule = async () => {
        if (current && current.module_fails) throw new Error("no memory for the module");
        makeModule(mem);
        const f = mem.module._cldn_ComputeCompressedSize;
        mem.module._cldn_ComputeCompressedSize = (p, n, res) => {
          const r = f(p, n, res);
          calls.push([n, r, Buffer.from(mem.module.HEAPU8.slice(p, p + n)), res]);
          return r;
        };
        return mem.module;
      };
      if (e.onload) e.onload({});
      if (e.handlers.load) e.fire("load", {});
    });
  } };
  for (const id of ["dropZone", "fileInput", "status", "results"]) page.elements.set(id, new Element(id));
  const doc = { getElementById: (id) => page.elements.get(id) || null, querySelector: (q) => page.elements.get(q.replace(/^#/, "")) || null,
                createElement: (t) => { const e = new Element(""); e.tagName = t.toUpperCase(); return e; }, addEventListener() {} };
  doc.head = new Element("head");
  doc.body = new Element("body");
  doc.documentElement = doc.body;
  globalThis.document = doc;
  globalThis.window = globalThis;
  delete globalThis.CloudiniModule;
  delete require.cache[require.resolve(process.env.VF_BUNDLE)];
  module.children.length = 0;
  require(process.env.VF_BUNDLE);
}
// The part of the mcap library which the page uses
class McapIndexedReader {
  static async Initialize(o) {
    await null;
    const f = o.readable.file;
    if (f.t.broken) throw new Error("MCAP magic is missing");
    const r = new McapIndexedReader();
    r.channelsById = new Map(f.t.channels.map((c) => [c.id, { id: c.id, topic: c.topic, schemaId: c.schemaId, messageEncoding: "cdr", metadata: new Map() }]));
    r.schemasById = new Map(f.t.schemas.map((c) => [c.id, { id: c.id, name: c.name, encoding: c.encoding, data: new Uint8Array(0) }]));
    r.file = f;
    r.chunkIndexes = []; r.attachmentIndexes = []; r.metadataIndexes = []; r.statistics = undefined; r.header = { profile: "", library: "" };
    return r;
  }
  async *readMessages(args = {}) {
    const topics = args.topics ? new Set(args.topics) : null;
    const all = this.file.messages.filter((m) => !topics || topics.has(this.channelsById.get(m.ch).topic));
    all.sort((a, b) => a.t - b.t);
    if (args.reverse) all.reverse();
    for (const m of all) {
      if (args.startTime !== undefined && BigInt(m.t) < args.startTime) continue;
      if (args.endTime !== undefined && BigInt(m.t) > args.endTime) continue;
      await null;
      yield { type: "Message", channelId: m.ch, sequence: m.seq, logTime: BigInt(m.t), publishTime: BigInt(m.t), data: m.data };
    }
    if (this.file.t.fails_at_end) throw new Error("the chunk is damaged");
  }
}
class BlobReadable { constructor(file) { this.file = file; } }
const load = Module._load;
Module._load = function (req, ...rest) {
  if (/^@mcap\/core$/.test(req)) return { __esModule: true, McapIndexedReader };
  if (/^@mcap\/browser$/.test(req)) return { __esModule: true, BlobReadable };
  return load.call(this, req, ...rest);
};
async function give(p) {
  const cut = p.indexOf("\n\n");
  const t = JSON.parse(p.subarray(0, cut).toString("utf8"));
  const body = p.subarray(cut + 2);
  const messages = [];
  let at = 0;
  const big = new Uint8Array(body.length + 8);
  big.set(body, 3);
  for (const m of t.messages) { messages.push({ ch: m.ch, t: m.t, seq: m.seq, data: new Uint8Array(big.buffer, 3 + at, m.len) }); at += m.len; }
  const file = { name: t.name, size: body.length, t, messages };
  current = t;
  calls = [];
  mem.error = "";
  mem.count = 0;
  mem.failAt = t.failAt === undefined ? -1 : t.failAt;
  mem.growAfter = !!t.growAfter;
  const zone = page.elements.get("dropZone");
  if (t.drop) zone.fire("drop", { dataTransfer: { files: [file] } });
  else {
    const i = page.elements.get("fileInput");
    if (!i) return ["DEAD the page has no file input any more", Buffer.alloc(0)];
    i.files = [file];
    i.fire("change", { target: i });
  }
  let other = -1;
  for (let k = 0; k < 200000 && zone.classes.has("disabled"); ++k) {
    if (k === t.disturb) {  // another file, while the page is busy
      const file2 = { name: "other.mcap", size: 0, t: { channels: [], schemas: [], messages: [] }, messages: [] };
      zone.fire("drop", { dataTransfer: { files: [file2] } });
      other = k;
    }
    await new Promise((r) => setImmediate(r));
  }
  if (other >= 0) for (let k = 0; k < 40; ++k) await new Promise((r) => setImmediate(r));
  if (zone.classes.has("disabled")) return ["DEAD the page is still busy", Buffer.alloc(0)];
  const lines = [];
  mem.check();
  if (mem.error) lines.push("HEAP " + mem.error);
  if (mem.live.size) lines.push("LEAK " + mem.live.size);
  mem.live.clear();
  mem.top = 1024;
  lines.push("STATUS " + textOf(page.elements.get("status").html).join(" "));
  for (const l of textOf(page.elements.get("results").html)) lines.push("R " + l);
  // in the order of the file: was it compressed? (two messages may be the same: clouds first)
  const cloud = (m) => { const c = t.channels.find((x) => x.id === m.ch), s = c && t.schemas.find((x) => x.id === c.schemaId); return !!s && s.name === "sensor_msgs/msg/PointCloud2"; };
  const found = new Map();
  for (const want of [true, false])
    for (const m of messages) {
      if (cloud(m) !== want) continue;
      const k = calls.findIndex((c) => c[0] === m.data.length && Buffer.compare(c[2], m.data) === 0);
      found.set(m, k < 0 ? "-1 0" : calls[k][1] + " " + calls[k][3]);
      if (k >= 0) calls.splice(k, 1);
    }
  for (const m of messages) lines.push("M " + found.get(m));
  lines.push("EXTRA " + calls.length);
  return [lines.join("\n"), Buffer.alloc(0)];
}
serve({
  N: (p) => { const [b, g] = p.toString().split(" ").map(Number); current = null; newPage(b, g); return ["OK", Buffer.alloc(0)]; },
  F: (p) => give(p),
});
