"""Runs the Python decoder module of the repository on a stand-in for wasmtime (a native build of the same C interface).

Requests on stdin:  op(1) length(u32) payload
Replies on stdout:  length(u32) json length(u32) bytes
"""
import ctypes
import json
import mmap
import os
import struct
import sys
import types

out = os.fdopen(os.dup(1), "wb")
inp = os.fdopen(os.dup(0), "rb")
devnull = os.open(os.devnull, os.O_RDWR)
os.dup2(devnull, 1)
os.dup2(devnull, 2)

lib = ctypes.CDLL(os.environ["VF_BRIDGE"])
ARENA = 400 << 20
GAP = 128 << 10
arena = mmap.mmap(-1, ARENA, flags=mmap.MAP_PRIVATE | mmap.MAP_ANONYMOUS | 0x4000)
anchor = ctypes.c_char.from_buffer(arena)
base = ctypes.addressof(anchor)
PAT = b"\xc5" * GAP


class Heap:
    """malloc/free with a guard zone after every block."""

    def __init__(self):
        self.live = {}
        self.top = 4096
        self.error = ""
        self.limit = ARENA
        self.fail_at = 0  # the allocation that fails, counted from the next one

    def malloc(self, n):
        self.fail_at -= 1
        if self.fail_at == 0 or n < 0 or self.top + n + GAP > self.limit:
            return 0
        p = self.top
        arena[p:p + min(n, 1 << 16)] = b"\xdb" * min(n, 1 << 16)
        arena[p + n:p + n + GAP] = PAT
        self.live[p] = n
        self.top = (p + n + GAP + 4096) & ~4095
        return base + p

    def free(self, ptr):
        if ptr == 0:
            return
        p = ptr - base
        if p not in self.live:
            self.error = "free of a pointer that was not allocated"
            return
        self.check()
        n = self.live.pop(p)
        if not self.live:
            self.top = 4096
        else:
            q = max(self.live)
            self.top = (q + self.live[q] + GAP + 4096) & ~4095

    def check(self):
        for p, n in self.live.items():
            if arena[p + n:p + n + GAP] != PAT:
                self.error = "bytes beyond an allocated block of %d were written" % n
                arena[p + n:p + n + GAP] = PAT

    def inside(self, ptr, n):
        p = ptr - base
        for q, m in self.live.items():
            if q <= p and p + n <= q + m:
                return True
        return False


heap = Heap()


class Export:
    def __init__(self, f):
        self.f = f

    def __call__(self, store, *a):
        return self.f(*a)


class Memory:
    def write(self, store, value, start=None):
        if len(value) and not heap.inside(start, len(value)):
            heap.error = heap.error or "write of %d bytes outside of an allocated block" % len(value)
            raise IndexError("out of bounds")
        arena[start - base:start - base + len(value)] = bytes(value)
        return len(value)

    def read(self, store, start=0, stop=None):
        n = stop - start
        if n and not heap.inside(start, n):
            heap.error = heap.error or "read of %d bytes outside of an allocated block" % n
            raise IndexError("out of bounds")
        return bytearray(arena[start - base:stop - base])

    def data_len(self, store):
        return ARENA


def native(name, nargs):
    f = getattr(lib, name)
    f.restype = ctypes.c_uint32

    def call(*a):
        # pointers are the arguments at the positions of uintptr_t
        r = f(*[ctypes.c_size_t(x) for x in a])
        heap.check()
        return r

    return Export(call)


class Exports(dict):
    pass


class Instance:
    def __init__(self):
        self.e = Exports()
        self.e["memory"] = Memory()
        self.e["malloc"] = Export(heap.malloc)
        self.e["free"] = Export(lambda p: heap.free(p))
        for n in ("cldn_GetHeaderAsYAML", "cldn_GetHeaderAsYAMLFromDDS", "cldn_ComputeCompressedSize", "cldn_GetDecompressedSize",
                  "cldn_DecodeCompressedMessage", "cldn_DecodeCompressedData", "cldn_ConvertCompressedMsgToPointCloud2Msg",
                  "cldn_EncodePointcloudData", "cldn_EncodePointcloudMessage"):
            if hasattr(lib, n):
                self.e[n] = native(n, 0)

    def exports(self, store):
        return self.e


class Anything:
    def __init__(self, *a, **k):
        self.imports = []

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return lambda *a, **k: None


class Linker(Anything):
    def instantiate(self, store, module):
        return Instance()


w = types.ModuleType("wasmtime")
for n in ("Store", "Module", "WasiConfig", "Func", "Engine", "Config"):
    setattr(w, n, type(n, (Anything,), {}))
w.Linker = Linker
w.Memory = Memory
sys.modules["wasmtime"] = w
sys.path.insert(0, os.environ["VF_PYDIR"])
sys.dont_write_bytecode = True
import cloudini_decoder  # noqa: E402
import numpy as np  # noqa: E402

dec = cloudini_decoder.CloudiniDecoder(os.devnull)


class Obj:
    def __init__(self, **k):
        self.__dict__.update(k)


class FakeReader:
    """mcap.reader.SeekingReader, for a recording kept in memory."""

    def __init__(self, stream):
        self.rec = recording
        self.head = stream.read(4)

    def get_summary(self):
        r = self.rec
        if not r["indexed"]:
            return None
        times = [m["t"] for m in r["messages"]] or [0]
        st = Obj(message_start_time=min(times), message_end_time=max(times), message_count=len(r["messages"])) if r["statistics"] else None
        return Obj(statistics=st, channels={i: c for i, c in enumerate(r["channels"], 1)}, schemas={})

    def iter_messages(self, topics=None, start_time=None, end_time=None, log_time_order=True, reverse=False):
        messages = list(self.rec["messages"])
        if log_time_order or reverse:
            messages.sort(key=lambda m: m["t"], reverse=reverse)
        for m in messages:
            c = self.rec["channels"][m["channel"]]
            if (topics is not None and c.topic not in topics) or (start_time is not None and m["t"] < start_time) or (end_time is not None and m["t"] >= end_time):
                continue
            schema = Obj(id=1, name=c.schema, encoding="ros2msg", data=b"") if c.schema else None
            yield schema, c, Obj(channel_id=m["channel"] + 1, log_time=m["t"], publish_time=m["t"], sequence=0, data=m["data"])


mcap = types.ModuleType("mcap")
mcap.reader = types.ModuleType("mcap.reader")
mcap.reader.make_reader = lambda stream, **k: FakeReader(stream)
mcap.reader.SeekingReader = mcap.reader.NonSeekingReader = FakeReader
sys.modules["mcap"] = mcap
sys.modules["mcap.reader"] = mcap.reader
recording = None


def run_script(msg):
    """The command line tool on a recording: what it prints."""
    global recording
    import contextlib
    import importlib
    import io
    cut = msg.index(b"\n\n")
    t = json.loads(msg[:cut].decode())
    at = cut + 2
    recording = {"indexed": t["indexed"], "statistics": t["statistics"], "channels": [Obj(topic=c["topic"], message_encoding="cdr", schema=c["schema"], schema_id=1) for c in t["channels"]], "messages": []}
    for m in t["messages"]:
        recording["messages"].append({"channel": m["channel"], "t": m["t"], "data": msg[at:at + m["len"]]})
        at += m["len"]
    import decode_mcap
    argv = ["decode_mcap.py", os.path.abspath(__file__), "--wasm", os.path.abspath(__file__)]
    if t["max"] > 0:
        argv += ["--max-messages", str(t["max"])]
    text = io.StringIO()
    old = sys.argv
    sys.argv = argv
    before = set(heap.live)
    try:
        with contextlib.redirect_stdout(text), contextlib.redirect_stderr(io.StringIO()):
            try:
                rc = decode_mcap.main()
            except SystemExit as e:
                rc = e.code
    finally:
        sys.argv = old
    kept = [p for p in heap.live if p not in before]
    if len(kept) <= 3:  # what its decoder, which has its own module, keeps for the next message
        for p in kept:
            heap.free(base + p)
    return ["OK", "RC %d" % (rc or 0)] + ["| " + line for line in text.getvalue().split("\n")]


def reply(meta, data=b""):
    j = json.dumps(meta).encode()
    out.write(struct.pack("<I", len(j)) + j + struct.pack("<I", len(data)) + data)
    out.flush()


def plain(v):
    if isinstance(v, (int, float, str)) or v is None:
        return v
    if isinstance(v, dict):
        return {str(k): plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return repr(v)


def header_lines(h):
    """One record per line: easy to parse without a JSON library."""
    r = []

    def val(v):
        if v is None:
            return "null"
        if isinstance(v, bool):
            return "bool"
        if isinstance(v, int):
            return "i%d" % v
        if isinstance(v, float):
            return "f" + v.hex()
        return "s" + str(v).encode().hex()

    for k, v in h.items():
        if k != "fields":
            r.append("H %s %s" % (k, val(v)))
    for f in h.get("fields", []):
        r.append("F " + " ".join("%s=%s" % (k, val(v)) for k, v in f.items()))
    return r


while True:
    h = inp.read(5)
    if len(h) < 5:
        break
    op, n = chr(h[0]), struct.unpack("<I", h[1:])[0]
    msg = inp.read(n)
    heap.error = ""
    heap.fail_at = 0
    lines, data = [], b""
    try:
        if op == "M":  # one of the allocations fails
            heap.fail_at, msg, op = msg[0], msg[1:], "D"
        if op == "D":
            pts, head = dec.decode_message(msg, verbose=False)
            lines.append("OK")
            lines += header_lines(head)
            lines.append("SHAPE " + " ".join(str(x) for x in pts.shape))
            dt = pts.dtype
            lines.append("ITEM %d" % dt.itemsize)
            if dt.names:
                for nm in dt.names:
                    t, off = dt.fields[nm][:2]
                    lines.append("T %s %s %d %d" % (nm.encode().hex() or "-", t.kind + str(t.itemsize), off, 1 if t.isnative else 0))
            data = pts.tobytes()
        elif op == "R":
            lines = run_script(msg)
        else:
            head = dec.get_header_info(msg)
            lines.append("OK" if head else "EMPTY")
            lines += header_lines(head)
    except Exception as e:  # noqa: BLE001
        lines = ["EXC " + type(e).__name__ + " " + str(e).replace("\n", " ")[:200]]
    heap.check()
    if heap.error:
        lines = ["HEAP " + heap.error]
    extra = len(heap.live)
    if extra > 3:  # buffers that are kept for the next call are fine
        lines.append("LEAK %d" % extra)
    j = "\n".join(lines).encode()
    out.write(struct.pack("<I", len(j)) + j + struct.pack("<I", len(data)) + data)
    out.flush()
