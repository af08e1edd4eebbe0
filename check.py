#!/usr/bin/env python3
"""Runner: builds what a check needs from /repo's working tree, runs it, writes the evidence.

  check.py <ID> [--tier quick|thorough] [--replay FILE] [--scale X] [--only PROP]
  check.py --setup | --list
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("CLOUDINI_REPO", "/repo")
LIB = os.path.join(REPO, "cloudini_lib")
BUILD = os.path.join(VERIF, "build")
HARNESS = os.path.join(VERIF, "harness")
JOBS = min(16, os.cpu_count() or 8)

BASE = ["-std=c++20", "-msse4.1", "-I" + os.path.join(LIB, "include"), "-I" + HARNESS, "-pthread", "-Wno-everything"]
SAN = ("-fsanitize=address,bounds,shift-exponent,integer-divide-by-zero,unreachable,return,vla-bound "
       "-fno-sanitize-recover=all -fno-omit-frame-pointer").split()
VARIANTS = {
    # like the project's own build
    "plain": ("g++", ["-O2", "-g1", "-w"]),
    # SIMD code paths compiled out
    "scalar": ("g++", ["-O2", "-g1", "-w", "-U__SSE__", "-U__SSE2__", "-U__SSE4_1__"]),
    # processors without SSE 4.1
    "sse2": ("g++", ["-O2", "-g1", "-w", "-mno-sse4.1", "-U__SSE4_1__"]),
    "asan": ("clang++", ["-O1", "-g1"] + SAN),
    "fuzz": ("clang++", ["-O1", "-g1", "-fsanitize=fuzzer-no-link"] + SAN),
    "tsan": ("clang++", ["-O1", "-g1", "-fsanitize=thread"]),
}
LINK = ["-llz4", "-lzstd", "-pthread"]
SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:handle_abort=0:detect_stack_use_after_return=0:malloc_context_size=8:symbolize=1",
    "UBSAN_OPTIONS": "abort_on_error=1:print_stacktrace=1",
    "TSAN_OPTIONS": "abort_on_error=1:halt_on_error=1:second_deadlock_stack=1:report_signal_unsafe=0",
}


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def digest(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:20]


def repo_files():
    out = []
    for sub in ("include", "src", "tools"):
        for root, _, names in os.walk(os.path.join(LIB, sub)):
            out += [os.path.join(root, n) for n in names if n.endswith((".cpp", ".hpp", ".h", ".c", ".cc"))]
    for root, _, names in os.walk(os.path.join(REPO, "cloudini_ros", "include")):
        out += [os.path.join(root, n) for n in names if n.endswith((".hpp", ".h"))]
    return out


def lib_sources(kind="core"):
    out = []
    for f in sorted(glob.glob(os.path.join(LIB, "src", "*.cpp"))):
        text = open(f, errors="replace").read()
        special = "pcl" if re.search(r"#\s*include\s*[<\"](pcl/|cloudini_lib/pcl)", text) else \
            "wasm" if "emscripten" in text or "wasm_functions.h" in text else "core"
        if special == kind:
            out.append(f)
    return out


def run_parallel(cmds):
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for (cmd, r) in ex.map(lambda c: (c, sh(c)), cmds):
            if r.returncode != 0:
                print("BUILD FAILED:", " ".join(cmd))
                print(r.stdout[-6000:])
                sys.exit(3)


def build_lib(variant, kinds=("core",), extra_flags=()):
    cxx, flags = VARIANTS[variant]
    flags = flags + list(extra_flags)
    key = digest(repo_files(), json.dumps([cxx, flags, BASE, kinds]))
    d = os.path.join(BUILD, "lib-%s-%s" % (variant, key))
    stamp = os.path.join(d, "done")
    objs, cmds = [], []
    for kind in kinds:
        for f in lib_sources(kind):
            o = os.path.join(d, kind + "_" + os.path.basename(f) + ".o")
            objs.append(o)
            cmds.append([cxx] + flags + BASE + ["-c", f, "-o", o])
    if not os.path.exists(stamp):
        for old in glob.glob(os.path.join(BUILD, "lib-%s-*" % variant)):
            if time.time() - os.path.getmtime(old) > 3600:
                shutil.rmtree(old, ignore_errors=True)
        os.makedirs(d, exist_ok=True)
        return objs, cmds, stamp, key
    return objs, [], stamp, key


def build(sources, variant, kinds=("core",), extra_flags=(), link=(), out=None, fuzzer=False, shared=False):
    """Compiles library (variant) and harness sources, links; returns the binary path."""
    cxx, flags = VARIANTS[variant]
    flags = flags + list(extra_flags)
    objs, cmds, stamp, key = build_lib(variant, kinds, extra_flags)
    hfiles = glob.glob(os.path.join(HARNESS, "**", "*.h*"), recursive=True)
    srcs = [os.path.join(HARNESS, s) for s in sources]
    name = out or os.path.splitext(sources[0])[0]
    hk = digest(hfiles + srcs, key + json.dumps([variant, list(extra_flags), list(link), fuzzer, shared]))
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    binary = os.path.join(BUILD, "bin", "%s-%s-%s" % (name, variant, hk))
    if os.path.exists(binary) and not cmds:
        return binary
    hobjs = []
    for s in srcs:
        o = binary + "-" + os.path.basename(s) + ".o"
        hobjs.append(o)
        cmds.append([cxx] + flags + BASE + ["-c", s, "-o", o])
    run_parallel(cmds)
    open(stamp, "w").close()
    lf = [f for f in flags if f.startswith("-fsanitize") or f.startswith("-fno-sanitize")]
    if fuzzer:
        lf = [f.replace("fuzzer-no-link", "fuzzer") for f in lf]
    else:
        lf = [f for f in lf if f != "-fsanitize=fuzzer-no-link"]
    run_parallel([[cxx] + lf + (["-shared"] if shared else []) + hobjs + objs + ["-o", binary + ".tmp"] + LINK + list(link)])
    os.rename(binary + ".tmp", binary)
    for o in hobjs:
        os.unlink(o)
    for old in glob.glob(os.path.join(BUILD, "bin", "%s-%s-*" % (name, variant))):
        if old != binary and time.time() - os.path.getmtime(old) > 600:
            try:
                os.unlink(old)
            except OSError:
                pass
    return binary


def build_copy(binary, suffix):
    """The same file under a name with another suffix."""
    dst = binary + suffix
    if not os.path.exists(dst):
        shutil.copy(binary, dst + ".tmp")
        os.rename(dst + ".tmp", dst)
    return dst


ESBUILD = "/opt/veriftools/node/node_modules/.bin/esbuild"


def bundle(entry, external):
    """Bundles a TypeScript or JavaScript source into one CommonJS file; modules whose path contains `external` are left to the loader."""
    src = [f for e in ("ts*", "js") for f in sorted(glob.glob(os.path.join(os.path.dirname(entry), "**", "*." + e), recursive=True)) if "node_modules" not in f]
    os.makedirs(os.path.join(BUILD, "js"), exist_ok=True)
    out = os.path.join(BUILD, "js", "bundle-%s.js" % digest(src, entry + external))
    if not os.path.exists(out):
        exe = shutil.which("esbuild") or ESBUILD
        run_parallel([[exe, entry, "--bundle", "--platform=node", "--format=cjs", "--tsconfig-raw={}", "--log-level=warning",
                       "--external:*%s.js" % external, "--external:*%s" % external, "--external:@foxglove/*", "--external:@mcap/*", "--outfile=" + out + ".tmp.js"]])
        os.rename(out + ".tmp.js", out)
    return out


class Report:
    """Accumulates the results of the runs of one check."""

    def __init__(self, prop, tier, seed, level="exploration"):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": [], "runs": []}
        self.violations = []
        self.t0 = time.time()
        self.assumptions = []

    def add(self, name, r):
        self.cov["evaluations"] += r["evaluations"]
        self.cov["distinct_nontrivial"] += r["distinct_nontrivial"]
        if r.get("rule") and r["rule"] not in self.cov["rule"]:
            self.cov["rule"] += (" " if self.cov["rule"] else "") + r["rule"]
        self.cov["samples"] += r.get("samples", [])[:6]
        self.cov["runs"].append({k: v for k, v in r.items() if k not in ("rule", "samples", "replay", "violations")} | {"name": name})

    def violation(self, replay):
        self.violations.append(replay)

    def finish(self):
        self.cov["samples"] = self.cov["samples"][:10]
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": self.cov,
            "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for line in known_findings(self.prop):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, line))
        for v in self.violations:
            print("VIOLATION property=%s replay=%s" % (self.prop, v))
        return 1 if self.violations else 0


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append(m.group(2))
    return out


def run_pbt(rep, binary, name, opts, extra_env=None):
    res = os.path.join(BUILD, "result-%s-%s-%d.json" % (rep.prop, name, os.getpid()))
    env = dict(os.environ)
    env.update(SAN_ENV)
    env.update(extra_env or {})
    cap = opts.time_cap or (200 if rep.tier == "quick" else 2400)
    cmd = [binary, "--tier", rep.tier, "--seed", str(rep.seed), "--out", res, "--replay-dir", os.path.join(VERIF, "replays"),
           "--time-cap", str(cap), "--scale", str(opts.scale), "--workers", str(opts.workers)]
    if opts.only:
        cmd += ["--only", opts.only]
    r = sh(cmd, env=env, cwd=VERIF)
    out = r.stdout
    print(out[-12000:], end="" if out.endswith("\n") else "\n")
    if not os.path.exists(res):
        print("harness %s ended without a result (status %d)" % (name, r.returncode))
        sys.exit(4)
    d = json.load(open(res))
    os.unlink(res)
    rep.add(name, d)
    if d["violations"]:
        rep.violation(d["replay"])
    return d


def replay_of(binary, path):
    env = dict(os.environ)
    env.update(SAN_ENV)
    r = sh([binary, "--replay", path], env=env, cwd=VERIF)
    print(r.stdout[-20000:])
    return 1 if r.returncode != 0 else 0


def seed_corpus(kind, count, seed):
    b = build(["fz_seeds.cpp"], "plain")
    d = os.path.join(BUILD, "seeds-%s-%d-%d" % (kind, seed, os.getpid()))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    r = sh([b, kind, d, str(count), str(seed)])
    if r.returncode != 0 or not os.listdir(d):
        print("seed generator failed (status %d)\n%s" % (r.returncode, r.stdout[-2000:]))
        sys.exit(4)
    return d


def run_fuzz(rep, name, src, kind, opts, quick_s=20, thorough_s=1200, kinds=("core",), extra_flags=(), max_len=4096, rule=""):
    """Coverage-guided run: independent libFuzzer processes over generated seeds, for a fixed time and number of runs."""
    b = build([src], "fuzz", kinds, extra_flags, fuzzer=True)
    seeds = seed_corpus(kind, 150 if rep.tier == "quick" else 1500, rep.seed)
    jobs = min(8, os.cpu_count() or 8)
    seconds = opts.time_cap or (quick_s if rep.tier == "quick" else thorough_s)
    seconds = max(1, int(seconds * opts.scale)) if not opts.time_cap else int(seconds)
    work = os.path.join(BUILD, "fuzz-%s-%d" % (name, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    procs = []
    t0 = time.time()
    for j in range(jobs):
        d = os.path.join(work, str(j))
        os.makedirs(os.path.join(d, "corpus"))
        env = dict(os.environ)
        env.update(SAN_ENV)
        env["FZ_STATS"] = os.path.join(d, "stats.json")
        cmd = [b, os.path.join(d, "corpus"), seeds, "-seed=%d" % (rep.seed * 100 + j + 1), "-max_total_time=%d" % seconds, "-timeout=25",
               "-rss_limit_mb=3000", "-max_len=%d" % max_len, "-artifact_prefix=" + d + "/", "-print_final_stats=1", "-verbosity=1", "-use_value_profile=%d" % (j % 2)]
        procs.append((d, subprocess.Popen(cmd, stdout=open(os.path.join(d, "log"), "w"), stderr=subprocess.STDOUT, env=env, cwd=VERIF)))
    crash = None
    while any(p.poll() is None for _, p in procs):
        time.sleep(0.3)
        for d, p in procs:
            if p.poll() not in (None, 0) and crash is None:
                crash = (d, p)
        if crash or time.time() - t0 > seconds + 120:
            break
    for d, p in procs:
        if p.poll() is None:
            p.kill()
            p.wait()
        elif p.returncode != 0 and crash is None:
            crash = (d, p)
    res = {"evaluations": 0, "distinct_nontrivial": 0, "accepted": 0, "rule": rule, "samples": [], "wall_s": round(time.time() - t0, 1), "corpus": 0, "edges": 0}
    for d, p in procs:
        log = open(os.path.join(d, "log"), errors="replace").read()
        st = os.path.join(d, "stats.json")
        if os.path.exists(st):
            x = json.load(open(st))
            res["evaluations"] += x["executions"]
            res["distinct_nontrivial"] += x["deep"]
            res["accepted"] += x["accepted"]
        res["corpus"] += len(os.listdir(os.path.join(d, "corpus")))
        cov = re.findall(r"cov: (\d+)", log)
        if cov:
            res["edges"] = max(res["edges"], int(cov[-1]))
    found = sorted(glob.glob(os.path.join(work, "0", "corpus", "*")))[:3]
    res["samples"] = ["%s %r" % (name, open(f, "rb").read()[:120]) for f in found]
    res["violations"] = 0
    print("%s/%s: %d executions (%d past the first parser, %d accepted), %d edges, %.0f s" % (
        rep.prop, name, res["evaluations"], res["distinct_nontrivial"], res["accepted"], res["edges"], res["wall_s"]))
    if crash:
        d, p = crash
        log = open(os.path.join(d, "log"), errors="replace").read()
        art = [f for f in glob.glob(os.path.join(d, "*-*")) if re.match(r"(crash|timeout|oom|leak)-", os.path.basename(f))]
        print(log[-5000:])
        if not art:
            print("fuzz target %s ended with status %s without an input" % (name, p.returncode))
            sys.exit(4)
        replay = os.path.join(VERIF, "replays", "%s-%s-%s.bin" % (rep.prop, name, os.path.basename(art[0])[:18]))
        os.makedirs(os.path.dirname(replay), exist_ok=True)
        shutil.copy(art[0], replay)
        env = dict(os.environ)
        env.update(SAN_ENV)
        if "crash-" in os.path.basename(art[0]):
            small = os.path.join(d, "minimized")
            sh([b, replay, "-minimize_crash=1", "-runs=20000", "-max_total_time=30", "-exact_artifact_path=" + small], env=env, cwd=VERIF)
            if os.path.exists(small) and os.path.getsize(small) > 0 and sh([b, small], env=env, cwd=VERIF).returncode != 0:
                shutil.copy(small, replay)
        print("input (%d bytes): %r" % (os.path.getsize(replay), open(replay, "rb").read()[:400]))
        res["violations"] = 1
        rep.violation(replay)
    rep.add(name, res)
    shutil.rmtree(work, ignore_errors=True)
    shutil.rmtree(seeds, ignore_errors=True)
    return res


def replay_fuzz(src, path, kinds=("core",), extra_flags=()):
    b = build([src], "fuzz", kinds, extra_flags, fuzzer=True)
    env = dict(os.environ)
    env.update(SAN_ENV)
    r = sh([b, "-timeout=25", path], env=env, cwd=VERIF)
    print(r.stdout[-20000:])
    return 1 if r.returncode != 0 else 0


class Opts:
    scale, only, replay, time_cap, workers = 1.0, "", "", 0, 8


def main():
    sys.path.insert(0, VERIF)
    import registry
    args = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    o = Opts()
    ids = []
    i = 0
    while i < len(args):
        a = args[i]
        if a == "--tier":
            i += 1
            tier = args[i]
        elif a == "--replay":
            i += 1
            o.replay = os.path.abspath(args[i])
        elif a == "--scale":
            i += 1
            o.scale = float(args[i])
        elif a == "--time-cap":
            i += 1
            o.time_cap = float(args[i])
        elif a == "--workers":
            i += 1
            o.workers = int(args[i])
        elif a == "--only":
            i += 1
            o.only = args[i]
        elif a == "--list":
            print("\n".join(sorted(registry.CHECKS)))
            return 0
        elif a == "--setup":
            os.makedirs(BUILD, exist_ok=True)
            print("nothing to prepare: every check builds from", REPO)
            return 0
        else:
            ids.append(a)
        i += 1
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    os.makedirs(BUILD, exist_ok=True)
    rc = 0
    for pid in ids:
        rep = Report(pid, tier, seed, "fault_enumeration" if pid == "C24" else "exploration")
        r = registry.CHECKS[pid](rep, o)
        if o.replay:
            return r
        rc = max(rc, rep.finish())
    return rc


if __name__ == "__main__":
    sys.modules["check"] = sys.modules["__main__"]
    sys.exit(main())
