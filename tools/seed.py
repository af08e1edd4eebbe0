#!/usr/bin/env python3
"""Development tool for planted bugs.

  seed.py make NAME PROPERTY < (edits already applied in /tmp/seedwork)   -> not used by checks
  seed.py test NAME [--checks C01,C02|all] [--no-tests]
Applies seeded/NAME/patch.diff to a scratch copy of /repo, builds it, runs the test suite and the
demonstration there (and the demonstration on an unchanged copy), then the property's check against it.
"""
import json, os, subprocess, sys, shutil, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def test(name, checks, do_tests):
    d = os.path.join(V, "seeded", name)
    meta = json.load(open(d + "/meta.json"))
    W = "/tmp/seed-%s" % name
    demo = W + "-demo"
    try:
        shutil.rmtree(W, ignore_errors=True); shutil.rmtree(demo, ignore_errors=True)
        sh(["git", "clone", "-q", "/repo", W])
        r = sh(["git", "apply", d + "/patch.diff"], cwd=W)
        if r.returncode: print(name, "PATCH DOES NOT APPLY", r.stdout); return
        res = []
        shutil.copytree(d, demo); os.path.exists(demo + "/patch.diff") and os.unlink(demo + "/patch.diff"); os.unlink(demo + "/meta.json")
        if do_tests:
            r = sh("cmake -S cloudini_lib -B _build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DBUILD_TESTING=ON -DCLOUDINI_BUILD_TOOLS=OFF -DCLOUDINI_BUILD_BENCHMARKS=OFF -DCLOUDINI_FORCE_VENDORED_DEPS=OFF -DFETCHCONTENT_FULLY_DISCONNECTED=ON -DCMAKE_CXX_FLAGS=-Wno-error && ninja -C _build -j8 && cd _build && ./test/test_cloudini", cwd=W, timeout=900)
            ok = "[  PASSED  ] 25 tests" in r.stdout and r.returncode == 0
            res.append("tests " + ("pass" if ok else "FAIL"))
            if not ok: print(r.stdout[-3000:])
            a = sh(["bash", demo + "/demo.sh"], cwd="/repo", timeout=300)
            b = sh(["bash", demo + "/demo.sh"], cwd=W, timeout=300)
            res.append("demo unchanged=%d patched=%d %s" % (a.returncode, b.returncode, "ok" if a.returncode == 0 and b.returncode != 0 else "BAD"))
            if a.returncode: print(a.stdout[-3000:])
            elif "BAD" in res[-1]: print(b.stdout[-2000:])
        env = dict(os.environ, CLOUDINI_REPO=W, VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
        for c in checks or [meta["property"]]:
            t = time.time()
            r = sh([sys.executable, "check.py", c, "--tier", "quick"], cwd=V, env=env)
            hit = r.returncode == 1 and "VIOLATION property=" + c in r.stdout
            res.append("%s:%s(%ds)" % (c, "CAUGHT" if hit else "missed" if r.returncode == 0 else "ERROR %d" % r.returncode, time.time() - t))
            if r.returncode not in (0, 1): print(r.stdout[-3000:])
            open("/tmp/seedlog-%s-%s.txt" % (name, c), "w").write(r.stdout)
        print(name, meta["property"], "|", "; ".join(res), flush=True)
    finally:
        shutil.rmtree(W, ignore_errors=True); shutil.rmtree(demo, ignore_errors=True)

if __name__ == "__main__":
    names, checks, t = [], [], True
    it = iter(sys.argv[2:])
    for a in it:
        if a == "--checks": checks = next(it).split(",")
        elif a == "--no-tests": t = False
        else: names.append(a)
    if names == ["all"]: names = sorted(os.listdir(V + "/seeded"))
    if checks == ["all"]:
        checks = [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
    for n in names: test(n, checks, t)
