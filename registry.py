"""What each check builds and runs."""
import glob
import os
import re

import check as c


def simple(src, variants=("plain",), kinds=("core",), link=(), extra_flags=(), env=None):
    """A PBT harness, run once per library variant."""

    def f(rep, o):
        for v in variants:
            b = c.build([src], v, kinds, extra_flags, link)
            if o.replay:
                if v != variants[0] and ("-" + v) not in o.replay:
                    continue
                return c.replay_of(b, o.replay)
            d = c.run_pbt(rep, b, v, o, env)
            if d["violations"]:
                break
        return 0

    return f


STUBS = ("-I" + os.path.join(c.HARNESS, "stubs"),)


PCL = ("-I/usr/include/pcl-1.14", "-I/usr/include/eigen3", "-isystem/usr/include")[:2]


PCL_LINK = ("-lpcl_io", "-lpcl_common", "-lboost_system")


def with_fuzz(base, name, src, kind, rule, **kw):
    """A PBT harness followed by a coverage-guided run."""

    def f(rep, o):
        if o.replay:
            return c.replay_fuzz(src, o.replay) if o.replay.endswith(".bin") else base(rep, o)
        if not o.only or o.only != "fuzz":
            base(rep, o)
        if not rep.violations and (not o.only or o.only == "fuzz"):
            c.run_fuzz(rep, name, src, kind, o, rule=rule, **kw)
        return 0

    return f


def python_decoder(rep, o):
    so = c.build(["c22_bridge.cpp"], "plain", ("core", "wasm"), STUBS + ("-fPIC",), shared=True)
    b = c.build(["c22.cpp"], "plain")
    env = {"VF_BRIDGE": so, "VF_PYDIR": os.path.join(c.REPO, "cloudini_py"), "VF_PYTHON": "python3-vt", "VF_SERVER": os.path.join(c.HARNESS, "py", "server.py")}
    os.environ.update(env)
    if o.replay:
        return c.replay_of(b, o.replay)
    c.run_pbt(rep, b, "plain", o)
    return 0


def concurrency(rep, o):
    for v, q1, q2 in (("tsan", 900, 900), ("plain", 3000, 3000)):
        b = c.build(["c21.cpp"], v, extra_flags=("-DC21_Q1=%d" % q1, "-DC21_Q2=%d" % q2), link=("-ldl",))
        if o.replay:
            if ("-" + v) not in o.replay and v != "tsan":
                continue
            return c.replay_of(b, o.replay)
        if c.run_pbt(rep, b, v, o)["violations"]:
            break
    return 0


TOOLS = os.path.join(c.LIB, "tools")


def text_of(f):
    with open(f, errors="replace") as h:
        return h.read()


def tool_sources(mcap):
    """The sources of the tools that are shared between them: not a program of its own, with or without mcap."""
    out = []
    for f in sorted(glob.glob(os.path.join(TOOLS, "src", "*.cpp"))):
        t = text_of(f)
        if not re.search(r"\bmain\s*\(", t) and bool(re.search(r"\bmcap\b", t)) <= mcap:
            out.append(f)
    return out


def recordings(rep, o):
    inc = STUBS + ("-I" + os.path.join(TOOLS, "include"),)
    shared = tool_sources(True)
    os.environ["VF_ROSBAG_TOOL"] = c.build([os.path.join(TOOLS, "src", "cloudini_rosbag_converter.cpp")] + shared, "plain", extra_flags=inc, out="rosbag_tool")
    os.environ["VF_CUTTER_TOOL"] = c.build([os.path.join(TOOLS, "src", "mcap_cutter.cpp")] + [f for f in shared if not f.endswith("mcap_converter.cpp")], "plain", extra_flags=inc, out="cutter_tool")
    b = c.build(["c26.cpp"] + shared, "asan", extra_flags=inc)
    if o.replay:
        return c.replay_of(b, o.replay)
    c.run_pbt(rep, b, "asan", o)
    return 0


def reports(rep, o):
    inc = STUBS + ("-I" + os.path.join(TOOLS, "include"),)
    shared = [f for f in tool_sources(True) if not f.endswith("mcap_converter.cpp")]
    for env, name in (("VF_INSPECTOR_TOOL", "mcap_header_inspector"), ("VF_BENCHMARK_TOOL", "mcap_codec_benchmark")):
        os.environ[env] = c.build([os.path.join(TOOLS, "src", name + ".cpp")] + shared, "plain", extra_flags=inc, out=name)
    b = c.build(["c31.cpp"], "plain", extra_flags=inc)
    if o.replay:
        return c.replay_of(b, o.replay)
    c.run_pbt(rep, b, "plain", o)
    return 0


def pcd_tool(rep, o):
    os.environ["VF_PCD_TOOL"] = c.build([os.path.join(TOOLS, "src", "pcd_to_cloudini_converter.cpp")] + tool_sources(False), "plain", ("core", "pcl"),
                                        extra_flags=PCL + ("-I" + os.path.join(TOOLS, "include"),), link=PCL_LINK, out="pcd_tool")
    b = c.build(["c28.cpp"], "plain")
    if o.replay:
        return c.replay_of(b, o.replay)
    c.run_pbt(rep, b, "plain", o)
    return 0


FOX = os.path.join(c.REPO, "cloudini_foxglove", "src")


def foxglove(rep, o):
    so = c.build(["js/addon.cpp"], "plain", ("core", "wasm"), STUBS + ("-fPIC", "-I/usr/include/node", "-DNODE_GYP_MODULE_NAME=vf"), shared=True, out="foxaddon")
    addon = c.build_copy(so, ".node")
    bundle = c.bundle(os.path.join(FOX, "index.ts"), "cloudini_wasm_single")
    os.environ.update({"VF_ADDON": addon, "VF_BUNDLE": bundle, "VF_NODE_SERVER": os.path.join(c.HARNESS, "js", "server.js")})
    b = c.build(["c30.cpp"], "plain")
    if o.replay:
        return c.replay_of(b, o.replay)
    c.run_pbt(rep, b, "plain", o)
    return 0


def web(rep, o):
    so = c.build(["js/addon.cpp"], "plain", ("core", "wasm"), STUBS + ("-fPIC", "-I/usr/include/node", "-DNODE_GYP_MODULE_NAME=vf"), shared=True, out="foxaddon")
    bundle = c.bundle(os.path.join(c.REPO, "cloudini_web", "main.js"), "cloudini_wasm")
    os.environ.update({"VF_ADDON": c.build_copy(so, ".node"), "VF_BUNDLE": bundle, "VF_NODE_SERVER": os.path.join(c.HARNESS, "js", "web.js")})
    b = c.build(["c32.cpp"], "plain", extra_flags=STUBS)
    if o.replay:
        return c.replay_of(b, o.replay)
    c.run_pbt(rep, b, "plain", o)
    return 0


ROS = os.path.join(c.REPO, "cloudini_ros")


def ros(rep, o):
    inc = ("-I" + os.path.join(c.HARNESS, "stubs", "ros"), "-I" + os.path.join(ROS, "include")) + PCL
    srcs = [f for f in sorted(glob.glob(os.path.join(ROS, "src", "*.cpp"))) if not re.search(r"\bmain\s*\(|pluginlib/class_list", text_of(f))]
    b = c.build(["c29.cpp"] + srcs, "asan", ("core", "pcl"), extra_flags=inc, link=PCL_LINK)
    if o.replay:
        return c.replay_of(b, o.replay)
    c.run_pbt(rep, b, "asan", o)
    return 0


CHECKS = {
    "C01": simple("c01.cpp"),
    "C02": simple("c02.cpp", ("plain", "scalar", "sse2")),
    "C03": simple("c03.cpp"),
    "C04": simple("c04.cpp"),
    "C05": simple("c05.cpp"),
    "C06": with_fuzz(simple("c06.cpp", ("asan",)), "fz_stream", "fz_stream.cpp", "stream",
                     "Coverage-guided executions count as non-trivial when the header was accepted (distinct inputs).", quick_s=25, max_len=1500),
    "C07": simple("c07.cpp"),
    "C08": simple("c08.cpp"),
    "C09": simple("c09.cpp"),
    "C10": simple("c10.cpp"),
    "C11": simple("c11.cpp"),
    "C12": simple("c12.cpp"),
    "C13": simple("c13.cpp"),
    "C14": simple("c14.cpp", ("asan",)),
    "C15": simple("c15.cpp", ("asan",)),
    "C16": simple("c16.cpp"),
    "C17": simple("c17.cpp", ("plain",), ("core", "pcl"), link=PCL_LINK, extra_flags=PCL),
    "C18": simple("c18.cpp", ("asan",), ("core", "wasm"), extra_flags=STUBS),
    "C19": simple("c19.cpp", ("asan",)),
    "C20": simple("c20.cpp", ("asan",)),
    "C21": concurrency,
    "C22": python_decoder,
    "C23": simple("c23.cpp", ("asan",)),
    "C24": simple("c24.cpp", link=("-ldl",)),
    "C25": with_fuzz(simple("c25.cpp", ("asan",)), "fz_msg", "fz_msg.cpp", "msg",
                     "Coverage-guided executions count as non-trivial when the message was parsed (distinct inputs).", quick_s=20, max_len=1200),
    "C26": recordings,
    "C28": pcd_tool,
    "C30": foxglove,
    "C31": reports,
    "C32": web,
    "C29": ros,
    "C27": simple("c27.cpp", ("plain", "scalar", "sse2")),
}
