#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry (claimed checks) and the notes below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import registry
NOTES = {
 "C01": ("PBT: encode/decode round trip over generated clouds", "Generated clouds, bit-exact comparison with the input; biased to sampling-window, chunk and palette boundaries. Not exhaustive."),
 "C02": ("PBT: error bound against the input, SIMD and scalar builds", "Every decoded value is compared with its original under the resolution bound; NaN positions must agree."),
 "C03": ("PBT: bit-exact round trip over float bit patterns", "Round trip compared bit for bit; sequences are built to reach every XOR window case. Not exhaustive."),
 "C04": ("PBT: canary and metamorphic checks on the decode target", "Target buffers pre-filled with two different patterns; only declared field bytes may change."),
 "C05": ("PBT: header round trip, both forms, hand-written reader as oracle", "Arbitrary descriptions including unusual names and dimensions; text and binary form."),
 "C06": ("coverage-guided fuzzing and structure-aware mutation under AddressSanitizer", "Finds memory errors and hangs reachable by generated or mutated streams; a clean run is not a proof."),
 "C07": ("PBT: truncation and extension points of valid streams", "Each cut must give an error or leave exactly the data of the full stream; cut points are enumerated for small streams and sampled for large ones."),
 "C08": ("PBT: worst-case contents against the size bound", "Adversarial contents per coder; guard bytes after the buffer."),
 "C09": ("PBT: stateful histories, differential against new objects", "Histories of up to 7 calls including failing ones."),
 "C10": ("PBT: streams from an independent writer (versions 2 to 5)", "The reference writer is a model written for this project from the format description; trusted."),
 "C11": ("PBT: encoder output read by an independent reader", "The reference reader is written from the format description; trusted."),
 "C12": ("PBT: minimality against an independent size oracle", "Sizes of the four legal section kinds are computed by the reference writer."),
 "C13": ("PBT: message conversion against an independent CDR reader", "Messages generated and parsed by an independent CDR implementation in both byte orders."),
 "C14": ("PBT: differential against an independent CDR implementation, truncations", "Random typed value sequences; all truncation points of small buffers."),
 "C15": ("PBT: model-based histories of message objects under AddressSanitizer", "Pool of objects against a value model; ASan detects dangling views."),
 "C16": ("PBT: reference model of profile and preprocessing", "The model uses exact arithmetic with a tolerance at voxel ties."),
 "C17": ("PBT: PCL clouds and PCD headers round trip, PCL as oracle", "Generic and typed clouds; PCL's own header parser is the oracle."),
 "C18": ("PBT: differential C interface against C++ API under AddressSanitizer", "Native build of the C interface with a stand-in for the emscripten header."),
 "C19": ("PBT: round trip and malformed input of the varint coder under AddressSanitizer", "Boundary-biased values; truncated and overlong inputs in exactly sized buffers."),
 "C20": ("PBT: invalid descriptions: refuse or round-trip, under AddressSanitizer", "Outcome classified as error or accepted; accepted streams are decoded and compared."),
 "C21": ("PBT: generated concurrent workloads under ThreadSanitizer, differential against sequential runs", "Schedules are those the OS and injected delays produce; TSan finds races on the executed paths. A stall past the time limit is a failure."),
 "C22": ("PBT: decoder module and command line tool in Python against the C++ library", "The wasm runtime and the mcap reader are replaced; the first is replaced by a ctypes bridge to a native build of the same C functions."),
 "C23": ("PBT: text form round trip and mutated text under AddressSanitizer", "Arbitrary descriptions; arbitrary and mutated text."),
 "C24": ("PBT with enumerated faults: every allocation or thread creation of a generated call fails in turn, followed by fault-free calls compared with new objects", "Allocation failures in caller and worker thread and failing thread creation; when a call has more events than the per-case limit, both ends and a sample are tried."),
 "C25": ("coverage-guided fuzzing and structure-aware mutation of messages under AddressSanitizer", "As C06, for messages."),
 "C26": ("PBT: generated recordings through the converter class and the command line tools, with a stand-in for the mcap library", "mcap is not installed: the converter is compiled against a small in-memory replacement of its API, which is trusted."),
 "C31": ("PBT: generated recordings through the real command line tools, output compared with a model of the recording and with the library", "mcap is not installed: the tools are compiled against a small replacement of its API, which is trusted. Times are not judged."),
 "C32": ("PBT: generated recordings and failures through the page's script in node, shown text and sizes compared with the library", "Document, mcap reader and WebAssembly module are replaced by small stand-ins; the module is a native build of the same C functions on guarded memory."),
 "C30": ("PBT: sequences of good, damaged and inconsistent messages and failing allocations through the extension in node, differential against the C++ decoder", "The WebAssembly module is replaced by a native build of the same C functions working on the memory of a stand-in with guarded blocks."),
 "C29": ("PBT: sequences of messages, damage and parameter changes through the ROS classes under AddressSanitizer, with stand-ins for the ROS headers", "ROS is not installed: the package's sources are compiled against small replacements of the rclcpp, message and plugin headers, which are trusted."),
 "C28": ("PBT: generated PCD files, options and failing outputs through the real command line tool", "Files of a scratch directory; the PCD files are written by the harness, not by PCL."),
 "C27": ("PBT: metamorphic relations (idempotence, permutation, splitting), SIMD and scalar builds", "Relations between runs."),
}
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in registry.CHECKS:
        t, n = NOTES[p]
        checks.append({"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p, "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                       "technique": t, "level": "fault_enumeration" if p == "C24" else "exploration", "level_note": n})
    else:
        na.append({"property": p, "reason": "The check for this property is not built yet."})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "Replay: python3 check.py <ID> --replay <file>. Known findings and repaired defects: known_findings.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
