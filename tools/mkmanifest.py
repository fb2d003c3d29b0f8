"""Write MANIFEST.json from the checks that exist, and the reasons of the properties that have none."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "P01": "differential monitoring of the compiled program against onnxruntime on random graphs",
    "P02": "import monitor over out-of-domain models (ONNX, PyTorch, JSON): rejected, or executed and equal to their own semantics",
    "P03": "online comparison of the Python reference, the compiled program and onnxruntime",
    "P04": "ASan/UBSan/LSan and MSan (uninitialised reads) builds of generated programs under random models",
    "P05": "differential monitoring of every convolution implementation variant under sanitizers",
    "P06": "differential monitoring of optimised against unoptimised generation, with a monitor on rewrites",
    "P07": "differential monitoring of channels-last against channels-first generation",
    "P08": "clobber monitor: every intermediate tensor observed at its uses in the running program",
    "P09": "TSan and batch-history monitor: thread interleavings, batch positions, reused contexts",
    "P10": "conservation monitor: every parameter read back bit for bit from the built program",
    "P11": "event log of file-system effects and digests of repeated generations",
    "P12": "differential monitoring of the importers on one model written in several formats",
    "P13": "round-trip monitor: exported ONNX model run by onnxruntime and re-imported",
    "P14": "differential monitoring of the comparison tool against an independent comparator",
    "P15": "differential monitoring of NNET execution against an independent interpreter of the format",
    "P16": "bit-exact differential monitoring of quantised execution against an integer oracle",
    "P17": "trace monitor over debug-mode execution logs, with seeded divergences",
    "P18": "call-trace monitor on generation functions and selected implementations",
    "P19": "row-by-row conservation monitor over datasets, formats and batch boundaries",
    "P20": "differential monitoring of the command line against the programming interface",
    "P21": "precision monitor of double-precision programs against a float64 oracle",
    "P22": "history monitor of the shared library: batches, saves and replacements of parameters between guard zones, against the program and the model",
}
LEVEL_NOTE = ("Runtime monitoring of real executions: the property held on every execution observed (counts in the evidence "
              "file), no claim beyond them.")


def main():
    props = [json.loads(ln) for ln in open(os.path.join(V, "properties.jsonl"))]
    na = json.load(open(os.path.join(V, "tools", "not_applicable.json")))
    checks, missing = [], []
    for p in props:
        i = p["id"]
        if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
            checks.append({"property": i, "quick_cmd": f"./run.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {i}",
                           "technique": TECH[i], "level": "exploration", "level_note": LEVEL_NOTE})
        else:
            missing.append({"property": i, "reason": na.get(i, "not built yet")})
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": missing,
         "notes": "Every check drives the code in /repo's working tree through its public interface and the real C tool "
                  "chain; no hook in /repo is needed (instrumentation is done from the harness and by the C compilers)."}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "checks;", [x["property"] for x in missing], "without")


main()
