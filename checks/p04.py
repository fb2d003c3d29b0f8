"""P04: sanitizers over generated programs."""
import _pre  # noqa: F401
import sys
import numpy as np
from acv import cases as C, cexec, driver, hwc, onnxgen as G, oneop
from acv.runner import Check, Family, ok, seeds, skip, violation

MSAN = ("-O1", "-fsanitize=memory", "-fno-omit-frame-pointer", "-fno-sanitize-recover=all")


def report(e, tags):
    v = C.stage_violation(e, tags=tags)
    txt = e.detail
    for key, kind in (("AddressSanitizer", "asan"), ("LeakSanitizer", "leak"), ("MemorySanitizer", "msan"), ("runtime error", "ubsan"),
                      ("input modified", "input_modified")):
        if key in txt:
            v["kind"] = kind
    return v


def observe(c, kw, san):
    tags = [*c.tags, *C.opt_tags({k: v for k, v in kw.items() if k != "versions" or "Conv2D" in v})]
    with C.scratch() as d:
        try:
            gen = cexec.build_generator(c.model, np.stack(c.xs), **kw)
            cexec.generate(gen, d)
            n = 0
            if san == "msan":
                driver.build(d, driver.MSAN_MAIN, "san", MSAN, cc="clang")
            elif san == "main":
                cexec.quick_build(d, flags=C.SAN, out="acv_san")
            else:
                n = driver.redzones(d)
                driver.build(d, driver.ASAN_MAIN, "san", C.SAN)
            cexec.run_binary(d, "acv_san", extra_env=C.SAN_ENV, args=["reuse"] if c.seed % 2 and san == "asan" else [])
            got = cexec.parse_output(d + "/output_c.txt")
        except cexec.StageError as e:
            return report(e, tags)
    if len(got) != len(c.xs) or any(g.size != r.size for g, r in zip(got, c.ref)):
        return violation("lost_output", f"{len(got)} rows", tags=tags)
    return ok(tags=tags, digest=C.digest(c.model, san, sorted(kw.items(), key=str)),
              count={f"{san}_runs": 1, "inferences_observed": len(got), "buffers_with_redzone": n},
              sample={"ops": c.tags, "options": str(kw), "sanitizer": san})


def safe(f):
    def g(p):
        try:
            return f(p)
        except G.Skip as e:
            return skip(str(e))
    return g


def opts(seed):
    kw = C.options(seed)
    kw.pop("bin_dataset", None)
    return kw


@safe
def run_dag(p):
    return observe(C.dag_case(p["seed"]), opts(p["seed"]), p["san"])


@safe
def run_op(p):
    return observe(oneop.case(p["op"], p["seed"]), opts(p["seed"]), p["san"])


@safe
def run_hwc(p):
    b, m, shape = hwc.make(p["seed"])
    c = C.finish(b, m, shape, p["seed"])
    return observe(c, {"versions": hwc.VERSIONS, "gen_data_format": "channels_last"}, p["san"])


def san(i, name):
    return {"san": ("asan", "msan", "asan", "main")[i % 4], **seeds(name)(i)}


def gen_op(i):
    k = len(oneop.OPS)
    return {"op": oneop.OPS[i % k], **san(i // k, "P04op"), **seeds("P04op")(i)}


if __name__ == "__main__":
    sys.exit(Check("P04", [
        Family("dag", lambda i: san(i, "P04dag"), run_dag, 340, 5000),
        Family("op", gen_op, run_op, len(oneop.OPS) * 20, len(oneop.OPS) * 300),
        Family("hwc", lambda i: san(i, "P04hwc"), run_hwc, 120, 1500),
    ], rule="random models x options; the program runs under AddressSanitizer+UBSan+LeakSanitizer (heap-exact inputs and predictions, "
            "poisoned gaps between the context's buffers) or MemorySanitizer (contexts start uninitialised); distinct by model, "
            "options and sanitizer",
       min_evals=250, require={"asan_runs": 100, "msan_runs": 60, "main_runs": 40, "inferences_observed": 400,
                               "buffers_with_redzone": 200},
       assumptions=["the C compiler's sanitizers report every fault of the kinds they check on the executed paths"]).main())
