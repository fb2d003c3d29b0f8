"""P07: channels-last and channels-first generation are equivalent."""
import _pre  # noqa: F401
import sys
import numpy as np
from acv import cases as C, cexec, hwc, onnxgen as G, scale
from acv.runner import Check, Family, ok, seeds, skip


def execute(c, kw, makefile):
    with C.scratch() as d:
        gen = cexec.build_generator(c.model, np.stack(c.xs), **kw)
        cexec.generate(gen, d)
        py = cexec.python_reference(gen, d)
        if makefile or kw.get("bin_dataset"):
            cexec.make(d)
        else:
            cexec.quick_build(d, flags=C.PLAIN)
        cexec.run_binary(d)
        return cexec.parse_output(d + "/output_c.txt"), py


def run(p):
    try:
        if p["seed"] % 12 == 5:
            c = scale.blocks(p["seed"])
            m, shape = c.model, c.xs[0].shape
        else:
            b, m, shape = hwc.make(p["seed"])
            c = C.finish(b, m, shape, p["seed"], rows=3)
    except G.Skip as e:
        return skip(str(e))
    rng = np.random.default_rng([p["seed"], 70])
    kw = {"optimization": bool(rng.random() < .4), "bin_dataset": bool(rng.random() < .4)}
    last = {**kw, "versions": hwc.VERSIONS, "gen_data_format": "channels_last"}
    tags = [*c.tags, *C.opt_tags(kw)]
    try:
        a, pa = execute(c, last, False)
        f, pf = execute(c, kw, False)
    except cexec.StageError as e:
        return C.stage_violation(e, tags=tags)
    bad = (C.compare("channels_last_vs_model", a, c.ref, tags=tags) or C.compare("channels_first_vs_model", f, c.ref, tags=tags)
           or C.compare("last_vs_first", a, f, tags=tags) or C.compare("python_last", pa, c.ref, tags=tags)
           or C.compare("python_first", pf, c.ref, tags=tags))
    if bad:
        return bad
    osh = c.ref[0].shape
    return ok(tags=tags, digest=C.digest(m, kw), nontrivial=shape[1] > 1 or osh[1] > 1,
              count={"pairs_compared": 1, "layout_visible": int(shape[1] > 1 and shape[2] * shape[3] > 1),
                     "output_layout_visible": int(len(osh) == 4 and osh[1] > 1 and osh[2] * osh[3] > 1)},
              sample={"ops": c.tags, "input": shape, "output": list(osh)})


if __name__ == "__main__":
    sys.exit(Check("P07", [Family("onnx", seeds("P07"), run, 700, 12000)],
                   rule="random image graphs generated in both layouts; distinct by model and options; non-trivial: several channels",
                   min_evals=120, require={"layout_visible": 60, "output_layout_visible": 40, "bin_dataset=True": 20, "many_filters": 8}).main())
