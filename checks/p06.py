"""P06: graph optimisation never changes what the model computes."""
import _pre  # noqa: F401
import sys
import numpy as np
from acv import cases as C, cexec, dag, fuse, hwc, onnxgen as G
from acv.runner import Check, Family, ok, seeds, skip, violation


def execute(model, xs, kw):
    with C.scratch() as d:
        gen = cexec.build_generator(model, np.stack(xs), **kw)
        cexec.generate(gen, d)
        py = cexec.python_reference(gen, d)
        cexec.quick_build(d, flags=C.SAN)
        cexec.run_binary(d, extra_env=C.SAN_ENV)
        return cexec.parse_output(d + "/output_c.txt"), py, [type(ly).__name__ for ly in gen.layers], gen.log or ""


def verdict(c, kw, extra=()):
    tags = [*c.tags, *extra]
    before = c.model.SerializeToString(deterministic=True)
    try:
        off, poff, loff, _ = execute(c.model, c.xs, {**kw, "optimization": False})
        on, pon, lon, log = execute(c.model, c.xs, {**kw, "optimization": True})
    except cexec.StageError as e:
        return C.stage_violation(e, tags=tags)
    if c.model.SerializeToString(deterministic=True) != before:
        return violation("model_modified", "the caller's model was modified", tags=tags)
    bad = (C.compare("off_vs_model", off, c.ref, tags=tags) or C.compare("on_vs_model", on, c.ref, tags=tags)
           or C.compare("on_vs_off", on, off, tags=tags) or C.compare("python_on_vs_model", pon, c.ref, tags=tags)
           or C.compare("python_on_vs_off", pon, poff, tags=tags))
    if bad:
        return bad
    fused = len(loff) - len(lon)
    return ok(tags=tags, digest=C.digest(c.model, sorted(kw.items(), key=str)), nontrivial=fused > 0,
              count={"pairs_compared": 1, "layers_merged": fused, "models_with_fusion": int(fused > 0),
                     "conv_bn_fused": log.count("Conv2D_new"), "silu_fused": log.count("Silu")},
              sample={"ops": c.tags, "layers": [len(loff), len(lon)], "log": log[:300]})


def run_fuse(p):
    try:
        b, m, shape = fuse.make(p["seed"])
        c = C.finish(b, m, shape, p["seed"])
    except G.Skip as e:
        return skip(str(e))
    kw = C.options(p["seed"])
    kw = {k: v for k, v in kw.items() if k == "versions"}
    return verdict(c, kw)


def run_dag(p):
    try:
        c = C.dag_case(p["seed"])
    except G.Skip as e:
        return skip(str(e))
    return verdict(c, {})


def run_hwc(p):
    try:
        b, m, shape = hwc.make(p["seed"])
        c = C.finish(b, m, shape, p["seed"])
    except G.Skip as e:
        return skip(str(e))
    return verdict(c, {"versions": hwc.VERSIONS, "gen_data_format": "channels_last"}, ["channels_last"])


if __name__ == "__main__":
    sys.exit(Check("P06", [
        Family("fuse", seeds("P06fuse"), run_fuse, 330, 5000),
        Family("dag", seeds("P06dag"), run_dag, 100, 1500),
        Family("hwc", seeds("P06hwc"), run_hwc, 60, 800),
    ], rule="graphs built from fusible motifs and near misses (observed intermediates, shared weights, activation chains), random "
            "graphs and channels-last graphs; outputs of program and reference with optimisation on and off against each other and "
            "onnxruntime; non-trivial: at least one layer was merged",
       min_evals=150, require={"models_with_fusion": 100, "conv_bn_fused": 8, "silu_fused": 8, "conv_observed": 4,
                               "shared_weights": 1, "producer_observed": 8, "channels_last": 20},
       assumptions=["agreement up to 1e-4 relative to the output tensor's magnitude"]).main())
