"""P05: every convolution implementation computes the same convolution."""
import _pre  # noqa: F401
import sys
import numpy as np
from acv import cases as C, cexec, dag, hwc, onnxgen as G, scale
from acv.dag import DOMAIN
from acv.runner import Check, Family, cases, ok, seeds, skip, violation

STD = ("6loops", "std_gemm_nn", "std_gemm_nt", "std_gemm_tn", "std_gemm_tt")


def execute(c, kw):
    with C.scratch() as d:
        gen = cexec.build_generator(c.model, np.stack(c.xs), **kw)
        cexec.generate(gen, d)
        py = cexec.python_reference(gen, d)
        cexec.quick_build(d, flags=C.SAN)
        cexec.run_binary(d, extra_env=C.SAN_ENV)
        return cexec.parse_output(d + "/output_c.txt"), py


def one_conv(seed):
    rng = np.random.default_rng([int(seed), 50])
    b = G.Builder(rng)
    shape = (1, b.ri(1, 5), b.ri(1, 9), b.ri(1, 9))
    x = b.inp(shape)
    if b.p(.3):
        x = b.node("Tanh", [x])       # the convolution does not always read the model's input
        if b.p(.5):                   # ... nor a tensor nobody else reads
            x2 = b.node("Relu", [x])
            y = G.op_conv(b, x, DOMAIN)
            if b.shape[y] == b.shape[x2]:
                y = b.node("Add", [y, x2])
                b.tag("shared_input")
        else:
            y = G.op_conv(b, x, DOMAIN)
    else:
        y = G.op_conv(b, x, DOMAIN)
    act = b.ch([None, "Relu", "Sigmoid", "Tanh", "LeakyRelu"])
    if act:
        y = b.node(act, [y])
    m = b.model(y)
    b.tags = sorted({nd.op_type for nd in m.graph.node} | {t for t in b.tags})
    return C.finish(b, m, shape, seed)


def run_conv(p):
    try:
        c = one_conv(p["seed"])
    except G.Skip as e:
        return skip(str(e))
    opt = p["seed"] % 3 == 0
    n = 0
    base = None
    for v in STD:
        tags = [*c.tags, v]
        try:
            got, py = execute(c, {"versions": {"Conv2D": v}, "optimization": opt})
        except cexec.StageError as e:
            return C.stage_violation(e, tags=tags, version=v)
        bad = (C.compare(f"{v}_vs_onnx", got, c.ref, tags=tags) or C.compare(f"python_{v}_vs_onnx", py, c.ref, tags=tags)
               or (base is not None and C.compare(f"{v}_vs_6loops", got, base, tags=tags)))
        if bad:
            return bad
        base = got if base is None else base
        n += 1
    return ok(tags=[*c.tags, f"opt={opt}"], digest=C.digest(c.model, opt), count={"implementations_executed": n, "convolutions": 1},
              sample={"ops": c.tags, "values": [float(x) for x in base[0][:3]]})


def run_mix(p):
    """Every convolution of a graph gets an implementation of its own, by layer number."""
    try:
        c = C.dag_case(p["seed"], rows=2, table={**dag.IMG_OPS, "conv": 25}, img=(1, 3, 6, 5))
    except G.Skip as e:
        return skip(str(e))
    rng = np.random.default_rng([int(p["seed"]), 51])
    versions = {i: str(rng.choice(STD)) for i in range(80)}
    for i in list(versions):
        if rng.random() < .3:
            del versions[i]
    versions["Conv2D"] = str(rng.choice(STD))
    try:
        # implementation numbers of other layer types must not be named: find the convolutions first
        probe = cexec.build_generator(c.model, np.stack(c.xs))
        conv = {ly.idx for ly in probe.layers if ly.name == "Conv2D"}
        versions = {k: v for k, v in versions.items() if k == "Conv2D" or k in conv}
        got, py = execute(c, {"versions": versions})
    except cexec.StageError as e:
        return C.stage_violation(e, tags=c.tags)
    bad = C.compare("mixed_vs_onnx", got, c.ref, tags=c.tags) or C.compare("python_mixed_vs_onnx", py, c.ref, tags=c.tags)
    if bad:
        return bad
    return ok(tags=c.tags, digest=C.digest(c.model, versions), nontrivial=len(conv) > 0,
              count={"mixed_graphs": 1, "convolutions": len(conv), "graphs_with_several_implementations": int(len({versions.get(i, versions["Conv2D"]) for i in conv}) > 1)},
              sample={"ops": c.tags, "versions": str(versions)})


def run_hwc(p):
    try:
        if p.get("blocks"):
            c = scale.blocks(p["seed"])
        else:
            b, m, shape = hwc.make(p["seed"], n_ops=(1, 4))
            if "Conv" not in b.tags:
                raise G.Skip("no convolution")
            c = C.finish(b, m, shape, p["seed"])
    except G.Skip as e:
        return skip(str(e))
    try:
        got, py = execute(c, {"versions": hwc.VERSIONS, "gen_data_format": "channels_last"})
    except cexec.StageError as e:
        return C.stage_violation(e, tags=c.tags)
    bad = C.compare("direct_block_vs_onnx", got, c.ref, tags=c.tags) or C.compare("python_vs_onnx", py, c.ref, tags=c.tags)
    return bad or ok(tags=c.tags, digest=C.digest(c.model), count={"direct_block_graphs": 1}, sample={"ops": c.tags})


def run_indirect(p):
    c = None
    for s in range(p["seed"], p["seed"] + 50):
        try:
            c = one_conv(s)
            break
        except G.Skip:
            continue
    try:
        got, _ = execute(c, {"versions": {"Conv2D": p["version"]}})
    except cexec.StageError as e:
        if e.stage in ("import", "generate"):
            return ok(count={"rejected": 1})
        return C.stage_violation(e)
    return C.compare("indirect_vs_onnx", got, c.ref) or ok(count={"indirect_executed": 1})


if __name__ == "__main__":
    sys.exit(Check("P05", [
        Family("conv", seeds("P05conv"), run_conv, 220, 2500),
        Family("mixed", seeds("P05mix"), run_mix, 90, 1000),
        Family("direct_block", seeds("P05hwc"), run_hwc, 220, 2500),
        Family("blocks", lambda i: {"blocks": True, **seeds("P05blk")(i)}, run_hwc, 100, 800),
        cases("indirect", [{"version": f"indirect_gemm_{t}", "seed": 7} for t in ("nn", "nt", "tn", "tt")], run_indirect),
    ], rule="one-convolution models over kernel/stride/padding/dilation/channels/bias/activation executed with all five "
            "channels-first implementations, graphs mixing implementations by layer number, and channels-last graphs for the blocked "
            "implementation (pointwise, Winograd and direct kernels), all under ASan+UBSan",
       min_evals=150, require={"implementations_executed": 300, "mixed_graphs": 25, "direct_block_graphs": 50, "conv_1x1": 8,
                               "conv_3x3s1": 8, "conv_direct": 15, "dil": 10, "pads_ne": 10, "graphs_with_several_implementations": 10, "many_filters": 20},
       assumptions=["agreement up to 1e-4 relative to the output tensor's magnitude"]).main())
