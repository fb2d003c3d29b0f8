"""P21: double-precision models are computed in double precision."""
import _pre  # noqa: F401
import sys
import numpy as np
import onnx
import onnx.numpy_helper  # noqa: F401
from acv import cases as C, cexec, dag, fuse, hwc, onnxgen as G, oneop, oracle
from acv.runner import Check, Family, ok, seeds, skip, violation

F = np.float64
RTOL, ATOL = 1e-10, 1e-11


def single(m):
    """The model with every double replaced by a single."""
    t = onnx.ModelProto()
    t.CopyFrom(m)
    for i in t.graph.initializer:
        if i.data_type == onnx.TensorProto.DOUBLE:
            i.CopyFrom(onnx.numpy_helper.from_array(onnx.numpy_helper.to_array(i).astype(np.float32), i.name))
    for v in [*t.graph.input, *t.graph.output, *t.graph.value_info]:
        v.type.tensor_type.elem_type = onnx.TensorProto.FLOAT
    return t


def finish(b, m, shape, seed, rows=2):
    """Float64 reference (onnx reference evaluator, evaluated in float64) and the conditioning filter."""
    c = C.MCase()
    c.b, c.model, c.shape, c.seed, c.tags, c.stats = b, m, shape, seed, b.tags, dag.stats(m)
    c.xs = C.inputs(seed, shape, rows, F)
    inter = [nd.output[0] for nd in m.graph.node]
    soft = {nd.input[0] for nd in m.graph.node if nd.op_type == "Softmax"}
    out = m.graph.output[0].name
    inits = {i.name for i in m.graph.initializer}
    try:
        ref = oracle.reference_run(m, c.xs, inter)
        rng = np.random.default_rng([int(seed), 6])
        noisy = oracle.reference_run(m, [x * (1 + 1e-13 * rng.standard_normal(x.shape)) for x in c.xs], [out])
    except Exception as e:  # noqa: BLE001  (the evaluator lacks some broadcasting forms)
        raise G.Skip(f"reference evaluator: {type(e).__name__}") from e
    ev = [dict(zip(inter, r)) for r in ref]
    shapes = {v.name: tuple(d.dim_value for d in v.type.tensor_type.shape.dim) for v in [*m.graph.value_info, *m.graph.output]}
    for row in ev:
        for t, v in row.items():
            if v.dtype != F or t in shapes and tuple(v.shape) != shapes[t]:
                raise G.Skip("reference evaluator: type or shape")
            if not np.isfinite(v).all() or np.abs(v).max(initial=0) > 1e4 or t in soft and np.abs(v).max(initial=0) > 30:
                raise G.Skip("magnitude")
    c.ref = [r[out] for r in ev]
    # the evaluator itself is checked against onnxruntime on the single-precision twin of the model
    t = single(m)
    have = {o.name for o in t.graph.output}
    t.graph.output.extend(onnx.helper.make_empty_tensor_value_info(n) for n in inter if n not in have)
    order = [o.name for o in t.graph.output]
    for outs, r in zip(oracle.ort_run(t, [x.astype(np.float32) for x in c.xs]), ev):
        for n, v in zip(order, outs):
            if not oracle.close(v, r[n], rtol=1e-3, atol=1e-4)[0]:
                raise G.Skip("the two reference implementations disagree")
    for a, r in zip(noisy, c.ref):
        if not oracle.close(a[0], r, rtol=RTOL / 5, atol=ATOL / 5)[0]:
            raise G.Skip("ill-conditioned")
    return c


def compare(kind, got, ref, tags):
    if len(got) != len(ref):
        return violation(kind, f"{len(got)} rows instead of {len(ref)}", tags=tags)
    for r, (p, q) in enumerate(zip(got, ref)):
        good, excess, i = oracle.close(p, q, rtol=RTOL, atol=ATOL)
        if not good:
            single = oracle.close(p, q)[0]
            v = float(np.ravel(q)[i]) if i >= 0 else None
            return violation(kind + ("_single_precision" if single else ""),
                             f"row {r} element {i}: got {float(np.ravel(p)[i]) if i >= 0 else np.size(p)!r}, expected {v!r}", tags=tags)
    return None


def verdict(c, kw, sanitize=False):
    tags = [*c.tags, *C.opt_tags({k: v for k, v in kw.items() if k != "versions"})]
    tags += [f"impl={v}" for v in kw.get("versions", {}).values()]
    sanitize = sanitize and "bin_dataset" not in kw
    with C.scratch() as d:
        try:
            gen = cexec.build_generator(c.model, np.stack(c.xs), **kw)
            if gen.data_type != "double":
                return violation("data_type", f"model in double precision generated as {gen.data_type}", tags=tags)
            got = C.run_c(gen, d, flags=C.SAN if sanitize else C.PLAIN, makefile=not sanitize and (c.seed % 5 == 0 or "bin_dataset" in kw),
                          extra_env=C.SAN_ENV if sanitize else None)
            py = cexec.python_reference(gen, d)
        except cexec.StageError as e:
            return C.stage_violation(e, tags=tags)
    bad = compare("c", got, c.ref, tags) or compare("reference", py, c.ref, tags)
    if bad:
        return bad
    q = np.concatenate([np.ravel(r) for r in c.ref])
    fine = int(np.sum(np.abs(q - q.astype(np.float32)) > 20 * (ATOL + RTOL * np.maximum(np.abs(q), .1 * np.abs(q).max()))))
    return ok(tags=tags, digest=C.digest(c.model, sorted(kw.items(), key=str)), nontrivial=fine > 0,
              count={"values_beyond_single_precision": fine, "values_compared": int(q.size), "sanitized": int(sanitize)},
              sample={"ops": c.tags, "first": [float(v) for v in got[0][:3]]})


def opts(seed):
    kw = C.options(seed)
    for k in ("verbose", "target_page_size"):
        kw.pop(k, None)
    return kw


def run_dag(p):
    try:
        c = finish(*dag.make(p["seed"], dtype=F), p["seed"])
    except G.Skip as e:
        return skip(str(e))
    return verdict(c, opts(p["seed"]), p["seed"] % 4 == 1)


def run_fuse(p):
    try:
        c = finish(*fuse.make(p["seed"], dtype=F), p["seed"])
    except G.Skip as e:
        return skip(str(e))
    return verdict(c, {**opts(p["seed"]), "optimization": True}, p["seed"] % 4 == 1)


def run_op(p):
    try:
        c = finish(*oneop.build(p["op"], p["seed"], dtype=F), p["seed"])
    except G.Skip as e:
        return skip(str(e))
    return verdict(c, opts(p["seed"]), p["seed"] % 4 == 1)


def run_hwc(p):
    try:
        c = finish(*hwc.make(p["seed"], dtype=F), p["seed"])
    except G.Skip as e:
        return skip(str(e))
    return verdict(c, {"versions": hwc.VERSIONS, "gen_data_format": "channels_last"}, p["seed"] % 4 == 1)


def gen_op(i):
    return {"op": oneop.OPS[i % len(oneop.OPS)], **seeds("P21op")(i)}


if __name__ == "__main__":
    sys.exit(Check("P21", [
        Family("dag", seeds("P21dag"), run_dag, 240, 3500),
        Family("op", gen_op, run_op, len(oneop.OPS) * 16, len(oneop.OPS) * 200),
        Family("hwc", seeds("P21hwc"), run_hwc, 100, 1500),
        Family("fuse", seeds("P21fuse"), run_fuse, 200, 3000),
    ], rule="double-precision random graphs, graphs of fusible motifs generated with optimisation, one-operator sweeps and channels-last networks under random options; program and Python "
            "reference against a float64 evaluation, at 1e-10; non-trivial: some expected value is not representable in single precision "
            "within the tolerance",
       min_evals=200, require={"values_beyond_single_precision": 3000, "Conv": 20, "silu": 10},
       assumptions=["the onnx reference evaluator evaluates in float64 (checked on the dtypes of every tensor)"]).main())
