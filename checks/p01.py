"""P01: the compiled program computes the function of the ONNX graph."""
import _pre  # noqa: F401
import sys
import numpy as np
from acv import cases as C, cexec, dag, onnxgen as G, oneop, oracle, restyle, scale
from acv.runner import Check, Family, ok, seeds, skip, violation


def verdict(c, kw, makefile):
    with C.scratch() as d:
        try:
            gen = cexec.build_generator(c.model, np.stack(c.xs), **kw)
            got = C.run_c(gen, d, makefile=makefile)
        except cexec.StageError as e:
            return C.stage_violation(e, tags=c.tags)
    bad = C.compare("c_vs_onnx", got, c.ref, tags=c.tags)
    if bad:
        return bad
    n = sum(np.size(r) for r in c.ref)
    return ok(tags=c.tags, digest=C.digest(c.model), nontrivial=c.stats["nodes"] >= 1,
              count={"values_compared": int(n), "rows": len(got), "nodes": c.stats["nodes"],
                     "via_makefile": int(makefile), "graphs_with_fanout": int(c.stats["max_fanout"] > 1)},
              sample={"ops": c.tags, **c.stats, "first_output": [float(v) for v in got[0][:3]]})


def run_dag(p):
    try:
        c = C.dag_case(p["seed"], rows=2)
    except G.Skip as e:
        return skip(str(e))
    return verdict(c, {}, p["seed"] % 5 == 0)


def run_op(p):
    try:
        c = oneop.case(p["op"], p["seed"])
    except G.Skip as e:
        return skip(str(e))
    return verdict(c, {}, False)


def run_large(p):
    try:
        c = scale.large(p["seed"])
    except G.Skip as e:
        return skip(str(e))
    return verdict(c, {}, False)


def run_written(p):
    """The model written in another way: the same function, hence the same reference."""
    rng = np.random.default_rng([p["seed"], 1])
    try:
        c = C.dag_case(p["seed"], rows=1) if p["op"] == "dag" else oneop.case(p["op"], p["seed"])
        c.model, done = restyle.restyle(c.model, rng)
    except G.Skip as e:
        return skip(str(e))
    if not done:
        return skip("written as it was")
    again = [r[0] for r in oracle.ort_run(c.model, c.xs)] if p["seed"] % 4 == 0 else c.ref
    assert all(oracle.close(a, b)[0] for a, b in zip(again, c.ref)), "not the same model"
    c.tags = [*c.tags, *("written:" + d for d in done)]
    return verdict(c, {}, False)


# operators with many attributes are drawn more often
SWEEP = oneop.OPS + ["resize", "pad", "conv", "pool", "resize", "reduce", "resize", "conv"]


def gen_op(i):
    s = seeds("P01op")(i)
    return {"op": SWEEP[i % len(SWEEP)], **s}


def gen_written(i):
    s = seeds("P01written")(i)
    return {"op": "dag" if i % 2 else SWEEP[i // 2 % len(SWEEP)], **s}


if __name__ == "__main__":
    sys.exit(Check("P01", [
        Family("dag", seeds("P01dag"), run_dag, 500, 6000),
        Family("op", gen_op, run_op, len(SWEEP) * 32, len(SWEEP) * 300),
        Family("written", gen_written, run_written, 320, 4000),
        Family("large", seeds("P01large"), run_large, 60, 1000),
    ], rule="random ONNX graphs (several operators, skip connections, shared tensors) and one-operator sweeps over shapes "
            "and attributes; non-trivial: at least one operator was executed in C and its output compared to onnxruntime; "
            "distinct by the serialised model",
       min_evals=300, require={"values_compared": 5000, "graphs_with_fanout": 30, "Conv": 20, "Gemm": 10, "Concat": 10,
                               "Softmax": 8, "MaxPool": 5, "AveragePool": 5, "Resize": 8, "Pad": 8, "MatMul": 10,
                               "Transpose": 8, "Gather": 8, "BatchNormalization": 5, "large_image": 15},
       assumptions=["onnxruntime 1.18.1 with graph optimisation disabled is the semantics of ONNX",
                    "agreement up to 1e-4 relative to the output tensor's magnitude; ill-conditioned draws are discarded"]).main())
