"""P03: Python reference == compiled program == model, under random options."""
import _pre  # noqa: F401
import sys
import numpy as np
from acv import cases as C, cexec, onnxgen as G, oneop, scale
from acv.runner import Check, Family, ok, seeds, skip


def verdict(c, kw):
    tags = [*c.tags, *C.opt_tags(kw)]
    with C.scratch() as d:
        try:
            gen = cexec.build_generator(c.model, np.stack(c.xs), **kw)
            cexec.generate(gen, d)
            py = cexec.python_reference(gen, d)
            if kw.get("bin_dataset"):
                cexec.make(d)
            else:
                cexec.quick_build(d, flags=C.PLAIN)
            cexec.run_binary(d)
            got = cexec.parse_output(d + "/output_c.txt")
        except cexec.StageError as e:
            return C.stage_violation(e, tags=tags)
    bad = C.compare("py_vs_onnx", py, c.ref, tags=tags) or C.compare("c_vs_py", got, py, tags=tags)
    if bad:
        return bad
    return ok(tags=tags, digest=C.digest(c.model, sorted(kw.items(), key=str)),
              count={"values_compared": int(sum(np.size(r) for r in py)), "rows": len(py)},
              sample={"ops": c.tags, "options": str(kw), "first": [float(v) for v in py[0][:3]]})


def run_dag(p):
    try:
        c = C.dag_case(p["seed"], rows=3)
    except G.Skip as e:
        return skip(str(e))
    return verdict(c, C.options(p["seed"]))


def run_op(p):
    try:
        c = oneop.case(p["op"], p["seed"])
    except G.Skip as e:
        return skip(str(e))
    return verdict(c, C.options(p["seed"]))


def run_large(p):
    try:
        c = scale.large(p["seed"])
    except G.Skip as e:
        return skip(str(e))
    return verdict(c, C.options(p["seed"]))


def gen_op(i):
    return {"op": oneop.OPS[i % len(oneop.OPS)], **seeds("P03op")(i)}


if __name__ == "__main__":
    sys.exit(Check("P03", [
        Family("dag", seeds("P03dag"), run_dag, 450, 6000),
        Family("op", gen_op, run_op, len(oneop.OPS) * 28, len(oneop.OPS) * 300),
        Family("large", seeds("P03large"), run_large, 50, 800),
    ], rule="random ONNX graphs and one-operator models under random generator options; each observation compares the reference "
            "file with the program's output file and both with onnxruntime; distinct by model and options",
       min_evals=250, require={"values_compared": 4000, "optimization=True": 40, "bin_dataset=True": 20,
                               "versions=std_gemm_nn": 10, "large_image": 10},
       assumptions=["agreement up to 1e-4 relative to the output tensor's magnitude"]).main())
