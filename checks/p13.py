"""P13: the ONNX model exported from the internal representation is valid and equivalent, and can be imported again."""
import _pre  # noqa: F401
import sys
import numpy as np
import onnx
import p12
import p21
from acv import cases as C, cexec, dag, fuse, hwc, nets, onnxgen as G, oneop, oracle
from acv.runner import Check, Family, ok, seeds, skip, violation


def layers_of(model, optimised):
    """(representation, Python type) as the importer gives it, or as the generator optimised it."""
    from acetone_nnet import CodeGenerator
    from acetone_nnet.importers.parser import parser
    try:
        if optimised:
            g = CodeGenerator(file=model, nb_tests=1, optimization=True)
            return g.layers, g.data_type_py
        layers, _, dtype, *_ = parser(model)
        return layers, dtype
    except Exception as e:  # noqa: BLE001
        raise cexec.StageError("import", cexec.exc_text(e)) from e


def same(kind, got, ref, tags, dtype):
    return p21.compare(kind, got, ref, tags) if dtype == np.float64 else C.compare(kind, got, ref, tags=tags)


def run_exported(m, xs):
    shape = [d.dim_value for d in m.graph.input[0].type.tensor_type.shape.dim]
    rows = [x.reshape(shape) for x in xs]
    if xs[0].dtype == np.float64:       # onnxruntime lacks the double kernels of some operators
        return [r[0] for r in oracle.reference_run(m, rows, [m.graph.output[0].name])]
    return [r[0] for r in oracle.ort_run(m, rows)]


def verdict(model, xs, ref, dtype, tags, optimised, kw, key):
    from acetone_nnet.exporters import exporter
    tags = [*tags, *(["optimised"] if optimised else []), f"type:{np.dtype(dtype)}"]
    try:
        layers, pytype = layers_of(model, optimised)
    except cexec.StageError as e:
        return C.stage_violation(e, tags=tags)
    try:
        m = exporter("onnx", layers, pytype)
        again = exporter("onnx", layers, pytype)
    except Exception as e:  # noqa: BLE001
        return C.stage_violation(cexec.StageError("export", cexec.exc_text(e)), tags=tags)
    if m.SerializeToString(deterministic=True) != again.SerializeToString(deterministic=True):
        return violation("not_repeatable", "exporting twice gave different models", tags=tags)
    try:
        onnx.checker.check_model(m, full_check=True)
        inferred = onnx.shape_inference.infer_shapes(m, check_type=True, strict_mode=True)
    except Exception as e:  # noqa: BLE001
        return violation("invalid_model", f"{type(e).__name__}: {str(e)[:400]}", tags=tags)
    if len(m.graph.input) != 1 or len(m.graph.output) != 1:
        return violation("interface", f"{len(m.graph.input)} inputs, {len(m.graph.output)} outputs", tags=tags)
    if oracle and np.dtype(onnx.helper.tensor_dtype_to_np_dtype(m.graph.input[0].type.tensor_type.elem_type)) != np.dtype(dtype):
        return violation("data_type", f"input of type {m.graph.input[0].type.tensor_type.elem_type}", tags=tags)
    try:
        got = run_exported(m, xs)
    except Exception as e:  # noqa: BLE001
        return violation("not_executable", f"{type(e).__name__}: {str(e)[:400]}", tags=tags)
    bad = same("exported_vs_model", got, ref, tags, dtype)
    if bad:
        return bad
    # imported again: the program and the Python reference of the exported model
    shape = [d.dim_value for d in m.graph.input[0].type.tensor_type.shape.dim]
    with C.scratch() as d:
        try:
            gen = cexec.build_generator(m, np.stack([x.reshape(shape) for x in xs]), **kw)
            c = C.run_c(gen, d)
            py = cexec.python_reference(gen, d)
        except cexec.StageError as e:
            v = C.stage_violation(e, tags=tags)
            v["kind"] = "again_" + v["kind"]
            return v
    bad = same("again_program", c, ref, tags, dtype) or same("again_reference", py, ref, tags, dtype)
    if bad:
        return bad
    return ok(tags=tags, digest=C.digest(m), nontrivial=len(m.graph.node) > 0,
              count={"models_exported": 1, "nodes_exported": len(m.graph.node), "values_compared": 3 * sum(np.size(r) for r in ref),
                     "initializers_exported": len(m.graph.initializer), "shapes_inferred": len(inferred.graph.value_info)},
              sample={"ops": tags, "exported": [n.op_type for n in m.graph.node][:12]})


def of_onnx(build, optimised=None):
    def run(p):
        rng = np.random.default_rng([p["seed"], 13])
        double = p.get("double", rng.random() < .2)
        try:
            b, m, shape = build(p, np.float64 if double else np.float32)
            c = (p21.finish if double else C.finish)(b, m, shape, p["seed"])
        except G.Skip as e:
            return skip(str(e))
        o = bool(rng.random() < .35) if optimised is None else optimised
        return verdict(m, c.xs, c.ref, b.dtype, c.tags, o, {"optimization": True} if rng.random() < .3 else {}, p["seed"])
    return run


def of_net(fmt):
    def run(p):
        rng = np.random.default_rng([p["seed"], 1])
        net = nets.make(p["seed"], fmt, np.float32, False)
        if net is None:
            return skip("empty network")
        tags = [*nets.tags(net), f"from:{fmt}"]
        try:
            m = nets.to_onnx(net, 18)
            xs, ref = p12.reference(net, m, p["seed"], tags)
        except G.Skip as e:
            return skip(str(e))
        with C.scratch() as d:
            if fmt == "torch":
                try:
                    _, model = nets.export(net, bool(rng.random() < .5))
                except Exception as e:  # noqa: BLE001 (torch itself refuses, e.g. an in-place relu)
                    return skip(f"torch {e}")
            else:
                model = nets.to_nnet(net, d + "/net.nnet", comments=int(rng.integers(0, 4)))
            return verdict(model, xs, ref, net.dtype, tags, bool(rng.random() < .3), {}, p["seed"])
    return run


def gen_op(i):
    return {"op": oneop.OPS[i % len(oneop.OPS)], **seeds("P13op")(i)}


if __name__ == "__main__":
    sys.exit(Check("P13", [
        Family("op", gen_op, of_onnx(lambda p, t: oneop.build(p["op"], p["seed"], dtype=t)), len(oneop.OPS) * 16, len(oneop.OPS) * 250),
        Family("dag", seeds("P13dag"), of_onnx(lambda p, t: dag.make(p["seed"], dtype=t)), 260, 4000),
        Family("fuse", seeds("P13fuse"), of_onnx(lambda p, t: fuse.make(p["seed"], dtype=t), True), 120, 1500),
        Family("torch", seeds("P13torch"), of_net("torch"), 80, 800),
        Family("nnet", seeds("P13nnet"), of_net("nnet"), 40, 300),
    ], rule="representations imported from one-operator models, random graphs, PyTorch programs and NNET files (a part after graph optimisation, a "
            "part in double precision) exported to ONNX: checked by the ONNX checker with strict shape inference, executed by onnxruntime (the "
            "reference evaluator in double precision), imported again and run in C and in Python; all against the first model",
       min_evals=300, require={"models_exported": 300, "optimised": 60, "type:float64": 40, "from:torch": 15, "from:nnet": 5, "silu": 5},
       assumptions=["agreement up to 1e-4 relative to the output tensor's magnitude (1e-10 in double precision)"]).main())
