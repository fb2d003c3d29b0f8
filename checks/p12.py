"""P12: a network gives the same programs whichever format it is imported from."""
import _pre  # noqa: F401
import hashlib
import os
import sys
import numpy as np
import onnx
from acv import cases as C, cexec, nets, onnxgen as G, oracle
from acv.runner import Check, Family, cases, ok, seeds, skip, violation


class Shim:
    def __init__(self, net, tags):
        self.dtype, self.tags = net.dtype, tags


def reference(net, m, seed, tags):
    """(input rows, expected rows)"""
    shape = net.shape(0)
    if net.dtype == np.float32:
        c = C.finish(Shim(net, tags), m, shape, seed)
        for x, r in zip(c.xs, c.ref):
            if not oracle.close(nets.evaluate(net, x), r)[0]:
                raise RuntimeError("the harness's evaluator and ONNX network differ")
        return c.xs, c.ref
    xs = C.inputs(seed, shape, 2, net.dtype)
    ref = [nets.evaluate(net, x) for x in xs]
    if not all(np.isfinite(r).all() and np.abs(r).max() < 1e4 for r in ref):
        raise G.Skip("magnitude")
    return xs, ref


def state(program):
    h = hashlib.sha1(str(program.graph).encode())
    for src in (program.state_dict, program.constants):
        for k, v in sorted(src.items()):
            h.update(k.encode() + v.detach().contiguous().numpy().tobytes() if hasattr(v, "detach") else b"")
    return h.hexdigest()


def nhwc(a):
    a = np.asarray(a)
    return np.transpose(a, (0, 2, 3, 1)) if a.ndim == 4 else a


def program(model, xs, kw):
    with C.scratch() as d:
        gen = cexec.build_generator(model, np.stack(xs), **kw)
        cexec.generate(gen, d)
        py = cexec.python_reference(gen, d)
        cexec.quick_build(d, flags=C.PLAIN)
        cexec.run_binary(d)
        return cexec.parse_output(d + "/output_c.txt"), py


def tight(kind, got, ref, tags, dtype):
    if dtype == np.float32:
        return C.compare(kind, got, ref, tags=tags)
    if len(got) != len(ref):
        return violation(kind, f"{len(got)} rows instead of {len(ref)}", tags=tags)
    for r, (p, q) in enumerate(zip(got, ref)):
        good, exc, i = oracle.close(p, q, rtol=1e-7, atol=1e-9)
        if not good:
            return violation(kind, f"double precision, row {r} element {i}: off by {exc}", tags=tags)
    return None


def evaluate(net, fmt, seed, kw):
    rng = np.random.default_rng([seed, 3])
    tags = [*nets.tags(net), f"from:{fmt}", f"type:{net.dtype}", *(["channels_last"] if net.channels_last else [])]
    try:
        m = nets.to_onnx(net, int(rng.choice([13, 17, 18])) if net.dtype == np.float32 else 18)
        xs, ref = reference(net, m, seed, tags)
    except G.Skip as e:
        return skip(str(e))
    runs = {}
    with C.scratch() as d:
        models = {}
        if rng.random() < .5:
            onnx.save(m, d + "/net.onnx")
            models["onnx_file"] = d + "/net.onnx"
        else:
            models["onnx_memory"] = m
        if fmt in ("torch", "common", "nnet"):
            import torch
            try:
                module, models["torch"] = nets.export(net, bool(rng.random() < .5))
            except Exception as e:  # noqa: BLE001 (torch itself refuses, e.g. an in-place relu)
                return skip(f"torch {e}")
            with torch.no_grad():
                own = [module(torch.from_numpy(x)).numpy() for x in xs]
            for a, b in zip(own, ref):
                if not oracle.close(a, b, rtol=1e-4 if net.dtype == np.float32 else 1e-7)[0]:
                    raise RuntimeError("the harness's ONNX and torch networks differ")
        if fmt in ("json", "common", "nnet"):
            models["json"] = nets.to_json(net, d + "/net.json", rng)
        if fmt == "nnet":
            models["nnet"] = nets.to_nnet(net, d + "/net.nnet", comments=int(rng.integers(0, 4)))

        def snap(v):
            if isinstance(v, str):
                with open(v, "rb") as f:
                    return hashlib.sha1(f.read()).hexdigest()
            return v.SerializeToString(deterministic=True) if hasattr(v, "SerializeToString") else state(v)

        for name, mod in models.items():
            hwc = net.channels_last and not name.startswith("onnx")
            if name == "torch" and net.shape(0)[1] == 1:
                hwc = False         # the layout of a single-channel image says nothing
            rows, exp = ([nhwc(x) for x in xs], [nhwc(r) for r in ref]) if hwc else (xs, ref)
            before = snap(mod)
            try:
                c, py = program(mod, rows, kw)
            except cexec.StageError as e:
                v = C.stage_violation(e, tags=tags)
                v["kind"] = f"{name.split('_')[0]}_{v['kind']}"
                return v
            if snap(mod) != before:
                return violation("model_modified", f"importing from {name} modified the model", tags=tags)
            dt = net.dtype if name != "nnet" else np.dtype(np.float32)
            bad = tight(f"{name.split('_')[0]}_program", c, exp, tags, dt) or tight(f"{name.split('_')[0]}_python", py, exp, tags, dt)
            if bad:
                return bad
            runs[name] = len(c)
    return ok(tags=[*tags, *runs], digest=C.digest(m, fmt, sorted(runs), sorted(kw.items(), key=str)),
              count={"imports": len(runs), "rows_compared": 2 * sum(runs.values()), **{f"programs_from_{k.split('_')[0]}": 1 for k in runs}},
              sample={"nodes": [nd["op"] for nd in net.nodes], "programs": sorted(runs)})


def drawn(fmt, cl=False, double=.15):
    def run(p):
        rng = np.random.default_rng([p["seed"], 1])
        dt = np.float64 if rng.random() < double else np.float32
        net = nets.make(p["seed"], fmt, dt, cl)
        if net is None:
            return skip("empty network")
        kw = {}
        if rng.random() < .3:
            kw["optimization"] = True
        if rng.random() < .4:
            kw["versions"] = {"Conv2D": str(rng.choice(C.CONV_VERSIONS))}
        if rng.random() < .2:
            kw["to_hex"] = False
        return evaluate(net, fmt, p["seed"], kw)
    return run


if __name__ == "__main__":
    sys.exit(Check("P12", [
        Family("torch", seeds("P12t"), drawn("torch"), 140, 1500),
        Family("torch_channels_last", seeds("P12tl"), drawn("torch", True), 50, 500),
        Family("json", seeds("P12j"), drawn("json"), 140, 1500),
        Family("json_channels_last", seeds("P12jl"), drawn("json", True), 90, 1000),
        Family("common", seeds("P12c"), drawn("common"), 75, 1000),
        Family("nnet", seeds("P12n"), drawn("nnet", double=0), 25, 300),
    ], rule="random networks written as ONNX (file or in-memory), PyTorch exported program, JSON and NNET; the program and Python reference of "
            "every import against onnxruntime, PyTorch itself and an evaluator of the network's own definition; models hashed before and after",
       min_evals=180, require={"programs_from_torch": 80, "programs_from_json": 100, "programs_from_nnet": 10, "from:common": 20, "channels_last": 40,
                               "shared_tensor": 30, "bn": 20, "cat": 20},
       assumptions=["agreement up to 1e-4 relative to the output tensor's magnitude (1e-7 for double precision)"]).main())
