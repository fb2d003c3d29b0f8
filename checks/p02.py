"""P02: unsupported models are rejected, never silently miscompiled."""
import _pre  # noqa: F401
import sys
import numpy as np
from acv import cases as C, cexec, oddgen, oddjson, oddtorch, oneop, onnxgen as G, oracle, ranks, restyle, torchmix
from acv.runner import Check, Family, ok, seeds, skip, violation


def reference(m, xs):
    try:
        out = oracle.ort_run(m, xs)
    except Exception as e:  # noqa: BLE001
        raise G.Skip(f"onnxruntime: {str(e)[:200]}") from e
    for r in out:
        for v in r:
            if not np.isfinite(np.asarray(v, np.float64)).all() or np.abs(np.asarray(v, np.float64)).max(initial=0) > 1e4:
                raise G.Skip("magnitude")
    return out


def compare(kind, got, want, dt, tags):
    if dt != np.float16:
        return C.compare(kind, got, want, tags=tags)
    # half precision: its own rounding is all the difference there may be
    for p, q in zip(got, want):
        if np.size(p) != np.size(q) or not oracle.close(p, q, rtol=4e-3, atol=1e-3)[0]:
            return violation(kind, f"got {p[:4]}, expected {np.ravel(q)[:4]}", tags=tags)
    return None


def run_odd(p, make=oddgen.make):
    name = p["feature"]
    try:
        m, shape, tags, dt = make(name, p["seed"])
        rng = np.random.default_rng([p["seed"], 5])
        xs = [rng.standard_normal(shape).astype(dt) if np.issubdtype(dt, np.floating) else rng.integers(-9, 10, shape).astype(dt)
              for _ in range(2)]
    except G.Skip as e:
        return skip(str(e))
    cnt = {"models": 1}
    with C.scratch() as d:
        try:
            gen = cexec.build_generator(m, np.stack(xs))
            cexec.generate(gen, d)
        except cexec.StageError as e:
            last = e.detail.strip().splitlines()[-1]
            return ok(tags=[name], digest=C.digest(m), count={**cnt, "rejected": 1}, sample={"rejected": f"{name}: {last[:160]}"})
        if name == "two_inputs":
            return violation("second_input_ignored", "a model of two inputs was generated", tags=[name])
        try:
            ref = reference(m, xs)
        except G.Skip as e:
            return skip(str(e))
        try:
            cexec.quick_build(d, flags=C.PLAIN)
            cexec.run_binary(d)
            got = cexec.parse_output(d + "/output_c.txt")
            py = cexec.python_reference(gen, d)
        except cexec.StageError as e:
            return C.stage_violation(e, tags=[name])
    if len(ref[0]) > 1:
        # one line per row: the values of all outputs would have to be there
        want = [np.concatenate([np.ravel(o) for o in r]) for r in ref]
    else:
        want = [r[0] for r in ref]
    bad = compare("miscompiled", got, want, dt, [name]) or compare("reference", py, want, dt, [name])
    if bad:
        return bad
    return ok(tags=[name], digest=C.digest(m), count={**cnt, "accepted_and_correct": 1},
              sample={"accepted": True, "first_output": [float(v) for v in got[0][:3]]})


def run_rank(p):
    v = run_odd(p, ranks.make)
    v["tags"] = [*v.get("tags", []), "rank"]
    return v


# what the operators of these versions mean is not always what they mean in the version the model was drawn for
OPSETS = [7, 8, 9, 10, 11, 11, 12, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21]


def run_opset(p):
    """A model read with the operators of another version, whose semantics are those of that version."""
    import onnx
    rng = np.random.default_rng([p["seed"], 78])
    try:
        c = C.dag_case(p["seed"], rows=2) if p["op"] == "dag" else oneop.case(p["op"], p["seed"])
        v = int(rng.choice(OPSETS))
        m = onnx.ModelProto()
        m.CopyFrom(c.model)
        m.opset_import[0].version = v
        del m.graph.value_info[:]
        try:
            onnx.checker.check_model(m)
            if rng.random() < .7:
                m = onnx.shape_inference.infer_shapes(m)
            if rng.random() < .3:
                m = restyle.restyle(m, rng)[0] or m
        except Exception as e:  # noqa: BLE001
            return skip(f"not a model of version {v}: {str(e)[-100:]}")
        want = [np.ravel(r[0]) for r in reference(m, c.xs)]
    except G.Skip as e:
        return skip(str(e))
    with C.scratch() as d:
        r = judge(m, [np.asarray(x) for x in c.xs], want, d, f"opset:{v}", C.digest(m))
    r["tags"] = [*r.get("tags", []), "opset"]
    if not all(oracle.close(a, b)[0] for a, b in zip(want, c.ref)):
        r["tags"].append("opset:changes the function")
    return r


def judge(model, rows, want, d, name, digest, tol=1e-4):
    """want: None (to be rejected) or the rows of the model's function."""
    cnt = {"models": 1}
    try:
        gen = cexec.build_generator(model, np.stack(rows))
        cexec.generate(gen, d + "/out")
    except cexec.StageError as e:
        last = e.detail.strip().splitlines()[-1]
        return ok(tags=[name], digest=digest, count={**cnt, "rejected": 1}, sample={"rejected": f"{name}: {last[:160]}"})
    if want is None:
        return violation("accepted", f"{name}: a model with an unsupported feature was generated", tags=[name])
    try:
        cexec.quick_build(d + "/out", flags=C.PLAIN)
        cexec.run_binary(d + "/out")
        got = cexec.parse_output(d + "/out/output_c.txt")
        py = cexec.python_reference(gen, d + "/out")
    except cexec.StageError as e:
        return C.stage_violation(e, tags=[name])
    for kind, rows_ in (("miscompiled", got), ("reference", py)):
        if len(rows_) != len(want):
            return violation(kind, f"{name}: {len(rows_)} rows instead of {len(want)}", tags=[name])
        for p, q in zip(rows_, want):
            if not oracle.close(p, q, rtol=tol, atol=tol / 10)[0]:
                return violation(kind, f"{name}: got {np.ravel(p)[:4]} ({np.size(p)} values), expected {np.ravel(q)[:4]} ({np.size(q)})", tags=[name])
    return ok(tags=[name], digest=digest, count={**cnt, "accepted_and_correct": 1}, sample={"accepted": name})


def run_torch(p):
    import torch
    name = p["feature"]
    torch._dynamo.reset()
    try:
        if name == "mix":
            net, x, n = torchmix.make(p["seed"])
            if not n:
                return skip("empty")
            ex = (x,)
        else:
            net, ex, _ = oddtorch.make(name, p["seed"])
        prog = torch.export.export(net, ex, strict=bool(p["seed"] & 1))
    except Exception as e:  # noqa: BLE001
        return skip(f"not a program: {str(e)[:100]}")
    with torch.no_grad():
        rng = np.random.default_rng([p["seed"], 5])
        rows = []
        for _ in range(2):
            a = rng.standard_normal(ex[0].shape) if ex[0].dtype.is_floating_point else rng.integers(-5, 6, ex[0].shape)
            rows.append(torch.from_numpy(np.asarray(a)).to(ex[0].dtype))
        if len(ex) > 1:
            want = None
        else:
            want = []
            for r in rows:
                o = net(r.clone())  # (a program may modify its input)
                o = o if isinstance(o, tuple) else (o,)
                want.append(np.concatenate([t.double().numpy().ravel() for t in o]))
            if not all(np.isfinite(w).all() and np.abs(w).max(initial=0) < 1e4 for w in want):
                return skip("magnitude")
    low = ex[0].dtype in (torch.float16, torch.bfloat16)
    rows = [r.float().numpy() if low else r.numpy() for r in rows]
    with C.scratch() as d:
        return judge(prog, rows, want, d, "torch:" + name, f"torch {name} {p['seed']}", 1e-2 if low else 1e-4)


def run_json(p):
    name = p["feature"]
    with C.scratch() as d:
        got = oddjson.make(name, p["seed"], d + "/net.json")
        if got is None:
            return skip("not applicable to these shapes")
        shape, fn = got
        rng = np.random.default_rng([p["seed"], 5])
        rows = [rng.standard_normal((1, *shape)).astype(np.float32) for _ in range(2)]
        want = None if fn is None else [np.ravel(fn(r[0])) for r in rows]
        if want and not all(np.abs(w).max(initial=0) < 1e4 for w in want):
            return skip("magnitude")
        return judge(d + "/net.json", rows, want, d, "json:" + name, f"json {name} {p['seed']}")


NAMES = sorted(oddgen.ODD)
TORCH = sorted(oddtorch.torch_features())
JSON = sorted(oddjson.ODD)


def features(names, tag):
    return lambda i: {"feature": names[i % len(names)], **seeds(tag)(i)}


if __name__ == "__main__":
    sys.exit(Check("P02", [Family("odd", features(NAMES, "P02odd"), run_odd, len(NAMES) * 4, len(NAMES) * 60),
                           Family("rank", features(ranks.NAMES, "P02rank"), run_rank, len(ranks.NAMES) * 8, len(ranks.NAMES) * 200),
                           Family("torch", features(TORCH, "P02torch"), run_torch, len(TORCH) * 2, len(TORCH) * 20),
                           Family("mix", features(["mix"], "P02mix"), run_torch, 160, 3000),
                           Family("opset", lambda i: {"op": "dag" if i % 6 == 0 else oneop.OPS[i % len(oneop.OPS)] if i % 6 < 5 else "softmax", **seeds("P02opset")(i)},
                                  run_opset, 300, 4000),
                           Family("json", features(JSON, "P02json"), run_json, len(JSON) * 2, len(JSON) * 20)],
                   rule="models (ONNX, PyTorch exported programs, JSON descriptions) with one feature outside (or at the border of) the supported "
                        "set, alone or between other operators; each must be rejected before a program exists or computed as onnxruntime, "
                        "PyTorch or the definition of the layer does; distinct by model",
                   min_evals=400, require={"rejected": 300, "accepted_and_correct": 80}).main())
