"""P17: debug mode observes every layer without changing the results."""
import _pre  # noqa: F401
import contextlib
import io
import os
import re
import sys

import numpy as np
import onnx
from acv import cases as C, cexec, dag, env, fuse, hwc, nets, onnxgen as G, oracle
from acv.runner import Check, Family, ok, seeds, skip, violation

UNRECORDED = {"Dropout", "Constant", "Unsqueeze", "Reshape", "Shape", "Flatten"}
STUBS = {"MMU.h": "#ifndef MMU_H\n#define MMU_H\n#endif\n",
         "PMH.h": "#ifndef PMH_H\n#define PMH_H\nstatic unsigned long long acv_ticks;\n"
                  "#define select_evt_counter(c) ((void)(c))\n#define event_track(c) ((void)(c))\n"
                  "#define enable_evt_counter(c) ((void)(c))\n#define reset_evt_counter(c) ((void)(c))\n"
                  "#define read_evt_counter() (acv_ticks += 7)\n#endif\n"}


def record(path):
    """[(name, index, values in the order of the model's layout)] in the order they were written."""
    out = []
    lines = open(path).read().split("\n")
    if lines[-1] != "" or len(lines) % 2 != 1:
        raise ValueError("the record is truncated")
    for a, b in zip(lines[:-1:2], lines[1:-1:2], strict=True):
        h = a.split()
        v = np.array([float(t) for t in b.split()])
        if h[2] == "1":
            c, hh, w = map(int, h[3:6])
            v = v.reshape(c, hh, w).transpose(1, 2, 0).ravel()
        elif h[2] == "2":
            c, hh, w = map(int, h[3:6])
            v = v.reshape(hh, w, c).transpose(2, 0, 1).ravel()
        out.append((h[0], int(h[1]), v))
    return out


def quiet(f, *a, **kw):
    o = io.StringIO()
    with contextlib.redirect_stdout(o):
        r = f(*a, **kw)
    return r, o.getvalue()


def both(model, xs, kw, mode, stubs=False):
    """The program and reference without and with the debug mode."""
    runs = {}
    for m in (None, mode):
        with C.scratch() as d:
            gen = cexec.build_generator(model, np.stack(xs), debug_mode=m, **kw)
            cexec.generate(gen, d)
            try:
                got = gen.compute_inference(d)
            except Exception as e:  # noqa: BLE001
                raise cexec.StageError("reference", cexec.exc_text(e)) from e
            if stubs:
                for n, t in STUBS.items():
                    with open(os.path.join(d, n), "w") as f:
                        f.write(t)
            if kw.get("bin_dataset"):
                cexec.make(d)
            else:
                cexec.quick_build(d, flags=("-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all") if m else C.PLAIN)
            rc, so, se = cexec.sh(["./inference", "output_c.txt"], cwd=d, extra_env=C.SAN_ENV)
            if rc:
                raise cexec.StageError("run", f"exit status {rc}\n{se[:2000]}")
            r = {"c": cexec.parse_output(d + "/output_c.txt"), "py": open(d + "/output_python.txt").read(), "stdout": so,
                 "layers": [(ly.name, ly.idx) for ly in gen.layers], "dtype": gen.data_type,
                 "constants": {ly.idx for ly in gen.layers if type(ly).__name__ == "ConstantLayer"}}
            if m and m != "time":
                from acetone_nnet import debug
                try:
                    r["record"] = record(d + "/debug_file.txt")
                except Exception as e:  # noqa: BLE001
                    raise cexec.StageError("record", str(e)) from e
                r["extracted"] = debug.extract_outputs_c(path_to_output=d + "/debug_file.txt", data_type=gen.data_type,
                                                         nb_targets=len(gen.debug_target))
            if m:
                r["python"] = got
            runs[m] = r
    return runs[None], runs[mode]


def unchanged(base, dbg, tags, dt):
    if len(base["c"]) != len(dbg["c"]):
        return violation("results", f"{len(dbg['c'])} rows instead of {len(base['c'])}", tags=tags)
    tol = 1e-5 if dt == np.float32 else 1e-12   # two compilations of the same operations
    for r, (p, q) in enumerate(zip(dbg["c"], base["c"])):
        good, exc, i = oracle.close(p, q, rtol=tol, atol=tol)
        if not good:
            return violation("results", f"row {r} value {i}: off by {exc} in the program with debug mode", tags=tags)
    if base["py"] != dbg["py"]:
        return violation("reference_results", "the reference outputs differ with debug mode", tags=tags)
    return None


def consistent(dbg, tags):
    """The records of the program, of the extraction tool and of the Python reference correspond."""
    rec = dbg["record"]
    names = [f"{n} {i}" for n, i, _ in rec]
    outs, targets = dbg["python"]
    if names != list(targets):
        return violation("record_layers", f"program recorded {names}, reference {list(targets)}", tags=tags)
    if len(set(names)) != len(names):
        return violation("record_twice", f"{names}", tags=tags)
    order = [ly for ly in dbg["layers"] if f"{ly[0]} {ly[1]}" in names]
    if [f"{n} {i}" for n, i in order] != names:
        return violation("record_order", f"{names} recorded while executing {dbg['layers']}", tags=tags)
    rtol, atol = (1e-4, 1e-5) if dbg["dtype"] == "float" else (1e-9, 1e-11)
    for (n, i, v), p in zip(rec, outs, strict=True):
        good, exc, k = oracle.close(v, np.asarray(p), rtol=rtol, atol=atol)
        if not good:
            return violation("record_values", f"layer {n} {i}: value {k} off by {exc} between the program and the reference", tags=tags)
    by_idx = sorted(rec, key=lambda t: t[1])
    vals, tg = dbg["extracted"]
    if list(tg) != [f"{n} {i}" for n, i, _ in by_idx]:
        return violation("extract", f"extracted {list(tg)} of {names}", tags=tags)
    for (n, i, v), e in zip(by_idx, vals, strict=True):
        if np.asarray(e).dtype.kind != "f" or not np.array_equal(np.asarray(e), v.astype(np.float32 if dbg["dtype"] == "float" else np.float64), equal_nan=True):
            return violation("extract", f"layer {n} {i}: extracted values are not the recorded ones", tags=tags)
    return None


def comparison(acetone, reference, targets, rng, tags, scale):
    """compare_result on records that agree, and with single values changed."""
    from acetone_nnet import debug
    atol, rtol = 1e-3 * scale + 1e-4, 1e-3

    def agree(a, b):
        return len(a) == len(b) and all(x.size == y.size and np.all(np.abs(x - y) <= atol + rtol * np.abs(y)) for x, y in zip(a, b))
    good, txt = quiet(debug.compare_result, acetone, reference, targets, True, atol, rtol)
    if not agree(acetone, reference):
        return None         # beyond this tolerance: judged by the other monitors
    if not good:
        return violation("compare_agree", f"agreeing records reported as different: {txt[-300:]}", tags=tags)
    for _ in range(4):
        bad = [np.array(v, dtype=np.float64) for v in acetone]
        hit = sorted({int(k) for k in rng.integers(0, len(bad), int(rng.integers(1, 4)))})
        for k in hit:
            j = int(rng.integers(bad[k].size))
            bad[k][j] = [np.nan, np.inf, reference[k].ravel()[j] + 4 * atol + 4 * rtol * abs(reference[k].ravel()[j])][int(rng.integers(3))]
        res, txt = quiet(debug.compare_result, bad, reference, targets, True, atol, rtol)
        if res:
            return violation("compare_differ", f"layers {hit} differ, reported as equal", tags=tags)
        first = re.findall(r"First error at (.*)", txt)
        if first != [targets[hit[0]]]:
            return violation("compare_first", f"first difference in {targets[hit[0]]}, reported {first}", tags=tags)
        err = re.findall(r"Error: output value of (.*) incorrect", txt)
        if err != [targets[k] for k in hit]:
            return violation("compare_layers", f"layers {[targets[k] for k in hit]} differ, reported {err}", tags=tags)
    k = int(rng.integers(len(acetone)))
    if quiet(debug.compare_result, [v for i, v in enumerate(acetone) if i != k], reference, targets)[0]:
        return violation("compare_missing", "a record with a layer missing is reported as equal", tags=tags)
    return None


def onnx_options(rng, hw):
    kw = C.options(int(rng.integers(1 << 30)))
    kw.pop("optimization", None)
    if hw:
        kw["versions"], kw["gen_data_format"] = dict(hwc.VERSIONS), "channels_last"
    return kw


def run_onnx(p):
    from acetone_nnet import debug
    rng = np.random.default_rng([p["seed"], 17])
    kind = p["kind"]
    try:
        if kind == "double":
            b, m, shape = dag.make(p["seed"], dtype=np.float64, n_ops=(2, 8))
        else:
            b, m, shape = hwc.make(p["seed"]) if kind == "hwc" else dag.make(p["seed"])
        c = C.finish(b, m, shape, p["seed"], rows=int(rng.integers(1, 4)))
    except G.Skip as e:
        return skip(str(e))
    except Exception as e:  # noqa: BLE001
        if kind == "double" and "NOT_IMPLEMENTED" in str(e):
            return skip("onnxruntime has no double-precision kernel")
        raise
    kw = onnx_options(rng, kind == "hwc")
    tags = [*c.tags, *C.opt_tags({k: v for k, v in kw.items() if k != "versions"}), kind]
    before = m.SerializeToString(deterministic=True)
    try:
        base, dbg = both(m, c.xs, kw, "onnx")
    except cexec.StageError as e:
        return C.stage_violation(e, tags=tags)
    bad = unchanged(base, dbg, tags, b.dtype) or consistent(dbg, tags)
    if bad:
        return bad
    # the record against the model: the layers are numbered after the nodes, from 1
    nodes = [nd for nd in m.graph.node if nd.op_type not in UNRECORDED]
    live = {o.name for o in m.graph.output}
    for nd in reversed(m.graph.node):
        if live & set(nd.output):
            live |= set(nd.input)
    want = {i + 1: nd for i, nd in enumerate(nodes) if set(nd.output) & live}
    rec = {i: (n, v) for n, i, v in dbg["record"]}
    if set(rec) != set(want):
        return violation("record_missing", f"layers {sorted(rec)} recorded, the model has {sorted(want)}", tags=tags)
    last = c.inter[-1]
    for i, nd in want.items():
        good, exc, k = oracle.close(rec[i][1], last[nd.output[0]], rtol=1e-3, atol=1e-4)
        if not good:
            return violation("record_model", f"layer {rec[i][0]} {i} ({nd.op_type}): value {k} off by {exc}", tags=tags)
    # the tools
    x = c.xs[-1]
    with C.scratch() as d:
        as_file = rng.random() < .5
        src = m
        if as_file:
            src = os.path.join(d, "m.onnx")
            onnx.save(m, src)
        save = bool(rng.random() < .5)
        _, _, ref = debug.debug_onnx(src, x, to_save=save, path=os.path.join(d, "debug.onnx"), optimize_inputs=bool(rng.random() < .5))
        if save and not os.path.exists(os.path.join(d, "debug.onnx")):
            return violation("debug_model", "the model was not saved", tags=tags)
    if m.SerializeToString(deterministic=True) != before:
        return violation("model_modified", "the caller's model was modified", tags=tags)
    idx = sorted(want)
    if len(ref) != len(idx):
        return violation("debug_onnx", f"{len(ref)} reference outputs for {len(idx)} layers", tags=tags)
    for i, r in zip(idx, ref):
        if not oracle.close(r, last[want[i].output[0]], rtol=1e-3, atol=1e-4)[0]:
            return violation("debug_onnx", f"reference output of layer {i} ({want[i].op_type}) is not its value", tags=tags)
    acetone, targets = dbg["extracted"]
    scale = max(float(np.abs(r).max(initial=0)) for r in ref)
    bad = comparison([np.asarray(a, np.float64) for a in acetone], ref, targets, rng, tags, scale)
    if bad:
        return bad
    chosen = sorted(int(i) for i in rng.choice(idx, min(len(idx), int(rng.integers(1, 4))), replace=False))
    names = [want[i].output[0] for i in chosen]
    _, ti, tr = debug.debug_onnx(m, x, debug_target=[names[i] for i in rng.permutation(len(names))])
    if sorted(ti) != chosen or len(tr) != len(chosen) or not all(
            oracle.close(tr[ti.index(i)], last[n], rtol=1e-3, atol=1e-4)[0] for i, n in zip(chosen, names)):
        return violation("debug_target", f"targets {chosen}: indices {ti}, {len(tr)} outputs", tags=tags)
    vals, tg = debug.extract_outputs_python(dbg["python"], ti)
    if [int(t.split()[1]) for t in tg] != chosen or not all(
            np.array_equal(v, dbg["python"][0][dbg["python"][1].index(t)]) for v, t in zip(vals, tg)):
        return violation("extract_python", f"targets {chosen}: extracted {tg}", tags=tags)
    return ok(tags=tags, digest=C.digest(m, sorted(kw.items(), key=str)), nontrivial=len(rec) > 2,
              count={"layers_recorded": len(rec), "values_recorded": int(sum(v.size for _, v in rec.values())), "rows": len(c.xs),
                     "comparisons": 6}, sample={"layers": [f"{n} {i}" for n, i, _ in dbg["record"]]})


def run_optimised(p):
    """With fusions, a layer is recorded with a value of the model, and the last one with its output."""
    rng = np.random.default_rng([p["seed"], 18])
    try:
        b, m, shape = fuse.make(p["seed"]) if rng.random() < .6 else dag.make(p["seed"])
        c = C.finish(b, m, shape, p["seed"], rows=2)
    except G.Skip as e:
        return skip(str(e))
    kw = onnx_options(rng, False)
    kw["optimization"] = True
    tags = [*c.tags, "optimised"]
    try:
        base, dbg = both(m, c.xs, kw, "onnx")
    except cexec.StageError as e:
        return C.stage_violation(e, tags=tags)
    return unchanged(base, dbg, tags, b.dtype) or consistent(dbg, tags) or of_the_model(
        dbg, [np.asarray(v) for v in c.inter[-1].values()], c.ref[-1], tags, C.digest(m, "opt", sorted(kw.items(), key=str)))


def of_the_model(dbg, tensors, out, tags, digest):
    for n, i, v in dbg["record"]:
        if not any(t.size == v.size and oracle.close(v, t, rtol=1e-3, atol=1e-4)[0] for t in tensors):
            return violation("record_model", f"layer {n} {i}: the recorded values are no tensor of the model", tags=tags)
    if not dbg["record"] or not oracle.close(dbg["record"][-1][2], out, rtol=1e-3, atol=1e-4)[0]:
        return violation("record_last", "the last record is not the output of the model", tags=tags)
    return ok(tags=tags, digest=digest, nontrivial=len(dbg["record"]) > 2,
              count={"layers_recorded": len(dbg["record"]), "values_recorded": int(sum(v.size for _, _, v in dbg["record"]))},
              sample={"layers": [f"{n} {i}" for n, i, _ in dbg["record"]]})


def expected(net, x, mode):
    """[(values in the model's layout, may be left out)] in the order of the layers."""
    vs = nets.values(net, x)
    out = []
    import copy
    for i, nd in enumerate(net.nodes[1:], 1):
        def lay(v):
            return (np.transpose(v, (1, 2, 0)) if v.ndim == 3 and net.channels_last else v).ravel()
        if nd.get("act") == "softmax" and mode != "keras":
            lin = copy.copy(net)
            lin.nodes = [*net.nodes[:i], {**nd, "act": "linear"}]
            out.append((lay(nets.values(lin, x)[i]), False))
        out.append((lay(vs[i]), nd["op"] in ("dropout", "flatten")))
    return out


def align(rec, want):
    """Every record is the next expected tensor, some of which may be left out."""
    k = 0
    for n, i, v in rec:
        while k < len(want) and not (want[k][0].size == v.size and oracle.close(v, want[k][0], rtol=1e-3, atol=1e-4)[0]):
            if not want[k][1]:
                return f"layer {n} {i} does not hold the values of tensor {k}"
            k += 1
        if k == len(want):
            return f"layer {n} {i}: no such tensor"
        k += 1
    if any(not o for _, o in want[k:]):
        return f"only {len(rec)} layers recorded"
    return None


def run_net(p):
    """JSON, NNET and PyTorch networks."""
    fmt = p["kind"]
    rng = np.random.default_rng([p["seed"], 19])
    dt = np.float64 if fmt == "json" and rng.random() < .2 else np.float32
    cl = fmt in ("json", "torch") and rng.random() < .5
    net = nets.make(p["seed"], fmt, dt, cl)
    if net is None:
        return skip("no network")
    xs = C.inputs(p["seed"], net.shape(0), int(rng.integers(1, 3)), dt)
    if any(not np.isfinite(v).all() or np.abs(v).max(initial=0) > 1e3 for x in xs for v in nets.values(net, x)):
        return skip("magnitude")
    mode = str(rng.choice(["keras", "onnx"]))
    tags = [*nets.tags(net), fmt, f"mode:{mode}", *(["channels_last"] if cl else []), f"type:{np.dtype(dt)}"]
    kw = {}
    if rng.random() < .3:
        kw["versions"] = {"Conv2D": str(rng.choice(C.CONV_VERSIONS))}
    with C.scratch() as d:
        if fmt == "json":
            model = nets.to_json(net, d + "/net.json", rng)
        elif fmt == "nnet":
            model = nets.to_nnet(net, d + "/net.nnet")
        else:
            try:
                _, model = nets.export(net)
            except Exception as e:  # noqa: BLE001
                return skip(f"torch {e}")
        hwc = cl and not (fmt == "torch" and net.shape(0)[1] == 1)      # the layout of a single-channel image says nothing
        rows = [np.transpose(x, (0, 2, 3, 1)) if hwc and x.ndim == 4 else x for x in xs]
        try:
            base, dbg = both(model, rows, kw, mode)
        except cexec.StageError as e:
            return C.stage_violation(e, tags=tags)
    bad = unchanged(base, dbg, tags, dt) or consistent(dbg, tags)
    if bad:
        return bad
    dig = C.digest(nets.to_onnx(net, 18), fmt, mode, sorted(kw.items(), key=str))
    if fmt == "torch":
        def lay(v):
            return (np.transpose(v, (1, 2, 0)) if v.ndim == 3 and hwc else v).ravel()
        vs = [lay(v) for v in nets.values(net, xs[-1])]
        for i, nd in enumerate(net.nodes):      # activations are layers of their own
            if nd.get("act", "linear") != "linear":
                import copy
                lin = copy.copy(net)
                lin.nodes = [*net.nodes[:i], {**nd, "act": "linear"}]
                vs.append(lay(nets.values(lin, xs[-1])[i]))
        return of_the_model(dbg, vs, vs[len(net.nodes) - 1], tags, dig)
    msg = align(sorted(dbg["record"], key=lambda r: r[1]), expected(net, xs[-1], mode))
    if msg:
        return violation("record_model", msg, tags=tags)
    return ok(tags=tags, digest=dig, nontrivial=len(dbg["record"]) > 2,
              count={"layers_recorded": len(dbg["record"]), "values_recorded": int(sum(v.size for _, _, v in dbg["record"]))},
              sample={"layers": [f"{n} {i}" for n, i, _ in dbg["record"]]})


def run_time(p):
    """The time mode, with stand-ins for the target's counters: every layer timed once, in order, nothing else changed."""
    rng = np.random.default_rng([p["seed"], 20])
    try:
        b, m, shape = dag.make(p["seed"])
        c = C.finish(b, m, shape, p["seed"], rows=1)
    except G.Skip as e:
        return skip(str(e))
    kw = onnx_options(rng, False)
    kw.pop("bin_dataset", None)
    if rng.random() < .4:
        kw["optimization"] = True
    tags = [*c.tags, "time"]
    try:
        base, dbg = both(m, c.xs, kw, "time", stubs=True)
    except cexec.StageError as e:
        return C.stage_violation(e, tags=tags)
    bad = unchanged(base, dbg, tags, b.dtype)
    if bad:
        return bad
    got = [(n, int(i), int(t)) for n, i, t in re.findall(r"^time (\S+) (\d+): (\d+)$", dbg["stdout"], re.M)]
    if [(n, i) for n, i, _ in got] != dbg["layers"]:
        return violation("time_layers", f"timed {[g[:2] for g in got]}, executed {dbg['layers']}", tags=tags)
    out = re.findall(r"^time output: (\d+)$", dbg["stdout"], re.M)
    total = re.findall(r"^time total time: (\d+)$", dbg["stdout"], re.M)
    if len(out) != 1 or len(total) != 1 or int(total[0]) != sum(g[2] for g in got) + int(out[0]):
        return violation("time_total", f"total {total}, layers {[g[2] for g in got]}, output {out}", tags=tags)
    return ok(tags=tags, digest=C.digest(m, "time", sorted(kw.items(), key=str)), nontrivial=len(got) > 2,
              count={"layers_timed": len(got)}, sample={"layers": len(got)})


def run_tools(p):
    """Extraction, reordering and comparison on synthetic records."""
    from acetone_nnet import debug
    rng = np.random.default_rng([p["seed"], 21])
    n = int(rng.integers(1, 40))
    idx = [int(i) for i in rng.permutation(int(rng.integers(n, 3 * n + 1)))[:n]]
    dt = str(rng.choice(["float", "double", "int"]))
    recs, text = [], ""
    for i in idx:
        name = str(rng.choice(["Conv2D", "Add", "Softmax", "Dense", "Clip_2"]))
        c, h, w = (int(v) for v in rng.integers(1, 4, 3))
        img = rng.random() < .5
        if dt == "int":
            v = rng.integers(-1000, 1000, c * h * w)
        else:
            v = (rng.standard_normal(c * h * w) * 10.0 ** rng.integers(-30, 30)).astype(np.float32 if dt == "float" else np.float64)
        text += f"{name} {i} {int(img)} " + (f"{c} {h} {w}" if img else "  ") + "\n"
        text += " ".join(f"{int(t)}" if dt == "int" else "%.17g" % t for t in v) + " \n"
        recs.append((i, f"{name} {i}", v.reshape(c, h, w).transpose(1, 2, 0).ravel() if img else v))
    tags = ["tools", f"type:{dt}"]
    nb = n if rng.random() < .7 else int(rng.integers(1, n + 1))
    with C.scratch() as d:
        with open(d + "/debug_file.txt", "w") as f:
            f.write(text)
        vals, tg = debug.extract_outputs_c(d + "/debug_file.txt", dt, nb)
    want = sorted(recs[:nb], key=lambda r: r[0])
    if list(tg) != [t for _, t, _ in want]:
        return violation("extract", f"{list(tg)} extracted of {[t for _, t, _ in recs[:nb]]}", tags=tags)
    for (_, t, v), e in zip(want, vals, strict=True):
        if np.asarray(e).tolist() != v.tolist():
            return violation("extract", f"{t}: values are not the recorded ones", tags=tags)
    outs, tg2 = debug.reorder_outputs([v for _, _, v in recs], [t for _, t, _ in recs])
    full = sorted(recs, key=lambda r: r[0])
    if list(tg2) != [t for _, t, _ in full] or any(a.tolist() != v.tolist() for a, (_, _, v) in zip(outs, full, strict=True)):
        return violation("reorder", "records and names do not correspond after reordering", tags=tags)
    some = sorted(int(i) for i in rng.choice(idx, int(rng.integers(1, n + 1)), replace=False))
    vals, tg3 = debug.extract_outputs_python(([v for _, _, v in recs], [t for _, t, _ in recs]), some)
    if [int(t.split()[1]) for t in tg3] != some:
        return violation("extract_python", f"targets {some}: extracted {tg3}", tags=tags)
    ref = [np.asarray(v, np.float64) for _, _, v in full]
    bad = comparison(ref, ref, [t for _, t, _ in full], rng, tags, 0) if dt != "int" else None
    if bad:
        return bad
    return ok(tags=tags, digest=f"tools{p['seed']}{n}{dt}", count={"synthetic_layers": n, "comparisons": 5}, sample={"layers": n, "type": dt})


def kinds(names):
    def gen(i):
        return {"seed": seeds("P17")(i)["seed"], "kind": names[i % len(names)]}
    return gen


check = Check("P17", [Family("onnx", kinds(["dag", "dag", "hwc", "double"]), run_onnx, 150, 900),
                      Family("optimised", seeds("P17opt"), run_optimised, 60, 300),
                      Family("nets", kinds(["json", "torch", "nnet", "json"]), run_net, 160, 900),
                      Family("time", seeds("P17time"), run_time, 20, 200),
                      Family("tools", seeds("P17tools"), run_tools, 400, 4000)],
              rule="each layer's record written by a debug-mode program and by its Python reference against the model's own intermediate "
                   "tensors; results with and without debug mode; the comparison tools on agreeing and on altered records",
              require={"hwc": 5, "double": 3, "json": 5, "torch": 3, "nnet": 3, "channels_last": 10, "time": 5, "mode:keras": 5},
              min_evals=200, assumptions=["the counters of the time mode are stand-ins: only their use is judged"])
if __name__ == "__main__":
    sys.exit(check.main())
