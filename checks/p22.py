"""P22: the shared library runs batches, and saves and replaces the parameters, faithfully."""
import _pre  # noqa: F401
import json
import os
import re
import sys
import types

import numpy as np
import p10
import p15
from onnx import numpy_helper
from acv import cases as C, cexec, hwc, onnxgen as G, oneop, oracle
from acv.runner import Check, Family, ok, seeds, skip, violation

ASAN = {"ASAN_OPTIONS": "detect_leaks=0:exitcode=77"}
DRIVE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "acv", "sodrive.py")
# parameters read by value when the code is generated, or which the training interface does not hold
BY_VALUE = ("Clip", "Pad", "Resize", "Gather", "GatherElements", "Reshape", "Tile", "ReduceSum", "ReduceMax", "ReduceMin", "ReduceMean",
            "ReduceProd", "BatchNormalization")


class Lib:
    """A built library: its program's outputs, the arrays it was built with, and the parameters it exchanges."""

    def __init__(self, d, model, data, kw, mode):
        os.makedirs(d)
        self.mode = mode
        if mode != "serial":
            flag = {"openmp": "-fopenmp", "asan": "-fsanitize=address"}[mode]
            kw = {**kw, "makefile_properties": {"compiler_flags": ["-g", "-w", flag], "linker_flags": ["-lm", flag]}}
        self.d = d
        self.gen = cexec.build_generator(model, data, **kw)
        cexec.generate(self.gen, d)
        cexec.make(d)
        cexec.run_binary(d, extra_env=ASAN)
        self.itemsize = data.dtype.itemsize
        self.prog = [r.astype(data.dtype) for r in cexec.parse_output(d + "/output_c.txt")]
        self.arrays = {n: v[2] for n, v in p10.dumped(d, [flag] if mode == "asan" else []).items()}
        t = open(os.path.join(d, "train_hook.c")).read()
        sig = re.search(r"\bcopy_weights\s*\(([^)]*)\)", t).group(1)
        # each parameter is called after the array it replaces
        args = [re.findall(r"\w+", a)[-1] for a in sig.split(",") if a.strip() not in ("", "void")]
        self.names = [max((n for n in self.arrays if a.endswith(n)), key=len, default=a) for a in args]
        self.held = b"".join(self.arrays.get(n, b"") for n in self.names)
        self.sizes = [len(self.arrays.get(n, b"")) for n in self.names]

    def drive(self, steps):
        plan, res = os.path.join(self.d, "plan.json"), os.path.join(self.d, "result.json")
        with open(plan, "w") as f:
            json.dump({"lib": os.path.join(self.d, "inference.so"), "out_bytes": self.prog[0].size * self.itemsize if self.prog else 0,
                       "exact": self.mode == "asan", "steps": steps}, f)
        env = {}
        if self.mode == "asan":
            env = {**ASAN, "LD_PRELOAD": cexec.sh(["gcc", "-print-file-name=libasan.so"], cwd=self.d)[1].strip()}
        rc, so, se = cexec.sh([sys.executable, "-I", "-S", DRIVE, plan, res], cwd=self.d, timeout=60, extra_env=env)
        if rc:
            done = len(json.load(open(res))) if os.path.exists(res) else 0
            what = steps[done]["op"] if done < len(steps) else "end"
            raise cexec.StageError("run", f"ERROR: library: status {rc} at step {done} ({what}) {se[-600:]}")
        return json.load(open(res))


def fresh_parameters(m, rng):
    """The model with other weights, biases and constants."""
    n = type(m)()
    n.CopyFrom(m)
    keep = {i for nd in n.graph.node if nd.op_type in BY_VALUE for i in nd.input[1:]}
    # constants of elementwise operators are no weights of the interface
    keep |= {i for nd in n.graph.node if nd.op_type not in ("Conv", "Gemm", "MatMul") for i in nd.input}
    done = 0
    for t in n.graph.initializer:
        a = numpy_helper.to_array(t)
        if a.dtype.kind != "f" or t.name in keep or a.size == 0:
            continue
        t.CopyFrom(numpy_helper.from_array((a * rng.uniform(.5, 1.5, a.shape) + .05 * rng.standard_normal(a.shape)).astype(a.dtype), t.name))
        done += 1
    return n, done


def judge(case, kw, other=None):
    """case: model, data, expected rows; other: model and its expected rows, whose parameters the library is to be given."""
    rng = np.random.default_rng([case.seed, 220])
    data, tags = case.data, list(case.tags)
    mode = str(rng.choice(["serial", "openmp", "openmp", "asan"]))
    binary = bool(rng.random() < .7)
    kw = {**kw, **({"bin_dataset": True} if binary else {})}
    tags += ["binary" if binary else "text", mode]
    with C.scratch() as d:
        try:
            a = Lib(d + "/a", case.model, data, kw, mode)
            flat = data.reshape(len(data), -1)
            steps = []

            def batch(n):
                idx = rng.integers(0, len(data), n)
                steps.append({"op": "batch", "n": int(n), "rows": np.ascontiguousarray(flat[idx]).tobytes().hex()})
                return idx
            ns = [1, *(int(v) for v in rng.choice([0, 2, 5, 31, 32, 33, 63, 64, 65, 96, 100], 3, replace=False))]
            ids = [batch(n) for n in ns]
            steps.append({"op": "save", "path": a.d + "/one.dat"})
            b, given = None, None
            if binary:
                if other is not None:
                    b = Lib(d + "/b", other.model, data, kw, mode)
                    if b.names != a.names or b.sizes != a.sizes:
                        b = None    # the other values have changed the program (e.g. what an optimisation sees)
                given = b.held if b else (rng.standard_normal(len(a.held) // a.itemsize) * .5).astype(data.dtype).tobytes()
                steps.append({"op": "copy", "bytes": given.hex(), "sizes": a.sizes})
                steps.append({"op": "save", "path": a.d + "/two.dat"})
                ids.append(batch(34))
                steps.append({"op": "copy", "bytes": a.held.hex(), "sizes": a.sizes})
                ids.append(batch(3))
                steps.append({"op": "save", "path": a.d + "/three.dat"})
            res = a.drive(steps)
        except cexec.StageError as e:
            v = C.stage_violation(e, tags=tags)
            if "ERROR: library" in e.detail:
                v["kind"] = "library"
            return v
        bad = C.compare("program", a.prog, case.ref, tags=tags)
        if bad:
            return bad
        lost = [n for n in a.arrays if n.startswith(("weights_", "biases_")) and a.arrays[n] and n not in a.names]
        if lost or len(set(a.names)) != len(a.names):
            return violation("interface", f"the interface holds {a.names}, not {lost}", tags=tags)
        runs = [r for r in res if r["op"] == "batch"]
        state = [a] * len(ns) + ([b, a] if binary else [])
        rows = 0
        for r, idx, lib in zip(runs, ids, state):
            if not r["around"] or not r["input"]:
                return violation("outside", "batch_loop changed its inputs or wrote around the predictions", tags=tags)
            if lib is None:
                continue
            got = np.frombuffer(bytes.fromhex(r["out"]), data.dtype).reshape(len(idx), lib.prog[0].size)
            for k, i in enumerate(idx):
                if got[k].tobytes() != lib.prog[i].tobytes():
                    j = int(np.argmax(got[k] != lib.prog[i]))
                    return violation("batch" if lib is a else "replaced", f"batch of {len(idx)}, row {k}: value {j} is {got[k][j]!r}, "
                                     f"the program gives {lib.prog[i][j]!r}", tags=tags)
            rows += len(idx)
        if b is not None:
            bad = C.compare("replaced_vs_model", b.prog, other.ref, tags=tags)
            if bad:
                return bad
        want = [a.held] + ([given, a.held] if binary else [])
        for k, (r, w) in enumerate(zip([r for r in res if r["op"] == "save"], want)):
            raw = bytes.fromhex(r["bytes"])
            if raw != w or r["returned"] != len(w):
                i = next((i for i, (x, y) in enumerate(zip(raw, w)) if x != y), min(len(raw), len(w)))
                return violation("saved", f"save {k}: {len(raw)} bytes, {r['returned']} announced, {len(w)} expected; first difference at {i}", tags=tags)
        if not all(r["given"] for r in res if r["op"] == "copy"):
            return violation("given", "copy_weights changed the parameters it was given", tags=tags)
    return ok(tags=tags, digest=C.digest(case.key, binary, mode, sorted(kw.items(), key=str)), nontrivial=bool(a.held),
              count={"library_rows": rows, "parameter_bytes": len(a.held), "replacements": int(binary and bool(a.held)),
                     "replaced_by_models": int(b is not None and b.held != a.held), "openmp_libraries": int(mode == "openmp"), "asan_libraries": int(mode == "asan"), "text_libraries": int(not binary)},
              sample={"arrays": dict(zip(a.names, a.sizes)), "batches": ns})


def options(seed):
    kw = C.options(seed)
    for k in ("bin_dataset", "to_hex", "verbose"):
        kw.pop(k, None)
    return kw


def run_onnx(p):
    try:
        if p["op"] == "dag":
            c = C.dag_case(p["seed"], rows=4, n_ops=(2, 9), maxsize=400)
            kw = options(p["seed"])
        elif p["op"] == "hwc":
            b, m, shape = hwc.make(p["seed"])
            for j in range(60):     # half of them with a convolution by Winograd's tiles, whose weights are transformed
                if p["seed"] & 1 or {"conv_3x3s1", "h_even", "w_even"} <= set(b.tags):
                    break
                try:
                    b, m, shape = hwc.make(p["seed"] * 64 + j)
                except G.Skip:
                    pass
            c = C.finish(b, m, shape, p["seed"], rows=4)
            kw = {"versions": hwc.VERSIONS, "gen_data_format": "channels_last"}
        else:
            c = oneop.case(p["op"], p["seed"], rows=4)
            kw = options(p["seed"])
        m2, n = fresh_parameters(c.model, np.random.default_rng([p["seed"], 221]))
        other = None
        if n:
            b2 = types.SimpleNamespace(tags=[], dtype=c.b.dtype)
            try:
                other = C.finish(b2, m2, c.shape, c.seed, rows=4)
            except G.Skip:
                other = None
    except G.Skip as e:
        return skip(str(e))
    data = np.stack(c.xs)
    case = types.SimpleNamespace(seed=p["seed"], model=c.model, key=c.model, data=data, ref=c.ref, tags=c.tags)
    return judge(case, kw, other)


def run_nnet(p):
    rng = np.random.default_rng([p["seed"], 222])
    normalise = bool(rng.random() < .6)
    t, sizes = p15.text(rng)
    xs, _ = p15.rows(rng, t, sizes[0], 4, normalise)
    ref = [p15.interpret(t, x, normalise) for x in xs]
    for x, r in zip(xs, ref):
        y = p15.interpret(t, x.astype(np.float64) * (1 + 1e-6 * rng.standard_normal(x.size)), normalise)
        if not oracle.close(y, r, rtol=3e-5, atol=1e-6)[0] or np.abs(r).max() > 1e6:
            return skip("ill-conditioned")
    with C.scratch() as d:
        path = os.path.join(d, "net.nnet")
        with open(path, "w") as f:
            f.write(t)
        case = types.SimpleNamespace(seed=p["seed"], model=path, key=t, data=np.stack(xs), ref=ref,
                                     tags=["nnet", "normalised" if normalise else "plain"])
        return judge(case, {"normalize": normalise})


def run_torch(p):
    """Programs of PyTorch given the state of another network as its documentation does: transposed, in the order of the state."""
    import torch
    rng = np.random.default_rng([p["seed"], 223])
    torch.manual_seed(p["seed"] % 2 ** 31)
    dt = torch.float64 if rng.random() < .25 else torch.float32
    sizes = [int(v) for v in rng.integers(1, 12, int(rng.integers(2, 6)))]
    if rng.random() < .2:
        sizes = [int(v) for v in rng.integers(60, 110, int(rng.integers(2, 4)))]
    acts = [torch.nn.ReLU, torch.nn.ReLU, torch.nn.ReLU, torch.nn.Identity]

    kinds = rng.integers(0, len(acts), len(sizes))

    def net():
        mods = []
        for i, (a, b) in enumerate(zip(sizes[:-1], sizes[1:])):
            mods.append(torch.nn.Linear(a, b))
            if i < len(sizes) - 2:
                mods.append(acts[kinds[i]]())
        return torch.nn.Sequential(*mods).to(dt)
    na, nb = net(), net()
    npdt = np.float64 if dt == torch.float64 else np.float32
    xs = rng.standard_normal((4, sizes[0])).astype(npdt)
    with torch.no_grad(), C.scratch() as d:
        ref = [[n(torch.from_numpy(x)).numpy() for x in xs] for n in (na, nb)]
        prog = torch.export.export(na, (torch.from_numpy(xs[0]),))
        tags = ["torch", str(np.dtype(npdt)), f"layers:{len(sizes) - 1}"]
        state = [[v.numpy().T.copy("C") for v in n.state_dict().values()] for n in (na, nb)]
        try:
            a = Lib(d + "/a", prog, xs, {"bin_dataset": True}, str(rng.choice(["serial", "openmp", "asan"])))
            steps = [{"op": "save", "path": a.d + "/one.dat"}]
            for s in (state[1], state[0]):
                raw = b"".join(v.tobytes() for v in s)
                steps += [{"op": "copy", "bytes": raw.hex(), "sizes": [v.nbytes for v in s]}, {"op": "save", "path": a.d + "/n.dat"},
                          {"op": "batch", "n": 4, "rows": xs.tobytes().hex()}]
            if len(a.names) != len(state[0]):
                return violation("interface", f"{len(a.names)} arrays for {len(state[0])} parameters", tags=tags)
            res = a.drive(steps)
        except cexec.StageError as e:
            return C.stage_violation(e, tags=tags)
    for r, s in zip([r for r in res if r["op"] == "save"], (state[0], state[1], state[0])):
        raw = b"".join(v.tobytes() for v in s)
        if bytes.fromhex(r["bytes"]) != raw or r["returned"] != len(raw):
            return violation("saved", f"{r['returned']} bytes saved of {len(raw)}, not those of the state", tags=tags)
    bad = C.compare("program", a.prog, ref[0], tags=tags)
    for r, w in zip([r for r in res if r["op"] == "batch"], (ref[1], ref[0])):
        bad = bad or C.compare("replaced_vs_model", list(np.frombuffer(bytes.fromhex(r["out"]), npdt).reshape(4, -1)), w, tags=tags)
        if not r["around"] or not r["input"]:
            bad = bad or violation("outside", "batch_loop changed its inputs or wrote around the predictions", tags=tags)
    if bad:
        return bad
    return ok(tags=tags, digest=C.digest(repr(state[0]), repr(state[1])),
              count={"library_rows": 8, "replacements": 2, "replaced_by_models": 1, "parameter_bytes": sum(a.sizes)}, sample={"sizes": sizes})


OPS = ["conv", "gemm", "matmul_const", "bn", "pool", "softmax", "concat", "binary", "matmul_dyn", "nary"]


def gen_onnx(i):
    ops = [o for o in OPS if o in oneop.OPS]
    return {"op": (["dag"] * 6 + ["hwc"] * 5 + ops)[i % (11 + len(ops))], **seeds("P22onnx")(i)}


if __name__ == "__main__":
    sys.exit(Check("P22", [
        Family("onnx", gen_onnx, run_onnx, 300, 3000),
        Family("nnet", seeds("P22nnet"), run_nnet, 40, 400),
        Family("torch", seeds("P22torch"), run_torch, 40, 400),
    ], rule="the shared library of each program, loaded in a process of its own: batches of 0 to 100 rows between guard zones (or under AddressSanitizer) give the bits of "
            "the program; saved parameters are the bytes of the built arrays; given those of another model it gives that model's results, and "
            "the original ones restore everything; non-trivial: the library holds parameters",
       min_evals=120, require={"library_rows": 10000, "replacements": 80, "replaced_by_models": 50, "openmp_libraries": 60, "text_libraries": 40, "asan_libraries": 30}).main())
