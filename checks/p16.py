"""P16: quantised targets compute the fixed-point model, in Python and in C."""
import _pre  # noqa: F401
import hashlib
import json
import os
import pathlib
import sys

import numpy as np
from acv import cases as C, cexec, driver
from acv.runner import Check, Family, ok, seeds, skip, violation

TYPES = {
    "short": dict(dtype="short", temp_dtype="int", pydtype="int16", temp_pydtype="int32"),
    "char": dict(dtype="signed char", temp_dtype="int", pydtype="int8", temp_pydtype="int32"),
    "char16": dict(dtype="signed char", temp_dtype="short", pydtype="int8", temp_pydtype="int16"),
    "int": dict(dtype="int", temp_dtype="long long", pydtype="int32", temp_pydtype="int64"),
}


class Net:
    """A float model, its fixed-point formats, and its evaluation with integers of any size.

    Every value has a rank-4 shape, a number m of fractional bits and, for each row, the integers it must hold.
    """

    def __init__(self, seed, types):
        self.rng = np.random.default_rng([seed, 16])
        self.types = types
        self.bits = np.iinfo(types["pydtype"]).bits
        self.tbits = np.iinfo(types["temp_pydtype"]).bits
        self.nodes, self.inits, self.layers, self.tags = [], [], {}, []
        self.n = 0
        self.vals, self.m, self.flt, self.index, self.how = {}, {}, {}, {}, {}

    def q(self, m):
        return f"Q{self.bits - 1 - m}.{m}"

    def new(self, kind):
        self.n += 1
        return f"{kind}{self.n}"

    def fits(self, v, bits=None):
        b = (bits or self.bits) - 1
        return v.size == 0 or (v.min() >= -(1 << b) and v.max() < (1 << b))

    def constant(self, w, m):
        """A constant in float32 whose format has m fractional bits; its integer form."""
        w = w.astype(np.float32)
        i = np.rint(w * np.float32(2.0 ** m)).astype(np.int64)
        if not self.fits(i):
            return None
        name = self.new("W")
        self.inits.append((name, w))
        self.layers[name] = {"out": self.q(m)}
        return name, i, w

    def const_m(self, w):
        """As many fractional bits as the values leave, sometimes fewer."""
        peak = float(np.abs(w).max()) or 1.
        m = int(np.floor(np.log2((2 ** (self.bits - 1) - 1) / peak)))
        m -= int(self.rng.integers(0, 3)) if self.rng.random() < .5 else 0
        while m >= 0 and np.rint(peak * 2.0 ** m) > 2 ** (self.bits - 1) - 1:
            m -= 1
        return m

    def put(self, op, ins, val, flt, m, attrs=None, tag=None, name=None, g=None):
        name = name or self.new(op)
        out = name + "_o"
        self.nodes.append((op, name, ins, out, attrs or {}))
        self.vals[out], self.m[out], self.flt[out] = val, m, flt
        self.how[out] = g
        self.tags.append(tag or op)
        return out

    def matmul(self, x, other=None, right=True):
        a = self.vals[x]
        rows, c, h, w = a.shape
        rng = self.rng
        if other is None:
            k = int(rng.integers(1, 12))
            ch = 1 if c == 1 or rng.random() < .5 else c
            shape = (ch, w, k) if right else (ch, k, h)
            wt = rng.standard_normal(shape) * float(rng.choice([.05, .5, 1., 3.]))
            if rng.random() < .2:
                wt[rng.random(shape) < .4] = 0
            if rng.random() < .15:
                wt = np.rint(wt * 4) / 4
            m = self.const_m(wt)
            if m < 0:
                return None
            wt = wt[0] if ch == 1 and rng.random() < .7 else wt[None] if rng.random() < .5 else wt
            r = self.constant(wt, m)
            if r is None:
                return None
            name, b, bf = r
            pm = m
        else:
            name, b, bf = other, self.vals[other], self.flt[other]
            pm = self.m[other]
            right = True
        if right:
            prod, flt, ins = np.matmul(a, b), np.matmul(self.flt[x], bf.astype(np.float64)), [x, name]
            bound = np.matmul(np.abs(a).astype(float), np.abs(b).astype(float))  # (in 64 bits it could wrap)
        else:
            prod, flt, ins = np.matmul(b, a), np.matmul(bf.astype(np.float64), self.flt[x]), [name, x]
            bound = np.matmul(np.abs(b).astype(float), np.abs(a).astype(float))
        if bound.max(initial=0) > .999 * 2. ** (self.tbits - 1) or prod[0].size > 400:
            return None
        shift = 0
        while not self.fits(prod >> shift):
            shift += 1
        shift += int(rng.integers(0, 3)) if rng.random() < .6 else 0
        total = self.m[x] + pm
        mout = total - shift
        if mout < 0:
            return None
        node = self.new("MatMul")
        self.layers[node] = {"in": self.q(self.m[x]), "params": self.q(pm), "out": self.q(mout)}
        return self.put("MatMul", ins, prod >> shift, flt, mout, name=node,
                        tag=f"matmul:{'two' if other else 'right' if right else 'left'}:{'shift' if shift else 'exact'}")

    def add(self, x, other=None):
        a, m = self.vals[x], self.m[x]
        rng = self.rng
        if other is None:
            shape = [1 if rng.random() < .3 else d for d in a.shape[1:]]
            bound = (2 ** (self.bits - 1) - 1 - int(np.abs(a).max())) / 2.0 ** m
            wt = rng.uniform(-1, 1, shape) * bound * float(rng.choice([.02, .3, .95]))
            r = self.constant(wt, m)
            if r is None:
                return None
            name, b, bf = r
        else:
            name, b, bf = other, self.vals[other], self.flt[other]
        v = a + b
        if not self.fits(v):
            return None
        node = self.new("Add")
        self.layers[node] = {"in": self.q(m), "params": self.q(m), "out": self.q(m)}
        ins = [x, name] if other is not None or rng.random() < .6 else [name, x]
        return self.put("Add", ins, v, self.flt[x] + bf, m, name=node, tag=f"add:{'two' if other else 'constant'}")

    def relu(self, x):
        return self.put("Relu", [x], np.maximum(self.vals[x], 0), np.maximum(self.flt[x], 0), self.m[x])

    def move(self, x, op):
        """Layers which only move values."""
        a, f, rng = self.vals[x], self.flt[x], self.rng
        rows, c, h, w = a.shape
        if op == "Transpose":
            p = [0, *(int(v) + 1 for v in rng.permutation(3))]
            return self.put(op, [x], a.transpose(p), f.transpose(p), self.m[x], {"perm": p})
        if op == "Concat":
            others = [y for y in self.vals if self.m[y] == self.m[x]]
            axis = int(rng.integers(1, 4))
            fit = [y for y in others if all(self.vals[y].shape[i] == a.shape[i] for i in (0, 1, 2, 3) if i != axis)]
            y = fit[int(rng.integers(len(fit)))]
            return self.put(op, [x, y], np.concatenate([a, self.vals[y]], axis), np.concatenate([f, self.flt[y]], axis), self.m[x], {"axis": axis})
        if op == "MaxPool":
            if h < 2 or w < 2:
                return None
            v = np.lib.stride_tricks.sliding_window_view(a, (2, 2), (2, 3)).max((-1, -2))
            g = np.lib.stride_tricks.sliding_window_view(f, (2, 2), (2, 3)).max((-1, -2))
            return self.put(op, [x], v, g, self.m[x], {"kernel_shape": [2, 2]})
        if op == "Flatten":
            return self.put("Flatten", [x], a.reshape(rows, 1, 1, -1), f.reshape(rows, 1, 1, -1), self.m[x], {"axis": 1})
        if op in ("Gather", "GatherElements", "Pad", "Tile", "Resize"):
            axis = int(rng.integers(1, 4))
            nm = self.new("I")
            match op:
                case "Gather":
                    i = rng.integers(-a.shape[axis], a.shape[axis], int(rng.integers(1, 4)))
                    g, at = (lambda t: t.take(i, axis)), {"axis": axis}
                case "GatherElements":
                    sh = list(a.shape)
                    sh[0], sh[axis] = 1, int(rng.integers(1, 5))
                    i = rng.integers(0, a.shape[axis], sh)
                    if rows != 1:
                        i = np.broadcast_to(i, (1, *sh[1:]))
                    g, at = (lambda t: np.take_along_axis(t, np.broadcast_to(i, (t.shape[0], *sh[1:])), axis)), {"axis": axis}
                case "Pad":
                    q = rng.integers(0, 3, 4)
                    i = np.array([0, 0, q[0], q[1], 0, 0, q[2], q[3]])
                    mode = str(rng.choice(["constant", "edge"]))
                    g, at = (lambda t: np.pad(t, ((0, 0), (0, 0), (q[0], q[2]), (q[1], q[3])), mode=mode)), {"mode": mode}
                case "Tile":
                    i = np.array([1, *rng.integers(1, 3, 3)])
                    g, at = (lambda t: np.tile(t, i)), {}
                case "Resize":
                    i = np.array([1, c, 2 * h, 3 * w])
                    g, at = (lambda t: t.repeat(2, 2).repeat(3, 3)), {"mode": "nearest", "coordinate_transformation_mode": "asymmetric", "nearest_mode": "floor"}
            if g(a)[0].size > 300:
                return None
            self.index[nm] = i.astype(np.int64)
            ins = [x, "", "", nm] if op == "Resize" else [x, nm]
            return self.put(op, ins, g(a), g(f), self.m[x], at, g=g)
        if op in ("Max", "Min"):
            fit = [y for y in self.vals if self.m[y] == self.m[x] and self.vals[y].shape == a.shape]
            y = fit[int(rng.integers(len(fit)))]
            g = np.maximum if op == "Max" else np.minimum
            return self.put(op, [x, y], g(a, self.vals[y]), g(f, self.flt[y]), self.m[x])
        raise KeyError(op)

    def grow(self):
        rng = self.rng
        self.rows = int(rng.integers(1, 6))
        s = [1, 1, int(rng.integers(1, 13))] if rng.random() < .5 else [int(rng.integers(1, 4)), int(rng.integers(1, 5)), int(rng.integers(2, 7))]
        self.shape = s
        m = self.bits - 1 - int(rng.integers(0, 4 if self.bits > 8 else 2))
        hi = 2 ** (self.bits - 1)
        kind = rng.random()
        x = rng.integers(-hi, hi, (self.rows, *s)) if kind < .5 else rng.choice([-hi, hi - 1, 0, 1, -1], (self.rows, *s)) if kind < .75 \
            else rng.integers(-hi // 16, hi // 16, (self.rows, *s))
        self.vals["X"], self.m["X"], self.flt["X"] = x.astype(np.int64), m, x / 2.0 ** m
        self.layers["X"] = {"out": self.q(m)}
        cur, want = "X", int(rng.integers(1, 9))
        for _ in range(60):
            if len(self.nodes) >= want:
                break
            same = [y for y in self.vals if self.vals[y].shape == self.vals[cur].shape and self.m[y] == self.m[cur]]
            match rng.choice(["mm", "left", "two", "add", "addtwo", "relu", "move"], p=[.32, .06, .08, .2, .1, .1, .14]):
                case "mm":
                    r = self.matmul(cur)
                case "left":
                    r = self.matmul(cur, right=False)
                case "two":
                    fit = [y for y in self.vals if self.vals[y].shape[2] == self.vals[cur].shape[3] and
                           (1 in (self.vals[y].shape[1], self.vals[cur].shape[1]) or self.vals[y].shape[1] == self.vals[cur].shape[1])]
                    r = self.matmul(cur, str(rng.choice(fit))) if fit else None
                case "add":
                    r = self.add(cur)
                case "addtwo":
                    r = self.add(cur, str(rng.choice(same)))
                case "relu":
                    r = self.relu(cur)
                case _:
                    r = self.move(cur, str(rng.choice(["Transpose", "Concat", "MaxPool", "Flatten", "Gather", "GatherElements", "Pad", "Tile", "Resize", "Max", "Min"])))
            cur = r or cur
        if not any(op in ("MatMul", "Add") for op, *_ in self.nodes):
            return None
        self.out = cur
        self.prune()
        return self

    def prune(self):
        keep, need = [], {self.out}
        for nd in reversed(self.nodes):
            if nd[3] in need:
                keep.append(nd)
                need.update(nd[2])
        self.nodes = keep[::-1]
        self.inits = [(n, w) for n, w in self.inits if n in need]

    def config(self, rng):
        layers = dict(self.layers)
        for op, name, ins, out, _ in self.nodes:
            if name not in layers and rng.random() < .3:     # layers without parameters may be listed as well
                layers[name] = {"in": self.q(self.m[ins[0]]), "out": self.q(self.m[out])}
        keys = list(layers)
        rng.shuffle(keys)
        return {"name": "AVX", "cflags": str(rng.choice(["-O1", "-O2", "-O0"])),
                "quantization": {**self.types, "layers": {k: layers[k] for k in keys}}}

    def model(self):
        import onnx
        from onnx import helper as h

        def info(n, s):
            return h.make_tensor_value_info(n, onnx.TensorProto.FLOAT, [None, *s])
        nodes = []
        for op, name, ins, out, attrs in self.nodes:
            if op == "Flatten":
                nodes.append(h.make_node("Reshape", [ins[0], name + "_s"], [out], name=name))
            else:
                nodes.append(h.make_node(op, ins, [out], name=name, **attrs))
        inits = [onnx.numpy_helper.from_array(w, n) for n, w in self.inits]
        inits += [onnx.numpy_helper.from_array(v, k) for k, v in self.index.items() if any(k in nd[2] for nd in self.nodes)]
        inits += [onnx.numpy_helper.from_array(np.array([-1, *self.vals[out].shape[1:]], np.int64), name + "_s")
                  for op, name, ins, out, _ in self.nodes if op == "Flatten"]
        g = h.make_graph(nodes, "g", [info("X", self.shape)], [info(self.out, self.vals[self.out].shape[1:])], inits)
        m = h.make_model(g, opset_imports=[h.make_opsetid("", 18)], ir_version=8)
        return onnx.shape_inference.infer_shapes(m)

    def error_bound(self):
        """How far from the real model rounding can lead: each value's distance, by interval propagation."""
        err = {"X": np.zeros(self.vals["X"].shape)}
        w = dict(self.inits)

        def get(n):
            if n in err:
                return self.flt[n], err[n]
            i = np.asarray(w[n], np.float64)
            m = int(self.layers[n]["out"].split(".")[1])
            return i, np.full(i.shape, .5000001 * 2.0 ** -m)
        for op, name, ins, out, at in self.nodes:
            a, ea = get(ins[0])
            if op == "MatMul":
                b, eb = get(ins[1])
                e = np.matmul(np.abs(a), eb) + np.matmul(ea, np.abs(b)) + np.matmul(ea, eb) + 2.0 ** -self.m[out]
            elif op == "Add":
                b, eb = get(ins[1])
                e = ea + eb
            elif op == "Relu":
                e = ea
            elif op == "Transpose":
                e = ea.transpose(at["perm"])
            elif op == "Concat":
                e = np.concatenate([ea, get(ins[1])[1]], at["axis"])
            elif self.how[out]:
                e = self.how[out](ea)
            elif op in ("Max", "Min"):
                e = np.maximum(ea, get(ins[1])[1])
            elif op == "MaxPool":
                e = np.lib.stride_tricks.sliding_window_view(ea, (2, 2), (2, 3)).max((-1, -2))
            else:
                e = ea.reshape(self.vals[out].shape)
            err[out] = np.broadcast_to(e, self.vals[out].shape)
        return err[self.out]


def make(seed):
    rng = np.random.default_rng([seed, 1616])
    for k in range(20):
        t = str(rng.choice(list(TYPES)))
        n = Net(seed * 100 + k, TYPES[t]).grow()
        if n is not None:
            return n, t
    return None, None


MAIN = driver.PRELUDE + r"""
int main(int argc, char **argv){
  FILE *f = fopen(argv[1], "w");
  inference_t *c = new_ctx();
  memset(c, 0xA5, sizeof *c);
  for (int r = 0; r < nb_samples; ++r) {
    elt *o = malloc(sizeof(elt) * nn_output_size);
    inference(c, o, nn_test_inputs[r]);
    put(f, o);
    free(o);
  }
  fclose(f); free(c);
  return 0;
}
"""


def same(kind, got, want, tags, how=""):
    if len(got) != len(want):
        return violation(kind, f"{how}{len(got)} rows instead of {len(want)}", tags=tags)
    for r, (g, w) in enumerate(zip(got, want)):
        g, w = np.asarray(g).ravel(), w.ravel()
        if g.size != w.size:
            return violation(kind, f"{how}row {r}: {g.size} values instead of {w.size}", tags=tags)
        if (g != w).any():
            k = int(np.argmax(g != w))
            return violation(kind, f"{how}row {r} element {k}: got {g[k]}, the fixed-point model gives {w[k]}", tags=tags)
    return None


def run(p):
    rng = np.random.default_rng([p["seed"], 161])
    n, t = make(p["seed"])
    if n is None:
        return skip("no net")
    # the specification itself: the integers approximate the real model within the rounding of the formats
    gap = np.abs(n.vals[n.out] / 2.0 ** n.m[n.out] - n.flt[n.out])
    assert (gap <= n.error_bound() * 1.0001 + 1e-12).all(), "the fixed-point specification departs from the real model"
    tags = [t, *n.tags, f"rows:{n.rows}"]
    fused = rng.random() < .2
    kw = dict(target="AVX512VNNI", optimization=fused, bin_dataset=bool(rng.random() < .4))
    if rng.random() < .5:
        kw["makefile_properties"] = {"compiler_flags": ["-w", str(rng.choice(["-g", "-O1", "-DX=1"]))]}
    tags += ["optimised"] * fused + ["binary" if kw["bin_dataset"] else "text"]
    conf = n.config(rng)
    how = str(rng.choice(["array", "array", "file", "external"]))
    tags.append("dataset:" + how)
    want = list(n.vals[n.out])
    h = hashlib.sha1(repr((n.nodes, conf, [w.tobytes() for _, w in n.inits], n.vals["X"].tobytes(), sorted(kw.items(), key=str))).encode()).hexdigest()
    builds = 0
    with C.scratch() as d:
        old = os.getcwd()
        try:
            os.chdir(d)
            pathlib.Path("AVX512VNNI.json").write_text(json.dumps(conf))
            x = n.vals["X"].astype(n.types["pydtype"])
            keep = x.copy()
            rows = x.reshape(n.rows, -1)
            args = []
            if how in ("file", "external"):
                f = os.path.join(d, "rows.txt")
                sep, a, b = (", ", "[", "]") if how == "file" else (" ", "", "")
                pathlib.Path(f).write_text("".join(a + sep.join(str(v) for v in r) + b + "\n" for r in rows))
            try:
                from acetone_nnet import CodeGenerator
                match how:
                    case "array":
                        gen = CodeGenerator(n.model(), test_dataset=x, nb_tests=n.rows, **kw)
                    case "file":
                        gen = CodeGenerator(n.model(), test_dataset=f, nb_tests=n.rows, **kw)
                    case _:
                        kw["bin_dataset"], args = False, [f]
                        gen = CodeGenerator(n.model(), external_input=True, nb_tests=n.rows, **kw)
            except Exception as e:  # noqa: BLE001
                raise cexec.StageError("import", cexec.exc_text(e)) from e
            out = os.path.join(d, "o")
            os.mkdir(out)
            cexec.generate(gen, out)
            bad = same("reference", read(gen, out, x if how == "external" else None), want, tags)
            if bad:
                return bad
            if (x != keep).any():
                return violation("data_modified", "the caller's dataset was modified", tags=tags)
            cexec.make(out)
            cexec.run_binary(out, args=args)
            bad = same("program", cexec.parse_output(os.path.join(out, "output_c.txt"), integer=True), want, tags)
            if bad:
                return bad
            if not kw["bin_dataset"] and how != "external":
                for exe, flags in (("plain", C.PLAIN), ("san", C.SAN)):
                    builds += 1
                    driver.build(out, MAIN, exe, flags)
                    cexec.run_binary(out, "acv_" + exe, out="o.txt", extra_env=C.SAN_ENV)
                    bad = same("inference", cexec.parse_output(os.path.join(out, "o.txt"), integer=True), want, tags, f"{exe} ")
                    if bad:
                        return bad
        except cexec.StageError as e:
            if fused and e.stage == "import" and "missing data in target config" in e.detail:
                return skip("the formats of fused layers are unknown")
            return C.stage_violation(e, tags=tags)
        finally:
            os.chdir(old)
    return ok(tags=tags, digest=h, nontrivial=len(n.nodes) > 1,
              count={"rows_compared": n.rows * (2 + builds), "values_compared": n.vals[n.out].size * (2 + builds), "quantised_layers": sum(op in ("MatMul", "Add") for op, *_ in n.nodes)},
              sample={"nodes": [op for op, *_ in n.nodes], "types": t, "rows": n.rows})


def read(gen, d, rows=None):
    try:
        gen.compute_inference(d, *([] if rows is None else [rows]))
    except Exception as e:  # noqa: BLE001
        raise cexec.StageError("reference", cexec.exc_text(e)) from e
    return cexec.parse_output(os.path.join(d, "output_python.txt"), integer=True)


if __name__ == "__main__":
    sys.exit(Check("P16", [
        Family("nets", seeds("P16nets"), run, 380, 3000),
    ], rule="models of MatMul, Add, Relu and layers which move values, with parameters in float and a fixed-point format for every one of them, drawn "
            "together with integer inputs so that no result leaves its type; the expected integers come from exact integer arithmetic written anew, "
            "itself checked to stay within the rounding of the formats from the real model; the program built by the Makefile, the inference "
            "function under -O2 and under address and undefined-behaviour sanitizers, and the Python reference must all give these integers; "
            "non-trivial: at least two layers",
       min_evals=100, require={"rows_compared": 800, "quantised_layers": 200, "short": 20, "char": 15, "int": 15, "text": 40, "binary": 20,
                               "dataset:file": 15, "dataset:external": 15, "optimised": 5}).main())
