"""P10: model parameters reach the program bit for bit in every storage form."""
import _pre  # noqa: F401
import os
import re
import sys
import numpy as np
from onnx import numpy_helper
from acv import cases as C, cexec, dag, hwc, onnxgen as G
from acv.runner import Check, Family, ok, seeds, skip, violation

DUMP = r"""
#include <stdio.h>
#include <string.h>
#include <stdint.h>
#include "inference.h"
#define D(a) do { fprintf(f, "%s %lu %lu", #a, (unsigned long)sizeof(a[0]), (unsigned long)((uintptr_t)&a[0] & 4095)); \
  const unsigned char *c = (const unsigned char *)a; fprintf(f, " "); \
  for (unsigned long i = 0; i < sizeof a; ++i) fprintf(f, "%02x", c[i]); fprintf(f, "\n"); } while (0)
int main(int argc, char **argv){ FILE *f = fopen(argv[1], "w");
@BODY@
fclose(f); return 0; }
"""


def hostile(rng, shape, dtype, emax=None):
    """Finite values of every kind: subnormals, signed zeros, extremes, random bit patterns, long decimals."""
    n = int(np.prod(shape))
    f = np.finfo(dtype)
    u = {4: np.uint32, 8: np.uint64}[np.dtype(dtype).itemsize]
    a = rng.integers(0, np.iinfo(u).max, n, dtype=u, endpoint=True).view(dtype)
    k = rng.integers(0, 8, n)
    sp = np.array([0.0, -0.0, f.tiny, -f.tiny, f.smallest_subnormal, -f.smallest_subnormal, 1 + f.eps, 1 - f.epsneg, 1.0, -1.0,
                   0.1, 1 / 3, f.tiny * (1 - f.eps), 2.0 ** 24 + 2, 1e-7, 123456.789], dtype)
    a = np.where(k < 3, rng.choice(sp, n), a).astype(dtype)
    a = np.where(k == 3, rng.standard_normal(n).astype(dtype), a)
    with np.errstate(all="ignore"):
        sub = (f.smallest_subnormal * rng.integers(1, 2 ** 20, n)).astype(dtype)
        a = np.where(k == 4, sub, a)
        big = dtype(2.0) ** (emax if emax is not None else f.maxexp - 1)
        a = np.where(np.isfinite(a), a, f.max if emax is None else dtype(3.0))
        if emax is not None:
            a = np.where(np.abs(a) > big, np.sign(a), a)
        elif n > 2:
            a[rng.integers(n)] = f.max
            a[rng.integers(n)] = -f.max
    return a.astype(dtype).reshape(shape)


def storage(rng):
    kw = {"target_page_size": int(rng.choice([8, 16, 64, 256, 4096, 4096, 16384]))}
    form = ("text_hex", "text_dec", "binary", "binary_dec")[int(rng.integers(4))]
    if form.startswith("binary"):
        kw["bin_dataset"] = True
    if form.endswith("dec"):
        kw["to_hex"] = False
    return form, kw


def dumped(d, flags=()):
    h = open(os.path.join(d, "inference.h")).read()
    names = re.findall(r"^\s*extern\s+const\s+\w+\s+(\w+)\s*\[", h, re.M)
    with open(os.path.join(d, "acv_dump.c"), "w") as f:
        f.write(DUMP.replace("@BODY@", "\n".join(f"D({n});" for n in names)))
    rc, _, se = cexec.sh(["gcc", "-w", *flags, "-o", "acv_dump", "acv_dump.c", "parameters.o"], cwd=d)
    if rc:
        raise cexec.StageError("compile", se[:1500])
    cexec.run_binary(d, "acv_dump", out="acv_dump.txt", extra_env={"ASAN_OPTIONS": "detect_leaks=0"})
    out = {}
    for ln in open(os.path.join(d, "acv_dump.txt")):
        n, sz, al, hx = ln.split()
        out[n] = (int(sz), int(al), bytes.fromhex(hx))
    return out


def built(model, xs, kw, want_dump=True):
    with C.scratch() as d:
        gen = cexec.build_generator(model, np.stack(xs), **kw)
        cexec.generate(gen, d)
        cexec.make(d)
        cexec.run_binary(d)
        out = cexec.parse_output(d + "/output_c.txt")
        with np.errstate(all="ignore"):     # decimal text stands for the closest value of the model's type
            out = [r.astype(xs[0].dtype).astype(np.float64) for r in out]
        return out, dumped(d) if want_dump else None


def hostile_model(c_model, rng, keep=("Clip", "Pad", "Resize", "Gather", "GatherElements", "Reshape", "Tile", "ReduceSum", "ReduceMax",
                                      "ReduceMin", "ReduceMean", "ReduceProd")):
    """The model with its parameters replaced by hostile values (those read by value at generation time stay)."""
    m = type(c_model)()
    m.CopyFrom(c_model)
    fixed = {i for nd in m.graph.node if nd.op_type in keep for i in nd.input[1:]}
    for t in m.graph.initializer:
        a = numpy_helper.to_array(t)
        if a.dtype.kind != "f" or t.name in fixed or a.size == 0:
            continue
        h = hostile(rng, a.shape, a.dtype.type)
        if any(nd.op_type == "BatchNormalization" and nd.input[4] == t.name for nd in m.graph.node):
            h = np.abs(h)
        t.CopyFrom(numpy_helper.from_array(h, t.name))
    return m


def run_store(p):
    """Same bits of every parameter array, and of every output, in all storage forms; the initialisers' bits are among them."""
    try:
        if p["layout"] == "first":
            c = C.dag_case(p["seed"], rows=2, n_ops=(3, 9), maxsize=500)
            kw0 = {k: v for k, v in C.options(p["seed"]).items() if k in ("versions", "optimization")}
        else:
            b, m, shape = hwc.make(p["seed"])
            c = C.finish(b, m, shape, p["seed"])
            kw0 = {"versions": hwc.VERSIONS, "gen_data_format": "channels_last"}
    except G.Skip as e:
        return skip(str(e))
    rng = np.random.default_rng([p["seed"], 100])
    m = hostile_model(c.model, rng) if p["layout"] == "first" and not kw0.get("optimization") else c.model
    forms = {}
    arrays = 0
    pages = [int(v) for v in rng.choice([8, 64, 256, 1024, 4096, 16384], 3)]
    plans = {"text_hex": {"target_page_size": pages[0]}, "text_dec": {"target_page_size": pages[1], "to_hex": False},
             "binary": {"target_page_size": pages[2], "bin_dataset": True}}
    try:
        for f, kw in plans.items():
            forms[f] = built(m, c.xs, {**kw0, **kw})
    except cexec.StageError as e:
        return C.stage_violation(e, tags=c.tags)
    base_out, base = forms["text_hex"]
    for f, (out, arr) in forms.items():
        pg = plans[f]["target_page_size"]
        for n in base:
            if n not in arr or arr[n][2] != base[n][2]:
                return violation("storage", f"{n} differs between text_hex and {f}", tags=c.tags)
            if arr[n][1] % min(pg, 4096):
                return violation("alignment", f"{n} is not aligned to {pg} ({f})", tags=c.tags)
        if set(arr) != set(base):
            return violation("storage", f"arrays of {f}: {sorted(arr)} instead of {sorted(base)}", tags=c.tags)
        arrays += len(arr)
        for r, (a, b2) in enumerate(zip(base_out, out)):
            same = (a == b2) | (np.isnan(a) & np.isnan(b2)) if a.size == b2.size else np.array([False])
            if not same.all():
                i = int(np.argmin(same))
                return violation("outputs", f"row {r} value {i}: {a[i:i+1]} with text_hex, {b2[i:i+1]} with {f}", tags=c.tags)
        if len(out) != len(base_out):
            return violation("outputs", f"{len(out)} rows with {f}", tags=c.tags)
    # initialisers whose values operators store as they are
    held = 0
    if p["layout"] == "first" and not kw0.get("optimization"):
        words = set()
        for n, (sz, _, raw) in base.items():
            words |= set(np.frombuffer(raw, np.uint32 if sz == 4 else np.uint64).tolist())
        plain = {}
        for nd in m.graph.node:
            attrs = {a.name: a for a in nd.attribute}
            if nd.op_type in ("Conv", "MatMul", "Add", "Sub", "Mul", "Div", "Max", "Min", "Mean", "Concat", "BatchNormalization") or (
                    nd.op_type == "Gemm" and "alpha" not in attrs and "beta" not in attrs):
                for i in nd.input:
                    plain[i] = nd.op_type
        for t in m.graph.initializer:
            a = numpy_helper.to_array(t)
            if t.name in plain and a.dtype.kind == "f":
                u = np.ascontiguousarray(a).view(np.uint32 if a.itemsize == 4 else np.uint64).ravel()
                lost = [i for i, v in enumerate(u.tolist()) if v not in words]
                if lost:
                    return violation("lost_value", f"{t.name} ({plain[t.name]}): value {a.ravel()[lost[0]]!r} is stored nowhere", tags=c.tags)
                held += u.size
    return ok(tags=[*c.tags, p["layout"], *(f"page{g}" for g in pages)], digest=C.digest(m, sorted(kw0.items(), key=str), pages),
              nontrivial=bool(base), count={"arrays_compared": arrays, "initialiser_values_found": held, "programs": 3},
              sample={"arrays": {n: len(v[2]) // v[0] for n, v in list(base.items())[:4]}, "pages": pages})


EXACT = ["gemm", "conv", "matmul", "matmul_left", "binary", "nary", "concat", "pad", "clip", "leaky", "bias"]


def exact_model(op, rng, dtype):
    """A model whose outputs on its rows are single exactly rounded operations on its parameters."""
    b = G.Builder(rng, opset=18, dtype=dtype)
    w = lambda *s, e=None: hostile(rng, s, b.dtype.type, emax=e)  # noqa: E731
    lim = 60 if dtype == np.float32 else 500
    if op in ("gemm", "bias"):
        n, k = b.ri(1, 9), b.ri(1, 9)
        x = b.inp((1, n))
        t = b.ri(0, 1)
        ins = [x, b.init(w(k, n, e=lim) if t else w(n, k, e=lim))]
        if op == "bias":
            ins.append(b.init(w(k, e=lim)))
        y = b.node("Gemm", ins, transB=t)
    elif op == "conv":
        c, h, wd, o = b.ri(1, 3), b.ri(1, 4), b.ri(1, 4), b.ri(1, 4)
        kh, kw = b.ri(1, h), b.ri(1, wd)
        x = b.inp((1, c, h, wd))
        ins = [x, b.init(w(o, c, kh, kw, e=lim))]
        if b.p(.5):
            ins.append(b.init(w(o, e=lim)))
        y = b.node("Conv", ins, kernel_shape=[kh, kw])
    elif op == "matmul":
        n, k = b.ri(1, 9), b.ri(1, 9)
        if b.p(.5):
            x = b.inp((1, n))
            y = b.node("MatMul", [x, b.init(w(n, k, e=lim))])
        else:
            x = b.inp((1, 1, b.ri(1, 4), n))
            y = b.node("MatMul", [x, b.init(w(1, 1, n, k, e=lim))])
    elif op == "matmul_left":
        n, k = b.ri(1, 6), b.ri(1, 6)
        x = b.inp((1, b.ri(1, 3), n, k))
        c = b.shape[x][1]
        y = b.node("MatMul", [b.init(w(1, c, b.ri(1, 5), n, e=lim)), x])
    elif op == "binary":
        x = b.inp((1, b.ri(1, 3), b.ri(1, 4), b.ri(1, 4)))
        s = tuple(d if b.p(.7) else 1 for d in b.shape[x])
        k = b.ch(["Add", "Sub", "Mul", "Div"])
        c = w(*s)
        if k == "Div":
            c = np.where(np.abs(c) < 1e-3, b.dtype.type(1.5), c)
        ins = [x, b.init(c)]
        if k in ("Add", "Sub", "Mul") and b.p(.4):
            ins.reverse()
        y = b.node(k, ins)
    elif op == "nary":
        x = b.inp((1, b.ri(1, 3), b.ri(1, 4), b.ri(1, 4)))
        ins = [x, b.init(w(*b.shape[x]))]
        y = b.node(b.ch(["Max", "Min"]), ins)
    elif op == "concat":
        x = b.inp((1, b.ri(1, 3), b.ri(1, 4), b.ri(1, 4)))
        s = list(b.shape[x])
        ax = b.ri(1, 3)
        s[ax] = b.ri(1, 3)
        ins = [x, b.init(w(*s))]
        if b.p(.5):
            ins.reverse()
        y = b.node("Concat", ins, axis=ax)
    elif op == "pad":
        x = b.inp((1, b.ri(1, 3), b.ri(1, 4), b.ri(1, 4)))
        y = b.node("Pad", [x, b.init(np.array([0, 0, 1, 0, 0, 1, 0, 1], np.int64)), b.init(w(1).reshape(()))])
    elif op == "clip":
        x = b.inp((1, b.ri(1, 9)))
        lo, hi = sorted(w(2).tolist())
        y = b.node("Clip", [x, b.init(np.array(lo, b.dtype)), b.init(np.array(hi, b.dtype))])
    else:
        x = b.inp((1, b.ri(1, 9)))
        y = b.node("LeakyRelu", [x], alpha=float(np.abs(w(1)[0]) % 1))
    m = b.model(y)
    shape = b.shape[x]
    n = int(np.prod(shape))
    xs = [np.zeros(shape, b.dtype)]
    for i in rng.permutation(n)[:6]:
        a = np.zeros(n)
        a[i] = 1.0
        xs.append(a.reshape(shape).astype(b.dtype))
    if op in ("binary", "nary", "clip", "leaky", "concat", "pad"):
        xs += [np.full(shape, v, b.dtype) for v in (1.0, -1.0, 1e30, -1e30, 0.25)]
        if op != "binary":
            xs.append(hostile(rng, shape, b.dtype.type))
    return m, xs


def run_exact(p):
    rng = np.random.default_rng([p["seed"], 101])
    dtype = np.float64 if p.get("double") else np.float32
    try:
        m, xs = exact_model(p["op"], rng, dtype)
    except G.Skip as e:
        return skip(str(e))
    from acv import oracle
    ref = [r[0] for r in (oracle.reference_run if p.get("double") else oracle.ort_run)(m, xs)]
    form, kw = storage(rng)
    if p["op"] == "conv":
        kw["versions"] = {"Conv2D": str(rng.choice(C.CONV_VERSIONS))}
    tags = [p["op"], form, str(np.dtype(dtype))]
    try:
        out, _ = built(m, xs, kw, want_dump=False)
    except cexec.StageError as e:
        return C.stage_violation(e, tags=tags)
    n = 0
    for r, (a, q) in enumerate(zip(out, ref)):
        q = q.astype(np.float64).ravel()
        if a.size != q.size:
            return violation("exact", f"row {r}: {a.size} values", tags=tags)
        bad = ~((a == q) | (np.isnan(a) & np.isnan(q)))
        if bad.any():
            i = int(np.argmax(bad))
            return violation("exact", f"row {r} value {i}: {float(a[i]).hex()} instead of {float(q[i]).hex()} ({form})", tags=tags)
        n += a.size
    if len(out) != len(xs):
        return violation("exact", f"{len(out)} rows of {len(xs)}", tags=tags)
    return ok(tags=tags, digest=C.digest(m, form), count={"exact_values": n, "programs": 1}, sample={"op": p["op"], "form": form})


def gen_exact(i):
    return {"op": EXACT[i % len(EXACT)], "double": bool((i // len(EXACT)) % 4 == 3), **seeds("P10exact")(i)}


if __name__ == "__main__":
    sys.exit(Check("P10", [
        Family("store", lambda i: {"layout": "last" if i % 5 == 4 else "first", **seeds("P10store")(i)}, run_store, 180, 2000),
        Family("exact", gen_exact, run_exact, len(EXACT) * 28, len(EXACT) * 400),
    ], rule="models with hostile parameter values: every array of the built program read back through its symbol in three storage forms "
            "and page sizes; and models whose outputs are single exactly rounded operations on the parameters, compared exactly with "
            "onnxruntime", min_evals=150,
       require={"arrays_compared": 300, "initialiser_values_found": 2000, "exact_values": 3000, "binary": 20, "text_dec": 20, "float64": 20,
                "last": 8}).main())
