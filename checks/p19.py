"""P19: dataset rows are carried faithfully from the caller to the program's output."""
import _pre  # noqa: F401
import json
import os
import sys

import numpy as np
from acv import cases as C, cexec, onnxgen as G, oracle
from acv.runner import Check, Family, ok, seeds, skip, violation


def model(seed, dt):
    """A model that only moves values (every output is, bit for bit, one of the inputs)."""
    rng = np.random.default_rng([int(seed), 19])
    b = G.Builder(rng, dtype=dt)
    if rng.random() < .6:
        x = b.inp([1, *(int(v) for v in rng.integers(1, 5, 3))])
    else:
        x = b.inp([1, int(rng.integers(1, 12))])
    shape = b.shape[x]
    for _ in range(int(rng.integers(1, 5))):
        f = b.ch([G.op_transpose, G.op_gather, G.op_gather_elements, G.op_tile, G.op_flatten, G.op_dropout])
        try:
            y = f(b, x, set())
        except G.Skip:
            continue
        if int(np.prod(b.shape[y])) <= 400:
            x = y
    if not b.nodes:
        x = b.node("Flatten", [x])
    return b, b.model(x), shape


def values(rng, n, size, dt):
    bits = np.uint32 if dt is np.float32 else np.uint64
    kind = rng.integers(5)
    if kind == 0:
        v = rng.standard_normal((n, size))
    elif kind == 1:          # any finite bit pattern
        v = rng.integers(0, np.iinfo(bits).max, (n, size), dtype=bits).view(dt)
        v = np.where(np.isfinite(v), v, dt(0)).astype(dt)
    elif kind == 2:          # subnormals, zeros and extremes
        fi = np.finfo(dt)
        v = rng.choice(np.array([0, -0.0, fi.smallest_subnormal, -fi.smallest_subnormal, fi.tiny, fi.max, fi.min, 1 + fi.eps, 1 / 3], dt), (n, size))
    elif kind == 3:          # rows that tell their position
        v = np.arange(n)[:, None] * 1000 + np.arange(size)[None, :] + .5
    else:
        v = np.round(rng.standard_normal((n, size)) * 100) / 10
    return v.astype(dt)


def outputs(m, rows, shape, dt):
    return [np.asarray(r[0]).ravel() for r in oracle.ort_run(m, [np.ascontiguousarray(r.reshape(shape)) for r in rows])]


def exact(kind, got, want, dt, tags):
    if len(got) != len(want):
        return violation(kind + "_rows", f"{len(got)} rows of output for {len(want)} rows of the dataset", tags=tags)
    for r, (g, w) in enumerate(zip(got, want, strict=True)):
        if g.size != w.size:
            return violation(kind + "_size", f"row {r}: {g.size} values instead of {w.size}", tags=tags)
        g = g.astype(dt)
        bad = np.flatnonzero((g.view(np.uint8).reshape(g.size, -1) != np.ascontiguousarray(w, dt).view(np.uint8).reshape(g.size, -1)).any(1))
        if bad.size:
            return violation(kind, f"row {r} value {bad[0]}: {float(g[bad[0]])!r} instead of {float(w[bad[0]])!r}", tags=tags)
    return None


def lines(path, size):
    """The file is one line of `size` values per row."""
    t = open(path).read()
    if t and not t.endswith("\n"):
        return "the last line is not ended"
    for i, ln in enumerate(t.splitlines()):
        if len(ln.split()) != size:
            return f"line {i} holds {len(ln.split())} values instead of {size}"
    return None


def options(rng):
    kw = {"to_hex": bool(rng.random() < .6)}
    if rng.random() < .3:
        kw["bin_dataset"] = True
    if rng.random() < .2:
        kw["verbose"] = True
    if rng.random() < .2:
        kw["optimization"] = True
    return kw


def run(gen, d, want, dt, tags, kw, args=(), dataset=None):
    if kw.get("bin_dataset") or gen.nb_tests % 3 == 0:
        cexec.generate(gen, d)
        cexec.make(d)
    else:
        cexec.generate(gen, d)
        cexec.quick_build(d, flags=C.SAN)
    cexec.run_binary(d, args=args, extra_env=C.SAN_ENV)
    size = want[0].size if want else None
    try:
        gen.compute_inference(d, **({} if dataset is None else {"dataset_or_path": dataset}))
    except Exception as e:  # noqa: BLE001
        raise cexec.StageError("reference", cexec.exc_text(e)) from e
    for f in ("output_c.txt", "output_python.txt"):
        path = os.path.join(d, f)
        bad = lines(path, size) if want else None
        if bad:
            return violation("lines", f"{f}: {bad}", tags=tags)
        bad = exact(f.split(".")[0], cexec.parse_output(path), want, dt, tags)
        if bad:
            return bad
    return ok(tags=tags, count={"rows": len(want), "values": sum(w.size for w in want)},
              sample={"rows": len(want), "first": [float(v) for v in want[0][:3]] if want else []})


def attempt(f, tags):
    try:
        return f()
    except cexec.StageError as e:
        return C.stage_violation(e, tags=tags)


COUNTS = [1, 2, 3, 5, 31, 32, 33, 63, 64, 65, 97, 130]


def draw(p, tag):
    rng = np.random.default_rng([p["seed"], tag])
    dt = [np.float32, np.float64][int(rng.random() < .3)]
    b, m, shape = model(p["seed"], dt)
    n = int(rng.choice(COUNTS)) if rng.random() < .5 else int(rng.integers(1, 7))
    rows = values(rng, n, int(np.prod(shape)), dt)
    return rng, dt, m, shape, rows


def run_array(p):
    rng, dt, m, shape, rows = draw(p, 1)
    kw = options(rng)
    form = p["form"]
    n, size = rows.shape
    if form == "flat":
        a = rows
    elif form == "image":
        a = rows.reshape(n, *shape)
    elif form == "no_batch":
        a = rows.reshape(n, *shape[1:])
    elif form == "row":
        a = rows.reshape(n, 1, size)
    elif form == "fortran":
        a = np.asfortranarray(rows.reshape(n, *shape))
    elif form == "view":
        a = np.empty((2 * n, size * 2), dt)
        a[::2, ::2] = rows
        a = a[::2, ::2]
    elif form == "reversed":
        a = np.ascontiguousarray(rows[::-1])[::-1]
    elif form == "other_float":
        with np.errstate(all="ignore"):
            a = rows.astype(np.float64 if dt is np.float32 else np.float32)
            rows = a.astype(dt)
        if not np.isfinite(rows).all() or not np.isfinite(a).all():
            return skip("overflow")
    elif form == "int":
        a = np.round(np.clip(rows, -1e6, 1e6)).astype(rng.choice([np.int32, np.int64, np.int8]))
        rows = a.astype(dt)
    elif form == "readonly":
        a = rows.reshape(n, *shape).copy()
        a.setflags(write=False)
    before = a.copy()
    tags = ["array", form, str(np.dtype(dt)), *C.opt_tags(kw)]
    want = outputs(m, rows, shape, dt)

    def go():
        from acetone_nnet import CodeGenerator
        try:
            gen = CodeGenerator(file=m, test_dataset=a, nb_tests=int(rng.integers(0, n + 3)) if rng.random() < .2 else n, **kw)
        except Exception as e:  # noqa: BLE001
            raise cexec.StageError("import", cexec.exc_text(e)) from e
        with C.scratch() as d:
            res = run(gen, d, want, dt, tags, kw)
        if res["status"] == "ok" and not (a.dtype == before.dtype and np.array_equal(a, before)):
            return violation("dataset_changed", "the caller's array was modified", tags=tags)
        return res
    return attempt(go, tags)


def text(rows, notation):
    def one(v):
        v = float(v)
        if notation == "hex":
            return json.dumps(v.hex())
        if notation == "hex_short":
            return json.dumps(v.hex().replace("0000000p", "p"))
        if notation == "hex_upper":
            return json.dumps(v.hex().upper())
        if notation == "decimal_string":
            return json.dumps(repr(v))
        if notation == "digits":
            t = "%.17g" % v
            return "-0.0" if t == "-0" else t      # (JSON reads -0 as an integer)
        return json.dumps(v)
    return "".join("[" + ", ".join(one(v) for v in r) + "]\n" for r in rows)


def run_file(p):
    rng, dt, m, shape, rows = draw(p, 2)
    kw = options(rng)
    if p["notation"].startswith("hex"):
        kw["to_hex"] = bool(rng.random() < .8)
    n = len(rows)
    asked = {"all": n, "fewer": int(rng.integers(1, n + 1)), "more": n + int(rng.integers(1, 40)), "none": 0}[p["asked"]]
    tags = ["file", p["notation"], "asked_" + p["asked"], str(np.dtype(dt)), *C.opt_tags(kw)]
    want = outputs(m, rows[:asked], shape, dt)

    def go():
        from pathlib import Path
        from acetone_nnet import CodeGenerator
        with C.scratch() as d:
            f = os.path.join(d, "dataset.txt")
            content = text(rows, p["notation"])
            if rng.random() < .3:
                content = content.rstrip("\n")
            with open(f, "w") as o:
                o.write(content)
            try:
                gen = CodeGenerator(file=m, test_dataset=Path(f) if rng.random() < .5 else f, nb_tests=asked if rng.random() < .8 else str(asked), **kw)
            except Exception as e:  # noqa: BLE001
                if p["asked"] == "more":
                    return ok(tags=[*tags, "refused"], count={"refused": 1})
                raise cexec.StageError("import", cexec.exc_text(e)) from e
            g = os.path.join(d, "g")
            os.mkdir(g)
            res = run(gen, g, want, dt, tags, kw)
            if res["status"] == "ok" and open(f).read() != content:
                return violation("dataset_changed", "the dataset file was modified", tags=tags)
            return res
    return attempt(go, tags)


def run_external(p):
    """Rows read by the program at run time."""
    rng, dt, m, shape, rows = draw(p, 3)
    kw = options(rng)
    n = len(rows)
    nb = int(rng.integers(1, n + 1))
    size = rows.shape[1]
    style = p["style"]
    one = {"hex": lambda v: float(v).hex(), "decimal": lambda v: repr(float(v)), "digits": lambda v: "%.17g" % v, "exponent": lambda v: "%.20e" % v}[style]
    sep = str(rng.choice([" ", "\n", "  ", "\t"]))
    content = "".join(sep.join(one(v) for v in r) + " \n" for r in rows)
    tags = ["external", style, str(np.dtype(dt)), *C.opt_tags(kw)]
    want = outputs(m, rows[:nb], shape, dt)

    def go():
        from acetone_nnet import CodeGenerator
        try:
            gen = CodeGenerator(file=m, external_input=True, nb_tests=nb, **kw)
        except Exception as e:  # noqa: BLE001
            raise cexec.StageError("import", cexec.exc_text(e)) from e
        with C.scratch() as d:
            f = os.path.join(d, "rows.txt")
            with open(f, "w") as o:
                o.write(content)
            g = os.path.join(d, "g")
            os.mkdir(g)
            res = run(gen, g, want, dt, tags, kw, args=[f], dataset=rows[:nb].reshape(nb, *shape))
            if res["status"] != "ok":
                return res
            # the same program on other rows, without generating or building again
            rows2 = values(rng, nb, size, dt)
            with open(f, "w") as o:
                o.write("".join(" ".join(one(v) for v in r) + "\n" for r in rows2))
            cexec.run_binary(g, out="again.txt", args=[f], extra_env=C.SAN_ENV)
            bad = exact("second_run", cexec.parse_output(os.path.join(g, "again.txt")), outputs(m, rows2, shape, dt), dt, tags)
            return bad or res
    return attempt(go, tags)


def run_default(p):
    """No dataset: rows are drawn, the same for the program and the reference, and the same every time."""
    rng, dt, m, shape, rows = draw(p, 4)
    kw = options(rng)
    n = len(rows) if rng.random() < .9 else 0
    tags = ["default", str(np.dtype(dt)), *C.opt_tags(kw)]

    def go():
        from acetone_nnet import CodeGenerator
        try:
            gen = CodeGenerator(file=m, nb_tests=n, **kw)
            twin = CodeGenerator(file=m, nb_tests=n, **kw)
        except Exception as e:  # noqa: BLE001
            raise cexec.StageError("import", cexec.exc_text(e)) from e
        drawn = np.asarray(gen.test_dataset).copy()
        if drawn.size != n * int(np.prod(shape)) or not np.isfinite(drawn).all():
            return violation("default_rows", f"{drawn.shape} for {n} rows of {shape}", tags=tags)
        if not np.array_equal(drawn, np.asarray(twin.test_dataset)):
            return violation("default_changes", "two generators draw different default rows", tags=tags)
        want = outputs(m, drawn.reshape(n, -1).astype(dt), shape, dt) if n else []
        with C.scratch() as d:
            return run(gen, d, want, dt, tags, kw)
    return attempt(go, tags)


def run_wrong(p):
    """Rows that do not have the size of the model's input are refused."""
    rng, dt, m, shape, rows = draw(p, 5)
    kw = options(rng)
    size = rows.shape[1]
    how = p["how"]
    if how == "short":
        if size == 1:
            return skip("one value")
        bad = rows[:, :-1]
    elif how == "long":
        bad = np.concatenate([rows, rows[:, :1]], 1)
    else:
        bad = rows.reshape(len(rows), -1).repeat(2, 1)
    as_file = bool(rng.integers(2))
    tags = ["wrong_size", how, "file" if as_file else "array"]
    from acetone_nnet import CodeGenerator
    with C.scratch() as d:
        src = bad
        if as_file:
            src = os.path.join(d, "rows.txt")
            with open(src, "w") as o:
                o.write(text(bad, "hex"))
        g = os.path.join(d, "g")
        os.mkdir(g)
        try:
            gen = CodeGenerator(file=m, test_dataset=src, nb_tests=len(bad), **kw)
            gen.generate_c_files(g)
        except Exception:  # noqa: BLE001
            return ok(tags=tags, count={"refused": 1})
        try:
            cexec.make(g)
            cexec.run_binary(g)
        except cexec.StageError as e:
            return ok(tags=[*tags, "refused by " + e.stage], count={"refused": 1})
    return violation("wrong_size_accepted", f"rows of {bad.shape[1]} values for an input of {size} ({tags[2]}) give a program that runs", tags=tags)


FORMS = ["flat", "image", "no_batch", "row", "fortran", "view", "reversed", "other_float", "int", "readonly"]
NOTATIONS = ["hex", "hex_short", "decimal", "hex_upper", "decimal_string", "digits"]
ASKED = ["all", "fewer", "more", "fewer", "none"]
STYLES = ["hex", "decimal", "digits", "exponent"]


def cycle(tag, **kw):
    s = seeds(tag)

    def gen(i):
        out, k = s(i), i
        for name, vals in kw.items():
            out[name] = vals[k % len(vals)]
            k //= len(vals)
        return out
    return gen


if __name__ == "__main__":
    sys.exit(Check("P19", [
        Family("array", cycle("P19array", form=FORMS), run_array, 200, 2000),
        Family("file", cycle("P19file", notation=NOTATIONS, asked=ASKED), run_file, 180, 2000),
        Family("external", cycle("P19ext", style=STYLES), run_external, 120, 1200),
        Family("default", seeds("P19def"), run_default, 40, 400),
        Family("wrong", cycle("P19wrong", how=["short", "long", "twice"]), run_wrong, 24, 200),
    ], rule="models that only move values, with rows of arbitrary finite bit patterns, subnormals, signed zeros and extremes; every way of giving "
            "the rows (arrays of every form and type, text files in every notation asking for fewer, as many or more rows than there are, default "
            "rows, rows read at run time), 0 to 130 rows; both output files must hold one line per row with exactly the expected bits; non-trivial: every case",
       min_evals=180, require={"rows": 1500, "values": 10000, "refused": 10, **{f: 4 for f in FORMS + NOTATIONS}}).main())
