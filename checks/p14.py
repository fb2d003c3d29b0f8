"""P14: the comparison tool accepts exactly the outputs that agree."""
import _pre  # noqa: F401
import contextlib
import io
import math
import os
import re
import sys
from fractions import Fraction

import numpy as np
from acv import cases as C, cexec, dag, onnxgen as G
from acv.runner import Check, Family, ok, seeds, skip, violation

EPS, MIN, MAX = sys.float_info.epsilon, sys.float_info.min, sys.float_info.max
DAMAGE = ["none", "within", "beyond", "sign", "nan_one", "nan_both", "inf_both", "inf_opposite", "inf_one", "missing_row",
          "extra_row", "missing_value", "extra_value", "after_last_test", "several", "edge"]


def write(rng, rows, style):
    """Rows in the formats ACETONE and its reference frameworks write."""
    def one(v):
        if not math.isfinite(v):
            return {"hexpy": repr(float(v)), "hexc": ("-" if v == -math.inf else "") + ("nan" if v != v else "inf")}.get(style, repr(float(v)))
        h = float(v).hex()
        if style == "hexpy":
            return h.replace("0000000p", "p")
        if style == "hexc":
            m = re.fullmatch(r"(-?0x[01])\.?([0-9a-f]*)(p.*)", h)
            frac = m[2].rstrip("0")
            return m[1] + ("." + frac if frac else "") + m[3]
        if style == "digits":
            return "%.17g" % v
        return repr(float(v))
    end = " \n" if style == "hexpy" else "\n"
    return "".join(" ".join(one(v) for v in r) + " " + end for r in rows)


def oracle(a, b):
    """(agree, |a-b|, relative difference, near the limit of the tolerance), exactly."""
    if math.isnan(a) or math.isnan(b):
        return False, math.nan, math.nan, False
    if a == b:
        return True, 0.0, 0.0, False
    if math.isinf(a) or math.isinf(b):
        return False, math.inf, math.inf, False
    d, n = abs(Fraction(a) - Fraction(b)), min(abs(Fraction(a)) + abs(Fraction(b)), Fraction(MAX))   # the tool caps the sum
    lim = max(Fraction(MIN), Fraction(128 * EPS) * n)
    r = d / lim
    return d < lim, min(float(d) if d <= MAX else math.inf, math.inf), float(2 * d / n), abs(r - 1) < Fraction(1, 10 ** 9)


def gen_case(i):
    return {"damage": DAMAGE[i % len(DAMAGE)], **seeds("P14")(i)}


def values(rng, n, dt):
    top = 37 if dt is np.float32 else 300
    cls = rng.integers(5)
    if cls == 0:
        v = rng.standard_normal(n)
    elif cls == 1:
        v = rng.standard_normal(n) * 10. ** rng.integers(-6, 7, n)
    elif cls == 2:
        v = rng.standard_normal(n) * 10. ** rng.integers(-top, top, n)
    elif cls == 3:
        v = rng.integers(-20, 20, n).astype(float)
    else:
        v = rng.random(n) * (3.3e38 if dt is np.float32 else 1.5e308) * rng.choice([-1, 1], n)
    v[rng.random(n) < .1] = 0
    return v.astype(dt).astype(np.float64)


def perturb(rng, v, dt, how):
    """A value of type dt near v: within the tolerance, or beyond it."""
    step = float(np.spacing(dt(abs(v))))
    tol = max(MIN, 128 * EPS * 2 * abs(v))
    if how == "within":
        if dt is np.float32:
            return v
        return v + rng.choice([-1, 1]) * (rng.uniform(.02, .95) if rng.random() < .6 else rng.uniform(.98, .999)) * tol
    for _ in range(60):
        k = rng.choice([1.003, 1.005, 1.1, 1.5, 2, 10, 1e3, 1e6, 1e9])
        w = float(dt(v + rng.choice([-1, 1]) * max(tol * k, step * rng.integers(1, 40))))
        if w != v and math.isfinite(w):
            return w
    return 0.0 if v else 1.0


def run_case(p):
    from acetone_nnet.cli import compare
    rng = np.random.default_rng([p["seed"], 14])
    dt = [np.float32, np.float64][rng.integers(2)]
    prec = "float" if dt is np.float32 else "double"
    R, n = int(rng.integers(1, 9)), int(rng.integers(1, 15))
    rows = [values(rng, n, dt) for _ in range(R)]
    other = [r.copy() for r in rows]
    nb = R
    at_row = int(rng.choice([0, R - 1, rng.integers(R)]))
    at = int(rng.choice([0, n - 1, rng.integers(n)]))
    dmg = p["damage"]
    if dmg in ("within", "beyond"):
        other[at_row][at] = perturb(rng, rows[at_row][at], dt, dmg)
    elif dmg == "sign":
        rows[at_row][at] = rows[at_row][at] or 1.
        other[at_row][at] = -rows[at_row][at]
    elif dmg == "nan_one":
        other[at_row][at] = math.nan
        if rng.random() < .5:
            rows, other = other, rows
    elif dmg == "nan_both":
        rows[at_row][at] = other[at_row][at] = math.nan
    elif dmg in ("inf_both", "inf_opposite", "inf_one"):
        rows[at_row][at] = s = float(rng.choice([-math.inf, math.inf]))
        other[at_row][at] = {"inf_both": s, "inf_opposite": -s, "inf_one": rng.standard_normal()}[dmg]
        if dmg == "inf_one":
            other[at_row][at] = float(dt(other[at_row][at]))
    elif dmg in ("missing_row", "extra_row"):
        short = other[:int(rng.integers(0, R))] if rng.random() < .5 else other[:at_row] + other[at_row + 1:]
        rows, other = (rows, short) if dmg == "missing_row" else (short, rows)
    elif dmg in ("missing_value", "extra_value"):
        cut = np.delete(rows[at_row], at) if rng.random() < .5 else rows[at_row][:int(rng.integers(0, n))]
        if dmg == "missing_value":
            other[at_row] = cut
        else:
            rows[at_row] = cut
    elif dmg == "after_last_test":
        nb = int(rng.integers(1, R + 1))
        extra = [values(rng, n, dt) for _ in range(int(rng.integers(1, 4)))]
        rows, other = rows[:nb], other[:nb]
        if rng.random() < .5:
            rows += extra
        other += [v + 1 for v in extra] if rng.random() < .8 else []
    elif dmg in ("several", "edge"):
        for r in range(R):
            for k in range(n):
                if rng.random() < .3:
                    other[r][k] = perturb(rng, rows[r][k], dt, rng.choice(["within", "beyond"]))
        if dmg == "edge":          # only one value of the last row is out
            other = [r.copy() for r in rows]
            other[-1][-1] = perturb(rng, rows[-1][-1], dt, "beyond")
    first, second = rows[:nb], other[:nb]
    agree = len(first) == len(second) and all(len(a) == len(b) for a, b in zip(first, second, strict=False))
    counted = agree
    worst, rel = 0.0, 0.0
    for a, b in zip(first, second, strict=False):
        for x, y in zip(a, b, strict=False):
            g, d, r, near = oracle(float(x), float(y))
            if near:
                return skip("at the limit of the tolerance")
            agree &= g
            worst, rel = (math.nan, math.nan) if math.isnan(worst) or math.isnan(d) else (max(worst, d), max(rel, r))
    styles = ["hexpy", "hexc", "digits", "repr"]
    s1, s2 = (styles[rng.integers(2)], styles[rng.integers(2)]) if rng.random() < .6 else (styles[rng.integers(4)], styles[rng.integers(4)])
    tags = [dmg, prec, f"{'hex' if s1[0] == 'h' else 'decimal'}/{'hex' if s2[0] == 'h' else 'decimal'}"]
    with C.scratch() as d:
        f1, f2 = os.path.join(d, "reference.txt"), os.path.join(d, "c.txt")
        t1, t2 = write(rng, rows, s1), write(rng, other, s2)
        if not t1 and not t2:
            return skip("both files empty")
        with open(f1, "w") as f:
            f.write(t1)
        with open(f2, "w") as f:
            f.write(t2)
        what = f"{dmg}, {R} rows of {n} {prec} values, {s1} and {s2}"
        try:
            with np.errstate(all="ignore"):
                got, d_abs, d_rel = compare.compare_files(f1, f2, nb, prec)
            out, argv = io.StringIO(), sys.argv
            code = 0
            with contextlib.redirect_stdout(out), np.errstate(all="ignore"):
                sys.argv = ["acetone_compare", f1, f2, str(nb), *(["--precision", prec] if prec == "double" or rng.random() < .5 else [])]
                try:
                    compare.acetone_compare()
                except SystemExit as e:
                    code = e.code or 0
                finally:
                    sys.argv = argv
        except Exception as e:  # noqa: BLE001
            return violation("crash", f"{what}: {cexec.exc_text(e)}", tags=tags)
        if open(f1).read() != t1 or open(f2).read() != t2:
            return violation("files_changed", what, tags=tags)
    if bool(got) != agree:
        return violation("accepted" if got else "refused", f"{what}: agreement {agree}, the tool says {got} (differences {worst}, {rel})", tags=tags)
    num = r"([-+]?(?:nan|inf|[0-9.]+(?:e[-+]?[0-9]+)?))"
    m = re.search(r"absolute error[^:]*: *" + num, out.getvalue())
    k = re.search(r"relative error[^:]*: *" + num, out.getvalue())
    if not (m and k):
        if agree or not (code or out.getvalue()):
            return violation("report", f"{what}: no report: {out.getvalue()[:300]!r}", tags=tags)
    elif counted:
        for name, seen, true in [("absolute", float(d_abs), worst), ("relative", float(d_rel), rel),
                                 ("printed absolute", float(m[1]), worst), ("printed relative", float(k[1]), rel)]:
            if name.endswith("relative") and worst > MAX / 8:
                continue
            same = not math.isfinite(seen) if not math.isfinite(true) else math.isclose(seen, true, rel_tol=2e-6 if prec == "float" else 1e-12, abs_tol=MIN)
            if not same:
                return violation("difference", f"{what}: maximum {name} difference {true!r}, the tool says {seen!r}", tags=tags)
    elif not code and float(m[1]) <= worst and float(k[1]) <= rel and not re.search(r"(?i)differ|miss|mismatch|size|length|rows", out.getvalue().split("\n\n")[-1]):
        return violation("silent", f"{what}: values or rows without a counterpart are not reported: {out.getvalue()!r}", tags=tags)
    return ok(tags=tags, count={"pairs_compared": sum(len(a) for a in first), "agreeing": int(agree), "differing": int(not agree)},
              sample={"what": what, "agree": agree, "max": [worst, rel]})


def run_real(p):
    """The files of a real generation: reference against program, and against a damaged copy."""
    from acetone_nnet.cli import compare
    rng = np.random.default_rng([p["seed"], 15])
    try:
        c = C.dag_case(p["seed"], rows=4)
    except G.Skip as e:
        return skip(str(e))
    hexa = bool(rng.integers(2))
    with C.scratch() as d:
        try:
            gen = cexec.build_generator(c.model, np.stack(c.xs), to_hex=hexa)
            got = C.run_c(gen, d, flags=C.PLAIN)
            py = cexec.python_reference(gen, d)
        except cexec.StageError as e:
            return skip(str(e))
        a, b = os.path.join(d, "output_python.txt"), os.path.join(d, "output_c.txt")
        if not os.path.exists(b):
            return skip("no output file")
        nb = int(rng.integers(1, 5))
        tags = ["real", "hex" if hexa else "decimal"]
        for x, y, u, v in [(a, b, py, got), (b, a, got, py), (a, a, py, py), (b, b, got, got)]:
            agree, worst = True, 0.0
            for r, s in zip(u[:nb], v[:nb], strict=True):
                for m, n in zip(np.float32(r), np.float32(s), strict=True):
                    g, dd, _, near = oracle(float(m), float(n))
                    if near:
                        return skip("limit")
                    agree &= g
                    worst = max(worst, dd)
            with np.errstate(all="ignore"):
                res, da, _ = compare.compare_files(x, y, nb, "float")
            if bool(res) != agree or not math.isclose(float(da), worst, rel_tol=2e-6, abs_tol=MIN):
                return violation("real", f"{os.path.basename(x)} and {os.path.basename(y)}: agreement {agree}, maximum {worst}; "
                                         f"the tool says {res}, {da}", tags=tags)
    return ok(tags=tags, count={"real_files": 1}, digest=C.digest(c.model, hexa, nb))


if __name__ == "__main__":
    sys.exit(Check("P14", [
        Family("files", gen_case, run_case, 3200, 60000),
        Family("real", seeds("P14real"), run_real, 24, 300),
    ], rule="pairs of output files with one known kind of difference each (16 kinds, both precisions, the notations of the program, of the "
            "reference and of decimal outputs) given to the tool's function and command; exact rational arithmetic decides agreement and the "
            "maximum differences; non-trivial: every case",
       min_evals=1500, require={k: 60 for k in DAMAGE} | {"pairs_compared": 5000, "agreeing": 500, "differing": 500},
       assumptions=["the tolerance is the tool's own: |a-b| < max(smallest normal, 128 eps (|a|+|b|))",
                    "rows after the requested number of tests are not compared"]).main())
