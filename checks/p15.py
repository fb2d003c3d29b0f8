"""P15: NNET networks are executed according to the NNET format."""
import _pre  # noqa: F401
import hashlib
import os
import pathlib
import re
import sys

import numpy as np
from acv import cases as C, cexec, driver, oracle
from acv.runner import Check, Family, ok, seeds, skip, violation

# the inference function called directly: twice on each row, from a buffer it must not change
TWICE = driver.PRELUDE + r"""
int main(int argc, char **argv){
  FILE *f = fopen(argv[1], "w");
  inference_t *c = new_ctx();
  memset(c, 0xA5, sizeof *c);
  for (int r = 0; r < nb_samples; ++r) {
    elt *in = malloc(sizeof(elt) * nn_input_size), *o1 = malloc(sizeof(elt) * nn_output_size), *o2 = malloc(sizeof(elt) * nn_output_size);
    memcpy(in, nn_test_inputs[r], sizeof(elt) * nn_input_size);
    inference(c, o1, in);
    if (memcmp(in, nn_test_inputs[r], sizeof(elt) * nn_input_size)) { fprintf(stderr, "ERROR: input modified\n"); return 5; }
    inference(c, o2, in);
    if (memcmp(o1, o2, sizeof(elt) * nn_output_size)) { fprintf(stderr, "ERROR: second inference differs\n"); return 5; }
    put(f, o1);
    free(in); free(o1); free(o2);
  }
  fclose(f); free(c);
  return 0;
}
"""


def text(rng, offset=False):
    """A network file as text: layer sizes, values and notation are drawn; with offset, narrow intervals far from zero."""
    deep = rng.random() < .15
    sizes = [int(v) for v in rng.integers(1, 7 if deep else 12, int(rng.integers(7, 12)) if deep else int(rng.integers(2, 7)))]
    if rng.random() < .1:
        sizes[int(rng.integers(len(sizes)))] = int(rng.integers(40, 90))
    n = sizes[0]
    form = [lambda v: repr(float(v)), lambda v: f"{v:.5e}", lambda v: f"{v:.8f}", lambda v: f"{v:.17g}", lambda v: f"{v:.3E}"][int(rng.integers(5))]
    sep = "," if rng.random() < .8 else ", "
    end = ",\n" if rng.random() < .8 else "\n"

    def row(vs, f=form):
        return sep.join(f(v) for v in vs) + end
    t = "".join(str(rng.choice(["// Neural Network File Format\n", "//\n", "// by, with, commas, 1.0,\n"])) for _ in range(int(rng.integers(0, 5))))
    t += row([len(sizes) - 1, n, sizes[-1], max(sizes)], str) + row(sizes, str) + row([0], str)
    lo = rng.uniform(-3, 1, n) * 10.0 ** rng.integers(-1, 3)
    hi = lo + rng.uniform(.1, 4, n) * 10.0 ** rng.integers(-1, 3)
    mean, span = rng.standard_normal(n + 1) * 10.0 ** rng.integers(-1, 2, n + 1), rng.uniform(.3, 5, n + 1) * 10.0 ** rng.integers(0, 2, n + 1)
    if offset:
        form = [lambda v: repr(float(v)), lambda v: f"{v:.8f}", lambda v: f"{v:.17g}"][int(rng.integers(3))]
        mid = rng.choice([-1, 1], n) * rng.uniform(1, 9.9, n) * 10.0 ** rng.integers(3, 7, n)
        half = np.abs(mid) * 10.0 ** rng.uniform(-3, -.5, n)
        lo, hi = mid - half * rng.uniform(.3, 1, n), mid + half * rng.uniform(.3, 1, n)
        mean[:n], span[:n] = mid + half * rng.uniform(-.5, .5, n), half * rng.uniform(.3, 2, n)
        row = lambda vs, f=form: sep.join(f(v) for v in vs) + end
    t += row(lo) + row(hi) + row(mean) + row(span)
    for a, b in zip(sizes[:-1], sizes[1:]):
        w = rng.standard_normal((b, a)) / np.sqrt(a) * 1.5
        if rng.random() < .3:
            w[rng.random((b, a)) < .4] = 0
        for k in range(b):
            t += row(w[k])
        for k in range(b):
            t += row([rng.standard_normal()])
    return t, sizes


def interpret(t, x, normalise, single=None):
    """The format, read and executed anew, in double precision; single: the constants perturbed as single precision may."""
    lines = [ln for ln in t.split("\n") if ln.strip() and not ln.startswith("//")]

    def nums(ln):
        return [float(v) for v in re.findall(r"[-+0-9.eE]+", ln)]
    sizes = [int(v) for v in nums(lines[1])]
    lo, hi, mean, rng_ = (np.array(nums(ln)) for ln in lines[3:7])
    k = 7
    if single is not None:
        lo, hi, mean, rng_ = (a * (1 + 1e-7 * single.uniform(-1, 1, a.size)) for a in (lo, hi, mean, rng_))
    v = np.asarray(x, np.float64)
    if normalise:
        v = (np.clip(v, lo, hi) - mean[:-1]) / rng_[:-1]
    for i, (a, b) in enumerate(zip(sizes[:-1], sizes[1:])):
        w = np.array([nums(lines[k + r]) for r in range(b)]).reshape(b, a)
        bias = np.array([nums(lines[k + b + r])[0] for r in range(b)])
        k += 2 * b
        v = w @ v + bias
        if i < len(sizes) - 2:
            v = np.maximum(v, 0)
    assert k == len(lines), "trailing lines"
    return v * rng_[-1] + mean[-1] if normalise else v


def rows(rng, t, n, count, normalise):
    lines = [ln for ln in t.split("\n") if ln.strip() and not ln.startswith("//")]
    lo, hi = (np.array([float(v) for v in re.findall(r"[-+0-9.eE]+", ln)]) for ln in lines[3:5])
    out, outside = [], 0
    for _ in range(count):
        kind = rng.integers(5)
        if not normalise:
            x = rng.standard_normal(n) * 3
        elif kind == 0:
            x = rng.uniform(lo, hi)
        elif kind == 1:         # around and beyond the bounds
            x = rng.uniform(lo - 2 * (hi - lo), hi + 2 * (hi - lo))
        elif kind == 2:         # on the bounds
            x = np.where(rng.random(n) < .5, lo, hi)
        elif kind == 3:         # far away
            x = rng.choice([-1e4, 1e4], n)
        else:
            x = rng.uniform(lo, hi)
            x[int(rng.integers(n))] = float(rng.choice([lo[0] - 1, hi[0] + 1, 0.0]))
        x = x.astype(np.float32)
        outside += int(((x < lo) | (x > hi)).sum())
        out.append(x)
    return out, outside


def run(p):
    rng = np.random.default_rng([p["seed"], 15])
    normalise = p["normalise"]
    t, sizes = text(rng, p.get("offset", False))
    xs, outside = rows(rng, t, sizes[0], int(rng.integers(1, 7)), normalise)
    want = [interpret(t, x, normalise) for x in xs]
    # the network in float: what an input rounding error gives
    for x, w in zip(xs, want):
        if p.get("offset"):
            ys = [interpret(t, x, normalise, single=rng) for _ in range(12)]
        else:
            ys = [interpret(t, x.astype(np.float64) * (1 + 1e-6 * rng.standard_normal(x.size)), normalise)]
        if any(not oracle.close(y, w, rtol=3e-5, atol=1e-6)[0] for y in ys) or np.abs(w).max() > 1e6:
            return skip("ill-conditioned")
    kw = C.options(p["seed"])
    kw.pop("versions", None)
    kw["normalize"] = normalise
    if rng.random() < .2:
        kw["debug_mode"] = "onnx"
    tags = [f"layers:{min(len(sizes) - 1, 7)}", "normalised" if normalise else "plain", *C.opt_tags(kw), *(["outside"] if outside else [])]
    data = np.stack(xs)
    if rng.random() < .3:
        data = data.reshape(len(xs), 1, -1)
    mine = data.copy()
    with C.scratch() as d:
        path = os.path.join(d, "net.nnet")
        with open(path, "w") as f:
            f.write(t)
        src = path if rng.random() < .5 else pathlib.Path(path)
        try:
            gen = cexec.build_generator(src, data, **kw)
            cexec.generate(gen, d)
            py = cexec.python_reference(gen, d)
            if not np.array_equal(data, mine):
                return violation("data_modified", "the caller's dataset was modified", tags=tags)
            if kw.get("bin_dataset"):
                cexec.make(d)
                cexec.run_binary(d)
                got = again = cexec.parse_output(d + "/output_c.txt")
            else:
                cexec.quick_build(d, flags=C.SAN)
                cexec.run_binary(d, extra_env=C.SAN_ENV)
                got = cexec.parse_output(d + "/output_c.txt")
                driver.build(d, TWICE, "twice", C.SAN)
                cexec.run_binary(d, "acv_twice", out="output_t.txt", extra_env=C.SAN_ENV)
                again = cexec.parse_output(d + "/output_t.txt")
            py2 = cexec.python_reference(gen, d)
            if open(path).read() != t:
                return violation("file_modified", "the network file was modified", tags=tags)
        except cexec.StageError as e:
            v = C.stage_violation(e, tags=tags)
            for key, kind in (("input modified", "input_modified"), ("second inference", "history")):
                if key in e.detail:
                    v["kind"] = kind
            return v
    # the decimal notation of the outputs holds nine digits
    bad = C.compare("program", got, want, tags=tags) or C.compare("inference", again, want, tags=tags) or \
        C.compare("reference", py, want, tags=tags) or C.compare("reference_again", py2, py, tags=tags)
    if bad:
        return bad
    return ok(tags=tags, digest=hashlib.sha1(repr((t, [x.tobytes() for x in xs], sorted(kw.items()))).encode()).hexdigest(),
              nontrivial=len(sizes) > 2, count={"rows_compared": 3 * len(xs), "values_outside_bounds": outside, "layers": len(sizes) - 1},
              sample={"sizes": sizes, "rows": len(xs), "outside": outside})


def fam(name, normalise, **kw):
    g = seeds("P15" + name)
    return lambda i: {**g(i), "normalise": normalise, **kw}


if __name__ == "__main__":
    sys.exit(Check("P15", [
        Family("plain", fam("plain", False), run, 100, 800),
        Family("normalised", fam("norm", True), run, 220, 1600),
        Family("offset", fam("offset", True, offset=True), run, 120, 800),
    ], rule="network files drawn from the format (sizes, depth, notations, separators, comments), executed by an interpreter of the format written "
            "anew; intervals around zero and narrow ones far from it; inputs inside, on, around and far beyond the bounds; the program, the inference function called twice on a buffer it must leave "
            "as it is, and the Python reference, before and after; non-trivial: at least two layers",
       min_evals=100, require={"normalised": 60, "plain": 30, "outside": 40, "rows_compared": 600}).main())
