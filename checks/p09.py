"""P09: inference is re-entrant and independent of history."""
import _pre  # noqa: F401
import os
import sys
import types
import numpy as np
import p15
from acv import cases as C, cexec, driver, hwc, onnxgen as G, oneop, oracle
from acv.runner import Check, Family, ok, seeds, skip, violation

TSAN = ("-O1", "-fsanitize=thread")
TSAN_ENV = {"TSAN_OPTIONS": "halt_on_error=1:exitcode=66:report_bugs=1"}


def bits(rows):
    return [r.tobytes() for r in rows]


def observe(c, kw, nrows, file=None):
    """Rows of a dataset that repeats the case's rows in a random order, in the program, in threads, and one by one."""
    rng = np.random.default_rng([c.seed, 90])
    order = rng.integers(0, len(c.xs), nrows)
    order[: len(c.xs)] = rng.permutation(len(c.xs))[: nrows]
    data = np.stack([c.xs[i] for i in order])
    tags = [*c.tags, *C.opt_tags({k: v for k, v in kw.items() if k != "versions"})]
    omp = bool(rng.random() < .5)
    with C.scratch() as d:
        try:
            gen = cexec.build_generator(c.model, data, **kw)
            cexec.generate(gen, d)
            before = gen.test_dataset.tobytes()
            py = cexec.python_reference(gen, d)
            again = cexec.python_reference(gen, d)
            if gen.test_dataset.tobytes() != before:
                return violation("input_modified", "the Python reference modified the dataset", tags=tags)
            cexec.quick_build(d, flags=(*C.PLAIN, "-fopenmp") if omp else C.PLAIN)
            cexec.run_binary(d, extra_env={"OMP_NUM_THREADS": "8"} if omp else None)
            main = cexec.parse_output(d + "/output_c.txt")
            driver.build(d, driver.THREADS_MAIN, "thr", TSAN, ld=("-lm", "-lpthread"))
            cexec.run_binary(d, "acv_thr", out="output_thr.txt", extra_env=TSAN_ENV, timeout=100)
            thr = cexec.parse_output(d + "/output_thr.txt")
        except cexec.StageError as e:
            v = C.stage_violation(e, tags=tags)
            for key, kind in (("ThreadSanitizer", "data_race"), ("input modified", "input_modified"), ("wrote around", "wrote_outside"),
                              ("context:", "history"), ("concurrent:", "concurrent")):
                if key in e.detail:
                    v["kind"] = kind
            return v
    if len(main) != nrows or len(thr) != nrows or len(py) != nrows:
        return violation("rows", f"{len(main)}/{len(thr)}/{len(py)} rows instead of {nrows}", tags=tags)
    bad = C.compare("reference_history", again, py, tags=tags)
    if bad:
        return bad
    seen = {}
    for r, i in enumerate(order):
        for what, rows in (("program", main), ("reference", py)):
            k = (what, int(i))
            if k not in seen:
                seen[k] = (r, rows[r])
            elif what == "program" and seen[k][1].tobytes() != rows[r].tobytes():
                return violation("position", f"rows {seen[k][0]} and {r} hold the same input but gave {seen[k][1][:6]} and {rows[r][:6]}", tags=tags)
            elif what == "reference":
                bad = C.compare("reference_position", [rows[r]], [seen[k][1]], tags=tags)
                if bad:
                    return bad
    ref = [c.ref[i] for i in order]
    bad = C.compare("program_vs_model", main, ref, tags=tags) or C.compare("driver_vs_model", thr, ref, tags=tags) or \
        C.compare("reference_vs_model", py, ref, tags=tags)
    if bad:
        return bad
    n = nrows * (1 + 3 + 2 + 6 + 1)
    return ok(tags=[*tags, "openmp" if omp else "serial"], digest=C.digest(getattr(c, "key", c.model), nrows, sorted(kw.items(), key=str)),
              count={"inferences_observed": n, "concurrent_inferences": nrows * 6, "datasets_over_one_batch": int(nrows > 32),
                     "programs": 1, "openmp_programs": int(omp)},
              sample={"ops": c.tags, "rows": nrows, "openmp": omp})


def rows_of(seed):
    return int(np.random.default_rng([seed, 91]).choice([1, 2, 5, 31, 32, 33, 40, 64, 65, 97]))


def opts(seed):
    kw = C.options(seed)
    kw.pop("bin_dataset", None)
    kw.pop("verbose", None)
    kw.pop("to_hex", None)
    return kw


def run_dag(p):
    try:
        c = C.dag_case(p["seed"], rows=4, maxsize=600)
    except G.Skip as e:
        return skip(str(e))
    return observe(c, opts(p["seed"]), rows_of(p["seed"]))


def run_op(p):
    try:
        c = oneop.case(p["op"], p["seed"], rows=4)
    except G.Skip as e:
        return skip(str(e))
    return observe(c, opts(p["seed"]), rows_of(p["seed"]))


def run_hwc(p):
    try:
        b, m, shape = hwc.make(p["seed"])
        c = C.finish(b, m, shape, p["seed"], rows=4)
    except G.Skip as e:
        return skip(str(e))
    return observe(c, {"versions": hwc.VERSIONS, "gen_data_format": "channels_last"}, rows_of(p["seed"]))


def run_nnet(p):
    """Networks of the NNET format, with their normalisation or without it."""
    rng = np.random.default_rng([p["seed"], 92])
    normalise = bool(rng.random() < .8)
    t, sizes = p15.text(rng)
    xs, _ = p15.rows(rng, t, sizes[0], 4, normalise)
    ref = [p15.interpret(t, x, normalise) for x in xs]
    for x, r in zip(xs, ref):
        y = p15.interpret(t, x.astype(np.float64) * (1 + 1e-6 * rng.standard_normal(x.size)), normalise)
        if not oracle.close(y, r, rtol=3e-5, atol=1e-6)[0] or np.abs(r).max() > 1e6:
            return skip("ill-conditioned")
    kw = opts(p["seed"])
    kw.pop("versions", None)
    kw["normalize"] = normalise
    with C.scratch() as d:
        path = os.path.join(d, "net.nnet")
        with open(path, "w") as f:
            f.write(t)
        c = types.SimpleNamespace(seed=p["seed"], model=path, key=t, xs=xs, ref=ref,
                                  tags=["nnet", "normalised" if normalise else "plain"])
        return observe(c, kw, rows_of(p["seed"]))


def gen_op(i):
    return {"op": oneop.OPS[i % len(oneop.OPS)], **seeds("P09op")(i)}


if __name__ == "__main__":
    sys.exit(Check("P09", [
        Family("dag", seeds("P09dag"), run_dag, 180, 2000),
        Family("op", gen_op, run_op, len(oneop.OPS) * 8, len(oneop.OPS) * 100),
        Family("hwc", seeds("P09hwc"), run_hwc, 80, 800),
        Family("nnet", seeds("P09nnet"), run_nnet, 40, 400),
    ], rule="datasets repeating a few rows in random order (up to four batches) run by the generated program (serial or OpenMP), and by "
            "a ThreadSanitizer driver with fresh, dirty, reused and concurrent contexts, guarded inputs, predictions and contexts; all "
            "results of one row must have the same bits",
       min_evals=120, require={"concurrent_inferences": 10000, "datasets_over_one_batch": 40, "openmp_programs": 40, "normalised": 12}).main())
