"""Model cases shared by the checks: draw, reference, conditioning filter, and the C tool chain run on them."""
import hashlib
import os

import numpy as np

from . import cexec, dag, env, oracle
from . import onnxgen as G
from .runner import ok, violation

SAN = ("-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all")
SAN_ENV = {"ASAN_OPTIONS": "detect_leaks=1:abort_on_error=0:detect_stack_use_after_return=1",
           "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1"}
PLAIN = ("-O2", "-fno-tree-loop-vectorize")   # gcc 13.3 emits misaligned SSE accesses for some strided convolution loops


class MCase:
    """A drawn model, its inputs and what onnxruntime computes for them."""


def inputs(seed, shape, rows, dtype=np.float32):
    """Rows of several kinds: noise, all zeros, one-hot, large, equal rows."""
    rng = np.random.default_rng([int(seed), 5])
    xs = []
    for i in range(rows):
        k = int(rng.integers(8)) if i else 0
        x = rng.standard_normal(shape)
        if k == 1:
            x = np.zeros(shape)
        elif k == 2:
            x = np.zeros(shape)
            x.flat[int(rng.integers(x.size))] = 1.0
        elif k == 3:
            x = x * 5
        elif k == 4:
            x = np.abs(x)
        elif k == 5:
            x = -np.abs(x)
        xs.append(x.astype(dtype))
    return xs


def finish(b, m, shape, seed, rows=2):
    """Reference outputs; Skip when the model amplifies rounding errors beyond the comparison's tolerance."""
    c = MCase()
    c.b, c.model, c.shape, c.seed = b, m, shape, seed
    c.tags, c.stats = b.tags, dag.stats(m)
    c.xs = inputs(seed, shape, rows, b.dtype)
    inter = [nd.output[0] for nd in m.graph.node]
    names = [o.name for o in m.graph.output]
    m2 = type(m)()
    m2.CopyFrom(m)
    have = set(names)
    import onnx
    for t in inter:
        if t not in have:
            m2.graph.output.append(onnx.helper.make_empty_tensor_value_info(t))
    out = oracle.ort_run(m2, c.xs)
    order = [o.name for o in m2.graph.output]
    softmax_in = {nd.input[0] for nd in m.graph.node if nd.op_type == "Softmax"}
    for row in out:
        vals = dict(zip(order, row))
        for t, v in vals.items():
            if not np.isfinite(v).all() or np.abs(v).max(initial=0) > 1e4:
                raise G.Skip("magnitude")
            if t in softmax_in and np.abs(v).max(initial=0) > 30:
                raise G.Skip("softmax range")
    c.inter = [dict(zip(order, r)) for r in out]
    c.ref = [r[names[0]] for r in c.inter]
    # rounding noise: a relative input perturbation of 2e-6 must not be visible at the tolerance of the comparison
    rng = np.random.default_rng([int(seed), 6])
    noisy = [(x * (1 + 2e-6 * rng.standard_normal(x.shape))).astype(x.dtype) for x in c.xs]
    for a, r in zip(oracle.ort_run(m, noisy), c.ref):
        if not oracle.close(a[0], r, rtol=2e-5, atol=2e-6)[0]:
            raise G.Skip("ill-conditioned")
    return c


def dag_case(seed, rows=2, **kw):
    b, m, shape = dag.make(seed, **kw)
    return finish(b, m, shape, seed, rows)


def digest(m, *extra):
    data = m.encode() if isinstance(m, str) else m.SerializeToString()
    return hashlib.sha1(data + repr(extra).encode()).hexdigest()


def stage_violation(e, **kw):
    last = [ln for ln in e.detail.strip().splitlines() if ln.strip()]
    if e.stage in ("run", "compile"):
        key = next((ln for ln in last if "ERROR:" in ln or "runtime error" in ln or "error:" in ln), last[0] if last else "")
    else:
        key = last[-1] if last else ""
    return violation(e.stage, f"{key[:300]} || {e.detail[-900:]}", **kw)


def compare(kind, got, ref, **kw):
    """None, or the violation that the rows differ."""
    if len(got) != len(ref):
        return violation(kind, f"{len(got)} rows instead of {len(ref)}", **kw)
    for r, (p, q) in enumerate(zip(got, ref)):
        good, excess, i = oracle.close(p, q)
        if not good:
            q = np.asarray(q).ravel()
            if i < 0:
                return violation(kind, f"row {r}: {np.asarray(p).size} values instead of {q.size}", **kw)
            return violation(kind, f"row {r} element {i}: got {float(np.ravel(p)[i])!r}, expected {float(q[i])!r}", **kw)
    return None


def run_c(gen, d, *, flags=PLAIN, extra_env=None, makefile=False, timeout=60):
    """Generate, build and run; returns the rows the program wrote."""
    cexec.generate(gen, d)
    if makefile:
        cexec.make(d)
    else:
        cexec.quick_build(d, flags=flags)
    cexec.run_binary(d, extra_env=extra_env, timeout=timeout)
    return cexec.parse_output(os.path.join(d, "output_c.txt"))


class scratch:
    def __enter__(self):
        self.d = env.mkdtemp()
        return self.d

    def __exit__(self, *a):
        cexec.rm(self.d)


__all__ = ["G", "ok", "violation"]


CONV_VERSIONS = ("6loops", "std_gemm_nn", "std_gemm_nt", "std_gemm_tn", "std_gemm_tt")


def options(seed):
    """Random generator options that must not change what is computed."""
    rng = np.random.default_rng([int(seed), 9])
    kw = {}
    if rng.random() < .4:
        kw["optimization"] = True
    if rng.random() < .6:
        kw["versions"] = {"Conv2D": str(rng.choice(CONV_VERSIONS))}
    if rng.random() < .3:
        kw["to_hex"] = bool(rng.random() < .5)
    if rng.random() < .2:
        kw["bin_dataset"] = True
    if rng.random() < .2:
        kw["target_page_size"] = int(rng.choice([64, 256, 4096]))
    if rng.random() < .2:
        kw["verbose"] = True
    return kw


def opt_tags(kw):
    t = []
    for k, v in kw.items():
        t.append(f"{k}={v['Conv2D']}" if k == "versions" else f"{k}={v}")
    return t
