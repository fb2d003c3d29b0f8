"""P08: intermediate tensors stay intact until their last use."""
import _pre  # noqa: F401
import sys
import numpy as np
from acv import cases as C, cexec, dag, fuse, hwc, onnxgen as G, trace
from acv.runner import Check, Family, ok, seeds, skip, violation

# many small tensors of differing sizes that live for long
WIDE = dict(act=4, conv=2, bn=1, pad=2, concat=4, binary=8, binary_const=2, nary=3, branch=6, reduce=2, tile=1, gather=1,
            transpose=1, pool=1, softmax=.5, resize=.5, matmul_const=1)
WIDEV = dict(act=4, gemm=4, binary=6, binary_const=2, nary=3, branch=6, softmax=.5)


def execute(model, xs, kw, traced=False):
    with C.scratch() as d:
        gen = cexec.build_generator(model, np.stack(xs), **kw)
        hooked = traced and trace.install(gen)
        cexec.generate(gen, d)
        py = cexec.python_reference(gen, d)
        hooked = hooked and trace.patch(d)
        cexec.quick_build(d, flags=("-O1",))
        cexec.run_binary(d)
        return cexec.parse_output(d + "/output_c.txt"), py, trace.counts(d) if hooked else (0, 0), len(gen.layers), gen.maxpath


def reorder(m, rng):
    """The same graph with its nodes in another valid order and every tensor and node renamed."""
    m2 = type(m)()
    m2.CopyFrom(m)
    nodes = list(m2.graph.node)
    made = {o for nd in nodes for o in nd.output}
    have, out = set(), []
    while nodes:
        ready = [n for n in nodes if all(i not in made or i in have for i in n.input)]
        n = ready[int(rng.integers(len(ready)))]
        nodes.remove(n)
        out.append(n)
        have |= set(n.output)
    inits = list(m2.graph.initializer)
    rng.shuffle(inits)
    names = {}
    kind = int(rng.integers(3))

    def nm(s):
        if s == "":
            return s
        if s not in names:
            k = len(names)
            names[s] = [f"/blk/{9 - k % 10}/x.{k}", f"{(k * 7919) % 1000}_{k}", f"a{'b' * (k % 5)}:{k}"][kind]
        return names[s]

    for n in out:
        n.input[:] = [nm(i) for i in n.input]
        n.output[:] = [nm(i) for i in n.output]
        n.name = "n/" + nm("node " + n.name)
    for t in [*inits, *m2.graph.input, *m2.graph.output]:
        t.name = nm(t.name)
    del m2.graph.node[:], m2.graph.initializer[:], m2.graph.value_info[:]
    m2.graph.node.extend(out)
    m2.graph.initializer.extend(inits)
    import onnx

    return onnx.shape_inference.infer_shapes(m2)


def verdict(c, kw):
    rng = np.random.default_rng([c.seed, 80])
    tags = [*c.tags, *C.opt_tags({k: v for k, v in kw.items() if k != "versions" or "direct_block" not in str(v)})]
    try:
        plain, py, _, n, paths = execute(c.model, c.xs, kw)
        traced, _, (prods, uses), _, _ = execute(c.model, c.xs, kw, traced=True)
        m2 = reorder(c.model, rng)
        other, pother, _, _, _ = execute(m2, c.xs, kw)
    except cexec.StageError as e:
        v = C.stage_violation(e, tags=tags)
        if "ACV-TRACE" in e.detail:
            v["kind"] = "clobbered"
        return v
    bad = C.compare("c_vs_model", plain, c.ref, tags=tags) or C.compare("python_vs_model", py, c.ref, tags=tags)
    if not bad:
        for r, (a, b2) in enumerate(zip(plain, other)):
            if a.tobytes() != b2.tobytes():
                bad = violation("reordered", f"row {r}: {a[:6]} became {b2[:6]} for the same graph listed in another order", tags=tags)
        for r, (a, b2) in enumerate(zip(plain, traced)):
            if a.tobytes() != b2.tobytes():
                bad = violation("traced", f"row {r}: {a[:6]} became {b2[:6]} under the monitor", tags=tags)
    bad = bad or C.compare("python_reordered", pother, py, tags=tags)
    if bad:
        return bad
    moved = [nd.op_type for nd in m2.graph.node] != [nd.op_type for nd in c.model.graph.node]
    return ok(tags=tags, digest=C.digest(c.model, sorted(kw.items(), key=str)), nontrivial=c.stats["max_fanout"] > 1,
              count={"graphs": 1, "reads_checked": uses, "writes_recorded": prods, "reordered_differently": int(moved),
                     "live_span_over_3": int(c.stats["max_span"] > 3), "live_span_over_8": int(c.stats["max_span"] > 8),
                     "over_50_layers": int(n > 50), "over_100_layers": int(n > 100),
                     "several_live_tensors": int(paths > 2)},
              sample={"nodes": n, **c.stats, "buffers": paths})


def run_wide(p):
    try:
        rng = np.random.default_rng([p["seed"], 81])
        big = p["seed"] % 3 == 0
        vec = rng.random() < .3
        c = C.dag_case(p["seed"], rows=2, n_ops=(14, 34) if big else (4, 14), maxsize=300, vec_prob=1 if vec else 0,
                       table=WIDEV if vec else WIDE, flatten_prob=.2 if not vec else 0)
    except G.Skip as e:
        return skip(str(e))
    kw = {"optimization": True} if p["seed"] % 4 == 1 else {}
    if p["seed"] % 5 == 1:
        kw["versions"] = {"Conv2D": "std_gemm_nn"}
    return verdict(c, kw)


def run_long(p):
    try:
        c = C.dag_case(p["seed"], rows=2, n_ops=(50, 140), maxsize=60, vec_prob=.5, table=None)
    except G.Skip as e:
        return skip(str(e))
    return verdict(c, {"optimization": bool(p["seed"] % 2)})


def run_fuse(p):
    try:
        b, m, shape = fuse.make(p["seed"])
        c = C.finish(b, m, shape, p["seed"])
    except G.Skip as e:
        return skip(str(e))
    return verdict(c, {"optimization": bool(p["seed"] % 4)})


def run_hwc(p):
    try:
        b, m, shape = hwc.make(p["seed"], n_ops=(3, 12))
        c = C.finish(b, m, shape, p["seed"])
    except G.Skip as e:
        return skip(str(e))
    return verdict(c, {"versions": hwc.VERSIONS, "gen_data_format": "channels_last", "optimization": bool(p["seed"] % 2)})


if __name__ == "__main__":
    sys.exit(Check("P08", [
        Family("wide", seeds("P08wide"), run_wide, 300, 4000),
        Family("long", seeds("P08long"), run_long, 20, 300),
        Family("fuse", seeds("P08fuse"), run_fuse, 90, 1200),
        Family("hwc", seeds("P08hwc"), run_hwc, 70, 800),
    ], rule="graphs with many long-lived tensors of differing sizes; the program records a hash of every tensor when produced and "
            "checks it at every read; the same graph listed in another order and renamed must give the same bits; non-trivial: some "
            "tensor has several consumers",
       min_evals=120, require={"graphs": 120, "reordered_differently": 50, "live_span_over_3": 60, "live_span_over_8": 15,
                               "several_live_tensors": 40, "over_50_layers": 4},
       assumptions=["tensor reads are observed at operator granularity (an operator reads its inputs at its start)"]).main())
