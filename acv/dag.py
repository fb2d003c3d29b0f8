"""Random whole-model DAGs over the supported operator domain."""
import numpy as np

from . import onnxgen as G
from .onnxgen import Builder, Skip

# Features of the operators that the generator is meant to support (the rest is rejected at import).
DOMAIN = frozenset("clip1d clip_opt conv_dil softmax_axis1 pad_wrap pad_noval pad_axes dup constop gather_neg "
                   "gemm_bias matmul_left reduce_neg pool_pad resize_1d resize_scales bcast_rank ident const_left "
                   "nary_const".split())

IMG_OPS = dict(act=5, conv=5, bn=1.5, softmax=.7, pad=1.5, gather=1, gatherelements=.7, matmul_const=1,
               transpose=1, tile=.6, reduce=1, pool=3, resize=1, binary_const=3, concat=3, matmul_dyn=.8, binary=4,
               nary=1.5, dropout=.2, branch=2)
VEC_OPS = dict(act=4, gemm=4, matmul_const=2, softmax=.6, binary_const=2, binary=2, nary=.7, branch=1)
SQUASH = {"conv", "gemm", "matmul_const", "matmul_dyn", "reduce", "binary"}


def _draw(b, table):
    k = list(table)
    w = np.array([table[i] for i in k], float)
    return k[int(b.rng.choice(len(k), p=w / w.sum()))]


def _apply(b, op, pool, x, dom):
    if op in G.SINGLE:
        return G.SINGLE[op](b, x, dom)
    others = [t for t in pool if t != x]
    b.rng.shuffle(others)
    return G.MULTI[op](b, [x, *others, *([x] if "dup" in dom else [])], dom)


def grow(b, pool, table, n, dom, maxsize):
    """Apply n random operators to the tensors of pool (most recent preferred)."""
    done = 0
    for _ in range(6 * n):
        if done >= n:
            break
        op = _draw(b, table)
        # recent tensors are likelier, so that depth grows; older ones stay live for longer
        i = len(pool) - 1 - min(int(b.rng.geometric(.55)) - 1, len(pool) - 1)
        x = pool[i]
        if op == "branch":
            x = b.ch(pool)
            op = "act"
        mark = (len(b.nodes), len(b.inits), list(b.tags), b.n)
        try:
            y = _apply(b, op, pool, x, dom)
            if int(np.prod(b.shape[y])) > maxsize or len(b.shape[y]) != len(b.shape[x]):
                raise Skip
            if op in SQUASH and b.p(.5):
                y = b.node(b.ch(["Tanh", "Sigmoid", "Relu"]), [y])
        except Skip:
            del b.nodes[mark[0]:]
            del b.inits[mark[1]:]
            b.tags = mark[2]
            continue
        pool.append(y)
        done += 1
    return pool


def _sinks(b, pool):
    used = {i for nd in b.nodes for i in nd.input}
    return [t for t in pool if t not in used]


def _join(b, pool, dom):
    """Merge the tensors nobody consumes, when an operator allows it."""
    for _ in range(8):
        s = _sinks(b, pool)
        if len(s) < 2:
            break
        x = s[-1]
        y = None
        for t in s[:-1]:
            a, c = b.shape[x], b.shape[t]
            try:
                if len(a) == len(c) and G._compat(a, c):
                    y = b.node(b.ch(["Add", "Sub", "Mul"]), [x, t])
                else:
                    ax = [i for i in range(1, len(a)) if len(a) == len(c)
                          and all(a[j] == c[j] for j in range(len(a)) if j != i)]
                    if ax:
                        y = b.node("Concat", [x, t] if b.p(.5) else [t, x], axis=ax[0])
            except Skip:
                continue
            if y:
                break
        if not y:
            break
        pool.append(y)
    return pool


def make(seed, n_ops=(3, 14), dom=DOMAIN, maxsize=1200, vec_prob=.25, flatten_prob=.45, table=None, img=None, dtype=np.float32):
    """(builder, model, input shape) of case `seed`."""
    rng = np.random.default_rng([int(seed), 77])
    b = Builder(rng, opset=int(rng.choice([13, 17, 18, 18])), dtype=dtype)
    n = b.ri(*n_ops)
    if b.p(vec_prob) and img is None:
        shape = (1, b.ri(2, 16))
        x = b.inp(shape)
        pool = grow(b, [x], table or VEC_OPS, n, dom, maxsize)
    else:
        shape = img or (1, b.ri(1, 4), b.ri(2, 9), b.ri(2, 9))
        x = b.inp(shape)
        pool = grow(b, [x], table or IMG_OPS, n, dom, maxsize)
        pool = _join(b, pool, dom)
        if b.p(flatten_prob):
            y = G.op_flatten(b, pool[-1], dom)
            pool = grow(b, [y], VEC_OPS, b.ri(1, 4), dom, maxsize)
    pool = _join(b, pool, dom)
    y = pool[-1]
    if y == x:
        raise Skip("empty model")
    m = b.model(y)
    # the tags of pruned operators do not count
    b.tags = sorted({nd.op_type for nd in m.graph.node} | {t for t in b.tags if t[0].islower()})
    return b, m, shape


def stats(m):
    """Shape of the graph: nodes, fan-outs, depth, longest live range."""
    prod = {nd.output[0]: i for i, nd in enumerate(m.graph.node)}
    use = {}
    for i, nd in enumerate(m.graph.node):
        for t in nd.input:
            if t in prod:
                use.setdefault(t, []).append(i)
    return {"nodes": len(prod), "max_fanout": max([len(u) for u in use.values()], default=0),
            "max_span": max([max(u) - prod[t] for t, u in use.items()], default=0)}
