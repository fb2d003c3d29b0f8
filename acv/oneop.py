"""One-operator (and operator-after-producer) models over shapes and attributes."""
import numpy as np

from . import cases, onnxgen as G
from .dag import DOMAIN

OPS = sorted(G.SINGLE) + sorted(G.MULTI)


def build(op, seed, dom=DOMAIN, dtype=np.float32):
    rng = np.random.default_rng([int(seed), sum(map(ord, op))])
    b = G.Builder(rng, opset=int(rng.choice([13, 17, 18])) if op == "reduce" else 18, dtype=dtype)
    if op == "gemm" or (op == "matmul_const" and rng.random() < .3):
        shape = (1, b.ri(1, 12))
    else:
        shape = (1, b.ri(1, 5), b.ri(1, 8), b.ri(1, 8))
        if b.p(.12):        # all the values along one dimension
            k = b.ri(1, 3)
            shape = tuple(d if i == k else 1 for i, d in enumerate(shape))
    x = b.inp(shape)
    if op in G.SINGLE:
        y = G.SINGLE[op](b, x, dom)
    elif op == "matmul_dyn":
        y = G.MULTI[op](b, [b.node("Relu", [x]), b.node("Transpose", [x], perm=[0, 1, 3, 2])], dom)
    else:
        xs = [x, b.node("Relu", [x]), b.node("Tanh", [x])]
        if op != "concat":
            xs.append(b.node("ReduceMax", [x, b.init(np.array([b.ri(1, 3)], np.int64))]))
        if b.p(.5):
            xs = xs[1:]
        b.rng.shuffle(xs)
        y = G.MULTI[op](b, list(xs), dom)
    if y == x:
        raise G.Skip("identity")
    m = b.model(y)
    b.tags = sorted({nd.op_type for nd in m.graph.node} | {t for t in b.tags if t[0].islower()})
    return b, m, shape


def case(op, seed, dom=DOMAIN, rows=2):
    b, m, shape = build(op, seed, dom)
    return cases.finish(b, m, shape, seed, rows)
