"""Operators on tensors of one to three, or five, dimensions (the generator holds every tensor in four), over their axes and attributes."""
import numpy as np

from .oddgen import OddBuilder, finish
from .onnxgen import Skip

REDUCE = ["ReduceMax", "ReduceMin", "ReduceMean", "ReduceSum", "ReduceProd"]


def _i(b, *v):
    return b.init(np.array(v, np.int64))


def _axis(b, s, lo=1):
    if lo >= len(s):
        raise Skip
    a = b.ri(lo, len(s) - 1)
    b.tag(f"axis{a}")
    return a - len(s) if b.p(.3) else a


def _act(b, x):
    k = b.ch(["Relu", "Tanh", "Sigmoid", "LeakyRelu", "Exp", "Clip"])
    if k == "Clip":
        return b.node("Clip", [x, b.init(np.float32(-.4)), b.init(np.float32(.5))])
    return b.node(k, [x])


def _binary(b, x):
    s = b.shape[x]
    k = b.ch(["Add", "Mul", "Sub", "Div", "Max", "Min"])
    if b.p(.5):
        t = b.ch([list(s), list(s[1:]), [1] * len(s), [s[-1]], [1, s[-1]], [1, *s], [s[0]] + [1] * (len(s) - 1)])
        c = b.w(*t) if t else b.w(1)
        c = np.where(np.abs(c) < .3, .5, c).astype(np.float32)
        v = b.init(c)
    else:
        v = b.node("Exp", [b.node("Tanh", [x])]) if k == "Div" else b.node("Tanh", [x])
        if b.p(.5) and len(s) > 1:
            v = b.node("ReduceMax", [v, _i(b, b.ri(1, len(s) - 1))], keepdims=b.ch([0, 1, 1]))
            b.tag("bcast")
    ins = [x, v]
    if k in ("Max", "Min", "Mean") and b.p(.3):
        ins.append(b.node("Sigmoid", [x]))
    if b.p(.4):
        ins = ins[::-1]
    return b.node(k, ins)


def _matmul(b, x):
    s = b.shape[x]
    r = b.rng.random()
    if r < .5:
        return b.node("MatMul", [x, b.init(b.w(s[-1], b.ri(1, 4)))])
    if len(s) < 2:
        raise Skip
    if r < .75:
        return b.node("MatMul", [b.init(b.w(b.ri(1, 4), s[-2])), x])
    p = list(range(len(s)))
    p[-1], p[-2] = p[-2], p[-1]
    return b.node("MatMul", [x, b.node("Transpose", [b.node("Tanh", [x])], perm=p)])


def _transpose(b, x):
    r = len(b.shape[x])
    if b.p(.2):
        return b.node("Transpose", [x])
    p = [0, *(1 + b.rng.permutation(r - 1)).tolist()] if b.p(.7) else b.rng.permutation(r).tolist()
    b.tag("perm" + "".join(map(str, p)))
    return b.node("Transpose", [x], perm=p)


def _concat(b, x):
    xs = [x, b.node("Tanh", [x])]
    if b.p(.3):
        xs.append(b.node("Sigmoid", [x]))
    if b.p(.3):
        xs.append(b.init(b.w(*b.shape[x])))
    b.rng.shuffle(xs)
    return b.node("Concat", list(xs), axis=_axis(b, b.shape[x], 0 if b.p(.2) else 1))


def _gather(b, x):
    s = b.shape[x]
    a = _axis(b, s)
    n = s[a]
    idx = b.rng.integers(-n if b.p(.3) else 0, n, b.ri(1, 4))
    return b.node("Gather", [x, b.init(idx.astype(np.int64))], axis=a)


def _gatherelements(b, x):
    s = b.shape[x]
    a = _axis(b, s)
    t = list(s)
    t[a] = b.ri(1, 4)
    return b.node("GatherElements", [x, b.init(b.rng.integers(0, s[a], t).astype(np.int64))], axis=a)


def _reduce(b, x):
    s = b.shape[x]
    k = b.ch(REDUCE)
    kw = {"keepdims": b.ch([0, 1, 1])}
    if len(s) < 2:
        raise Skip
    axes = sorted((1 + b.rng.choice(len(s) - 1, b.ri(1, len(s) - 1), replace=False)).tolist()) if b.p(.9) else [0]
    b.tag("ax" + "".join(map(str, axes)), f"keep{kw['keepdims']}")
    if b.p(.3):
        axes = [a - len(s) for a in axes]
    if b.opset < 18 and k != "ReduceSum":
        return b.node(k, [x], axes=axes, **kw)
    if b.p(.1):
        return b.node(k, [x], **kw, noop_with_empty_axes=b.ri(0, 1))
    return b.node(k, [x, _i(b, *axes)], **kw)


def _pad(b, x):
    s = b.shape[x]
    m = b.ch(["constant", "edge", "reflect"])
    lim = [0] + [min(2, n - 1) if m == "reflect" else 2 for n in s[1:]]
    pads = [b.ri(0, n) for n in lim * 2]
    b.tag(m)
    return b.node("Pad", [x, _i(b, *pads), *([b.init(np.float32(.25))] if m == "constant" and b.p(.7) else [])], mode=m)


def _tile(b, x):
    s = b.shape[x]
    return b.node("Tile", [x, _i(b, *([1] + [b.ri(1, 3) for _ in s[1:]]))])


def _bn(b, x):
    s = b.shape[x]
    if len(s) < 2:
        raise Skip
    c = s[1]
    v = [b.init(b.w(c)) for _ in range(3)] + [b.init(b.rng.uniform(.4, 2, c).astype(np.float32))]
    return b.node("BatchNormalization", [x, *v], **({} if b.p(.5) else {"epsilon": .01}))


def _softmax(b, x):
    s = b.shape[x]
    if b.p(.3):
        return b.node("Softmax", [x])
    return b.node("Softmax", [x], axis=_axis(b, s, 0 if b.p(.1) else min(1, len(s) - 1)))


def _gemm(b, x):
    s = b.shape[x]
    if len(s) != 2:
        raise Skip
    n, t = b.ri(1, 4), b.ri(0, 1)
    ins = [x, b.init(b.w(n, s[1]) if t else b.w(s[1], n))]
    if b.p(.6):
        ins.append(b.init(b.ch([b.w(n), b.w(1), b.w(1, n)])))
    return b.node("Gemm", ins, transB=t, **({} if b.p(.5) else {"alpha": .5, "beta": 2.}))


def _conv1d(b, x):
    s = b.shape[x]
    if len(s) != 3:
        raise Skip
    k = b.ri(1, min(2, s[2]))
    return b.node("Conv", [x, b.init(b.w(b.ri(1, 3), s[1], k)), *([] if b.p(.5) else [])], kernel_shape=[k], pads=[b.ri(0, 1), b.ri(0, 1)])


def _pool1d(b, x):
    s = b.shape[x]
    if len(s) != 3:
        raise Skip
    k = b.ri(1, min(2, s[2]))
    return b.node(b.ch(["MaxPool", "AveragePool"]), [x], kernel_shape=[k], strides=[b.ri(1, 2)])


def _global(b, x):
    return b.node(b.ch(["GlobalAveragePool", "GlobalMaxPool"]), [x])


def _resize(b, x):
    s = b.shape[x]
    t = [*s[:2], *[b.ri(1, 2 * n + 1) for n in s[2:]]] if b.p(.8) else [1] + [b.ri(1, 2 * n + 1) for n in s[1:]]
    return b.node("Resize", [x, "", "", _i(b, *t)], mode=b.ch(["nearest", "linear"]), coordinate_transformation_mode="asymmetric",
                  nearest_mode="floor")


def _shape(b, x):
    s = b.shape[x]
    k = b.ch(["Flatten", "Reshape", "Squeeze", "Unsqueeze", "Identity", "Dropout"])
    b.tag(k)
    if k == "Flatten":
        return b.node("Flatten", [x], axis=b.ri(0, len(s)))
    if k == "Reshape":
        n = int(np.prod(s))
        d = b.ch([k for k in range(1, n + 1) if n % k == 0])
        return b.node("Reshape", [x, _i(b, *b.ch([[1, -1], [-1], [1, d, n // d], [1, 1, d, n // d], [1, d, 1, n // d], [0, -1]]))])
    if k == "Squeeze":
        o = [i for i, n in enumerate(s) if n == 1]
        if not o:
            raise Skip
        return b.node("Squeeze", [x, _i(b, b.ch(o))])
    if k == "Unsqueeze":
        return b.node("Unsqueeze", [x, _i(b, b.ri(0, len(s)))])
    return b.node(k, [x])


OPS = {"act": _act, "binary": _binary, "matmul": _matmul, "transpose": _transpose, "concat": _concat, "gather": _gather,
       "gatherelements": _gatherelements, "reduce": _reduce, "pad": _pad, "tile": _tile, "bn": _bn, "softmax": _softmax, "gemm": _gemm,
       "conv1d": _conv1d, "pool1d": _pool1d, "global": _global, "resize": _resize, "shape": _shape}
NAMES = [f"{o}/{r}" for r in (3, 2, 1, 5) for o in OPS if r > 1 or o not in ("bn", "gemm", "conv1d", "pool1d", "global", "reduce", "transpose")]


def make(name, seed):
    """(model, input shape, tags, numpy type)"""
    op, r = name.split("/")
    rng = np.random.default_rng([int(seed), sum(map(ord, name)), 61])
    b = OddBuilder(rng, opset=int(rng.choice([13, 18])) if op == "reduce" else 18)
    if r == "5":
        shape = tuple([1] + [1 if b.p(.4) else b.ri(2, 4) for _ in range(4)])
    else:
        shape = tuple([1] + [b.ri(1, 5) for _ in range(int(r) - 1)]) if r != "1" else (b.ri(1, 6),)
    x = b.inp(shape)
    t = _act(b, x) if b.p(.3) else x
    if b.p(.15):        # comes down from more dimensions, or goes up
        t = _shape(b, t)
    if not b.shape[t]:
        raise Skip("scalar")
    y = OPS[op](b, t)
    if b.p(.45) and b.shape[y]:
        k = b.ch(sorted(OPS))
        try:
            y = OPS[k](b, y)
        except Skip:
            y = _act(b, y)
    if y == x or int(np.prod(b.shape[y])) > 2000:
        raise Skip
    return finish(b, [y], shape, f"rank{r}:{op}")
