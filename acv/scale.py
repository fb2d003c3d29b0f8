"""Cases of another scale than those of the other generators: many filters, large images, many layers."""
import numpy as np

from . import cases as C, onnxgen as G
from .onnxgen import Builder, Skip


def blocks(seed):
    """A convolution with more filters than the blocked implementation takes at once."""
    rng = np.random.default_rng([int(seed), 85])
    b = Builder(rng, opset=17)
    k = b.ch([1, 2, 3, 3])
    st = b.ch([1, 1, 2])
    p = b.ch([0, 1, 1]) if k > 1 else b.ch([0, 0, 1])
    ci = b.ch([1, 2, 3, 64, 128])
    o = b.ch([64, 128, 192]) if k > 1 or b.p(.3) else b.ch([512, 1024])
    if ci * o * k * k > 80000:
        ci = 2
    sh = (1, ci, b.ri(k, 5), b.ri(k, 5))
    x = b.inp(sh)
    ins = [x, b.init(b.w(o, ci, k, k, scale=1 / np.sqrt(ci * k * k)))] + ([b.init(b.w(o))] if b.p(.7) else [])
    y = b.node("Conv", ins, kernel_shape=[k, k], strides=[st, st], pads=[p] * 4, group=1)
    if b.p(.5):
        y = b.node("Relu", [y])
    m = b.model(y)
    b.tags = sorted({nd.op_type for nd in m.graph.node} | {"many_filters", f"filters={o}"})
    return C.finish(b, m, sh, seed)


def large(seed):
    """One or two operators over an image of tens of thousands of values, far wider than high or the reverse half of the time."""
    rng = np.random.default_rng([int(seed), 86])
    b = Builder(rng, opset=18)
    h, w = (b.ri(60, 160), b.ri(60, 160)) if b.p(.5) else (b.ri(1, 4), b.ri(1500, 6000))
    if b.p(.3):
        h, w = w, h
    sh = (1, b.ri(1, 3), h, w)
    x = b.inp(sh)
    for _ in range(b.ri(1, 2)):
        op = b.ch(["act", "bn", "binary_const", "concat", "conv", "gather", "pad", "pool", "reduce", "resize", "softmax", "tile", "transpose"])
        f = G.SINGLE.get(op)
        if op == "resize" and max(b.shape[x][2:]) > 100:
            continue  # interpolation at large coordinates is dominated by their rounding in single precision
        for _ in range(20):
            mark = (len(b.nodes), len(b.inits), list(b.tags), b.n)
            try:
                y = f(b, x, DOM) if f else G.MULTI[op](b, [x], DOM)
                if int(np.prod(b.shape[y])) > 200000 or len(b.shape[y]) != 4:
                    raise Skip("size")
                x = y
                break
            except Skip:
                del b.nodes[mark[0]:]
                del b.inits[mark[1]:]
                b.tags = mark[2]
    if not b.nodes:
        raise Skip("empty")
    m = b.model(x)
    b.tags = sorted({nd.op_type for nd in m.graph.node} | {"large_image"})
    return C.finish(b, m, sh, seed, rows=1)


from .dag import DOMAIN as DOM  # noqa: E402
