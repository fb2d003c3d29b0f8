"""Random image models over the operators that have a channels-last implementation."""
import numpy as np

from . import onnxgen as G
from .onnxgen import Builder, Skip

VERSIONS = {"Conv2D": "direct_block", "MaxPooling2D": "channels_last", "AveragePooling2D": "channels_last"}


def _conv(b, x, dw_ok=False):
    _, c, h, w = b.shape[x]
    k = b.ch([1, 1, 2, 3, 3, 3, 5, 7])
    kh, kw = (k, k) if b.p(.7) else (b.ch([1, 2, 3, 4]), b.ch([1, 2, 3, 4]))
    st = b.ch([1, 1, 2, 3])
    p = b.ch([0, 0, 1, 1, 2, 3])
    p = min(p, min(kh, kw) - 1) if b.p(.8) else 0
    pads = [p, p, p, p]
    if b.p(.2):
        pads[2:] = [b.ri(0, p), b.ri(0, p)]
        if pads[2:] != [p, p]:
            b.tag("pad_asym")
    if h + pads[0] + pads[2] < kh or w + pads[1] + pads[3] < kw:
        raise Skip("window does not fit")
    dw = dw_ok and b.p(.15)
    o = c if dw else b.ch([1, 2, 3, 4, 5, 8, 16])
    wt = b.w(o, 1 if dw else c, kh, kw, scale=1.0 / np.sqrt((1 if dw else c) * kh * kw))
    ins = [x, b.init(wt)] + ([b.init(b.w(o))] if b.p(.7) else [])
    kind = "dw" if dw and c > 1 else "1x1" if kh == kw == 1 else "3x3s1" if kh == kw == 3 and st == 1 else "direct"
    b.tag("conv_" + kind)
    if kind == "3x3s1":
        b.tag("w_even" if w % 2 == 0 else "w_odd", "h_even" if h % 2 == 0 else "h_odd")
    return b.node("Conv", ins, kernel_shape=[kh, kw], strides=[st, st], pads=pads, group=c if dw else 1)


def _pool(b, x):
    _, c, h, w = b.shape[x]
    k = b.ri(1, min(3, h, w))
    st = b.ri(1, 3)
    p = b.ri(0, k // 2) if b.p(.4) else 0
    op = b.ch(["MaxPool", "AveragePool"])
    b.tag(op + "_hwc")
    return b.node(op, [x], kernel_shape=[k, k], strides=[st, st], pads=[p, p, p, p])


def make(seed, n_ops=(1, 7), img=None, dtype=np.float32):
    rng = np.random.default_rng([int(seed), 78])
    b = Builder(rng, opset=int(rng.choice([13, 17])), dtype=dtype)
    shape = img or (1, b.ri(1, 5), b.ri(2, 10), b.ri(2, 10))
    x = b.inp(shape)
    pool = [x]
    for _ in range(b.ri(*n_ops)):
        x = pool[-1] if b.p(.8) else b.ch(pool)
        r = b.rng.random()
        mark = (len(b.nodes), len(b.inits), list(b.tags), b.n)
        try:
            if r < .5:
                y = _conv(b, x)
            elif r < .7:
                y = _pool(b, x)
            elif r < .85:
                k = b.ch(["Relu", "Tanh", "Sigmoid", "LeakyRelu", "Clip"])
                bounds = [b.init(np.array(v, b.dtype)) for v in (-.4, .5)] if k == "Clip" else []
                y = b.node(k, [x, *bounds], **({} if k != "LeakyRelu" or dtype == np.float32 else {"alpha": .25}))
            else:
                o = [t for t in pool if b.shape[t] == b.shape[x] and t != x]
                if not o:
                    raise Skip
                y = b.node(b.ch(["Add", "Sub", "Mul"]), [x, b.ch(o)])
                b.tag("join")
        except Skip:
            del b.nodes[mark[0]:]
            del b.inits[mark[1]:]
            b.tags = mark[2]
            continue
        if int(np.prod(b.shape[y])) > 3000:
            continue
        pool.append(y)
    if pool[-1] == pool[0]:
        raise Skip("empty")
    m = b.model(pool[-1])
    if not {nd.op_type for nd in m.graph.node} & {"Conv", "MaxPool", "AveragePool"}:
        raise Skip("no image operator")
    b.tags = sorted({nd.op_type for nd in m.graph.node} | set(b.tags))
    return b, m, shape
