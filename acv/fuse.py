"""Random graphs dense in the shapes that graph optimisation looks for, and in near misses of them."""
import numpy as np

from . import onnxgen as G
from .dag import DOMAIN, _join
from .onnxgen import Builder, Skip

ACTS = ["Relu", "Sigmoid", "Tanh", "LeakyRelu", "Exp", "Clip"]


def _producer(b, x, img):
    """A layer that an activation can be merged into."""
    if img:
        k = b.ch(["conv", "conv", "conv", "bn", "pool", "pad", "add_c", "tile", "transpose", "resize", "reduce", "softmax", "gather", "matmul"])
        op = {"conv": "conv", "bn": "bn", "pool": "pool", "pad": "pad", "tile": "tile", "transpose": "transpose", "resize": "resize",
              "reduce": "reduce", "softmax": "softmax", "gather": "gather", "matmul": "matmul_const", "add_c": "binary_const"}[k]
    else:
        op = b.ch(["gemm", "gemm", "matmul_const", "binary_const", "softmax"])
    return G.SINGLE[op](b, x, DOMAIN)


def _conv_bn(b, x, shared):
    """Convolution followed by a normalisation; sometimes the convolution's result or weights are used elsewhere too."""
    _, c, h, w = b.shape[x]
    k = b.ch([1, 2, 3])
    if min(h, w) < k:
        raise Skip
    o = b.ri(1, 4)
    wt = next((n for n in shared if b.shape[n][1] == c and b.shape[n][2] <= min(h, w)), None) if b.p(.6) else None
    if wt is not None:
        o, _, k, _ = b.shape[wt]
    else:
        wt = b.init(b.w(o, c, k, k, scale=1 / np.sqrt(c * k * k)))
        shared.append(wt)
    if sum(wt in nd.input for nd in b.nodes):
        b.tag("shared_weights")
    ins = [x, wt]
    if b.p(.5):
        ins.append(b.init(b.w(o)))
    else:
        b.tag("bn_after_nobias")
    y = b.node("Conv", ins, kernel_shape=[k, k])
    out = [y]
    if b.p(.25):
        y = b.node(b.ch(["Relu", "Tanh"]), [y])
        b.tag("act_between")
    y = G.op_bn(b, y, DOMAIN)
    b.tag("conv_bn")
    if b.p(.3):
        b.tag("conv_observed")       # another consumer of the convolution
        out.append(b.node(b.ch(["Relu", "Tanh"]), [out[0]]))
        out.append(y)
    else:
        out = [y]
    return out


def _silu(b, x):
    s = b.node("Sigmoid", [x])
    out = []
    r = b.rng.random()
    if r < .15:
        b.tag("sigmoid_observed")
        out.append(b.node("Tanh", [s]))
    elif r < .3:
        b.tag("silu_input_observed")
        out.append(b.node("Relu", [x]))
    other = x
    if b.p(.15):
        other = b.node("Tanh", [x])
        b.tag("not_silu")
    y = b.node(b.ch(["Mul", "Mul", "Mul", "Mul", "Add"]), [s, other] if b.p(.5) else [other, s])
    b.tag("silu")
    return [*out, y]


def make(seed, n=(2, 6), dtype=np.float32):
    rng = np.random.default_rng([int(seed), 79])
    b = Builder(rng, opset=int(rng.choice([13, 17, 18])), dtype=dtype)
    img = b.p(.75)
    shape = (1, b.ri(1, 3), b.ri(3, 7), b.ri(3, 7)) if img else (1, b.ri(2, 8))
    x = b.inp(shape)
    pool, shared = [x], []
    for _ in range(b.ri(*n) * 3):
        if len(pool) > 14:
            break
        x = pool[-1] if b.p(.75) else b.ch(pool)
        mark = (len(b.nodes), len(b.inits), list(b.tags), b.n, list(shared))
        r = b.rng.random()
        try:
            if r < .25 and img:
                ys = _conv_bn(b, x, shared)
            elif r < .45:
                ys = _silu(b, x)
            elif r < .75:
                ys = [_producer(b, x, img)]
                if b.p(.8):
                    kinds = [b.ch(ACTS) for _ in range(b.ch([1, 1, 2, 3]))]
                    for k in kinds:
                        ys.append(G.op_act(b, ys[-1], DOMAIN, kind=k))
                    b.tag(f"chain{len(kinds)}")
                    if b.p(.3):
                        ys.insert(0, b.node("Tanh", [ys[0]]))
                        b.tag("producer_observed")
            elif r < .85:
                ys = [G.op_act(b, x, DOMAIN, kind=b.ch(ACTS))]
            else:
                ys = [G.op_binary(b, [x, *pool], DOMAIN)]
            for y in ys:
                if int(np.prod(b.shape[y])) > 800 or len(b.shape[y]) != len(shape):
                    raise Skip
        except Skip:
            del b.nodes[mark[0]:]
            del b.inits[mark[1]:]
            b.tags = mark[2]
            shared = mark[4]
            continue
        pool.extend(ys)
    pool = _join(b, pool, DOMAIN)
    if pool[-1] == pool[0]:
        raise Skip("empty")
    m = b.model(pool[-1])
    b.tags = sorted({nd.op_type for nd in m.graph.node} | {t for t in b.tags if t[0].islower()})
    return b, m, shape
