"""JSON descriptions with one feature outside what the importer is meant to support (or at its border).

Each feature edits the layers of a small network input -> [Conv2D] -> X (-> Flatten -> Dense) and gives the function of X on a channels-first
image (None: not a supported feature in any sense, so the description has to be rejected).
"""
import json

import numpy as np

ODD = {}


def odd(name, dim=3):
    def reg(f):
        ODD[name] = (f, dim)
        return f
    return reg


def layer(cls, i, o, **cfg):
    w = {k: cfg.pop(k) for k in ("weights", "biases", "gamma", "beta", "moving_mean", "moving_var") if k in cfg}
    return {"class_name": cls, "config": {"name": cls.lower(), "dtype": "float32", "size": int(np.prod(o)), "input_shape": [None, *i],
                                          "output_shape": [None, *o], **cfg}, **{k: np.asarray(v).tolist() for k, v in w.items()}}


def unary(name, cls, f, same=True, **cfg):
    def mk(rng, s):
        return layer(cls, s, s, **cfg), f
    ODD[name] = (mk, 3)
    ODD[name + "_vec"] = (mk, 1)


RELU = lambda x: np.maximum(x, 0)                                                     # noqa: E731
unary("ReLU", "ReLU", RELU, max_value=None, negative_slope=0.0, threshold=0.0)
unary("ReLU6", "ReLU", lambda x: np.clip(x, 0, 6), max_value=6.0, negative_slope=0.0, threshold=0.0)
unary("LeakyReLU", "LeakyReLU", lambda x: np.where(x < 0, .3 * x, x), negative_slope=.3, alpha=.3)
unary("ELU", "ELU", lambda x: np.where(x < 0, np.exp(x) - 1, x), alpha=1.0)
unary("PReLU", "PReLU", None, alpha_initializer="zeros")
unary("Softmax", "Softmax", None, axis=-1)
for a, f in {"relu": RELU, "tanh": np.tanh, "linear": lambda x: x, "elu": None, "softplus": lambda x: np.log1p(np.exp(x)),
             "sigmoid": lambda x: 1 / (1 + np.exp(-x)), "swish": lambda x: x / (1 + np.exp(-x))}.items():
    unary(f"Activation_{a}", "Activation", f, activation=a)
unary("GaussianNoise", "GaussianNoise", lambda x: x, stddev=.1)
unary("GaussianDropout", "GaussianDropout", lambda x: x, rate=.1)
unary("SpatialDropout2D", "SpatialDropout2D", lambda x: x, rate=.1)
unary("AlphaDropout", "AlphaDropout", lambda x: x, rate=.1)
unary("Dropout", "Dropout", lambda x: x, rate=.1)
unary("ActivityRegularization", "ActivityRegularization", lambda x: x, l1=.1)
unary("Masking", "Masking", None, mask_value=0.0)
unary("LayerNormalization", "LayerNormalization", None, epsilon=1e-3, axis=[3])
unary("GroupNormalization", "GroupNormalization", None, epsilon=1e-3)
unary("UnitNormalization", "UnitNormalization", None)
unary("Rescaling", "Rescaling", lambda x: 2 * x + 1, scale=2.0, offset=1.0)
unary("Lambda", "Lambda", None, function="x*2")
unary("Normalization", "Normalization", None, mean=1.0, variance=2.0)
unary("Unknown", "MyLayer", None)
unary("TFOpLambda", "TFOpLambda", None, function="nn.relu")


def conv(rng, s, act="linear", pad="valid", k=(2, 2), stride=(1, 1), dil=(1, 1), f=3, cin=None, **cfg):
    c, h, w = s
    oh, ow = ((n - d * (kk - 1) - 1) // st + 1 if pad == "valid" else -(-n // st) for n, kk, st, d in zip((h, w), k, stride, dil))
    wt, b = rng.standard_normal((cin or c, *k, f)).astype(np.float32), rng.standard_normal(f).astype(np.float32)

    def fn(x):
        if pad == "valid":
            xp = x
        else:
            pp = [max((o - 1) * st + (kk - 1) * d + 1 - n, 0) for n, o, kk, st, d in zip((h, w), (oh, ow), k, stride, dil)]
            xp = np.pad(x, ((0, 0), (pp[0] // 2, pp[0] - pp[0] // 2), (pp[1] // 2, pp[1] - pp[1] // 2)))
        y = np.zeros((f, oh, ow))
        for i in range(oh):
            for j in range(ow):
                for a in range(k[0]):
                    for e in range(k[1]):
                        y[:, i, j] += xp[:, i * stride[0] + a * dil[0], j * stride[1] + e * dil[1]] @ wt[:, a, e, :]
        return y + b[:, None, None]

    return layer("Conv2D", s, (f, oh, ow), padding=pad, strides=list(stride), kernel_size=list(k), dilation_rate=list(dil), filters=f,
                 activation=act, weights=wt, biases=b, **cfg), fn


for _n, _kw in {"conv_plain": {}, "conv_stride_rect": dict(stride=(1, 2)), "conv_dil_rect": dict(dil=(1, 2)), "conv_rect": dict(k=(1, 3)),
                "conv_same_rect": dict(k=(2, 3), pad="same"), "conv_same_stride": dict(k=(3, 2), pad="same", stride=(2, 2)),
                "conv_same_dil": dict(k=(2, 2), pad="same", dil=(2, 2))}.items():
    odd(_n)(lambda rng, s, kw=_kw: conv(rng, s, **kw))
for _a, _f in {"relu": RELU, "elu": lambda x: np.where(x < 0, np.exp(x) - 1, x), "selu": None, "softplus": None, "softsign": None,
               "swish": None, "gelu": None, "exponential": np.exp, "hard_sigmoid": None, "relu6": None, "log_softmax": None, "mish": None}.items():
    def _mk(rng, s, a=_a, f=_f):
        ly, g = conv(rng, s, act=a)
        return ly, (lambda x: f(g(x))) if f else None
    odd(f"conv_act_{_a}")(_mk)

    def _mk2(rng, s, a=_a, f=_f):
        n = int(np.prod(s))
        w, b = rng.standard_normal((n, 4)).astype(np.float32), rng.standard_normal(4).astype(np.float32)
        return layer("Dense", s, (4,), units=4, activation=a, weights=w, biases=b), (lambda x: f(np.ravel(x) @ w + b)) if f else None
    odd(f"dense_act_{_a}", 1)(_mk2)


@odd("conv_groups")
def _(rng, s):
    if s[0] % 2:
        return None
    ly, _f = conv(rng, s, f=4, cin=s[0] // 2, groups=2)
    return ly, None




@odd("conv_no_bias")
def _(rng, s):
    ly, f = conv(rng, s, use_bias=False)
    b = np.array(ly.pop("biases"))
    return ly, lambda x: f(x) - b[:, None, None]


@odd("dense_no_bias", 1)
def _(rng, s):
    w = rng.standard_normal((s[0], 3)).astype(np.float32)
    return layer("Dense", s, (3,), units=3, activation="linear", weights=w, use_bias=False), lambda x: np.ravel(x) @ w


@odd("dense_on_image")
def _(rng, s):
    c, h, w = s
    wt, b = rng.standard_normal((w, 3)).astype(np.float32), rng.standard_normal(3).astype(np.float32)
    return layer("Dense", s, (c, h, 3), units=3, activation="linear", weights=wt, biases=b), lambda x: x @ wt + b


for _cls in ("DepthwiseConv2D", "SeparableConv2D", "Conv2DTranspose", "LocallyConnected2D", "Conv1D", "Conv3D"):
    def _mk(rng, s, cls=_cls):
        ly, _f = conv(rng, s)
        ly["class_name"] = cls
        return ly, None
    odd(_cls)(_mk)


def pool(cls, s, k, st, pad="valid", **cfg):
    c, h, w = s
    oh, ow = ((n - kk) // t + 1 if pad == "valid" else -(-n // t) for n, kk, t in zip((h, w), k, st))
    f = np.max if cls.startswith("Max") else np.mean

    def fn(x):
        o = np.zeros((c, oh, ow))
        pp = [max((q - 1) * t + kk - n, 0) // 2 if pad == "same" else 0 for n, q, kk, t in zip((h, w), (oh, ow), k, st)]
        for i in range(oh):
            for j in range(ow):
                a, e = i * st[0] - pp[0], j * st[1] - pp[1]
                o[:, i, j] = f(x[:, max(a, 0):a + k[0], max(e, 0):e + k[1]], axis=(1, 2))
        return o
    return layer(cls, s, (c, oh, ow), padding=pad, strides=list(st), pool_size=list(k), **cfg), fn


for _cls in ("MaxPooling2D", "AveragePooling2D"):
    for _n, (_k, _s, _p) in {"plain": ((2, 2), (2, 2), "valid"), "rect": ((1, 2), (1, 1), "valid"), "stride_rect": ((2, 2), (1, 2), "valid"),
                             "same": ((2, 2), (2, 2), "same"), "same3": ((3, 3), (1, 1), "same"), "same_stride": ((3, 3), (2, 2), "same"),
                             "one": ((1, 1), (2, 2), "same")}.items():
        odd(f"{_cls}_{_n}")(lambda rng, s, a=(_cls, _k, _s, _p): pool(a[0], s, a[1], a[2], a[3]))
for _cls, _f in {"GlobalAveragePooling2D": lambda x: x.mean((1, 2)), "GlobalMaxPooling2D": lambda x: x.max((1, 2))}.items():
    odd(_cls)(lambda rng, s, c=_cls, f=_f: (layer(c, s, (s[0],), keepdims=False), f))


@odd("UpSampling2D")
def _(rng, s):
    return layer("UpSampling2D", s, (s[0], 2 * s[1], 2 * s[2]), scale=[2, 2], interpolation="nearest"), \
        lambda x: x.repeat(2, axis=1).repeat(2, axis=2)


@odd("Cropping2D")
def _(rng, s):
    return layer("Cropping2D", s, (s[0], s[1] - 1, s[2]), cropping=[[1, 0], [0, 0]]), lambda x: x[:, 1:]


for _n, _p in {"int": 1, "pair": [1, 2], "full": [[1, 0], [0, 2]], "zero": 0}.items():
    def _mk(rng, s, p=_p):
        q = [[p, p], [p, p]] if isinstance(p, int) else [[v, v] if isinstance(v, int) else v for v in p]
        return layer("ZeroPadding2D", s, (s[0], s[1] + sum(q[0]), s[2] + sum(q[1])), padding=p), lambda x: np.pad(x, ((0, 0), *q))
    odd(f"ZeroPadding2D_{_n}")(_mk)


@odd("Permute")
def _(rng, s):
    return layer("Permute", s, (s[1], s[0], s[2]), dims=[2, 1, 3]), lambda x: np.transpose(x, (1, 0, 2))


@odd("Reshape_flat")
def _(rng, s):
    return layer("Reshape", s, (int(np.prod(s)),), target_shape=[-1]), np.ravel


@odd("Reshape_image")
def _(rng, s):
    return layer("Reshape", s, (s[0], s[2], s[1]), target_shape=[s[0], s[2], s[1]]), lambda x: x.reshape(s[0], s[2], s[1])


@odd("RepeatVector", 1)
def _(rng, s):
    return layer("RepeatVector", s, (2, s[0]), n=2), None


@odd("BatchNormalization_plain")
def _(rng, s):
    g, b, m, v = (rng.random(s[0]).astype(np.float32) + .2 for _ in range(4))
    q = (slice(None), None, None)
    return layer("BatchNormalization", s, s, epsilon=.01, axis=[1], gamma=g, beta=b, moving_mean=m, moving_var=v), \
        lambda x: (x - m[q]) / np.sqrt(v[q] + .01) * g[q] + b[q]


@odd("BatchNormalization_vec", 1)
def _(rng, s):
    g, b, m, v = (rng.random(s[0]).astype(np.float32) + .2 for _ in range(4))
    return layer("BatchNormalization", s, s, epsilon=.01, axis=[1], gamma=g, beta=b, moving_mean=m, moving_var=v), \
        lambda x: (x - m) / np.sqrt(v + .01) * g + b


@odd("BatchNormalization_noscale")
def _(rng, s):
    m, v = (rng.random(s[0]).astype(np.float32) + .2 for _ in range(2))
    q = (slice(None), None, None)
    return layer("BatchNormalization", s, s, epsilon=.01, axis=[1], scale=False, center=False, moving_mean=m, moving_var=v), \
        lambda x: (x - m[q]) / np.sqrt(v[q] + .01)


for _cls, _f in {"Add": np.add, "Multiply": np.multiply, "Subtract": np.subtract, "Maximum": np.maximum, "Minimum": np.minimum,
                 "Average": lambda a, b: (a + b) / 2, "Dot": None, "Divide": None}.items():
    def _mk(rng, s, cls=_cls, f=_f):
        ly = layer(cls, s, s)
        ly["config"]["input_shape"] = [[None, *s], [None, *s]]
        ly["two"] = True
        return ly, (lambda x: f(x, x)) if f else None
    odd(f"merge_{_cls}")(_mk)
    odd(f"merge_{_cls}_vec", 1)(_mk)
for _ax in (0, 1, 2, 3, -1, -2):
    def _mk(rng, s, ax=_ax):
        if ax == 0:
            o = s
        else:
            k = ax - 1 if ax > 0 else len(s) + ax
            if k >= len(s) or k < 0:
                return None
            o = list(s)
            o[k] *= 2
        ly = layer("Concatenate", s, tuple(o), axis=ax)
        ly["config"]["input_shape"] = [[None, *s], [None, *s]]
        ly["two"] = True
        return ly, None if ax == 0 else (lambda x: np.concatenate([x, x], axis=k))
    odd(f"Concatenate_{_ax}")(_mk)
    odd(f"Concatenate_{_ax}_vec", 1)(_mk)
for _n in ("LSTM", "GRU", "SimpleRNN", "Bidirectional", "TimeDistributed", "Embedding", "MultiHeadAttention", "Functional", "Sequential"):
    odd(f"class_{_n}", 1)(lambda rng, s, n=_n: (layer(n, s, (3,), units=3, activation="tanh"), None))


@odd("unknown_attribute_format")
def _(rng, s):
    ly, f = conv(rng, s)
    ly["config"]["data_format"] = "channels_first"
    return ly, f


def make(name, seed, path):
    """(shape of a row, function) of the description written to path, or None."""
    mk, dim = ODD[name]
    rng = np.random.default_rng([int(seed), 61])
    s = (int(rng.integers(1, 5)), int(rng.integers(3, 7)), int(rng.integers(3, 7))) if dim == 3 else (int(rng.integers(2, 9)),)
    lays = [layer("InputLayer", s, s)]
    fs = []
    if rng.random() < .5:
        if dim == 3:
            ly, f = conv(rng, s, act="relu", f=2)
            lays.append(ly)
            fs.append(lambda x, f=f: RELU(f(x)))
            s = tuple(ly["config"]["output_shape"][1:])
        else:
            w, b = rng.standard_normal((s[0], 4)).astype(np.float32), rng.standard_normal(4).astype(np.float32)
            lays.append(layer("Dense", s, (4,), units=4, activation="tanh", weights=w, biases=b))
            fs.append(lambda x: np.tanh(np.ravel(x) @ w + b))
            s = (4,)
    got = mk(rng, s)
    if got is None or min(got[0]["config"]["output_shape"][1:]) < 1:
        return None
    ly, f = got
    two = ly.pop("two", False)
    lays.append(ly)
    known = f is not None
    if known:
        fs.append(f)
    o = tuple(ly["config"]["output_shape"][1:])
    k = len(lays) - 1
    if rng.random() < .5:
        if len(o) > 1:
            lays.append(layer("Flatten", o, (int(np.prod(o)),)))
        n = int(np.prod(o))
        w2, b2 = rng.standard_normal((n, 3)).astype(np.float32), rng.standard_normal(3).astype(np.float32)
        lays.append(layer("Dense", (n,), (3,), units=3, activation="linear", weights=w2, biases=b2))
        fs.append(lambda x: np.ravel(x) @ w2 + b2)
    for i, q in enumerate(lays):
        q["config"]["idx"] = i
        q["config"]["name"] += f"_{i}"
        q["config"]["prev_layer_idx"] = [] if i == 0 else [i - 1]
        if two and i == k:
            q["config"]["prev_layer_idx"] = [i - 1, i - 1]
    with open(path, "w") as fh:
        json.dump({"class_name": "Functional", "config": {"name": "m", "data_format": "channels_first", "layers": lays}}, fh)

    def fn(x):
        y = np.asarray(x, np.float64)
        for g in fs:
            y = g(y)
        return y
    return tuple(lays[0]["config"]["input_shape"][1:]), fn if known else None
