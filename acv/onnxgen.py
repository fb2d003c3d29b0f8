"""Random ONNX models over acetone's operator set.

Every generator draws from a numpy Generator, so a (family, seed) pair is a complete description
of a case.  `dom` (a set of strings) widens the drawn domain; tags record the features drawn.
"""
import numpy as np
import onnx
from onnx import TensorProto, helper, numpy_helper


class Skip(Exception):
    """The operator cannot be applied here."""


class Builder:
    def __init__(self, rng, opset=18, dtype=np.float32):
        self.rng = rng
        self.opset = opset
        self.dtype = np.dtype(dtype)
        self.nodes, self.inits, self.inputs = [], [], []
        self.shape = {}
        self.tags = []
        self.n = 0
        self.pos = set()      # tensors known strictly positive
        self.well = set()     # tensors known to stay in a small interval of positive numbers
        self.nchw = True

    # -- primitives ---------------------------------------------------------------------------
    def fresh(self, p="t"):
        self.n += 1
        return f"{p}_{self.n}"

    def inp(self, shape, name=None):
        name = name or self.fresh("input")
        et = TensorProto.FLOAT if self.dtype == np.float32 else TensorProto.DOUBLE
        self.inputs.append(helper.make_tensor_value_info(name, et, list(shape)))
        self.shape[name] = tuple(shape)
        return name

    def init(self, arr, name=None):
        name = name or self.fresh("w")
        self.inits.append(numpy_helper.from_array(np.ascontiguousarray(arr), name))
        self.shape[name] = tuple(np.shape(arr))
        return name

    def w(self, *shape, scale=1.0):
        return (self.rng.standard_normal(shape) * scale).astype(self.dtype)

    def node(self, op, ins, **attrs):
        out = self.fresh(op.lower())
        name = attrs.pop("_name", None) or self.fresh(op)
        nd = helper.make_node(op, list(ins), [out], name=name, **attrs)
        self.nodes.append(nd)
        try:
            self.shape[out] = self._infer(nd, out)
        except Skip:
            self.nodes.pop()
            raise
        return out

    def _infer(self, nd, out):
        et = TensorProto.FLOAT if self.dtype == np.float32 else TensorProto.DOUBLE
        names = {i for i in nd.input if i}
        initn = {i.name: i for i in self.inits}
        gi = [helper.make_tensor_value_info(n, et, list(self.shape[n])) for n in nd.input if n and n not in initn]
        g = helper.make_graph([nd], "g", gi, [helper.make_tensor_value_info(out, et, None)],
                              [initn[n] for n in names if n in initn])
        m = helper.make_model(g, opset_imports=[helper.make_opsetid("", self.opset)])
        m.ir_version = 8
        try:
            m = onnx.shape_inference.infer_shapes(m, strict_mode=True, data_prop=True)
        except Exception as e:  # noqa: BLE001
            raise Skip(f"shape inference: {e}") from e
        o = m.graph.output[0].type.tensor_type.shape
        s = tuple(d.dim_value for d in o.dim)
        if any(d <= 0 for d in s):
            raise Skip(f"bad shape {s}")
        return s

    def tag(self, *t):
        self.tags.extend(t)

    def model(self, outs):
        et = TensorProto.FLOAT if self.dtype == np.float32 else TensorProto.DOUBLE
        outs = [outs] if isinstance(outs, str) else outs
        self._prune(outs)
        if self.p(.5):
            self._reorder()
        g = helper.make_graph(self.nodes, "g", self.inputs,
                              [helper.make_tensor_value_info(o, et, list(self.shape[o])) for o in outs], self.inits)
        m = helper.make_model(g, opset_imports=[helper.make_opsetid("", self.opset)])
        m.ir_version = 8
        return onnx.shape_inference.infer_shapes(m)

    def _reorder(self):
        """List the nodes in another valid order (which is also the order in which consumers are listed)."""
        made = {o for nd in self.nodes for o in nd.output}
        done, left, order = set(), list(self.nodes), []
        while left:
            ready = [nd for nd in left if all(i in done or i not in made for i in nd.input)]
            if any(a.type == onnx.AttributeProto.GRAPH for nd in left for a in nd.attribute):
                return
            nd = self.ch(ready)
            order.append(nd)
            left = [k for k in left if k is not nd]
            done.update(nd.output)
        self.nodes = order

    def _prune(self, outs):
        """Drop the nodes and initializers no output depends on."""
        live, keep = set(outs), []
        for nd in reversed(self.nodes):
            if nd.output[0] in live:
                keep.append(nd)
                live |= set(nd.input)
        self.nodes = keep[::-1]
        self.inits = [i for i in self.inits if i.name in live]

    # -- drawing helpers ----------------------------------------------------------------------
    def ri(self, a, b):
        return int(self.rng.integers(a, b + 1))

    def ch(self, seq):
        return seq[int(self.rng.integers(len(seq)))]

    def p(self, prob):
        return bool(self.rng.random() < prob)


UNARY = ["Relu", "Tanh", "Sigmoid", "Exp", "Log", "LeakyRelu", "Clip"]
BINARY = ["Add", "Sub", "Mul", "Div"]
NARY = ["Max", "Min", "Mean"]
REDUCE = ["ReduceSum", "ReduceMax", "ReduceMin", "ReduceMean", "ReduceProd"]


def op_act(b, x, dom, kind=None):
    k = kind or b.ch(UNARY)
    if k == "Log" and x not in b.well:
        x = b.node(b.ch(["Sigmoid", "Exp"]), [b.node("Tanh", [x])])
        b.well.add(x)
    if k == "Exp":
        # keep magnitudes sane
        if x not in b.pos:
            x = b.node("Tanh", [x])
    b.tag(k)
    if k == "LeakyRelu":
        kw = {} if b.p(.2) and b.dtype == np.float32 else {"alpha": float(np.float32(b.rng.uniform(0.01, 0.9)))}
        return b.node(k, [x], **kw)
    if k == "Clip":
        lo, hi = sorted(b.rng.uniform(-1.5, 1.5, 2))
        mk = (lambda v: np.array(v, b.dtype)) if b.p(.5) or "clip1d" not in dom else (lambda v: np.array([v], b.dtype))
        c = b.ri(0, 3) if "clip_opt" in dom else 0
        b.tag(f"clip{c}")
        if c == 0:
            return b.node(k, [x, b.init(mk(lo)), b.init(mk(hi))])
        if c == 1:
            return b.node(k, [x, "", b.init(mk(hi))])
        if c == 2:
            return b.node(k, [x, b.init(mk(lo))])
        return b.node(k, [x])
    y = b.node(k, [x])
    if k in ("Exp", "Sigmoid"):
        b.pos.add(y)
    return y


def _img(b, x):
    if len(b.shape[x]) != 4 or b.shape[x][0] != 1:
        raise Skip("not an image")
    return b.shape[x]


def op_conv(b, x, dom, **_):
    _, c, h, w = _img(b, x)
    kh, kw = b.ri(1, min(4, h)), b.ri(1, min(4, w))
    s = b.ri(1, 3)
    st = [s, s]
    if "conv_str_ne" in dom and b.p(.5):
        st = [s, b.ri(1, 3)]
        b.tag("str_ne" if st[0] != st[1] else "str_eq")
    dil = [1, 1]
    if "conv_dil" in dom and b.p(.4):
        d = b.ri(1, 3)
        dil = [d, d]
        b.tag("dil" if d > 1 else "dil1")
    group = 1
    if "conv_group" in dom and b.p(.4):
        group = b.ch([g for g in range(1, c + 1) if c % g == 0])
    cout = b.ri(1, 5) * group if group > 1 else b.ri(1, 6)
    if group == c and c > 1 and b.p(.6):
        cout = c
    if group > 1:
        b.tag("dw" if group == c and cout == c else "group")
    attrs = dict(kernel_shape=[kh, kw], strides=st, dilations=dil, group=group)
    mode = b.ri(0, 4)
    if mode == 0:
        attrs["auto_pad"] = b.ch(["VALID", "SAME_UPPER", "SAME_LOWER"])
        b.tag(attrs["auto_pad"])
        if attrs["auto_pad"] != "VALID":
            if dil != [1, 1]:
                raise Skip      # onnxruntime does not run it
            if any(t > (k - 1) * dil[0] + 1 for t, k in zip(st, (kh, kw))):
                raise Skip      # negative padding: runtimes disagree on what it means
    elif mode == 1:
        p = b.ri(0, 2)
        attrs["pads"] = [p] * 4
    elif mode == 2:
        attrs["pads"] = [b.ri(0, 2) for _ in range(4)]
        b.tag("pads_ne")
    pp = attrs.get("pads", [0] * 4)
    if attrs.get("auto_pad", "NOTSET") in ("NOTSET", "VALID") and (
            h + pp[0] + pp[2] < (kh - 1) * dil[0] + 1 or w + pp[1] + pp[3] < (kw - 1) * dil[1] + 1):
        raise Skip      # the window does not fit
    if kh != kw:
        b.tag("k_ne")
    if h != w:
        b.tag("hw_ne")
    ins = [x, b.init(b.w(cout, c // group, kh, kw, scale=1 / np.sqrt(c // group * kh * kw)))]
    if b.p(.7):
        ins.append(b.init(b.w(cout, scale=.5)))
    else:
        b.tag("nobias")
    b.tag("Conv")
    return b.node("Conv", ins, **attrs)


def op_bn(b, x, dom, **_):
    _, c, h, w = _img(b, x)
    b.tag("BatchNormalization")
    kw = {} if b.p(.5) and b.dtype == np.float32 else {"epsilon": float(np.float32(b.ch([1e-5, 1e-3, 1e-2])))}
    return b.node("BatchNormalization", [x, b.init(b.w(c)), b.init(b.w(c)), b.init(b.w(c)),
                                         b.init((10 ** b.rng.uniform(-4 if b.p(.4) else -1, 0, c)).astype(b.dtype))], **kw)


def op_softmax(b, x, dom, **_):
    s = b.shape[x]
    r = len(s)
    ax = b.ri(1, r - 1)
    if s[ax] == 1 and "softmax_axis1" not in dom:
        ok = [i for i in range(1, r) if s[i] > 1]
        if not ok:
            raise Skip
        ax = b.ch(ok)
    if s[ax] == 1:
        b.tag("softmax_axis1")
    onedim = sum(d > 1 for d in s) <= 1
    b.tag("Softmax", "softmax1d" if onedim else "softmaxnd", f"rank{r}")
    if b.p(.3):
        b.tag("negaxis")
        return b.node("Softmax", [x], axis=ax - r)
    if ax == r - 1 and b.p(.3):
        return b.node("Softmax", [x])
    return b.node("Softmax", [x], axis=ax)


def op_pad(b, x, dom, mode=None, **_):
    _, c, h, w = _img(b, x)
    modes = ["constant", "edge", "reflect"] + (["wrap"] if "pad_wrap" in dom else [])
    m = mode or b.ch(modes)
    lim = {"constant": (3, 3, 3), "edge": (3, 3, 3), "reflect": (c - 1, h - 1, w - 1), "wrap": (c, h, w)}[m]
    pads = [0, *[b.ri(0, min(3, t)) for t in lim], 0, *[b.ri(0, min(3, t)) for t in lim]]
    if b.p(.5):
        pads[1] = pads[5] = 0
    b.tag("Pad", m)
    ins = [x, b.init(np.array(pads, np.int64))]
    if m == "constant":
        if b.p(.8) or "pad_noval" not in dom:
            ins.append(b.init(np.array(round(float(b.rng.uniform(-1, 1)), 3), b.dtype)))
        else:
            b.tag("noval")
    elif "pad_noval" not in dom:
        ins.append(b.init(np.array(0., b.dtype)))
    else:
        b.tag("noval")
    if "pad_axes" in dom and b.opset >= 18 and b.p(.3) and len(ins) == 3:
        axes = sorted(b.rng.choice(4, b.ri(1, 4), replace=False).tolist())
        b.tag("padaxes")
        pp = [pads[a] for a in axes] + [pads[a + 4] for a in axes]
        ins[1] = b.init(np.array(pp, np.int64))
        if b.p(.3):
            axes = [a - 4 for a in axes]
            b.tag("negaxis")
        ins.append(b.init(np.array(axes, np.int64)))
    return b.node("Pad", ins, mode=m)


def op_concat(b, xs, dom, **_):
    """xs: same rank tensors agreeing off the axis."""
    x = xs[0]
    r = len(b.shape[x])
    axes = list(range(1, r)) if r > 1 else [0]
    ax = b.ch(axes)
    def ok(y):
        return len(b.shape[y]) == r and all(b.shape[y][i] == b.shape[x][i] for i in range(r) if i != ax)
    k = b.ri(2, 4)
    cand = [y for y in xs if ok(y)]
    ins = [b.ch(cand) for _ in range(k)]
    ins[0] = x
    if len(set(ins)) < len(ins):
        b.tag("dupin")
        if "dup" not in dom:
            ins = list(dict.fromkeys(ins))
            if len(ins) < 2:
                raise Skip
    if "constop" in dom and b.p(.3):
        s = list(b.shape[x])
        s[ax] = b.ri(1, 3)
        ins.insert(b.ri(0, len(ins)), b.init(b.w(*s)))
        b.tag("concat_const")
    b.tag("Concat", f"cax{ax}")
    return b.node("Concat", ins, axis=ax - r if b.p(.3) else ax)


def op_gather(b, x, dom, **_):
    s = b.shape[x]
    r = len(s)
    if r != 4:
        raise Skip
    ax = b.ri(1, r - 1)
    ln = b.ri(1, 6)
    idx = b.rng.integers(0, s[ax], ln)
    if "gather_neg" in dom and b.p(.4):
        idx = np.where(b.rng.random(ln) < .5, idx, idx - s[ax])
        b.tag("negidx" if (idx < 0).any() else "posidx")
    if "gather_2d" in dom and b.p(.2):
        idx = idx.reshape(1, -1)
        b.tag("idx2d")
    b.tag("Gather", f"gax{ax}")
    return b.node("Gather", [x, b.init(idx.astype(b.ch([np.int64, np.int32])))], axis=ax - r if b.p(.3) else ax)


def op_gather_elements(b, x, dom, **_):
    s = b.shape[x]
    r = len(s)
    if r != 4:
        raise Skip
    ax = b.ri(1, r - 1)
    osz = [s[0]] + [b.ri(1, d) if "ge_any" in dom else d for d in s[1:]]
    osz[ax] = b.ri(1, 5)
    idx = b.rng.integers(0, s[ax], osz)
    if "gather_neg" in dom and b.p(.4):
        idx = np.where(b.rng.random(osz) < .5, idx, idx - s[ax])
        b.tag("negidx" if (idx < 0).any() else "posidx")
    b.tag("GatherElements", f"gax{ax}")
    return b.node("GatherElements", [x, b.init(idx.astype(np.int64))], axis=ax - r if b.p(.3) else ax)


def op_gemm(b, x, dom, **_):
    s = b.shape[x]
    ta = 0
    if len(s) != 2:
        raise Skip
    attrs = {}
    m, k = s
    if "gemm_ta" in dom and b.p(.3):
        ta = 1
        k, m = s
        b.tag("transA")
    tb = b.ri(0, 1)
    n = b.ri(1, 8)
    if ta or b.p(.2):
        attrs["transA"] = ta
    if tb or b.p(.2):
        attrs["transB"] = tb
    wt = b.w(n, k, scale=1 / np.sqrt(k)) if tb else b.w(k, n, scale=1 / np.sqrt(k))
    b.tag("Gemm", f"tb{tb}", "M1" if m == 1 else "M+")
    if b.p(.4):
        attrs["alpha"] = float(np.float32(b.rng.uniform(-2, 2)))
        b.tag("alpha")
    ins = [x, b.init(wt)]
    c = b.ri(0, 4) if "gemm_bias" in dom else 1
    if c:
        shp = {1: (n,), 2: (1, n), 3: (m, n), 4: (1,)}[c]
        ins.append(b.init(b.w(*shp)))
        if b.p(.4):
            attrs["beta"] = float(np.float32(b.rng.uniform(-2, 2)))
            b.tag("beta")
        b.tag(f"bias{c}")
    else:
        b.tag("nobias")
    return b.node("Gemm", ins, **attrs)


def op_matmul_const(b, x, dom, **_):
    s = b.shape[x]
    if len(s) == 4:
        n = b.ri(1, 6)
        if b.p(.5):
            b.tag("MatMul", "xW4")
            wshape = (s[3], n) if b.p(.5) else (1, 1, s[3], n) if s[1] == 1 else (1, s[1], s[3], n)
            b.tag(f"wr{len(wshape)}", "C1" if s[1] == 1 else "C+")
            return b.node("MatMul", [x, b.init(b.w(*wshape, scale=1 / np.sqrt(s[3])))])
        if "matmul_left" not in dom:
            raise Skip
        b.tag("MatMul", "Wx4", "C1" if s[1] == 1 else "C+")
        wshape = (1, s[1], n, s[2])
        return b.node("MatMul", [b.init(b.w(*wshape, scale=1 / np.sqrt(s[2]))), x])
    if len(s) == 2:
        n = b.ri(1, 8)
        b.tag("MatMul", "xW2", "M1" if s[0] == 1 else "M+")
        return b.node("MatMul", [x, b.init(b.w(s[1], n, scale=1 / np.sqrt(s[1])))])
    raise Skip


def op_matmul_dyn(b, xs, dom, **_):
    pairs = [(x, y) for x in xs for y in xs if len(b.shape[x]) == len(b.shape[y]) == 4
             and b.shape[x][3] == b.shape[y][2] and b.shape[x][1] == b.shape[y][1] and (x != y or "dup" in dom)]
    if not pairs:
        raise Skip
    x, y = b.ch(pairs)
    b.tag("MatMul", "dyn", "C1" if b.shape[x][1] == 1 else "C+")
    return b.node("MatMul", [x, y])


def op_transpose(b, x, dom, **_):
    r = len(b.shape[x])
    if r != 4:
        raise Skip
    perm = [0, *(1 + b.rng.permutation(3)).tolist()] if "transpose_n" not in dom else b.rng.permutation(4).tolist()
    if perm[0] != 0:
        b.tag("permN")
    b.tag("Transpose")
    return b.node("Transpose", [x], perm=perm)


def op_tile(b, x, dom, **_):
    r = len(b.shape[x])
    if r != 4:
        raise Skip
    reps = [1, *[b.ri(1, 3) for _ in range(3)]]
    b.tag("Tile")
    return b.node("Tile", [x, b.init(np.array(reps, np.int64))])


def op_reduce(b, x, dom, kind=None, **_):
    k = kind or b.ch(REDUCE)
    s = b.shape[x]
    r = len(s)
    if r != 4:
        raise Skip
    keep = 1 if "reduce_nokeep" not in dom else b.ri(0, 1)
    axes = sorted(b.rng.choice(np.arange(1, 4), b.ri(1, 3), replace=False).tolist())
    if "reduce_n" in dom and b.p(.2):
        axes = [0, *axes]
    mode = b.ri(0, 5)
    b.tag(k, "ax" + "".join("nchw"[a] for a in axes), f"keep{keep}")
    if "reduce_neg" in dom and b.p(.3):
        axes = [a - 4 for a in axes]
        b.tag("negaxis")
    attrs = {"keepdims": keep}
    if keep == 1 and b.p(.3):
        attrs = {}
    as_input = b.opset >= (13 if k == "ReduceSum" else 18)
    if as_input:
        if mode == 0 and "reduce_noaxes" in dom:
            nz = b.ri(0, 1)
            b.tag(f"noaxes{nz}")
            return b.node(k, [x], **attrs, noop_with_empty_axes=nz)
        return b.node(k, [x, b.init(np.array(axes, np.int64))], **attrs)
    b.tag("axes_attr")
    if mode == 0 and "reduce_noaxes" in dom:
        b.tag("noaxes")
        return b.node(k, [x], **attrs)
    return b.node(k, [x], axes=axes, **attrs)


def op_pool(b, x, dom, kind=None, **_):
    _, c, h, w = _img(b, x)
    k = kind or b.ch(["MaxPool", "AveragePool", "GlobalAveragePool"])
    b.tag(k)
    if h != w:
        b.tag("hw_ne")
    if k == "GlobalAveragePool":
        if h != w and "gap_ne" not in dom:
            raise Skip
        return b.node(k, [x])
    kh = kw = b.ri(1, min(4, h, w))
    if "pool_kne" in dom and b.p(.4):
        kw = b.ri(1, min(4, w))
        b.tag("k_ne" if kw != kh else "k_eq")
    s = b.ri(1, 3)
    st = [s, s]
    if "pool_sne" in dom and b.p(.4):
        st = [s, b.ri(1, 3)]
        b.tag("s_ne" if st[0] != st[1] else "s_eq")
    attrs = dict(kernel_shape=[kh, kw], strides=st)
    mode = b.ri(0, 4)
    if "pool_pad" in dom:
        if mode == 0:
            attrs["auto_pad"] = b.ch(["VALID", "SAME_UPPER", "SAME_LOWER"])
            b.tag(attrs["auto_pad"])
            if attrs["auto_pad"] != "VALID" and any(t > k for t, k in zip(st, (kh, kw))):
                raise Skip
        elif mode == 1:
            p = b.ri(0, min(kh, kw) - 1)
            attrs["pads"] = [p] * 4
            b.tag("pads" if p else "pads0")
        elif mode == 2:
            attrs["pads"] = [b.ri(0, kh - 1), b.ri(0, kw - 1), b.ri(0, kh - 1), b.ri(0, kw - 1)]
            b.tag("pads_ne")
    if k == "AveragePool" and "pool_cip" in dom and b.p(.3):
        attrs["count_include_pad"] = 1
        b.tag("cip")
    if "pool_ceil" in dom and b.p(.3):
        attrs["ceil_mode"] = 1
        b.tag("ceil")
    if s == 1 and b.p(.3) and st[0] == st[1]:
        attrs.pop("strides")
    return b.node(k, [x], **attrs)


def _near_tie(n_in, n_out, scale, ct):
    """Does a nearest coordinate lie within rounding distance of a half integer or an integer,
    where a last-bit difference between two correct evaluations picks another element?"""
    i = np.arange(n_out)
    if ct == "align_corners":
        c = i * (n_in - 1) / max(n_out - 1, 1)
    elif ct == "asymmetric":
        c = i / scale
    elif ct == "pytorch_half_pixel" and n_out == 1:
        c = i * 0.
    else:
        off = n_in / 2 * (1 - n_out / (n_in * scale)) if ct == "half_pixel_symmetric" else 0
        off = 0 if abs(off) < 1e-9 else off
        c = off + (i + .5) / scale - .5
    if ct == "align_corners":
        if n_in == n_out:
            return False
    elif (scale * 4) % 1 == 0 and not (ct == "half_pixel_symmetric" and off):
        return False  # scale exactly representable: exact coordinates are computed exactly
    return bool(np.any(np.abs(c * 2 - np.round(c * 2)) < 1e-4))


def _quotient(b, n_out, n_in):
    """A scale rounded to single precision, often one that falls short of the exact quotient."""
    short = [o for o in range(1, 2 * n_in + 3) if int(n_in * float(np.float32(o / n_in))) < o]
    return float(np.float32((b.ch(short) if short and b.p(.5) else n_out) / n_in))


def op_resize(b, x, dom, mode=None, **_):
    _, c, h, w = _img(b, x)
    m = mode or b.ch(["nearest", "linear", "cubic"])
    ct = b.ch(["half_pixel", "asymmetric", "align_corners", "pytorch_half_pixel", "half_pixel_symmetric"])
    attrs = dict(mode=m, coordinate_transformation_mode=ct)
    if m == "nearest":
        attrs["nearest_mode"] = b.ch(["round_prefer_floor", "round_prefer_ceil", "floor", "ceil"])
        b.tag(attrs["nearest_mode"])
    if m == "cubic" and b.p(.4):
        attrs["cubic_coeff_a"] = b.ch([-.5, -.6, -1., -.3, .25])
        b.tag("cubic_coeff")
    b.tag("Resize", m, ct)
    if "resize_1d" not in dom and (h == 1 or w == 1):
        raise Skip
    lo = 1 if "resize_1d" in dom else 2
    oh, ow = (1 if lo == 1 and b.p(.15) else b.ri(lo, 2 * t + 2) for t in (h, w))
    if oh == 1 or ow == 1:
        b.tag("to_length1")
    if "resize_scales" in dom and b.p(.5):
        # simple scales, or the quotient of two lengths rounded to single precision
        sh, sw = (b.ch([1., 2., 3., .5, 1.5]) if b.p(.5) else _quotient(b, o, t) for o, t in ((oh, h), (ow, w)))
        if int(h * sh) < 1 or int(w * sw) < 1:
            raise Skip
        if m == "nearest" and (_near_tie(h, int(h * sh), sh, ct) or _near_tie(w, int(w * sw), sw, ct)):
            raise Skip
        b.tag("scales", "intscale" if (h * sh) % 1 == 0 and (w * sw) % 1 == 0 else "fracscale")
        return b.node("Resize", [x, "", b.init(np.array([1., 1., sh, sw], np.float32))], **attrs)
    if m == "nearest" and (_near_tie(h, oh, oh / h, ct) or _near_tie(w, ow, ow / w, ct)):
        raise Skip
    b.tag("sizes")
    return b.node("Resize", [x, "", "", b.init(np.array([1, c, oh, ow], np.int64))], **attrs)


def _bshape(b, s, dom):
    """A shape broadcastable to s."""
    t = [d if b.p(.7) else 1 for d in s]
    if "bcast_rank" in dom and b.p(.3):
        t = t[b.ri(0, len(t) - 1):]
    return tuple(t)


def op_binary_const(b, x, dom, kind=None, **_):
    k = kind or b.ch(BINARY)
    cs = _bshape(b, b.shape[x], dom)
    c = b.w(*cs)
    if k == "Div":
        c = (np.sign(c) * (np.abs(c) + .5)).astype(b.dtype)
    if k in ("Mul", "Div") and "ident" in dom and b.p(.3):
        c.flat[b.ri(0, c.size - 1)] = 1
        b.tag("ident")
    if k == "Sub" and "ident" in dom and b.p(.3):
        c.flat[b.ri(0, c.size - 1)] = 0
        b.tag("ident")
    left = ("const_left" in dom or k in ("Add", "Mul")) and b.p(.35)
    b.tag(k, "cleft" if left else "cright", f"crank{len(cs)}" if len(cs) != len(b.shape[x]) else "samerank",
          "full" if cs == b.shape[x] else "bc")
    if left and k == "Div":
        x = b.node("Exp", [b.node("Tanh", [x])])
    ins = [b.init(c), x] if left else [x, b.init(c)]
    return b.node(k, ins)


def _compat(s, t):
    return all(a == c or a == 1 or c == 1 for a, c in zip(s[::-1], t[::-1]))


def op_binary(b, xs, dom, kind=None, **_):
    k = kind or b.ch(BINARY)
    x = xs[0]
    cand = [y for y in xs if _compat(b.shape[x], b.shape[y]) and len(b.shape[y]) == len(b.shape[x])]
    y = b.ch(cand)
    if y == x:
        b.tag("dupin")
        if "dup" not in dom:
            raise Skip
    if b.p(.5):
        x, y = y, x
    if k == "Div" and y not in b.pos:
        y = b.node("Exp", [b.node("Tanh", [y])])
        b.pos.add(y)
    b.tag(k, "dyn", "bc" if b.shape[x] != b.shape[y] else "full")
    return b.node(k, [x, y])


def op_nary(b, xs, dom, kind=None, **_):
    k = kind or b.ch(NARY)
    x = xs[0]
    cand = [y for y in xs if _compat(b.shape[x], b.shape[y]) and len(b.shape[y]) == len(b.shape[x])]
    ins = [x] + [b.ch(cand) for _ in range(b.ri(1, 3))]
    # pairwise compatible
    sh = b.shape[x]
    keep = [x]
    for y in ins[1:]:
        if _compat(sh, b.shape[y]):
            keep.append(y)
            sh = np.broadcast_shapes(sh, b.shape[y])
    ins = keep
    if len(set(ins)) < len(ins):
        b.tag("dupin")
        if "dup" not in dom:
            ins = list(dict.fromkeys(ins))
    if "nary_const" in dom and b.p(.3):
        ins.insert(b.ri(0, len(ins)), b.init(b.w(*_bshape(b, sh, set()))))
        b.tag("nconst")
    if len(ins) < 2:
        raise Skip
    b.tag(k, f"n{min(len(ins), 3)}", "bc" if len({b.shape[i] for i in ins}) > 1 else "full")
    return b.node(k, ins)


def op_flatten(b, x, dom, **_):
    s = b.shape[x]
    if len(s) != 4:
        raise Skip
    n = int(np.prod(s[1:]))
    b.tag("Flatten")
    if b.p(.4):
        b.tag("Reshape")
        return b.node("Reshape", [x, b.init(np.array([1, n] if b.p(.5) else [1, -1], np.int64))])
    return b.node("Flatten", [x])


def op_dropout(b, x, dom, **_):
    b.tag("Dropout")
    return b.node("Dropout", [x])


SINGLE = {
    "act": op_act, "conv": op_conv, "bn": op_bn, "softmax": op_softmax, "pad": op_pad, "gather": op_gather,
    "gatherelements": op_gather_elements, "matmul_const": op_matmul_const, "transpose": op_transpose,
    "tile": op_tile, "reduce": op_reduce, "pool": op_pool, "resize": op_resize, "binary_const": op_binary_const,
    "gemm": op_gemm, "flatten": op_flatten, "dropout": op_dropout,
}
MULTI = {"concat": op_concat, "matmul_dyn": op_matmul_dyn, "binary": op_binary, "nary": op_nary}
