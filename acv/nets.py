"""Networks expressible in several input formats, and their equivalents in each of them."""
import json
import os

import numpy as np
import onnx
from onnx import TensorProto as TP, helper as H, numpy_helper as NH

FORMATS = {
    "torch": {"conv", "relu", "clip", "bn", "maxpool", "gap", "add", "cat", "flatten", "dense", "dropout"},
    "json": {"conv", "bn", "maxpool", "avgpool", "add", "mul", "sub", "max", "min", "avg", "cat", "flatten", "dense", "dropout",
             "pad"},
    "nnet": {"dense"},
}
FORMATS["common"] = (FORMATS["torch"] & FORMATS["json"])
FUSED = {"torch": ["linear", "relu"], "json": ["linear", "relu", "sigmoid", "tanh", "leaky_relu", "softmax"], "common": ["linear", "relu"]}


class Net:
    """nodes[i] = {op, inputs: [node numbers], shape (channels first, batch 1), attributes}; node 0 is the input."""

    def __init__(self, rng, dtype, channels_last=False):
        self.rng, self.dtype, self.nodes, self.channels_last = rng, np.dtype(dtype), [], channels_last

    def node(self, op, inputs, shape, **attr):
        self.nodes.append({"op": op, "inputs": list(inputs), "shape": tuple(int(s) for s in shape), **attr})
        return len(self.nodes) - 1

    def shape(self, i):
        return self.nodes[i]["shape"]

    def users(self, i):
        return [k for k, nd in enumerate(self.nodes) if i in nd["inputs"]]

    def w(self, *shape, scale=None):
        a = self.rng.standard_normal(shape)
        return (a * (scale if scale is not None else 1.0 / np.sqrt(max(1, np.prod(shape[1:]))))).astype(self.dtype)


def same_pads(n, k, s, d=1):
    out = -(-n // s)
    total = max((out - 1) * s + (k - 1) * d + 1 - n, 0)
    return total // 2, total - total // 2, out


def _act(net, fmt, rank4):
    c = FUSED[fmt]
    a = str(net.rng.choice(c, p=[.3, *([.7 / (len(c) - 1)] * (len(c) - 1))]))
    return a


def add_conv(net, x, fmt):
    r = net.rng
    _, c, h, w = net.shape(x)
    kh, kw = (int(r.integers(1, min(h, 3) + 1)), int(r.integers(1, min(w, 3) + 1)))
    s = int(r.integers(1, 3))
    d = int(r.integers(1, 3)) if r.random() < .25 else 1
    if (kh - 1) * d + 1 > h or (kw - 1) * d + 1 > w:
        d = 1
    f = int(r.integers(1, 5))
    mode = "num"
    if fmt in ("json", "common"):
        mode = str(r.choice(["valid", "same"])) if fmt == "json" else "valid"
        if d > 1:
            s = 1
        if mode == "same":
            pt, pb, oh = same_pads(h, kh, s, d)
            pl, pr, ow = same_pads(w, kw, s, d)
        else:
            pt = pb = pl = pr = 0
    else:
        mode = str(r.choice(["num", "valid", "same"], p=[.7, .1, .2]))
        if mode == "same":
            s = 1
            th, tw = d * (kh - 1), d * (kw - 1)
            pt, pb, pl, pr = th // 2, th - th // 2, tw // 2, tw - tw // 2
        elif mode == "valid":
            pt = pb = pl = pr = 0
        else:
            pt = pb = int(r.integers(0, 3))
            pl = pr = int(r.integers(0, 3))
    if fmt == "torch" or mode == "valid":
        oh = (h + pt + pb - d * (kh - 1) - 1) // s + 1
        ow = (w + pl + pr - d * (kw - 1) - 1) // s + 1
    if oh < 1 or ow < 1:
        return None
    return net.node("conv", [x], (1, f, oh, ow), w=net.w(f, c, kh, kw), b=net.w(f, scale=.5), bias=bool(fmt != "torch" or r.random() < .8),
                    stride=s, dil=d, pads=(pt, pl, pb, pr), mode=mode, act=_act(net, fmt, True))


def add_pool(net, x, fmt, op):
    r = net.rng
    _, c, h, w = net.shape(x)
    k = int(r.integers(1, min(h, w, 3) + 1))
    s = int(r.integers(1, 3)) if r.random() < .6 else k
    ceil, mode = False, "valid"
    pt = pb = pl = pr = 0
    if fmt in ("json", "common"):
        mode = str(r.choice(["valid", "same"])) if fmt == "json" else "valid"
        if mode == "same":
            pt, pb, oh = same_pads(h, k, s)
            pl, pr, ow = same_pads(w, k, s)
    elif k > 1 and r.random() < .5:
        pt = pb = int(r.integers(0, k // 2 + 1))
        pl = pr = int(r.integers(0, k // 2 + 1))
    if mode == "valid":
        oh = (h + pt + pb - k) // s + 1
        ow = (w + pl + pr - k) // s + 1
    return net.node(op, [x], (1, c, oh, ow), k=k, stride=s, pads=(pt, pl, pb, pr), mode=mode)


def add_dense(net, x, fmt, units=None, act=None):
    n = int(np.prod(net.shape(x)))
    m = units or int(net.rng.integers(1, 9))
    return net.node("dense", [x], (1, m), w=net.w(n, m, scale=1 / np.sqrt(n)), b=net.w(m, scale=.5),
                    bias=bool(fmt != "torch" or net.rng.random() < .8), act=act or _act(net, fmt, False))


def add_op(net, op, x, fmt):
    r = net.rng
    sh = net.shape(x)
    img = len(sh) == 4
    if op == "conv":
        return add_conv(net, x, fmt) if img else None
    if op in ("maxpool", "avgpool"):
        return add_pool(net, x, fmt, op) if img else None
    if op == "relu":
        return net.node("relu", [x], sh, inplace=bool(r.random() < .3), functional=bool(r.random() < .5))
    if op == "clip":
        lo, hi = sorted(float(v) for v in np.round(r.standard_normal(2), 2))
        lo, hi = [(lo, hi), (lo, None), (None, hi), (0.0, 6.0)][int(r.integers(4))]
        return net.node("clip", [x], sh, lo=lo, hi=hi)
    if op == "dropout":
        return net.node("dropout", [x], sh) if x else None
    if op == "flatten":
        if net.channels_last and fmt != "json" and sh[1] > 1 and sh[2] * sh[3] > 1:
            return None         # the order of the values would not be that of PyTorch
        return net.node("flatten", [x], (1, int(np.prod(sh)))) if img else None
    if op == "dense":
        return add_dense(net, x, fmt) if not img else None
    if not img:
        return None
    if op == "bn":
        c = sh[1]
        return net.node("bn", [x], sh, gamma=(1 + .5 * r.standard_normal(c)).astype(net.dtype), beta=net.w(c, scale=.5), mean=net.w(c, scale=.5),
                        var=(r.random(c) + .2).astype(net.dtype), eps=float(np.float32(r.choice([1e-5, 1e-3, .1]))))
    if op == "gap":
        return net.node("gap", [x], (*sh[:2], 1, 1)) if sh[2] == sh[3] and sh[2] > 1 else None
    if op == "pad":
        t, le, b, ri = (int(v) for v in r.integers(0, 3, 4))
        how = int(r.integers(3))
        if how == 0:
            t = le = b = ri = int(r.integers(0, 3))
        elif how == 1:
            b, ri = t, le
        return net.node("pad", [x], (1, sh[1], sh[2] + t + b, sh[3] + le + ri), pads=(t, le, b, ri), how=how)
    same = [i for i in range(len(net.nodes)) if net.shape(i) == sh and i != x]
    if op in ("add", "mul", "sub", "max", "min", "avg"):
        if not same:
            return None
        y = int(r.choice(same))
        ins = [x, y] if r.random() < .5 else [y, x]
        if fmt == "json" and op in ("add", "mul", "max", "min", "avg") and len(same) > 1 and r.random() < .3:
            ins.append(int(r.choice([i for i in same if i != y])))
        return net.node(op, ins, sh)
    if op == "cat":
        ax = int(r.choice([1, 1, 2, 3]))
        ok = [i for i in range(len(net.nodes)) if i != x and len(net.shape(i)) == 4
              and all(net.shape(i)[k] == sh[k] for k in range(4) if k != ax)]
        if not ok:
            return None
        ins = [x, *(int(i) for i in r.permutation(ok)[: int(r.integers(1, 3))])]
        r.shuffle(ins)
        ins = [int(i) for i in ins]
        out = list(sh)
        out[ax] = sum(net.shape(i)[ax] for i in ins)
        return net.node("cat", ins, out, axis=ax, neg=bool(r.random() < .3))
    raise ValueError(op)


WEIGHT = dict(conv=5, relu=3, clip=1, bn=2, maxpool=1.5, avgpool=1.5, gap=.5, add=2.5, mul=1, sub=1, max=.7, min=.7, avg=.7, cat=2,
              dropout=.5, pad=1.5)


def make(seed, fmt, dtype=np.float32, channels_last=False, maxsize=900):
    """A random network of format `fmt` (or None): the last node is the output and every other node is used."""
    rng = np.random.default_rng([int(seed), 41])
    net = Net(rng, dtype, channels_last)
    if fmt == "nnet":
        sizes = [int(v) for v in rng.integers(1, 9, int(rng.integers(2, 7)))]
        net.node("input", [], (1, sizes[0]))
        for k, n in enumerate(sizes[1:]):
            add_dense(net, k, fmt, n, "linear" if k == len(sizes) - 2 else "relu")
        return net
    ops = FORMATS[fmt]
    vec = rng.random() < .2
    if vec:
        net.node("input", [], (1, int(rng.integers(1, 10))))
        net.flat_input = True
        add_dense(net, 0, fmt)
    else:
        h = int(rng.integers(2, 9))
        net.node("input", [], (1, int(rng.integers(1, 4)), h, h if rng.random() < .5 else int(rng.integers(2, 9))))
        table = {k: v for k, v in WEIGHT.items() if k in ops}
        names, pr = list(table), np.array(list(table.values()))
        if rng.random() < .4:       # close neighbours, as in residual networks
            pr = pr * np.array([3 if n in ("add", "cat", "bn", "relu") else 1 for n in names])
        for _ in range(int(rng.integers(2, 12))):
            last = len(net.nodes) - 1
            x = max(0, last - int(rng.geometric(.6)) + 1)
            if len(net.shape(x)) != 4:
                continue
            y = add_op(net, str(rng.choice(names, p=pr / pr.sum())), x, fmt)
            if y is not None and np.prod(net.shape(y)) > maxsize:
                net.nodes.pop()
        # merge what nobody uses
        for _ in range(6):
            ends = [i for i in range(len(net.nodes)) if not net.users(i)]
            if len(ends) < 2:
                break
            a, b = ends[-1], ends[0]
            if net.shape(a) == net.shape(b):
                net.node("add", [a, b], net.shape(a))
            elif net.shape(a)[2:] == net.shape(b)[2:]:
                net.node("cat", [b, a], (1, net.shape(a)[1] + net.shape(b)[1], *net.shape(a)[2:]), axis=1, neg=False)
            else:
                break
        if rng.random() < .6:
            x = len(net.nodes) - 1
            if add_op(net, "flatten", x, fmt) is not None:
                add_dense(net, x + 1, fmt)
    if len(net.shape(len(net.nodes) - 1)) == 2 and rng.random() < .7:
        for op in rng.choice(["relu", "clip", "dropout", "dense", "dense"], int(rng.integers(1, 4))):
            if op in ops:
                add_op(net, str(op), len(net.nodes) - 1, fmt)
    return _prune(net)


def _prune(net):
    keep = set()
    todo = [len(net.nodes) - 1]
    while todo:
        i = todo.pop()
        if i not in keep:
            keep.add(i)
            todo += net.nodes[i]["inputs"]
    if 0 not in keep or len(keep) < 2:
        return None
    order = sorted(keep)
    new = {o: k for k, o in enumerate(order)}
    net.nodes = [{**net.nodes[o], "inputs": [new[i] for i in net.nodes[o]["inputs"]]} for o in order]
    if all(nd["op"] in ("input", "dropout", "flatten", "relu", "clip") for nd in net.nodes):
        return None
    return net


def tags(net):
    t = {nd["op"] for nd in net.nodes if nd["op"] != "input"}
    t |= {f"act:{nd['act']}" for nd in net.nodes if nd.get("act", "linear") != "linear"}
    t |= {f"mode:{nd['mode']}" for nd in net.nodes if nd["op"] in ("conv", "maxpool", "avgpool")}
    if any(len(net.users(i)) > 1 for i in range(len(net.nodes))):
        t.add("shared_tensor")
    if any(nd["op"] == "conv" and not nd["bias"] for nd in net.nodes):
        t.add("no_bias")
    return sorted(t)


# -- ONNX ---------------------------------------------------------------------------------------------------------
def to_onnx(net, opset=18):
    T = TP.DOUBLE if net.dtype == np.float64 else TP.FLOAT
    nodes, inits, cnt = [], [], [0]

    def init(a, dtype=None):
        cnt[0] += 1
        n = f"p{cnt[0]}"
        inits.append(NH.from_array(np.asarray(a, dtype or net.dtype), n))
        return n

    def emit(op, ins, **kw):
        cnt[0] += 1
        n = f"t{cnt[0]}"
        nodes.append(H.make_node(op, ins, [n], **kw))
        return n

    def act(a, t, shape):
        if a == "linear":
            return t
        if a == "softmax":
            return emit("Softmax", [t], axis=1 if len(shape) == 2 or net.channels_last else 3)
        if a == "leaky_relu":
            return emit("LeakyRelu", [t], alpha=float(np.float32(.2)))
        return emit({"relu": "Relu", "sigmoid": "Sigmoid", "tanh": "Tanh"}[a], [t])

    val = {0: "x"}
    for i, nd in enumerate(net.nodes):
        op, ins, sh = nd["op"], [val[k] for k in nd["inputs"]], nd["shape"]
        if op == "input":
            continue
        if op == "conv":
            b = [init(nd["b"])] if nd["bias"] else []
            val[i] = act(nd["act"], emit("Conv", [*ins, init(nd["w"]), *b], strides=[nd["stride"]] * 2, dilations=[nd["dil"]] * 2,
                                         pads=list(nd["pads"]), kernel_shape=list(nd["w"].shape[2:])), sh)
        elif op == "dense":
            y = emit("MatMul", [*ins, init(nd["w"])]) if not nd["bias"] else \
                emit("Gemm", [*ins, init(nd["w"]), init(nd["b"])], alpha=1.0, beta=1.0, transA=0, transB=0)
            val[i] = act(nd["act"], y, sh)
        elif op == "relu":
            val[i] = emit("Relu", ins)
        elif op == "clip":
            lo = init(np.array(nd["lo"])) if nd["lo"] is not None else ""
            val[i] = emit("Clip", [ins[0], lo, *([init(np.array(nd["hi"]))] if nd["hi"] is not None else [])])
        elif op == "dropout":
            val[i] = ins[0]
        elif op == "flatten":
            if net.channels_last and net.shape(nd["inputs"][0])[1] > 1:
                ins = [emit("Transpose", ins, perm=[0, 2, 3, 1])]
            val[i] = emit("Flatten", ins, axis=1)
        elif op == "bn":
            val[i] = emit("BatchNormalization", [*ins, init(nd["gamma"]), init(nd["beta"]), init(nd["mean"]), init(nd["var"])], epsilon=nd["eps"])
        elif op == "gap":
            val[i] = emit("GlobalAveragePool", ins)
        elif op in ("maxpool", "avgpool"):
            val[i] = emit("MaxPool" if op == "maxpool" else "AveragePool", ins, kernel_shape=[nd["k"]] * 2, strides=[nd["stride"]] * 2,
                          pads=list(nd["pads"]))
        elif op == "pad":
            t, le, b, r = nd["pads"]
            val[i] = emit("Pad", [*ins, init([0, 0, t, le, 0, 0, b, r], np.int64), init(np.array(0.0))])
        elif op == "cat":
            val[i] = emit("Concat", ins, axis=nd["axis"])
        else:
            name = {"add": "Add", "mul": "Mul", "sub": "Sub", "max": "Max", "min": "Min", "avg": "Mean"}[op]
            if op in ("add", "mul") and len(ins) > 2:
                ins = [emit(name, ins[:2]), ins[2]]
            val[i] = emit(name, ins)
    out = val[len(net.nodes) - 1]
    g = H.make_graph(nodes, "g", [H.make_tensor_value_info("x", T, net.shape(0))],
                     [H.make_tensor_value_info(out, T, net.shape(len(net.nodes) - 1))], inits)
    m = H.make_model(g, opset_imports=[H.make_opsetid("", opset)])
    m.ir_version = 8
    onnx.checker.check_model(m)
    return onnx.shape_inference.infer_shapes(m)


# -- PyTorch ------------------------------------------------------------------------------------------------------
def to_torch(net):
    """(module, example input)"""
    import torch
    from torch import nn
    dt = torch.float64 if net.dtype == np.float64 else torch.float32

    class M(nn.Module):
        def __init__(self):
            super().__init__()
            for i, nd in enumerate(net.nodes):
                if nd["op"] == "conv":
                    f, c, kh, kw = nd["w"].shape
                    pad = nd["mode"] if nd["mode"] != "num" else (nd["pads"][0], nd["pads"][1])
                    ly = nn.Conv2d(c, f, (kh, kw), stride=nd["stride"], padding=pad, dilation=nd["dil"], bias=nd["bias"])
                elif nd["op"] == "dense":
                    ly = nn.Linear(*nd["w"].shape, bias=nd["bias"])
                elif nd["op"] == "bn":
                    ly = nn.BatchNorm2d(len(nd["gamma"]), eps=nd["eps"])
                    ly.weight.data = torch.from_numpy(nd["gamma"].copy())
                    ly.bias.data = torch.from_numpy(nd["beta"].copy())
                    ly.running_mean.data = torch.from_numpy(nd["mean"].copy())
                    ly.running_var.data = torch.from_numpy(nd["var"].copy())
                elif nd["op"] == "relu" and not nd["functional"]:
                    ly = nn.ReLU()
                elif nd["op"] == "maxpool":
                    ly = nn.MaxPool2d(nd["k"], stride=None if nd["stride"] == nd["k"] else nd["stride"], padding=(nd["pads"][0], nd["pads"][1]))
                elif nd["op"] == "dropout":
                    ly = nn.Dropout(.5)
                else:
                    continue
                if nd["op"] in ("conv", "dense"):
                    w = nd["w"] if nd["op"] == "conv" else nd["w"].T
                    ly.weight.data = torch.from_numpy(np.ascontiguousarray(w))
                    if nd["bias"]:
                        ly.bias.data = torch.from_numpy(nd["b"].copy())
                setattr(self, f"l{i}", ly)

        def forward(self, x):
            v = [x]
            for i, nd in enumerate(net.nodes[1:], 1):
                op, a = nd["op"], [v[k] for k in nd["inputs"]]
                if op in ("conv", "dense"):
                    y = getattr(self, f"l{i}")(a[0])
                    if nd["act"] == "relu":
                        y = torch.relu(y)
                elif hasattr(self, f"l{i}"):
                    y = getattr(self, f"l{i}")(a[0])
                elif op == "relu":
                    y = torch.relu(a[0])
                elif op == "clip":
                    y = torch.clamp(a[0], nd["lo"], nd["hi"])
                elif op == "gap":
                    y = nn.functional.adaptive_avg_pool2d(a[0], 1)
                elif op == "add":
                    y = a[0] + a[1]
                elif op == "cat":
                    y = torch.cat(a, nd["axis"])
                elif op == "flatten":
                    y = torch.flatten(a[0], 1)
                else:
                    raise ValueError(op)
                v.append(y)
            return v[-1]

    m = M().eval()
    ex = torch.rand(net.shape(0), dtype=dt)
    if net.channels_last:
        m = m.to(memory_format=torch.channels_last)
        ex = ex.to(memory_format=torch.channels_last)
    return m, ex


def export(net, strict=False):
    import torch
    torch._dynamo.reset()
    m, ex = to_torch(net)
    return m, torch.export.export(m, (ex,), strict=strict)


# -- JSON (the format of the Keras converter) ---------------------------------------------------------------------
def to_json(net, path, rng):
    fl = "float64" if net.dtype == np.float64 else "float32"
    last = net.channels_last

    def shp(s):
        return [None, *s[1:]]

    layers = []
    for i, nd in enumerate(net.nodes):
        op, sh = nd["op"], nd["shape"]
        ins = [net.shape(k) for k in nd["inputs"]]
        cfg = {"name": f"layer_{i}", "dtype": fl, "size": int(np.prod(sh)), "idx": i, "prev_layer_idx": nd["inputs"],
               "output_shape": shp(sh), "input_shape": shp(ins[0]) if len(ins) == 1 else [shp(s) for s in ins] if ins else shp(sh)}
        ly = {"config": cfg}
        if op == "input":
            ly["class_name"] = "InputLayer"
        elif op == "conv":
            ly["class_name"] = "Conv2D"
            cfg.update(padding=nd["mode"], strides=[nd["stride"]] * 2, kernel_size=list(nd["w"].shape[2:]), dilation_rate=[nd["dil"]] * 2,
                       filters=sh[1], activation=nd["act"])
            ly["weights"] = np.moveaxis(nd["w"], 0, 3).tolist()
            ly["biases"] = nd["b"].tolist()
        elif op == "dense":
            ly["class_name"] = "Dense"
            cfg.update(units=sh[1], activation=nd["act"])
            ly["weights"] = (nd["w"] if rng.random() < .5 else nd["w"][None, None]).tolist()
            ly["biases"] = nd["b"].tolist()
        elif op in ("maxpool", "avgpool"):
            ly["class_name"] = "MaxPooling2D" if op == "maxpool" else "AveragePooling2D"
            cfg.update(padding=nd["mode"], strides=[nd["stride"]] * 2, pool_size=[nd["k"]] * 2)
        elif op == "bn":
            ly["class_name"] = "BatchNormalization"
            cfg.update(epsilon=nd["eps"])
            ly.update(gamma=nd["gamma"].tolist(), beta=nd["beta"].tolist(), moving_mean=nd["mean"].tolist(), moving_var=nd["var"].tolist())
        elif op == "pad":
            ly["class_name"] = "ZeroPadding2D"
            t, le, b, r = nd["pads"]
            cfg["padding"] = [t, [t, le], [[t, b], [le, r]]][nd["how"]]
        elif op == "cat":
            ly["class_name"] = "Concatenate"
            ax = nd["axis"]
            ax = {1: 3, 2: 1, 3: 2}[ax] if last else ax
            cfg["axis"] = ax - 4 if nd["neg"] else ax
        elif op == "dropout":
            ly["class_name"] = "Dropout"
            cfg["rate"] = .5
        elif op == "flatten":
            ly["class_name"] = "Flatten"
        else:
            ly["class_name"] = {"add": "Add", "mul": "Multiply", "sub": "Subtract", "max": "Maximum", "min": "Minimum", "avg": "Average"}[op]
        layers.append(ly)
    with open(path, "w") as f:
        json.dump({"class_name": "Functional", "config": {"name": "model", "data_format": "channels_last" if last else "channels_first",
                                                          "layers": layers}}, f)
    return path


# -- NNET ---------------------------------------------------------------------------------------------------------
def to_nnet(net, path, mins=None, maxes=None, means=None, ranges=None, comments=2):
    def row(a):
        return ",".join(repr(float(v)) for v in a) + ",\n"
    sizes = [int(np.prod(nd["shape"])) for nd in net.nodes]
    n = sizes[0]
    with open(path, "w") as f:
        f.write("// comment line\n" * comments)
        f.write(f"{len(sizes) - 1},{n},{sizes[-1]},{max(sizes)},\n")
        f.write(",".join(map(str, sizes)) + ",\n0,\n")
        f.write(row(mins if mins is not None else [-1e6] * n))
        f.write(row(maxes if maxes is not None else [1e6] * n))
        f.write(row(means if means is not None else [0.0] * (n + 1)))
        f.write(row(ranges if ranges is not None else [1.0] * (n + 1)))
        for nd in net.nodes[1:]:
            for col in nd["w"].T:
                f.write(row(col))
            for v in nd["b"]:
                f.write(repr(float(v)) + ",\n")
    return path




# -- an evaluator of its own, in double precision -------------------------------------------------------------------
def _windows(x, k, stride, pads, dil, fill):
    pt, pl, pb, pr = pads
    x = np.pad(x, ((0, 0), (pt, pb), (pl, pr)), constant_values=fill)
    kh, kw = k
    oh, ow = (x.shape[1] - dil * (kh - 1) - 1) // stride + 1, (x.shape[2] - dil * (kw - 1) - 1) // stride + 1
    return np.stack([[x[:, i * dil:i * dil + stride * (oh - 1) + 1:stride, j * dil:j * dil + stride * (ow - 1) + 1:stride] for j in range(kw)]
                     for i in range(kh)])


def _activate(a, y, net):
    if a == "relu":
        return np.maximum(y, 0)
    if a == "sigmoid":
        return 1 / (1 + np.exp(-y))
    if a == "tanh":
        return np.tanh(y)
    if a == "leaky_relu":
        return np.where(y < 0, .2 * y, y)
    if a == "softmax":
        ax = 0 if y.ndim == 1 or net.channels_last else 2
        e = np.exp(y - y.max(axis=ax, keepdims=True))
        return e / e.sum(axis=ax, keepdims=True)
    return y


def values(net, x):
    """The value of every node (of a single row), without the batch axis."""
    v = [np.asarray(x, np.float64)[0]]
    for nd in net.nodes[1:]:
        op, a = nd["op"], [v[k] for k in nd["inputs"]]
        if op == "conv":
            w = _windows(a[0], nd["w"].shape[2:], nd["stride"], nd["pads"], nd["dil"], 0.0)
            y = np.einsum("fcij,ijchw->fhw", nd["w"].astype(np.float64), w)
            y = _activate(nd["act"], y + (nd["b"].astype(np.float64)[:, None, None] if nd["bias"] else 0), net)
        elif op == "dense":
            y = _activate(nd["act"], a[0] @ nd["w"].astype(np.float64) + (nd["b"] if nd["bias"] else 0), net)
        elif op in ("maxpool", "avgpool"):
            w = _windows(a[0], (nd["k"], nd["k"]), nd["stride"], nd["pads"], 1, np.nan)
            y = np.nanmax(w, axis=(0, 1)) if op == "maxpool" else np.nanmean(w, axis=(0, 1))
        elif op == "relu":
            y = np.maximum(a[0], 0)
        elif op == "clip":
            y = a[0] if nd["lo"] is None else np.maximum(a[0], nd["lo"])
            y = y if nd["hi"] is None else np.minimum(y, nd["hi"])
        elif op == "dropout":
            y = a[0]
        elif op == "flatten":
            y = (np.transpose(a[0], (1, 2, 0)) if net.channels_last and a[0].shape[0] > 1 else a[0]).ravel()
        elif op == "bn":
            s = (slice(None), None, None)
            y = (a[0] - nd["mean"][s]) / np.sqrt(nd["var"][s] + nd["eps"]) * nd["gamma"][s] + nd["beta"][s]
        elif op == "gap":
            y = a[0].mean(axis=(1, 2), keepdims=True)
        elif op == "pad":
            t, le, b, r = nd["pads"]
            y = np.pad(a[0], ((0, 0), (t, b), (le, r)))
        elif op == "cat":
            y = np.concatenate(a, axis=nd["axis"] - 1)
        elif op == "avg":
            y = sum(a) / len(a)
        else:
            f = {"add": np.add, "mul": np.multiply, "sub": np.subtract, "max": np.maximum, "min": np.minimum}[op]
            y = a[0]
            for t in a[1:]:
                y = f(y, t)
        v.append(y)
    return v


def evaluate(net, x):
    return values(net, x)[-1][None]
