"""Models with one feature outside what the generator is meant to support (or at its border).

Each entry of ODD builds the feature on an input and returns the output tensor (or tensors).  Whether the generator accepts the model
is not assumed: the check only asks that it is rejected or computed correctly.
"""
import numpy as np
import onnx
from onnx import TensorProto, helper, numpy_helper

from . import dag, onnxgen as G
from .onnxgen import Builder, Skip

ODD = {}


def odd(*names, shape=4, opset=18):
    def reg(f):
        for n in names or [f.__name__]:
            ODD[n] = (f, shape, opset, n)
        return f
    return reg


class OddBuilder(Builder):
    """A builder that lets tensors have other element types."""
    et = None

    def _infer(self, nd, out):
        self.et = self.et or {}
        initn = {i.name: i for i in self.inits}
        default = TensorProto.FLOAT
        gi = [helper.make_tensor_value_info(n, self.et.get(n, default), list(self.shape[n])) for n in dict.fromkeys(nd.input)
              if n and n not in initn]
        o = onnx.ValueInfoProto()
        o.name = out
        consts = [c for c in self.nodes if c.op_type == "Constant" and c.output[0] in nd.input]
        made = {c.output[0] for c in consts}
        gi = [i for i in gi if i.name not in made]
        g = helper.make_graph([*consts, nd], "g", gi, [o], [initn[n] for n in dict.fromkeys(nd.input) if n in initn])
        m = helper.make_model(g, opset_imports=[helper.make_opsetid("", self.opset)])
        m.ir_version = 8
        try:
            m = onnx.shape_inference.infer_shapes(m, strict_mode=True, data_prop=True)
        except Exception as e:  # noqa: BLE001
            raise Skip(f"shape inference: {e}") from e
        t = m.graph.output[0].type.tensor_type
        self.et[out] = t.elem_type
        if not t.HasField("shape"):
            raise Skip("unknown rank")
        s = tuple(d.dim_value for d in t.shape.dim)
        if any(d <= 0 for d in s):
            raise Skip(f"bad shape {s}")
        return s


# -- operators the generator has no layer for ------------------------------------------------------------------
UNARY = {"Abs": {}, "Neg": {}, "Elu": {}, "Selu": {}, "HardSigmoid": {}, "Softplus": {}, "Softsign": {}, "Identity": {},
         "Erf": {}, "Floor": {}, "Ceil": {}, "Round": {}, "Sign": {}, "Sin": {}, "Cos": {}, "Atan": {}, "ThresholdedRelu": {},
         "Celu": {}, "Mish": {}, "HardSwish": {}, "LogSoftmax": {"axis": 1}, "Hardmax": {"axis": 1}, "Sqrt": {},
         "LRN": {"size": 3}, "GlobalMaxPool": {}, "GlobalLpPool": {}, "LpNormalization": {"axis": 1},
         "Shrink": {"lambd": .3, "bias": .1}, "IsNaN": {}, "Reciprocal": {}}
for _n, _a in UNARY.items():
    def _f(b, x, op=_n, attrs=_a):
        if op in ("Sqrt", "Reciprocal"):
            x = b.node("Exp", [b.node("Tanh", [x])])
        y = b.node(op, [x], **attrs)
        return b.node("Cast", [y], to=1) if op == "IsNaN" else y
    ODD["op_" + _n] = (_f, 4, 18, "op_" + _n)


@odd("ReduceL1", "ReduceL2", "ReduceSumSquare", "ReduceLogSumExp", "ArgMax")
def reduce_other(b, x, name=None):
    a = b.ri(1, 3)
    if name == "ArgMax":
        return b.node("Cast", [b.node("ArgMax", [x], axis=a)], to=1)
    return b.node(name, [x, b.init(np.array([a], np.int64))])


@odd("Pow", "PRelu", "Sum", "Mod", "Greater", "Where", "Expand", "Equal")
def binary_other(b, x, name=None):
    s = b.shape[x]
    if name == "PRelu":
        return b.node("PRelu", [x, b.init(b.w(s[1], 1, 1))])
    if name == "Pow":
        return b.node("Pow", [x, b.init(np.array(b.ch([2., 3.]), b.dtype))])
    if name == "Sum":
        return b.node("Sum", [x, b.node("Relu", [x])])
    if name == "Mod":
        return b.node("Mod", [x, b.init(np.array(1.5, b.dtype))], fmod=1)
    if name == "Expand":
        return b.node("Expand", [b.node("ReduceMax", [x, b.init(np.array([1], np.int64))]), b.init(np.array(s, np.int64))])
    c = b.init(b.w(*s))
    if name == "Where":
        m = b.init(b.rng.random(s) < .5)
        return b.node("Where", [m, x, c])
    return b.node("Cast", [b.node(name, [x, c])], to=1)


@odd("Slice", "Squeeze", "Unsqueeze", "DepthToSpace", "SpaceToDepth", "ConvTranspose", "InstanceNormalization", "LayerNormalization",
     "CumSum", "GatherND", "Trilu")
def shape_other(b, x, name=None):
    _, c, h, w = b.shape[x]
    i64 = lambda *v: b.init(np.array(v, np.int64))  # noqa: E731
    if name == "Slice":
        if h < 2:
            raise Skip
        return b.node("Slice", [x, i64(1), i64(h), i64(2)])
    if name == "Squeeze":
        if h != 1:
            x = b.node("ReduceMax", [x, i64(2)])
        return b.node("Squeeze", [x, i64(2)])
    if name == "Unsqueeze":
        return b.node("Unsqueeze", [x, i64(1)])
    if name == "DepthToSpace":
        x = b.node("Concat", [x, x, x, x], axis=1)
        return b.node("DepthToSpace", [x], blocksize=2, mode=b.ch(["DCR", "CRD"]))
    if name == "SpaceToDepth":
        x = b.node("Concat", [x, x], axis=2)
        return b.node("SpaceToDepth", [b.node("Concat", [x, x], axis=3)], blocksize=2)
    if name == "ConvTranspose":
        return b.node("ConvTranspose", [x, b.init(b.w(c, 2, 2, 2))])
    if name == "InstanceNormalization":
        return b.node(name, [x, b.init(b.w(c)), b.init(b.w(c))])
    if name == "LayerNormalization":
        return b.node(name, [x, b.init(b.w(w))])
    if name == "CumSum":
        return b.node(name, [x, b.init(np.array(2, np.int64))])
    if name == "GatherND":
        return b.node(name, [x, b.init(np.zeros((1, 2), np.int64))])
    if name == "Trilu":
        return b.node(name, [x])
    raise Skip


@odd("split", "maxpool_indices", "bn_training", "dropout_mask")
def several_outputs(b, x, name=None):
    _, c, h, w = b.shape[x]
    if name == "split":
        if h < 2:
            raise Skip
        nd = helper.make_node("Split", [x, b.init(np.array([1, h - 1], np.int64))], ["sa", "sb"], axis=2, name="spl")
        b.nodes.append(nd)
        b.shape["sa"], b.shape["sb"] = (1, c, 1, w), (1, c, h - 1, w)
        return b.ch(["sa", "sb"])
    if name == "maxpool_indices":
        b.nodes.append(helper.make_node("MaxPool", [x], ["mv", "mi"], kernel_shape=[1, 1], name="mp"))
        b.shape["mv"] = b.shape["mi"] = b.shape[x]
        y = b.node("Relu", ["mv"])
        return b.node("Cast", ["mi"], to=1) if b.p(.5) else y
    if name == "bn_training":
        ins = [x, *[b.init(b.w(c)) for _ in range(3)], b.init(np.abs(b.w(c)) + .5)]
        b.nodes.append(helper.make_node("BatchNormalization", ins, ["bo", "bm", "bv"], training_mode=1, name="bn"))
        b.shape["bo"] = b.shape[x]
        return "bo"
    b.nodes.append(helper.make_node("Dropout", [x], ["do", "dm"], name="dr"))
    b.shape["do"] = b.shape["dm"] = b.shape[x]
    return b.node("Cast", ["dm"], to=1)


# -- supported operators with attributes at or beyond the border -----------------------------------------------
FEATURES = {"conv": ["conv_str_ne", "conv_group"], "pool": ["pool_kne", "pool_sne", "pool_cip", "pool_ceil", "gap_ne"],
            "gather": ["gather_2d"], "gatherelements": ["ge_any"], "reduce": ["reduce_nokeep", "reduce_n", "reduce_noaxes"],
            "transpose": ["transpose_n"]}
for _op, _fs in FEATURES.items():
    for _ft in _fs:
        ODD[_ft] = ((lambda b, x, op=_op, ft=_ft: G.SINGLE[op](b, x, dag.DOMAIN | {ft})), 4, 18, _ft)


@odd("gemm_transA", "gemm_dynB", "gemm_dynC", "gemm_3d_bias", shape=2)
def gemm_odd(b, x, name=None):
    m, k = b.shape[x]
    n = b.ri(1, 6)
    if name == "gemm_transA":
        return b.node("Gemm", [x, b.init(b.w(m, n))], transA=1)
    if name == "gemm_dynB":
        y = b.node("Gemm", [x, b.init(b.w(k, n))])
        z = b.node("Relu", [x])
        return b.node("Gemm", [z, b.node("Tanh", [y])], transA=1)
    if name == "gemm_dynC":
        y = b.node("Gemm", [x, b.init(b.w(k, n))])
        return b.node("Gemm", [x, b.init(b.w(k, n)), b.node("Tanh", [y])])
    return b.node("Gemm", [x, b.init(b.w(k, n)), b.init(np.array(.5, b.dtype))])


@odd("conv_dynW", "conv_dynB", "conv_1x1_noattr", "conv_negpad", "conv_dil_ne", "conv_depthwise")
def conv_odd(b, x, name=None):
    _, c, h, w = b.shape[x]
    if name == "conv_dynW":
        wt = b.node("Tanh", [b.init(b.w(2, c, 1, 1))])
        return b.node("Conv", [x, wt], kernel_shape=[1, 1])
    if name == "conv_dynB":
        bi = b.node("Tanh", [b.init(b.w(3))])
        return b.node("Conv", [x, b.init(b.w(3, c, 1, 1)), bi], kernel_shape=[1, 1])
    if name == "conv_1x1_noattr":
        k = b.ri(1, min(3, h, w))
        return b.node("Conv", [x, b.init(b.w(2, c, k, k))])
    if name == "conv_negpad":
        if h < 4 or w < 4:
            raise Skip
        return b.node("Conv", [x, b.init(b.w(2, c, 2, 2))], kernel_shape=[2, 2], pads=[-1, 0, 0, -1])
    if name == "conv_dil_ne":
        if h < 4 or w < 6:
            raise Skip
        return b.node("Conv", [x, b.init(b.w(2, c, 2, 2))], kernel_shape=[2, 2], dilations=[1, 2])
    m = b.ri(1, 2)
    return b.node("Conv", [x, b.init(b.w(c * m, 1, 1, 1)), b.init(b.w(c * m))], kernel_shape=[1, 1], group=c)


@odd("pool_dilated", "maxpool_storage")
def pool_odd(b, x, name=None):
    _, c, h, w = b.shape[x]
    if h < 3 or w < 3:
        raise Skip
    if name == "pool_dilated":
        return b.node("MaxPool", [x], kernel_shape=[2, 2], dilations=[2, 2])
    return b.node("MaxPool", [x], kernel_shape=[2, 2], storage_order=1)


@odd("pad_negative", "pad_batch", "pad_dynamic_value", "pad_attr11")
def pad_odd(b, x, name=None):
    _, c, h, w = b.shape[x]
    if name == "pad_negative":
        if h < 3 or w < 3:
            raise Skip
        return b.node("Pad", [x, b.init(np.array([0, 0, -1, 0, 0, 0, 1, -1], np.int64))], mode=b.ch(["constant", "edge"]))
    if name == "pad_batch":
        return b.node("Pad", [x, b.init(np.array([0, 0, 0, 0, 1, 0, 0, 0], np.int64))], mode=b.ch(["constant", "edge"]))
    if name == "pad_dynamic_value":
        v = b.node("Tanh", [b.init(np.array([.7], b.dtype))])
        v = b.node("Squeeze", [v]) if b.p(.5) else v
        return b.node("Pad", [x, b.init(np.array([0, 0, 1, 0, 0, 0, 0, 0], np.int64)), v])
    return b.node("Pad", [x, b.init(np.array([0, 0, 1, 0, 0, 0, 0, 1], np.int64)), "", b.init(np.array([0, 1, 2, 3], np.int64))])


@odd("resize_crop", "resize_antialias", "resize_exclude", "resize_aspect", "resize_axes", "resize_floor_mode", "resize_cubic_a",
     "resize_channels")
def resize_odd(b, x, name=None):
    _, c, h, w = b.shape[x]
    f32 = lambda *v: b.init(np.array(v, np.float32))  # noqa: E731
    i64 = lambda *v: b.init(np.array(v, np.int64))  # noqa: E731
    m = b.ch(["nearest", "linear", "cubic"])
    if name == "resize_crop":
        return b.node("Resize", [x, f32(0, 0, .1, .2, 1, 1, .8, .9), "", i64(1, c, h + 1, w + 1)], mode=m,
                      coordinate_transformation_mode="tf_crop_and_resize", extrapolation_value=.5)
    if name == "resize_antialias":
        return b.node("Resize", [x, "", "", i64(1, c, max(1, h // 2), max(1, w // 2))], mode=b.ch(["linear", "cubic"]), antialias=1)
    if name == "resize_exclude":
        return b.node("Resize", [x, "", "", i64(1, c, h + 2, w + 1)], mode="cubic", exclude_outside=1)
    if name == "resize_aspect":
        return b.node("Resize", [x, "", "", i64(h * 2, w * 3)], mode="linear", axes=[2, 3],
                      keep_aspect_ratio_policy=b.ch(["not_larger", "not_smaller"]))
    if name == "resize_axes":
        return b.node("Resize", [x, "", "", i64(w + 2, h + 1)], mode="linear", axes=b.ch([[3, 2], [-1, -2]]))
    if name == "resize_floor_mode":
        return b.node("Resize", [x, "", f32(1, 1, 2, 2)], mode="nearest", coordinate_transformation_mode="asymmetric",
                      nearest_mode=b.ch(["floor", "ceil"]))
    if name == "resize_cubic_a":
        return b.node("Resize", [x, "", "", i64(1, c, h + 2, w + 1)], mode="cubic", cubic_coeff_a=b.ch([-.5, -.6]))
    return b.node("Resize", [x, "", f32(1, 2, 1, 1)], mode=b.ch(["nearest", "linear"]))


@odd("softmax_batch", "softmax_opset11", "softmax_2d_opset11")
def softmax_odd(b, x, name=None):
    if name == "softmax_batch":
        return b.node("Softmax", [x], axis=0)
    b.opset = 11
    if name == "softmax_2d_opset11":
        x = b.node("Flatten", [x])
        return b.node("Softmax", [x]) if b.p(.5) else b.node("Softmax", [x], axis=1)
    return b.node("Softmax", [x], axis=b.ch([1, 2, 3, -1]))


@odd("concat_batch", "gather_batch", "gather_scalar", "gather_dyn", "tile_batch", "tile_dyn", "flatten_axis", "reshape_4d", "reshape_zero",
     "transpose_rank2", "transpose_default", "reshape_keep")
def layout_odd(b, x, name=None):
    s = _, c, h, w = b.shape[x]
    i64 = lambda *v: b.init(np.array(v, np.int64))  # noqa: E731
    if name == "concat_batch":
        return b.node("Concat", [x, b.node("Relu", [x])], axis=0)
    if name == "gather_batch":
        return b.node("Gather", [x, i64(0, 0)], axis=0)
    if name == "gather_scalar":
        return b.node("Gather", [x, b.init(np.array(b.ri(0, c - 1), np.int64))], axis=1)
    if name == "gather_dyn":
        return b.node("Gather", [x, b.node("Cast", [b.node("Relu", [b.init(np.zeros(2, b.dtype))])], to=7)], axis=1)
    if name == "tile_batch":
        return b.node("Tile", [x, i64(2, 1, 1, 1)])
    if name == "tile_dyn":
        return b.node("Tile", [x, b.node("Shape", [b.init(np.zeros((1, 2, 1, 1), b.dtype))])])
    if name == "flatten_axis":
        return b.node("Flatten", [x], axis=b.ch([0, 2, 3, -1]))
    if name == "reshape_4d":
        y = b.node("Reshape", [x, i64(1, h, c, w) if b.p(.5) else i64(1, -1, 1, w)])
        return b.node(b.ch(["Relu", "Tanh"]), [y]) if b.p(.5) else b.node("ReduceSum", [y, i64(1)])
    if name == "reshape_zero":
        y = b.node("Reshape", [x, i64(0, -1)])
        return y
    if name == "reshape_keep":
        y = b.node("Reshape", [x, i64(*s)])
        return b.node("Transpose", [y], perm=[0, 2, 1, 3])
    if name == "transpose_rank2":
        return b.node("Transpose", [b.node("Flatten", [x])], perm=[1, 0])
    return b.node("Transpose", [x])


@odd("matmul_rank3", "matmul_vec", "matmul_bcast", "matmul_vec_left")
def matmul_odd(b, x, name=None):
    _, c, h, w = b.shape[x]
    if name == "matmul_rank3":
        return b.node("MatMul", [x, b.init(b.w(c, w, 2))])
    if name == "matmul_vec":
        return b.node("MatMul", [x, b.init(b.w(w))])
    if name == "matmul_vec_left":
        return b.node("MatMul", [b.init(b.w(h)), x])
    return b.node("MatMul", [b.node("ReduceMax", [x, b.init(np.array([1], np.int64))]), b.node("Transpose", [x], perm=[0, 1, 3, 2])])


@odd("const_const", "constant_node", "clip_const_node", "single_nary", "single_concat", "leaky_neg", "clip_inverted", "const_output",
     "bin_rank_up", "constant_scalar", "constant_of_shape", "axes_from_node", "conv_const_node")
def operand_odd(b, x, name=None):
    s = _, c, h, w = b.shape[x]
    if name == "const_const":
        y = b.node(b.ch(["Add", "Mul"]), [b.init(b.w(*s)), b.init(b.w(*s))])
        return b.node("Add", [x, y])
    if name == "constant_node":
        k = b.node("Constant", [], value=numpy_helper.from_array(b.w(1, c, h, w)))
        return b.node(b.ch(["Add", "Mul", "Sub"]), b.ch([[x, k], [k, x]]))
    if name == "constant_scalar":
        k = b.node("Constant", [], value=numpy_helper.from_array(np.array(.7, b.dtype))) if b.p(.5) else \
            b.node("Constant", [], value_float=.7)
        return b.node(b.ch(["Add", "Mul", "Sub"]), b.ch([[x, k], [k, x]]))
    if name == "constant_of_shape":
        k = b.node("ConstantOfShape", [b.init(np.array(s, np.int64))], value=numpy_helper.from_array(np.array([.5], b.dtype)))
        return b.node("Add", [x, k])
    if name == "clip_const_node":
        k = b.node("Constant", [], value=numpy_helper.from_array(np.array(-.3, b.dtype)))
        return b.node("Clip", [x, k])
    if name == "axes_from_node":
        k = b.node("Constant", [], value=numpy_helper.from_array(np.array([b.ri(1, 3)], np.int64)))
        return b.node(b.ch(["ReduceSum", "ReduceMax"]), [x, k])
    if name == "conv_const_node":
        k = b.node("Constant", [], value=numpy_helper.from_array(b.w(2, c, 1, 1)))
        return b.node("Conv", [x, k], kernel_shape=[1, 1])
    if name == "single_nary":
        return b.node(b.ch(["Max", "Min", "Mean"]), [x])
    if name == "single_concat":
        return b.node("Concat", [x], axis=1)
    if name == "leaky_neg":
        return b.node("LeakyRelu", [x], alpha=-.3)
    if name == "clip_inverted":
        return b.node("Clip", [x, b.init(np.array(.5, b.dtype)), b.init(np.array(-.5, b.dtype))])
    if name == "bin_rank_up":
        return b.node("Add", [x, b.init(b.w(2, 1, c, h, w))])
    y = b.node("Relu", [b.init(b.w(*s))])
    return y


@odd("multi_output_tail", "multi_output_mid", "input_is_output", "output_used")
def outputs_odd(b, x, name=None):
    if name == "multi_output_tail":
        return [b.node("Relu", [x]), b.node("Tanh", [x])]
    if name == "multi_output_mid":
        y = b.node("Tanh", [x])
        return b.ch([[y, b.node("Relu", [y])], [b.node("Relu", [y]), y]])
    if name == "output_used":
        y = b.node("Tanh", [x])
        b.node("Relu", [y])
        return y
    return x


@odd("dead_branch", "dead_chain")
def dead_odd(b, x, name=None):
    b.keep_dead = True
    if name == "dead_branch":
        y = b.node("Relu", [x])
        b.node("Tanh", [x])
        return y
    y = b.node("Tanh", [x])
    z = b.node("Transpose", [y], perm=[0, 2, 3, 1])
    b.node("Sigmoid", [z])
    return b.node("LeakyRelu", [y], alpha=.25)


@odd("two_inputs", "init_as_input")
def inputs_odd(b, x, name=None):
    if name == "two_inputs":
        y = b.inp(b.shape[x])
        return b.node("Add", [x, y])
    c = b.w(*b.shape[x])
    k = b.init(c)
    b.inputs.append(helper.make_tensor_value_info(k, TensorProto.FLOAT, list(c.shape)))
    return b.node(b.ch(["Add", "Mul"]), [x, k])


@odd("batch_relu", "batch_gemm", "batch_conv", "batch_pool", "batch_softmax", "batch_reduce", "batch_add", "batch_flatten", "batch_transpose",
     "batch_concat", shape="batch")
def batch_odd(b, x, name=None):
    n, c, h, w = b.shape[x]
    if name == "batch_relu":
        return b.node("Relu", [x])
    if name == "batch_gemm":
        y = b.node("Flatten", [x])
        return b.node("Gemm", [y, b.init(b.w(c * h * w, 3)), b.init(b.w(3))])
    if name == "batch_conv":
        return b.node("Conv", [x, b.init(b.w(2, c, 1, 1))], kernel_shape=[1, 1])
    if name == "batch_pool":
        return b.node("MaxPool", [x], kernel_shape=[1, 1])
    if name == "batch_softmax":
        return b.node("Softmax", [x], axis=1)
    if name == "batch_reduce":
        return b.node("ReduceSum", [x, b.init(np.array([1], np.int64))])
    if name == "batch_add":
        return b.node("Add", [x, b.init(b.w(1, c, h, w))])
    if name == "batch_flatten":
        return b.node("Flatten", [x])
    if name == "batch_concat":
        return b.node("Concat", [x, b.node("Relu", [x])], axis=1)
    return b.node("Transpose", [x], perm=[0, 2, 1, 3])


@odd("rank1", shape=1)
def rank1(b, x, name=None):
    return b.ch([lambda: b.node("Relu", [x]), lambda: b.node("Add", [x, b.init(b.w(*b.shape[x]))]), lambda: b.node("Softmax", [x], axis=0),
                 lambda: b.node("Concat", [x, b.node("Tanh", [x])], axis=0), lambda: b.node("MatMul", [x, b.init(b.w(b.shape[x][0], 3))])])()


@odd("rank3", shape=3)
def rank3(b, x, name=None):
    _, c, w = b.shape[x]
    return b.ch([lambda: b.node("Relu", [x]), lambda: b.node("Add", [x, b.init(b.w(c, w))]), lambda: b.node("Softmax", [x], axis=b.ri(1, 2)),
                 lambda: b.node("MatMul", [x, b.init(b.w(w, 3))]), lambda: b.node("Transpose", [x], perm=[0, 2, 1]),
                 lambda: b.node("ReduceSum", [x, b.init(np.array([1], np.int64))]), lambda: b.node("Concat", [x, x], axis=b.ri(1, 2)),
                 lambda: b.node("Conv", [x, b.init(b.w(2, c, 1))], kernel_shape=[1]), lambda: b.node("Gather", [x, b.init(np.array([0, 0], np.int64))], axis=b.ri(1, 2)),
                 lambda: b.node("Pad", [x, b.init(np.array([0, 0, 1, 0, 1, 0], np.int64))]), lambda: b.node("Tile", [x, b.init(np.array([1, 2, 2], np.int64))]),
                 lambda: b.node("MaxPool", [x], kernel_shape=[1])])()


@odd("rank5", shape=5)
def rank5(b, x, name=None):
    s = b.shape[x]
    return b.ch([lambda: b.node("Relu", [x]), lambda: b.node("Add", [x, b.init(b.w(*s))]), lambda: b.node("Softmax", [x], axis=b.ri(1, 4)),
                 lambda: b.node("Transpose", [x], perm=[0, 2, 1, 4, 3]), lambda: b.node("ReduceSum", [x, b.init(np.array([1], np.int64))]),
                 lambda: b.node("Conv", [x, b.init(b.w(2, s[1], 1, 1, 1))], kernel_shape=[1, 1, 1]), lambda: b.node("Concat", [x, x], axis=b.ri(1, 4)),
                 lambda: b.node("MaxPool", [x], kernel_shape=[1, 1, 1])])()


@odd("rnn_LSTM", "rnn_GRU", shape=3)
def rnn(b, x, name=None):
    _, s, f = b.shape[x]
    g = 4 if name == "rnn_LSTM" else 3
    x = b.node("Transpose", [x], perm=[1, 0, 2])
    return b.node(name[4:], [x, b.init(b.w(1, g * 2, f)), b.init(b.w(1, g * 2, 2))], hidden_size=2)


@odd("if_graph", "function_op", "float16", "int32", "int64", "symbolic_batch", "symbolic_spatial", "sparse_init", "no_value_info", "uint8_init", "opset_order",
     "some_value_info", "computed_shape", "computed_shape", "symbolic_infos")
def model_odd(b, x, name=None):
    s = _, c, h, w = b.shape[x]
    b.special = name
    if name in ("some_value_info", "computed_shape", "symbolic_infos"):
        t = (1, *(s[1 + int(i)] for i in b.rng.permutation(3)))
        if name == "computed_shape":
            k = b.ri(1, 3)
            one, two = np.array(t[:k], np.int64), np.array(t[k:], np.int64)
            how = b.ch(["Concat", "Identity", "Mul", "value_ints"])
            if how == "Concat":
                b.nodes.append(helper.make_node("Concat", [b.init(one), b.init(two)], ["shp"], axis=0, name="shpn"))
            elif how == "Identity":
                b.nodes.append(helper.make_node("Identity", [b.init(np.array(t, np.int64))], ["shp"], name="shpn"))
            elif how == "Mul":
                b.nodes.append(helper.make_node("Mul", [b.init(np.array(t, np.int64)), b.init(np.ones(4, np.int64))], ["shp"], name="shpn"))
            else:
                b.nodes.append(helper.make_node("Constant", [], ["shp"], value_ints=[int(v) for v in t], name="shpn"))
            b.shape["shp"] = (4,)
            b.et["shp"] = TensorProto.INT64
            b.nodes.append(helper.make_node("Reshape", [x, "shp"], ["rsh"], name="rshn"))
        else:
            b.nodes.append(helper.make_node("Reshape", [x, b.init(np.array(t, np.int64))], ["rsh"], name="rshn"))
        b.shape["rsh"] = t
        b.et["rsh"] = TensorProto.FLOAT
        y = b.node(b.ch(["Relu", "Tanh"]), ["rsh"]) if b.p(.6) else "rsh"
        k = b.init(b.w(*(1 if b.p(.2) else d for d in t)))
        match b.ri(0, 5):
            case 0:
                return b.node("ReduceMax", [y, b.init(np.array([b.ri(1, 3)], np.int64))])
            case 1:
                return b.node("Concat", [y, b.init(b.w(*t))], axis=b.ri(1, 3))
            case 2:
                return b.node("Softmax", [y], axis=b.ri(1, 3))
            case _:
                return b.node(b.ch(["Min", "Max", "Add", "Mul", "Sub"]), b.ch([[y, k], [k, y]]))
    if name in ("int32", "int64", "float16"):
        return "special"
    if name == "if_graph":
        g = [helper.make_graph([helper.make_node(op, [x], ["r"])], "g" + op, [], [helper.make_tensor_value_info("r", 1, list(s))])
             for op in ("Relu", "Tanh")]
        b.nodes.append(helper.make_node("If", [b.init(np.array(b.p(.5)))], ["ifo"], name="if", then_branch=g[0], else_branch=g[1]))
        b.shape["ifo"] = s
        return "ifo"
    if name == "function_op":
        return b.node("Relu", [x], _name="fn")
    if name == "uint8_init":
        k = b.node("Cast", [b.init(b.rng.integers(0, 255, s).astype(np.uint8))], to=1)
        return b.node("Add", [x, k])
    if name == "opset_order":
        r = b.ri(1, 3)
        return b.ch([lambda: b.node("Softmax", [x]), lambda: b.node("ReduceSum", [x, b.init(np.array([r], np.int64))]),
                     lambda: b.node("ReduceMax", [x, b.init(np.array([r], np.int64))])])()
    if name == "sparse_init":
        b.nodes.append(helper.make_node("Add", [x, "sp"], ["so"], name="spadd"))
        b.shape["so"] = s
        return "so"
    return b.node("Conv", [x, b.init(b.w(2, c, 1, 1))], kernel_shape=[1, 1])



# -- the rest of the standard operators ------------------------------------------------------------------------
def _cast(b, y, to=1):
    return b.node("Cast", [y], to=to)


def _i64(b, *v):
    return b.init(np.array(v, np.int64))


@odd("cast_int", "cast_half", "cast_double", "cast_bool", "cast_same", "castlike", "quantize_linear", "dynamic_quantize")
def casts(b, x, name=None):
    if name == "castlike":
        return _cast(b, b.node("CastLike", [x, _i64(b, 1)]))
    if name == "quantize_linear":
        s, z = b.init(np.array(.05, np.float32)), b.init(np.array(100, np.uint8))
        return b.node("DequantizeLinear", [b.node("QuantizeLinear", [x, s, z]), s, z])
    if name == "dynamic_quantize":
        b.nodes.append(helper.make_node("DynamicQuantizeLinear", [x], ["dq", "ds", "dz"], name="dql"))
        b.shape["dq"], b.shape["ds"], b.shape["dz"] = b.shape[x], (), ()
        b.et["dq"] = b.et["dz"] = TensorProto.UINT8
        return b.node("DequantizeLinear", ["dq", "ds", "dz"])
    if name == "cast_same":
        return _cast(b, x)
    x = b.node("Mul", [x, b.init(np.array(3, np.float32))]) if b.p(.5) else x
    return _cast(b, _cast(b, x, {"cast_int": b.ch([6, 7]), "cast_half": 10, "cast_double": 11, "cast_bool": 9}[name]))


for _n in ("Acos", "Asin", "Atanh", "Acosh", "Asinh", "Sinh", "Cosh", "Tan", "IsInf", "Det", "Gelu",
           "LpPool", "Shape", "Size", "EyeLike", "DFT"):
    def _f(b, x, op=_n):
        s = b.shape[x]
        if op in ("Acos", "Asin", "Atanh"):
            x = b.node("Mul", [b.node("Tanh", [x]), b.init(np.array(.9, np.float32))])
        elif op == "Acosh":
            x = b.node("Add", [b.node("Exp", [b.node("Tanh", [x])]), b.init(np.array(1, np.float32))])
        elif op == "Det":
            if s[2] < s[3]:
                raise Skip
            x = b.node("Slice", [x, _i64(b, 0), _i64(b, s[3]), _i64(b, 2)])
            return b.node("Unsqueeze", [b.node("Unsqueeze", [b.node("Det", [x]), _i64(b, 2)]), _i64(b, 3)])
        elif op == "LpPool":
            return b.node(op, [x], kernel_shape=[1, 1], p=2)
        elif op == "Shape":
            return b.node("Add", [x, b.node("ReduceProd", [_cast(b, b.node("Shape", [x]))], keepdims=0)])
        elif op == "Size":
            return b.node("Mul", [x, _cast(b, b.node("Size", [x]))])
        elif op == "DFT":
            return b.node("DFT", [x], axis=2) if s[3] in (1, 2) else b.node("DFT", [b.node("Slice", [x, _i64(b, 0), _i64(b, 1), _i64(b, 3)])], axis=2)
        elif op == "EyeLike":
            return b.node("MatMul", [b.node("Flatten", [x], axis=1), b.node("EyeLike", [b.init(b.w(int(np.prod(s)), int(np.prod(s))))])])
        y = b.node(op, [x])
        return _cast(b, y) if b.et.get(y) == TensorProto.BOOL else y
    ODD["op_" + _n] = (_f, 4, 20, "op_" + _n)


@odd("Less", "LessOrEqual", "GreaterOrEqual", "And", "Or", "Xor", "Not", "BitwiseAnd", "BitShift")
def logic(b, x, name=None):
    z = b.init(np.zeros(1, np.float32))
    if name in ("Less", "LessOrEqual", "GreaterOrEqual"):
        return _cast(b, b.node(name, [x, z]))
    if name == "Not":
        return _cast(b, b.node("Not", [b.node("Less", [x, z])]))
    if name == "BitwiseAnd":
        return _cast(b, b.node(name, [_cast(b, x, 6), b.init(np.array([1], np.int32))]))
    if name == "BitShift":
        return _cast(b, b.node(name, [_cast(b, b.node("Relu", [x]), 12), b.init(np.array([1], np.uint32))], direction="LEFT"))
    return _cast(b, b.node(name, [b.node("Less", [x, z]), b.node("Greater", [b.node("Tanh", [x]), b.init(np.full(1, .3, np.float32))])]))


@odd("ArgMin", "TopK", "Compress", "ScatterElements", "ScatterND", "ReduceLogSum", "ReverseSequence", "Einsum", "CenterCropPad",
     "GridSample", "GroupNormalization", "MatMulInteger", "Squeeze_noaxes", "Identity_chain", "Reshape_0", "Col2Im")
def others(b, x, name=None):
    s = _, c, h, w = b.shape[x]
    a = b.ri(1, 3)
    if name == "ArgMin":
        return _cast(b, b.node("ArgMin", [x], axis=a))
    if name == "TopK":
        b.nodes.append(helper.make_node("TopK", [x, _i64(b, 1)], ["tv", "ti"], axis=a, name="tk"))
        b.shape["tv"] = b.shape["ti"] = tuple(1 if i == a else v for i, v in enumerate(s))
        b.et["ti"] = TensorProto.INT64
        return b.node("Tanh", ["tv"]) if b.p(.5) else _cast(b, "ti")
    if name == "Compress":
        m = np.zeros(s[a], bool)
        m[0] = True
        b.nodes.append(helper.make_node("Compress", [x, b.init(m)], ["cm"], axis=a, name="cp"))
        b.shape["cm"] = tuple(1 if i == a else v for i, v in enumerate(s))
        return "cm"
    if name == "ScatterElements":
        return b.node(name, [x, b.init(np.zeros((1, 1, 1, 1), np.int64)), b.init(b.w(1, 1, 1, 1))], axis=a)
    if name == "ScatterND":
        return b.node(name, [x, b.init(np.zeros((1, 4), np.int64)), b.init(b.w(1))])
    if name == "ReduceLogSum":
        return b.node(name, [b.node("Exp", [b.node("Tanh", [x])]), _i64(b, a)])
    if name == "ReverseSequence":
        return b.node(name, [x, _i64(b, c)], batch_axis=0, time_axis=1)
    if name == "Einsum":
        b.nodes.append(helper.make_node(name, [x], ["es"], equation="nchw->nhcw", name="ein"))
        b.shape["es"] = (1, h, c, w)
        return "es"
    if name == "CenterCropPad":
        return b.node(name, [x, _i64(b, h + 1)], axes=[2])
    if name == "GridSample":
        return b.node(name, [x, b.init(np.tanh(b.w(1, 2, 3, 2)))])
    if name == "GroupNormalization":
        b.nodes.append(helper.make_node(name, [x, b.init(b.w(1)), b.init(b.w(1))], ["gn"], num_groups=1, name="gnn"))
        b.shape["gn"] = s
        return "gn"
    if name == "MatMulInteger":
        k = b.node("QuantizeLinear", [b.node("Flatten", [x], axis=1), b.init(np.array(.05, np.float32)), b.init(np.array(100, np.uint8))])
        return _cast(b, b.node(name, [k, b.init(b.rng.integers(0, 9, (int(np.prod(s)), 3)).astype(np.uint8))]))
    if name == "Squeeze_noaxes":
        if 1 in (c, h, w):
            raise Skip
        return b.node("Squeeze", [x])
    if name == "Identity_chain":
        return b.node("Identity", [b.node("Identity", [x])])
    if name == "Reshape_0":
        return b.node("Reshape", [x, _i64(b, 0, -1, 0, b.ch([1, w]))])
    if name == "Col2Im":
        f = b.node("Reshape", [x, _i64(b, 1, c * h * w, 1)])
        return b.node("Col2Im", [f, _i64(b, h, w), _i64(b, h, w)])
    raise Skip


@odd("Upsample9", "Scatter10", "Slice9", "Clip6", "Dropout6", "Squeeze11", opset=9)
def old_ops(b, x, name=None):
    s = _, c, h, w = b.shape[x]
    if name == "Upsample9":
        return b.node("Upsample", [x, b.init(np.array([1, 1, 2, 2], np.float32))], mode=b.ch(["nearest", "linear"]))
    if name == "Scatter10":
        return b.node("Scatter", [x, b.init(np.zeros((1, 1, 1, 1), np.int64)), b.init(b.w(1, 1, 1, 1))], axis=1)
    if name == "Slice9":
        if h < 2:
            raise Skip
        return b.node("Slice", [x], starts=[1], ends=[h], axes=[2])
    if name == "Clip6":
        return b.node("Clip", [x], min=-.3, max=.4)
    if name == "Dropout6":
        return b.node("Dropout", [x], ratio=.3)
    return b.node("Squeeze", [b.node("ReduceMax", [x], axes=[2])], axes=[2])


@odd("scan_graph", "loop_graph", "sequence")
def control(b, x, name=None):
    s = b.shape[x]
    if name == "scan_graph":
        g = helper.make_graph([helper.make_node("Tanh", ["si"], ["so"])], "scan", [helper.make_tensor_value_info("si", 1, list(s[1:]))],
                              [helper.make_tensor_value_info("so", 1, list(s[1:]))])
        b.nodes.append(helper.make_node("Scan", [x], ["sc"], num_scan_inputs=1, body=g, name="scan"))
        b.shape["sc"] = s
        return "sc"
    if name == "loop_graph":
        g = helper.make_graph([helper.make_node("Tanh", ["v"], ["vo"]), helper.make_node("Identity", ["c"], ["co"])], "loop",
                              [helper.make_tensor_value_info("i", 7, []), helper.make_tensor_value_info("c", 9, []),
                               helper.make_tensor_value_info("v", 1, list(s))],
                              [helper.make_tensor_value_info("co", 9, []), helper.make_tensor_value_info("vo", 1, list(s))])
        b.nodes.append(helper.make_node("Loop", [b.init(np.array(2, np.int64)), b.init(np.array(True)), x], ["lp"], body=g, name="loop"))
        b.shape["lp"] = s
        return "lp"
    if name == "sequence":
        b.nodes.append(helper.make_node("SequenceConstruct", [x, x], ["sq"], name="sqc"))
        b.nodes.append(helper.make_node("ConcatFromSequence", ["sq"], ["sqo"], axis=1, name="sqf"))
        b.shape["sq"], b.shape["sqo"] = s, (1, 2 * s[1], *s[2:])
        return "sqo"
    raise Skip


def _typed(b, name, rng):
    """A model whose tensors have another element type."""
    et, dt = {"int32": (TensorProto.INT32, np.int32), "int64": (TensorProto.INT64, np.int64), "float16": (TensorProto.FLOAT16, np.float16)}[name]
    s = (1, 2, 3, 3)
    op = ["Add", "Mul", "Sub", "Max", "Relu", "Concat", "Div"][int(rng.integers(7))]
    c = rng.integers(-5, 6, s).astype(dt) if dt != np.float16 else rng.standard_normal(s).astype(dt)
    c[c == 0] = 2
    ins = ["x"] if op == "Relu" else ["x", "c"]
    g = helper.make_graph([helper.make_node(op, ins, ["y"], name="n", **({"axis": 1} if op == "Concat" else {}))], "g",
                          [helper.make_tensor_value_info("x", et, s)], [helper.make_tensor_value_info("y", et, None)],
                          [numpy_helper.from_array(c, "c")] if op != "Relu" else [])
    m = helper.make_model(g, opset_imports=[helper.make_opsetid("", 18)])
    m.ir_version = 8
    return onnx.shape_inference.infer_shapes(m), s, dt


def make(name, seed):
    """(model, input shape, tags, numpy type of the input) of a case."""
    f, rank, opset, _ = ODD[name]
    rng = np.random.default_rng([int(seed), sum(map(ord, name)), 4])
    b = OddBuilder(rng, opset=opset)
    b.et = {}
    if name in ("int32", "int64", "float16"):
        m, s, dt = _typed(b, name, rng)
        return m, s, [name], dt
    shape = {4: (1, b.ri(1, 4), b.ri(1, 6), b.ri(1, 6)), 2: (1, b.ri(2, 8)), 1: (b.ri(2, 8),), 3: (1, b.ri(1, 4), b.ri(1, 5)),
             5: (1, b.ri(1, 3), b.ri(1, 3), b.ri(1, 3), b.ri(1, 3)), "batch": (b.ri(2, 3), b.ri(1, 3), b.ri(1, 4), b.ri(1, 4))}[rank]
    x = b.inp(shape)
    t = x
    if rank == 4 and b.p(.4) and name != "input_is_output":
        t = b.node(b.ch(["Relu", "Tanh", "Sigmoid"]), [x])
    kw = {"name": name} if "name" in f.__code__.co_varnames else {}
    y = f(b, t, **kw)
    ys = y if isinstance(y, list) else [y]
    if len(ys) == 1 and b.p(.4) and name not in ("input_is_output", "output_used"):
        ys = [b.node(b.ch(["Relu", "Tanh"]), [ys[0]])]
    return finish(b, ys, shape, name)


def finish(b, ys, shape, name):
    special = getattr(b, "special", None)
    if getattr(b, "keep_dead", False) or name in ("output_used", "input_is_output"):
        keep = list(b.nodes), list(b.inits)
        b._prune, b._reorder = (lambda outs: None), (lambda: None)
        m = b.model(ys)
        assert (list(b.nodes), list(b.inits)) == keep
    elif any(len(nd.output) > 1 for nd in b.nodes):
        b._prune, b._reorder = (lambda outs: None), (lambda: None)
        m = b.model(ys)
    else:
        m = b.model(ys)
    if special == "function_op":
        next(nd for nd in m.graph.node if nd.name == "fn").domain = "acv.test"
        fn = helper.make_function("acv.test", "Relu", ["a"], ["r"], [helper.make_node("Neg", ["a"], ["r"])], [helper.make_opsetid("", 18)])
        m.functions.append(fn)
        m.opset_import.append(helper.make_opsetid("acv.test", 1))
    elif special == "symbolic_batch":
        m.graph.input[0].type.tensor_type.shape.dim[0].dim_param = "N"
        del m.graph.value_info[:]
    elif special == "symbolic_spatial":
        m.graph.input[0].type.tensor_type.shape.dim[2].dim_param = "H"
        for v in [*m.graph.value_info, *m.graph.output]:
            v.type.tensor_type.shape.dim[2].dim_param = "H"
    elif special == "opset_order":
        v = m.opset_import[0].version
        del m.opset_import[:]
        m.opset_import.extend([helper.make_opsetid("ai.onnx.ml", 3), helper.make_opsetid("", v)])
    elif special == "no_value_info":
        del m.graph.value_info[:]
    elif special in ("some_value_info", "computed_shape"):
        infos = [v for v in m.graph.value_info if b.p(.5)] if special == "some_value_info" or b.p(.4) else []
        del m.graph.value_info[:]
        m.graph.value_info.extend(infos)
        if b.p(.3):
            m.graph.output[0].type.tensor_type.ClearField("shape")
    elif special == "symbolic_infos":
        for v in [*m.graph.value_info, *m.graph.output]:
            for j, d in enumerate(v.type.tensor_type.shape.dim):
                if b.p(.4):
                    d.dim_param = f"d{j}"
    elif special == "sparse_init":
        a = np.zeros(shape, np.float32)
        v = np.array([1.5], np.float32)
        a.flat[0] = 1.5
        m.graph.sparse_initializer.append(helper.make_sparse_tensor(
            numpy_helper.from_array(v, "sp"), numpy_helper.from_array(np.array([0], np.int64), "spi"), list(shape)))
    return m, shape, [name], np.float32
