"""The same ONNX model written in another way: constants as nodes, in typed data fields or also listed as inputs, default
attributes spelled out or left out, optional inputs spelled out, nodes without names, dropouts, partial value infos."""
import numpy as np
import onnx
from onnx import AttributeProto, TensorProto, helper, numpy_helper


def _same(a, b):
    x, y = helper.get_attribute_value(a), helper.get_attribute_value(b)
    return a.type == b.type and (list(x) == list(y) if isinstance(x, (list, tuple)) else x == y)


def _constant(t, rng):
    """A Constant node in one of its notations."""
    v = numpy_helper.to_array(t)
    kw = None
    if rng.random() < .6 and v.size:
        if v.dtype == np.float32 and v.ndim == 0:
            kw = {"value_float": float(v)}
        elif v.dtype == np.float32 and v.ndim == 1:
            kw = {"value_floats": [float(x) for x in v]}
        elif v.dtype == np.int64 and v.ndim == 0:
            kw = {"value_int": int(v)}
        elif v.dtype == np.int64 and v.ndim == 1:
            kw = {"value_ints": [int(x) for x in v]}
    how = next(iter(kw)) if kw else "value"
    if not kw:
        u = onnx.TensorProto()
        u.CopyFrom(t)
        u.name = "" if rng.random() < .5 else "some"
        kw = {"value": u}
    return helper.make_node("Constant", [], [t.name], **kw), how


def restyle(model, rng):
    """A copy of the model and the list of what was changed."""
    m = onnx.ModelProto()
    m.CopyFrom(model)
    g, done = m.graph, set()
    opset = next(o.version for o in m.opset_import if o.domain in ("", "ai.onnx"))
    want = {k for k in ("nodes", "fields", "inputs", "spell", "leave", "empty", "names", "infos", "dropout") if rng.random() < .35}
    keep, consts = [], []
    used = {i for n in g.node for i in n.input}
    for t in g.initializer:
        if "nodes" in want and opset >= 12 and t.name in used and rng.random() < .5:
            n, how = _constant(t, rng)
            consts.append(n)
            done.add("constant:" + how)
            continue
        u = onnx.TensorProto()
        u.CopyFrom(t)
        if "fields" in want and t.data_type in (TensorProto.FLOAT, TensorProto.INT64, TensorProto.DOUBLE) and rng.random() < .6:
            v = numpy_helper.to_array(t)
            u.ClearField("raw_data")
            field = {TensorProto.FLOAT: "float_data", TensorProto.INT64: "int64_data", TensorProto.DOUBLE: "double_data"}[t.data_type]
            u.ClearField(field)
            getattr(u, field).extend(v.ravel().tolist())
            done.add("typed field")
        keep.append(u)
        if "inputs" in want and rng.random() < .5:
            g.input.append(helper.make_tensor_value_info(t.name, t.data_type, list(t.dims)))
            done.add("initializer as input")
    nodes = list(g.node)
    out = []
    for n in nodes:
        n2 = onnx.NodeProto()
        n2.CopyFrom(n)
        schema = onnx.defs.get_schema(n.op_type, opset, n.domain)
        have = {a.name: a for a in n2.attribute}
        for name, s in schema.attributes.items():
            d = s.default_value
            if d.type == AttributeProto.UNDEFINED:
                continue
            if name in have and "leave" in want and _same(have[name], d):
                n2.attribute.remove(have[name])
                done.add("default left out")
            elif name not in have and "spell" in want and rng.random() < .6:
                a = n2.attribute.add()
                a.CopyFrom(d)
                a.name = name
                done.add("default spelled out")
        while n2.input and n2.input[-1] == "" and "empty" in want:
            del n2.input[-1]
        if "empty" in want and len(n2.input) < len(schema.inputs) and rng.random() < .5 \
                and schema.inputs[len(n2.input)].option == onnx.defs.OpSchema.FormalParameterOption.Optional:
            n2.input.append("")
            done.add("optional input spelled out")
        if "names" in want and rng.random() < .7:
            n2.name = ""
            done.add("node without a name")
        if "names" in want and rng.random() < .3:
            n2.doc_string = "a note"
        out.append(n2)
    outputs = {o.name for o in g.output}
    if "dropout" in want:
        made = {o for n in out for o in n.output if o} - outputs
        for k, t in enumerate(sorted(made)):
            if rng.random() > .25:
                continue
            new = f"{t}__{k}"
            readers = [n for n in out for i in n.input if i == t]
            if not readers:
                continue
            some = [n for n in readers if rng.random() < .7] or readers
            for n in some:
                for j, i in enumerate(n.input):
                    if i == t:
                        n.input[j] = new
            at = next(j for j, n in enumerate(out) if t in n.output)
            out.insert(at + 1, helper.make_node("Dropout", [t], [new], name=f"Dropout_{k}"))
            done.add("dropout")
    if "infos" in want and len(g.value_info):
        infos = list(g.value_info)
        some = rng.random() < .5
        del g.value_info[:]
        if some:
            g.value_info.extend(v for v in infos if rng.random() < .6)
        done.add("some value infos" if some else "no value infos")
    del g.initializer[:], g.node[:]
    g.initializer.extend(keep)
    # constants stand anywhere before their readers
    for c in consts:
        first = next(j for j, n in enumerate(out) if c.output[0] in n.input)
        out.insert(int(rng.integers(0, first + 1)), c)
    g.node.extend(out)
    # what is left out of the value infos must be what the tensors of the model let find again
    full = {v.name for v in onnx.shape_inference.infer_shapes(m).graph.value_info
            if all(d.dim_value for d in v.type.tensor_type.shape.dim[1:]) and v.type.tensor_type.HasField("shape")}
    if any(o not in full | outputs for n in m.graph.node if n.op_type != "Constant" for o in n.output[:1]):
        return None, []
    onnx.checker.check_model(m)
    return m, sorted(done)
