"""Helpers of the demonstrations: generate, build and run a model in a scratch directory."""
import logging, os, shutil, subprocess, sys, tempfile, warnings

warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)
import numpy as np
import onnx
from onnx import TensorProto as T, helper as h, numpy_helper as nh

D = tempfile.mkdtemp(prefix="demo.")
import atexit

atexit.register(shutil.rmtree, D, True)


def model(nodes, shape, inits=(), out="y", dtype=T.FLOAT, opset=18, out_shape=None):
    g = h.make_graph(list(nodes), "g", [h.make_tensor_value_info("x", dtype, shape)],
                     [h.make_tensor_value_info(out, dtype, out_shape)],
                     [nh.from_array(np.asarray(v), k) for k, v in dict(inits).items()])
    m = h.make_model(g, opset_imports=[h.make_opsetid("", opset)])
    m.ir_version = 8
    return onnx.shape_inference.infer_shapes(m)


def ort(m, xs):
    import onnxruntime as rt
    o = rt.SessionOptions()
    o.log_severity_level = 4
    s = rt.InferenceSession(m.SerializeToString(), o, providers=["CPUExecutionProvider"])
    return np.array([s.run(None, {s.get_inputs()[0].name: x})[0].ravel() for x in xs])


def read(p):
    return [[float.fromhex(t) if "0x" in t or "inf" in t or "nan" in t else float(t) for t in l.split()]
            for l in open(p) if l.strip()]


def generate(m, xs, name="a", **kw):
    from acetone_nnet import CodeGenerator
    d = os.path.join(D, name)
    g = CodeGenerator(file=m, function_name="inference", nb_tests=len(xs), test_dataset=np.array(xs), **kw)
    g.generate_c_files(d)
    return g, d


def build(d, cflags=None):
    c = ["make", "-s", "-C", d, "all"]
    if cflags:
        c = "gcc -w -O1 -g -fopenmp".split() + cflags + ["-I", d, "-o", os.path.join(d, "inference")] + [
            os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".c") and f != "train_hook.c"] + ["-lm"]
    p = subprocess.run(c, capture_output=True, text=True)
    assert p.returncode == 0, "build: " + p.stderr[-800:]


def run(d):
    o = os.path.join(d, "out.txt")
    p = subprocess.run([os.path.join(d, "inference"), o], capture_output=True, text=True, timeout=60)
    assert p.returncode == 0, f"program: {p.returncode} {p.stderr[-800:]}"
    return read(o)


def c_and_python(m, xs, name="a", **kw):
    g, d = generate(m, xs, name, **kw)
    build(d)
    c = run(d)
    g.compute_inference(d)
    return np.array(c), np.array(read(os.path.join(d, "output_python.txt")))


def same(a, b, what, rtol=1e-4, atol=1e-5):
    a, b = np.array(a), np.array(b)
    ok = a.shape == b.shape and np.allclose(a, b, rtol=rtol, atol=atol)
    print(what, "agree" if ok else f"DIFFER {a.ravel()[:8]} / {b.ravel()[:8]}")
    if not ok:
        sys.exit(1)
