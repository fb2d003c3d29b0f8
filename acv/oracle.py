"""Independent reference (onnxruntime) and the tolerance rule."""
import numpy as np


def ort_run(model, inputs, want=None, opt=False):
    """Run model on each row of inputs; returns a list (rows) of flat float64 arrays (first output)."""
    import onnxruntime as ort

    so = ort.SessionOptions()
    so.intra_op_num_threads = 1
    so.inter_op_num_threads = 1
    so.log_severity_level = 4
    if not opt:
        so.graph_optimization_level = ort.GraphOptimizationLevel.ORT_DISABLE_ALL
    s = ort.InferenceSession(model.SerializeToString(), so, providers=["CPUExecutionProvider"])
    name = s.get_inputs()[0].name
    return [[np.asarray(o) for o in s.run(want, {name: x})] for x in inputs]


def close(got, ref, rtol=1e-4, atol=1e-5):
    """Element-wise closeness scaled by the magnitude of the whole reference tensor.

    Returns (ok, worst_excess, index).
    """
    got, ref = np.asarray(got, np.float64).ravel(), np.asarray(ref, np.float64).ravel()
    if got.shape != ref.shape:
        return False, float("inf"), -1
    if got.size == 0:
        return True, 0.0, -1
    scale = float(np.max(np.abs(ref[np.isfinite(ref)]), initial=0.0))
    with np.errstate(all="ignore"):
        err = np.abs(got - ref)
        tol = atol + rtol * np.maximum(np.abs(ref), 0.1 * scale)
        bad = ~(err <= tol)
        same = (got == ref) | (np.isnan(got) & np.isnan(ref))
        bad &= ~same
    if not bad.any():
        return True, float(np.nanmax(np.where(same, 0, err / tol))), -1
    i = int(np.argmax(np.where(bad, np.nan_to_num(err / tol, nan=1e300, posinf=1e300), -1)))
    return False, float(err[i]), i


def reference_run(model, inputs, want=None):
    """onnx's reference evaluator (for what onnxruntime has no kernels of, such as double-precision convolution)."""
    from onnx.reference import ReferenceEvaluator

    ev = ReferenceEvaluator(model)
    name = model.graph.input[0].name
    return [[np.asarray(o) for o in ev.run(want, {name: x})] for x in inputs]
