"""Model files of every input format, with random options (for the checks of the generation itself)."""
import json
import os

import numpy as np

from . import cases as C, dag, hwc, nets
from . import onnxgen as G

KINDS = ["onnx", "onnx", "onnx", "hwc", "json", "nnet", "torch"]


def source(kind, seed, d, maxsize=600):
    """(path of the model written in d, number of input values, options) ; raises Skip."""
    import onnx
    rng = np.random.default_rng([int(seed), 91])
    kw = C.options(seed)
    kw["nb_tests"] = int(rng.integers(1, 4))
    kw["function_name"] = str(rng.choice(["inference", "net", "lenet5"]))
    path = os.path.join(d, f"model_{seed}.{ {'hwc': 'onnx', 'torch': 'pt2'}.get(kind, kind) }")
    if kind in ("onnx", "hwc"):
        if kind == "onnx":
            dt = np.float64 if rng.random() < .15 else np.float32
            b, m, shape = dag.make(seed, maxsize=maxsize, dtype=dt)
        else:
            b, m, shape = hwc.make(seed)
            kw.update(versions=dict(hwc.VERSIONS), gen_data_format="channels_last")
        onnx.save(m, path)
        return path, int(np.prod(shape)), kw
    net = nets.make(seed, {"json": "json", "nnet": "nnet", "torch": "torch"}[kind], np.float32, kind == "json" and bool(rng.integers(2)))
    if net is None:
        raise G.Skip("no network")
    if kind == "json":
        nets.to_json(net, path, rng)
    elif kind == "nnet":
        n, o = int(np.prod(net.shape(0))), len(net.nodes)
        if rng.random() < .5:
            lo = rng.uniform(-2, 0, n)
            nets.to_nnet(net, path, lo, lo + rng.uniform(.5, 3, n), rng.standard_normal(n + 1), rng.uniform(.5, 3, n + 1))
            kw["normalize"] = True
        else:
            nets.to_nnet(net, path)
    else:
        import torch
        torch.manual_seed(0)
        _, prog = nets.export(net)
        torch.export.save(prog, path)
    return path, int(np.prod(net.shape(0))), kw


def load(path):
    if path.endswith(".pt2"):
        import torch
        return torch.export.load(path)
    return path


def generator(path, kw, **more):
    from acetone_nnet import CodeGenerator
    return CodeGenerator(file=load(path), **{k: dict(v) if isinstance(v, dict) else v for k, v in kw.items()}, **more)


def listing(d):
    """Content of every file under d."""
    out = {}
    for r, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            with open(p, "rb") as o:
                out[os.path.relpath(p, d)] = o.read()
    return out


def main():
    """Generate, in a process of its own, the models listed on standard input: [[model, options, output directory], ...]."""
    import sys
    from . import env
    env.load()
    res = {}
    for path, kw, out in json.load(sys.stdin):
        try:
            generator(path, kw).generate_c_files(out)
            res[out] = "ok"
        except Exception as e:  # noqa: BLE001
            res[out] = f"{type(e).__name__}: {e}"
    print(json.dumps(res))


if __name__ == "__main__":
    main()
