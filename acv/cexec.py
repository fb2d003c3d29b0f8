"""Drive the real generator, the real Makefile and the real binary, and read what came out."""
import os
import resource
import shutil
import signal
import subprocess
import traceback
from pathlib import Path

import numpy as np

from . import env


class StageError(Exception):
    """An observable failure of a stage of the tool chain under test."""

    def __init__(self, stage, detail):
        super().__init__(f"{stage}: {detail}")
        self.stage, self.detail = stage, detail


def _limits():
    resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30, 1 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def sh(cmd, cwd, timeout=90, extra_env=None):
    e = dict(os.environ)
    if extra_env:
        e.update(extra_env)
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, start_new_session=False, preexec_fn=_limits)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        out, err = p.communicate()
        return 124, out.decode("latin1"), err.decode("latin1")
    return p.returncode, out.decode("latin1"), err.decode("latin1")


def exc_text(e, n=1200):
    return "".join(traceback.format_exception(e))[-n:]


def build_generator(model, dataset, **kw):
    from acetone_nnet import CodeGenerator

    try:
        return CodeGenerator(file=model, test_dataset=dataset, nb_tests=len(dataset) if dataset is not None else kw.pop("nb_tests", 1), **kw)
    except Exception as e:  # noqa: BLE001
        raise StageError("import", exc_text(e)) from e


def generate(gen, d):
    try:
        gen.generate_c_files(d)
    except Exception as e:  # noqa: BLE001
        raise StageError("generate", exc_text(e)) from e


def make(d, target="all", args=(), timeout=120):
    rc, out, err = sh(["make", "-s", "-C", str(d), *([target] if target else []), *args], cwd=str(d), timeout=timeout)
    if rc != 0:
        raise StageError("compile", (err or out)[:1500])


def run_binary(d, exe="inference", out="output_c.txt", args=(), timeout=60, extra_env=None):
    rc, so, se = sh([f"./{exe}", out, *args], cwd=str(d), timeout=timeout, extra_env=extra_env)
    if rc != 0:
        raise StageError("run", f"exit status {rc}\n{se[:3000]}")
    return se


def parse_output(path, integer=False, to_hex=True):
    """All rows of an output file, as float64 (or int)."""
    rows = []
    for line in Path(path).read_text().splitlines():
        toks = line.split()
        if integer:
            rows.append(np.array([int(t) for t in toks], dtype=np.int64))
        else:
            rows.append(np.array([_num(t) for t in toks], dtype=np.float64))
    return rows


def _num(t):
    try:
        return float.fromhex(t) if "x" in t or "X" in t else float(t)
    except ValueError as e:
        raise StageError("output", f"not a number: {t!r}") from e


def python_reference(gen, d):
    try:
        gen.compute_inference(str(d))
    except Exception as e:  # noqa: BLE001
        raise StageError("reference", exc_text(e)) from e
    return parse_output(os.path.join(d, "output_python.txt"))


def quick_build(d, flags=("-O1",), out="inference", ld=("-lm",), cc="gcc", sources=None, timeout=120):
    """Compile the generated sources in one command, with the given flags (not through the Makefile)."""
    src = sources or sorted(f for f in os.listdir(d) if f.endswith(".c"))
    rc, so, se = sh([cc, "-g", "-w", *flags, "-o", out, *src, *ld], cwd=str(d), timeout=timeout)
    if rc != 0:
        raise StageError("compile", se[:1500])


def rm(d):
    d = os.path.abspath(str(d))
    assert d.startswith(os.path.abspath(env.scratch_root()) + os.sep), d
    shutil.rmtree(d, ignore_errors=True)
