"""P11: generation is deterministic, complete and never overwrites files."""
import _pre  # noqa: F401
import json
import os
import shutil
import subprocess
import sys

import numpy as np
from acv import cases as C, cexec, env, models as M, onnxgen as G
from acv.runner import Check, Family, ok, seeds, skip, violation

GROUP = 14


def difference(a, b):
    if sorted(a) != sorted(b):
        return f"files {sorted(set(a) ^ set(b))} only once"
    for f in sorted(a):
        if a[f] != b[f]:
            i = next((k for k, (x, y) in enumerate(zip(a[f], b[f], strict=False)) if x != y), min(len(a[f]), len(b[f])))
            return f"{f} differs at byte {i}: {a[f][max(0, i - 60):i + 40]!r} / {b[f][max(0, i - 60):i + 40]!r}"
    return None


def draw(seed, d, kind=None):
    k = kind or M.KINDS[seed % len(M.KINDS)]
    path, size, kw = M.source(k, seed, d)
    return k, path, size, kw


def run_twice(p):
    """A group of models generated by two processes: other hash seed, order, working directory and output directories."""
    with C.scratch() as d:
        src = os.path.join(d, "src")
        os.mkdir(src)
        items = []
        for j in range(GROUP):
            try:
                items.append(draw(p["seed"] * GROUP + j, src))
            except G.Skip:
                continue
        before = M.listing(src)
        runs = []
        rng = np.random.default_rng([p["seed"], 11])
        for r in range(2):
            base = os.path.join(d, ["first", "second/a.b/c c"][r])
            cwd = os.path.join(d, f"cwd{r}")
            os.mkdir(cwd)
            todo = [[path, kw, os.path.join(base, str(i))] for i, (_, path, _, kw) in enumerate(items)]
            if r:
                rng.shuffle(todo)
                todo = [list(t) for t in todo]
            e = {**os.environ, "PYTHONHASHSEED": str(int(rng.integers(1, 4e9))), "PYTHONPATH": env.VERIF, "ACV_REPO": env.REPO}
            q = subprocess.run([sys.executable, "-m", "acv.models"], input=json.dumps(todo), capture_output=True, text=True, cwd=cwd, env=e, timeout=280)
            if q.returncode:
                raise RuntimeError(q.stderr[-2000:])
            runs.append((base, json.loads(q.stdout.splitlines()[-1]), sorted(os.listdir(cwd))))
        tags = ["process", *{k for k, *_ in items}]
        n = files = 0
        for i, (k, _, _, kw) in enumerate(items):
            status = [runs[r][1].get(os.path.join(runs[r][0], str(i))) for r in range(2)]
            if status[0] != status[1]:
                return violation("status", f"{k}, {kw}: {status[0]} / {status[1]}", tags=tags)
            if status[0] != "ok":
                continue
            a, b = (M.listing(os.path.join(runs[r][0], str(i))) for r in range(2))
            diff = difference(a, b)
            if diff:
                return violation("differs", f"{k}, {kw}: {diff}", tags=tags)
            n, files = n + 1, files + len(a)
        if runs[0][2] or runs[1][2]:
            return violation("stray", f"files left in the working directory: {runs[0][2]} {runs[1][2]}", tags=tags)
        if M.listing(src) != before:
            return violation("model_changed", "a model file was modified", tags=tags)
    return ok(tags=tags, count={"pairs_of_generations": n, "files_compared": files}, nontrivial=n > 0, sample={"models": n})


EXPECT = {"main.c", "test_dataset.h", "inference.c", "inference.h", "global_vars.c", "train_hook.c", "Makefile"}


class Watch:
    """Records every file opened for writing, renamed or removed while active."""

    active = None

    def __init__(self):
        self.events = []

    def __enter__(self):
        if Watch.active is None:
            sys.addaudithook(Watch.hook)
        Watch.active = self
        return self

    def __exit__(self, *a):
        Watch.active = False

    @staticmethod
    def hook(event, args):
        w = Watch.active
        if not w:
            return
        if event == "open":
            path, mode, flags = args
            writes = isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND)
            if writes and isinstance(path, (str, bytes)):
                w.events.append(("write", os.path.abspath(os.fsdecode(path))))
        elif event in ("os.remove", "os.rename", "os.rmdir", "shutil.rmtree", "os.link", "os.symlink", "os.truncate", "shutil.move"):
            w.events.append((event, os.path.abspath(os.fsdecode(args[0]))))


def run_same(p):
    """One process: the same generator twice, a twin, after an inference; every file event; then the files alone are built elsewhere."""
    rng = np.random.default_rng([p["seed"], 12])
    with C.scratch() as d:
        try:
            k, path, size, kw = draw(p["seed"], d, p["kind"])
        except G.Skip as e:
            return skip(str(e))
        tags = ["same", k, *[f"{a}={b}" for a, b in kw.items() if a in ("bin_dataset", "to_hex", "optimization")]]
        rows = np.float32(rng.standard_normal((kw["nb_tests"], size))) if rng.random() < .6 else None
        more = {} if rows is None else {"test_dataset": rows}
        out = [os.path.join(d, "o", str(i)) for i in range(4)]
        model = open(path, "rb").read()
        try:
            gen = M.generator(path, kw, **more)
            with Watch() as w:
                gen.generate_c_files(out[0])
            gen.generate_c_files(out[1] if rng.random() < .5 else out[1] + "/")
            gen.compute_inference(d)
            gen.generate_c_files(out[2])
            M.generator(path, kw, **more).generate_c_files(out[3])
        except Exception as e:  # noqa: BLE001
            return violation("generate", cexec.exc_text(e), tags=tags)
        a = [M.listing(x) for x in out]
        for i, what in ((1, "the same generator, twice"), (2, "after an inference"), (3, "another generator")):
            diff = difference(a[0], a[i])
            if diff:
                return violation("differs", f"{what}: {diff}", tags=tags)
        if open(path, "rb").read() != model:
            return violation("model_changed", "the model file was modified", tags=tags)
        for ev, f in w.events:
            if ev != "write" or os.path.dirname(f) != out[0]:
                if f != os.devnull:
                    return violation("outside", f"{ev} {f} while generating in {out[0]}", tags=tags)
        written = {os.path.basename(f) for _, f in w.events}
        want = EXPECT | ({"parameters.dat", "test_dataset.dat"} if kw.get("bin_dataset") else {"parameters.c", "test_dataset.c"})
        if set(a[0]) != want:
            return violation("files", f"{sorted(a[0])} instead of {sorted(want)}", tags=tags)
        for f, content in a[0].items():
            if d.encode() in content:
                return violation("path", f"{f} holds the path of the output or model directory", tags=tags)
        # elsewhere, with nothing but the files
        new = os.path.join(d, "moved to", "x")
        os.makedirs(os.path.dirname(new))
        shutil.move(out[0], new)
        shutil.rmtree(os.path.join(d, "o"))
        os.unlink(path)
        ref = cexec.parse_output(os.path.join(d, "output_python.txt"))
        name = kw["function_name"]
        env_ = {"PATH": os.environ["PATH"], "HOME": d}
        for r in range(2):
            if r:
                q = subprocess.run(["make", "-s", "clean"], cwd=new, env=env_, capture_output=True, text=True, timeout=60)
                if q.returncode:
                    return violation("clean", q.stderr[-500:], tags=tags)
                if not want <= set(os.listdir(new)):
                    return violation("clean", f"make clean removes {sorted(want - set(os.listdir(new)))}", tags=tags)
            q = subprocess.run(["make", "-s"], cwd=new, env=env_, capture_output=True, text=True, timeout=200)
            if q.returncode:
                return violation("compile", q.stderr[-900:], tags=tags)
            made = set(os.listdir(new)) - want
            if name not in made or name + ".so" not in made:
                return violation("targets", f"make leaves {sorted(made)}", tags=tags)
            got = os.path.join(d, f"got{r}")
            q = subprocess.run([os.path.join(new, name), got], cwd=d, capture_output=True, text=True, timeout=100)
            if q.returncode:
                return violation("run", f"exit status {q.returncode}: {q.stderr[-500:]}", tags=tags)
            bad = C.compare("outputs", cexec.parse_output(got), ref, tags=tags)
            if bad:
                return bad
    return ok(tags=tags, count={"files_compared": 3 * len(want), "file_events": len(w.events), "moved_builds": 2},
              sample={"kind": k, "written": sorted(written)})


def run_existing(p):
    """A file to be written exists: generation raises and changes no file."""
    rng = np.random.default_rng([p["seed"], 13])
    with C.scratch() as d:
        try:
            k, path, size, kw = draw(p["seed"], d, p["kind"])
        except G.Skip as e:
            return skip(str(e))
        if p["bin"]:
            kw["bin_dataset"] = True
        tags = ["existing", k, *(["bin_dataset"] if kw.get("bin_dataset") else [])]
        try:
            gen = M.generator(path, kw)
            gen.generate_c_files(os.path.join(d, "clean"))
        except Exception as e:  # noqa: BLE001
            return violation("generate", cexec.exc_text(e), tags=tags)
        names = sorted(os.listdir(os.path.join(d, "clean")))
        cases = [[n] for n in names] + [names] + [[str(x) for x in rng.choice(names, 2, replace=False)]]
        for j, victims in enumerate(cases):
            out = os.path.join(d, f"out{j}")
            os.mkdir(out)
            for v in [*victims, "notes.txt"]:
                f = os.path.join(out, v)
                with open(f, "wb") as o:
                    o.write(b"mine " + v.encode() if j % 2 or rng.random() < .7 else b"")
                os.utime(f, ns=(10 ** 18, 10 ** 18))
            before = M.listing(out)
            g = gen if rng.random() < .5 else M.generator(path, kw)
            try:
                g.generate_c_files(out)
                raised = False
            except Exception:  # noqa: BLE001
                raised = True
            after = M.listing(out)
            for f in before:
                if after.get(f) != before[f] or os.stat(os.path.join(out, f)).st_mtime_ns != 10 ** 18:
                    return violation("overwritten", f"{f} (among {victims}) was modified", tags=tags)
            if not raised:
                return violation("no_error", f"{victims} exist and generation goes on", tags=tags)
        # a second generation over a first one
        first = M.listing(os.path.join(d, "clean"))
        try:
            gen.generate_c_files(os.path.join(d, "clean"))
            return violation("no_error", "generating twice in the same directory", tags=tags)
        except Exception:  # noqa: BLE001
            diff = difference(first, M.listing(os.path.join(d, "clean")))
            if diff:
                return violation("overwritten", f"generating twice in the same directory: {diff}", tags=tags)
    return ok(tags=tags, count={"refused": len(cases) + 1}, sample={"names": names})


def gen_kind(tag):
    s = seeds(tag)
    return lambda i: {"kind": M.KINDS[i % len(M.KINDS)], "bin": bool(i // len(M.KINDS) % 2), **s(i)}


if __name__ == "__main__":
    sys.exit(Check("P11", [
        Family("twice", seeds("P11tw"), run_twice, 10, 160, timeout=300),
        Family("same", gen_kind("P11same"), run_same, 105, 2100),
        Family("existing", gen_kind("P11ex"), run_existing, 42, 700),
    ], rule="model files of every format under random options: generated by two processes with other hash seeds, orders and directories, by the "
            "same generator again, after an inference, and by a twin, compared byte for byte; file events recorded by an audit hook; the files "
            "alone built and run in a moved directory; every file name occupied in turn; non-trivial: something was generated",
       min_evals=90, require={"files_compared": 1000, "file_events": 500, "moved_builds": 100, "refused": 200, "pairs_of_generations": 60}).main())
