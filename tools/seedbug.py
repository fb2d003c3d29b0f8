"""Record and verify a planted bug.

  seedbug.py make DIR          DIR holds edit.py (edits(root): changes files under root), demo.py, meta.json
  seedbug.py verify ID...      in a scratch copy: builds, passes the stable tests, demo passes without / fails with it
  seedbug.py check ID...       runs the property's quick check against a scratch copy carrying the bug
"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
ENV = dict(os.environ, HOME="/root", LANG="C.UTF-8", TF_CPP_MIN_LOG_LEVEL="3", CUDA_VISIBLE_DEVICES="",
           TF_ENABLE_ONEDNN_OPTS="0", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1")


def sh(cmd, **kw):
    kw.setdefault("env", ENV)
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def copy(d):
    r = os.path.join(d, "repo")
    subprocess.run(["git", "clone", "-q", "/repo", r], check=True)
    return r


def tests(r, d):
    t = open("/opt/vp/test.sh").read().replace("/repo", r).replace("/opt/vp/reports", d + "/reports")
    t = t.replace("PYTHONPATH=/opt/vp/plugins", f"PYTHONPATH={r}/src:/opt/vp/plugins")
    p = os.path.join(d, "test.sh")
    open(p, "w").write(t)
    o = os.path.join(d, "o.json")
    sh(["bash", p, o])
    b = json.load(open("/opt/vp/BASELINE.json"))
    stable = set(b.get("stable") or b.get("passed") or b.get("stable_passing"))
    return sorted(stable - set(json.load(open(o)).get("passed") or []))


def demo(i, r):
    e = dict(ENV, PYTHONPATH=f"{r}/src", DEMO_REPO=r)
    with tempfile.TemporaryDirectory(prefix="demo.") as t:
        for f in os.listdir(os.path.join(S, i)):
            if not f.endswith((".diff", ".patch")) and f != "meta.json":
                shutil.copy(os.path.join(S, i, f), t)
        p = sh(["bash", os.path.join(t, "demo.sh")], cwd=r, env=e, timeout=300)
    return p.returncode, (p.stdout + p.stderr)[-1500:]


def verify(i, with_tests=True):
    d = tempfile.mkdtemp(prefix=f"bug.{i}.")
    try:
        r = copy(d)
        a = demo(i, r)
        p = sh(["git", "apply", os.path.join(S, i, "patch.diff")], cwd=r)
        if p.returncode:
            return f"{i}: patch does not apply {p.stderr}"
        b = demo(i, r)
        miss = tests(r, d) if with_tests else []
        good = a[0] == 0 and b[0] != 0 and not miss
        s = f"{i}: {'OK' if good else 'BAD'} demo clean={a[0]} bug={b[0]} tests missing={miss[:4]} {len(miss)}"
        if not good:
            s += "\n--clean: " + a[1] + "\n--bug: " + b[1]
        return s
    finally:
        shutil.rmtree(d)


def check(i, pid=None, extra=()):
    d = tempfile.mkdtemp(prefix=f"bug.{i}.")
    try:
        r = copy(d)
        p = sh(["git", "apply", os.path.join(S, i, "patch.diff")], cwd=r)
        if p.returncode:
            return f"{i}: patch does not apply {p.stderr}"
        m = json.load(open(os.path.join(S, i, "meta.json")))
        pid = pid or m["property"]
        e = dict(os.environ, ACV_REPO=r, ACV_EVIDENCE=d)
        p = sh(["bash", "run.sh", pid, *extra], cwd=V, env=e)
        vs = [l for l in p.stdout.splitlines() if l.startswith("VIOLATION")]
        return f"{i}: {pid} exit {p.returncode} {'CAUGHT' if p.returncode == 1 and vs else 'MISSED'} n={len(vs)} {vs[:1]}" + (
            "" if p.returncode in (0, 1) else p.stdout[-800:] + p.stderr[-800:])
    finally:
        shutil.rmtree(d)


def make(src):
    m = json.load(open(os.path.join(src, "meta.json")))
    i = os.path.basename(os.path.abspath(src))
    d = tempfile.mkdtemp(prefix=f"bug.{i}.")
    try:
        r = copy(d)
        ns = {}
        exec(open(os.path.join(src, "edit.py")).read(), ns)
        def sub(f, old, new, n=1):
            p = os.path.join(r, "src/acetone_nnet", f)
            t = open(p).read()
            assert t.count(old) == n, (f, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        ns["edits"](sub)
        o = os.path.join(S, i)
        os.makedirs(o, exist_ok=True)
        open(os.path.join(o, "patch.diff"), "w").write(sh(["git", "diff"], cwd=r).stdout)
        json.dump(m, open(os.path.join(o, "meta.json"), "w"), indent=1)
        shutil.copy(os.path.join(src, "demo.py"), o)
        shutil.copy(os.path.join(V, "tools", "demolib.py"), o)
        open(os.path.join(o, "demo.sh"), "w").write(DEMO)
        return f"{i}: made"
    finally:
        shutil.rmtree(d)


DEMO = '''#!/bin/bash
# exit 0: the property holds for this input; nonzero: it does not
export HOME=/root LANG=C.UTF-8 TF_CPP_MIN_LOG_LEVEL=3 CUDA_VISIBLE_DEVICES= TF_ENABLE_ONEDNN_OPTS=0 PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''

if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "make":
        for s in a[1:]:
            print(make(s))
    elif a[0] == "verify":
        ids = a[1:] or sorted(os.listdir(S))
        with ThreadPoolExecutor(2) as ex:
            for s in ex.map(verify, ids):
                print(s, flush=True)
    elif a[0] == "check":
        for i in a[1:] or sorted(os.listdir(S)):
            i, _, pid = i.partition(":")
            print(check(i, pid or None), flush=True)
