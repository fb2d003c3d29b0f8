"""Mutation campaign: which small changes of ACETONE's code do the checks see?

  mutate.py list SEED N            draws N mutants (JSON lines: id, file, line, kind, old, new)
  mutate.py run SEED N OUT         runs the checks its file is mapped to on each, until one reports; then, for those none reports, the
                                   stable tests; one JSON line each in OUT (which is resumed)

Only lines of the original repository are changed, outside of error messages.  Works on clones below /tmp.
"""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
REPO = os.environ.get("ACV_REPO", "/repo")
P = "src/acetone_nnet/"
SKIP = ("H5_importer", "debug_keras", "lstm", "exporters", "JSON_from_keras", "__init__", "Conv2DGemmTarget", "AddBias", "Dot.py", "tensor.py")
CHECKS = [
    ("importers/ONNX", "P01 P02 P21 P06"), ("importers/JSON", "P12 P02 P07"), ("importers/PYTORCH", "P12 P02"), ("importers/NNET", "P15 P12"),
    ("importers/parser", "P12 P15 P20"), ("pattern_matching", "P06 P08"), ("graph", "P08 P01"), ("versioning", "P18 P05 P06"), ("debug", "P17 P14"),
    ("cli", "P20 P14"), ("quantize", "P16"), ("templates/", "P18 P10 P20"), ("generator/layers/convolution", "P05 P01 P12 P07 P06"),
    ("generator/layers", "P01 P03 P12 P07 P05 P06"), ("generator/activation", "P01 P12 P06 P03"), ("ir/", "P01 P06 P18 P12"),
    ("generator/neural_network", "P01 P10 P16 P17 P19 P20 P18 P11 P15 P07 P21 P12 P09 P08 P05"),
]
SWAP = [("height", "width"), ("left", "right"), ("top", "bottom"), ("input_", "output_"), ("kernel_h", "kernel_w"), ("mean", "var"), ("rows", "cols"),
        ("min", "max"), ("_h", "_w"), ("first", "last")]
OPS = {"Add": "-", "Sub": "+", "Mult": "+", "FloorDiv": "*", "Div": "*", "Mod": "//"}
CMP = {"Lt": "<=", "LtE": "<", "Gt": ">=", "GtE": ">", "Eq": "!=", "NotEq": "==", "In": "not in", "NotIn": "in", "Is": "is not", "IsNot": "is"}


def original(f):
    out = subprocess.run(["git", "-C", REPO, "blame", "-s", f], capture_output=True, text=True).stdout.splitlines()
    return {i + 1 for i, ln in enumerate(out) if ln.startswith("^50a8839")}


def seg(src, lines, n):
    return n.lineno, n.col_offset, n.end_lineno, n.end_col_offset


def mutants(f):
    """(line, kind, (l0, c0, l1, c1), new text) for everything the file offers."""
    src = open(os.path.join(REPO, f)).read()
    tree = ast.parse(src)
    ok = original(f)
    res = []
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            c.parent = n

    def noise(n):
        while n is not None:
            if isinstance(n, (ast.Raise, ast.JoinedStr, ast.AnnAssign)):
                return True
            if isinstance(n, ast.Assign | ast.AugAssign) and "msg" in ast.unparse(n.targets[0] if isinstance(n, ast.Assign) else n.target):
                return True
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                return True
            if isinstance(n, ast.Call) and ast.unparse(n.func).startswith(("logging", "print", "super")):
                return True
            if isinstance(n, ast.If) and all("msg" in ast.unparse(b) for b in n.body):
                return True
            if isinstance(n, ast.arg):
                return True
            if isinstance(n, ast.FunctionDef) and any(n is getattr(a, "returns", None) for a in [n]):
                return True
            n = getattr(n, "parent", None)
        return False
    g = lambda n: ast.get_source_segment(src, n)
    for n in ast.walk(tree):
        if not hasattr(n, "lineno") or n.lineno not in ok or n.end_lineno not in ok or noise(n):
            continue
        pos = (n.lineno, n.col_offset, n.end_lineno, n.end_col_offset)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            o = CMP.get(type(n.ops[0]).__name__)
            if o:
                res.append((n.lineno, "compare", pos, f"{g(n.left)} {o} {g(n.comparators[0])}"))
        elif isinstance(n, ast.BinOp) and type(n.op).__name__ in OPS and not isinstance(n.left, ast.Constant):
            if isinstance(n.right, ast.JoinedStr) or "f\"" in g(n) or '"' in g(n):
                continue
            res.append((n.lineno, "arith", pos, f"{g(n.left)} {OPS[type(n.op).__name__]} {g(n.right)}"))
        elif isinstance(n, ast.BoolOp) and len(n.values) == 2:
            o = "or" if isinstance(n.op, ast.And) else "and"
            res.append((n.lineno, "bool", pos, f"{g(n.values[0])} {o} {g(n.values[1])}"))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            res.append((n.lineno, "not", pos, f"({g(n.operand)})"))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub) and not isinstance(n.operand, ast.Constant):
            res.append((n.lineno, "neg", pos, f"({g(n.operand)})"))
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            res.append((n.lineno, "const", pos, str(not n.value)))
        elif isinstance(n, ast.Constant) and isinstance(n.value, int) and not isinstance(n.value, bool):
            res.append((n.lineno, "const", pos, str(n.value + 1)))
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            for a, b in SWAP:
                for x, y in ((a, b), (b, a)):
                    if x in n.attr and (x not in ("_h", "_w") or n.attr.endswith(x)):
                        res.append((n.lineno, "attr", pos, f"{g(n.value)}.{n.attr.replace(x, y)}"))
                        break
                else:
                    continue
                break
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)) and isinstance(n.parent, (ast.If, ast.For, ast.FunctionDef, ast.With)):
            if isinstance(n, ast.Expr) and not isinstance(n.value, ast.Call):
                continue
            if isinstance(n.parent, ast.FunctionDef) and n.parent.name == "__init__" and isinstance(n, ast.Assign):
                continue
            res.append((n.lineno, "delete", pos, "pass"))
        elif isinstance(n, ast.If) and not n.orelse and n.test.lineno in ok and n.test.end_lineno == n.test.lineno:
            t = n.test
            res.append((n.lineno, "always", (t.lineno, t.col_offset, t.end_lineno, t.end_col_offset), "True"))
            res.append((n.lineno, "never", (t.lineno, t.col_offset, t.end_lineno, t.end_col_offset), "False"))
    return src, res


def apply(src, pos, new):
    ls = src.encode().split(b"\n")
    l0, c0, l1, c1 = pos
    return b"\n".join([*ls[:l0 - 1], ls[l0 - 1][:c0] + new.encode() + ls[l1 - 1][c1:], *ls[l1:]]).decode()


def draw(seed, n):
    rng = random.Random(seed)
    fs = [f for f in subprocess.run(["git", "-C", REPO, "ls-files", P], capture_output=True, text=True).stdout.split()
          if f.endswith(".py") and not any(s in f for s in SKIP)]
    only = os.environ.get("MUT_ONLY")
    if only:
        fs = [f for f in fs if only in f]
    allm = {f: mutants(f) for f in fs}
    w = [len(allm[f][1]) ** .7 for f in fs]
    res, seen = [], set()
    while len(res) < n and len(seen) < 20 * n:
        f = rng.choices(fs, w)[0]
        src, ms = allm[f]
        if not ms:
            continue
        m = rng.choice(ms)
        key = (f, m[2], m[3])
        if key in seen:
            continue
        seen.add(key)
        t = apply(src, m[2], m[3])
        try:
            compile(t, f, "exec")
        except SyntaxError:
            continue
        ls = src.split("\n")
        res.append({"id": f"{seed}-{len(res)}", "file": f, "line": m[0], "kind": m[1], "old": ls[m[0] - 1].strip(), "new": t.split("\n")[m[0] - 1].strip(), "pos": m[2], "text": m[3]})
    return res


def run(m):
    import seedbug
    d = tempfile.mkdtemp(prefix=f"mut.{m['id']}.")
    try:
        r = os.path.join(d, "repo")
        subprocess.run(["git", "clone", "-q", REPO, r], check=True)
        f = os.path.join(r, m["file"])
        src = open(f).read()
        open(f, "w").write(apply(src, m["pos"], m["text"]))
        short = m["file"][len(P):]
        checks = next((c for k, c in CHECKS if short.startswith(k)), "P01 P18").split()
        p = subprocess.run(["/opt/venv/bin/python", "-c", "import acetone_nnet"], env=dict(seedbug.ENV, PYTHONPATH=r + "/src"), capture_output=True)
        if p.returncode:
            return {**m, "result": "import"}
        out = []
        for c in checks:
            e = dict(os.environ, ACV_REPO=r, ACV_EVIDENCE=d)
            p = subprocess.run(["bash", "run.sh", c], cwd=V, env=e, capture_output=True, text=True)
            vs = [x for x in p.stdout.splitlines() if x.startswith("VIOLATION")]
            out.append((c, p.returncode, len(vs)))
            if p.returncode == 1 and vs:
                return {**m, "result": "caught", "by": c, "runs": out}
        miss = seedbug.tests(r, d)
        return {**m, "result": "tests" if miss else "SURVIVED", "runs": out, "tests": miss[:3]}
    finally:
        shutil.rmtree(d, True)


if __name__ == "__main__":
    seed, n = int(sys.argv[2]), int(sys.argv[3])
    ms = draw(seed, n)
    if sys.argv[1] == "list":
        for m in ms:
            print(json.dumps(m))
    else:
        done = {json.loads(x)["id"] for x in open(sys.argv[4])} if os.path.exists(sys.argv[4]) else set()
        for m in ms:
            if m["id"] not in done:
                r = run(m)
                with open(sys.argv[4], "a") as o:
                    o.write(json.dumps(r) + "\n")
