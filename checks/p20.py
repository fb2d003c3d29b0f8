"""P20: the command line behaves as the programming interface."""
import _pre  # noqa: F401
import contextlib
import io
import os
import sys

import numpy as np
from acv import cases as C, cexec, models as M, onnxgen as G
from acv.runner import Check, Family, ok, seeds, skip, violation
from p11 import difference

CONVS = ["6loops", "std_gemm_nn", "std_gemm_nt", "std_gemm_tn", "std_gemm_tt"]
KINDS = ["onnx", "onnx", "json", "nnet"]


def command(args):
    """Run the command in this process; returns (exit status, text)."""
    import logging
    from acetone_nnet.cli import generate
    out, argv = io.StringIO(), sys.argv
    sys.argv = ["acetone_generate", *args]
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            generate.acetone_generate()
        return 0, out.getvalue()
    except SystemExit as e:
        return e.code or 0, out.getvalue()
    except Exception as e:  # noqa: BLE001
        return 1, out.getvalue() + cexec.exc_text(e)
    finally:
        sys.argv = argv
        logging.getLogger().handlers.clear()


def dataset(rng, size, rows, d, hexa=True):
    path = os.path.join(d, "dataset.txt")
    with open(path, "w") as f:
        for _ in range(rows):
            v = np.float32(rng.standard_normal(size))
            f.write("[" + ", ".join(f'"{float(x).hex()}"' if hexa else repr(float(x)) for x in v) + "]\n")
    return path


def draw(seed, d, kind):
    k, path, size, kw = kind, *M.source(kind, seed, d)
    return path, size, bool(kw.get("normalize"))


def switch(rng, name, on):
    """How a user sets a boolean option."""
    if on:
        return [name, str(rng.choice(["True", "true", "1"] if name != "--bin_dataset" else ["True", "1"]))]
    return [] if rng.random() < .5 else [name, str(rng.choice(["False", "false"]))]


def run_equal(p):
    rng = np.random.default_rng([p["seed"], 20])
    with C.scratch() as d:
        try:
            path, size, norm = draw(p["seed"], d, p["kind"])
        except G.Skip as e:
            return skip(str(e))
        rows = int(rng.integers(1, 6))
        n = int(rng.integers(0 if rng.random() < .1 else 1, rows + 1))
        o = {"function": str(rng.choice(["inference", "net", "acas_1"])), "n": n, "optimization": bool(rng.integers(2)),
             "verbose": bool(rng.random() < .4), "bin_dataset": bool(rng.random() < .4), "normalize": norm,
             "conv": str(rng.choice(CONVS)) if rng.random() < .7 else None,
             "page": int(rng.choice([64, 128, 4096, 65536])) if rng.random() < .5 else None,
             "dataset": dataset(rng, size, rows, d, rng.random() < .7) if rng.random() < .7 else None}
        out = os.path.join(d, str(rng.choice(["cli", "deep/er/cli"])))
        args = ["--model", path, "--function", o["function"], "--output", out, "--dataset-size", str(n),
                *switch(rng, "--optimization", o["optimization"]), *switch(rng, "--verbose", o["verbose"]),
                *switch(rng, "--bin_dataset", o["bin_dataset"])]
        if norm:
            args += ["--normalize"]
        if o["conv"]:
            args += ["--conv", o["conv"]]
        if o["page"]:
            args += ["--target_page_size", str(o["page"])]
        if o["dataset"]:
            args += ["--dataset", o["dataset"]]
        pairs, k = [], 0
        while k < len(args):                       # the order of the options does not matter
            w = 2 if k + 1 < len(args) and not args[k + 1].startswith("--") else 1
            pairs.append(args[k:k + w])
            k += w
        rng.shuffle(order := list(range(len(pairs))))
        args = [a for i in order for a in pairs[i]]
        shown = [a.replace(d, "") for a in args]
        tags = ["equal", p["kind"], *[f"{k}={v}" for k, v in o.items() if k not in ("function", "n", "dataset", "page")]]
        status, text = command(args)
        api = os.path.join(d, "api")
        from acetone_nnet import CodeGenerator
        try:
            gen = CodeGenerator(file=path, function_name=o["function"], nb_tests=n, test_dataset=o["dataset"], normalize=norm,
                                versions={"Conv2D": o["conv"] or "std_gemm_nn"}, verbose=o["verbose"], optimization=o["optimization"],
                                bin_dataset=o["bin_dataset"], **({"target_page_size": o["page"]} if o["page"] else {}))
            gen.generate_c_files(api)
            gen.compute_inference(api)
        except Exception as e:  # noqa: BLE001
            if status:
                return skip("both refuse")
            return violation("only_command_accepts", f"{shown}: {cexec.exc_text(e)}", tags=tags)
        if status:
            return violation("only_interface_accepts", f"{shown}: exit status {status}: {text[-900:]}", tags=tags)
        a, b = M.listing(out), M.listing(api)
        diff = difference(a, b)
        if diff:
            return violation("differs", f"{shown}: command / interface: {diff}", tags=tags)
        # each option has its effect
        mk, src = a["Makefile"].decode(), a["main.c"].decode()
        bad = None
        if ("printf(\"   ACETONE" in src) != o["verbose"]:
            bad = "--verbose"
        elif ("parameters.dat" in a) != o["bin_dataset"] or ("test_dataset.dat" in a) != o["bin_dataset"]:
            bad = "--bin_dataset"
        elif o["function"] not in mk.split():
            bad = "--function"
        elif len(a["output_python.txt"].splitlines()) != n:
            bad = "--dataset-size"
        elif o["page"] and str(o["page"]) not in (mk if o["bin_dataset"] else a["parameters.c"].decode() + a["global_vars.c"].decode()):
            if o["bin_dataset"]:
                bad = "--target_page_size"
        if bad:
            return violation("no_effect", f"{shown}: {bad} has not its effect", tags=tags)
        if rng.random() < .4:
            try:
                cexec.make(out)
                cexec.run_binary(out, exe=o["function"])
            except cexec.StageError as e:
                return C.stage_violation(e, tags=tags)
            bad = C.compare("outputs", cexec.parse_output(os.path.join(out, "output_c.txt")), cexec.parse_output(os.path.join(out, "output_python.txt")), tags=tags)
            if bad:
                return bad
    return ok(tags=tags, count={"files_compared": len(a)}, sample={"args": shown})



def run_effect(p):
    """Changing one option, and nothing else, has an effect and the one it names."""
    rng = np.random.default_rng([p["seed"], 21])
    with C.scratch() as d:
        try:
            path, size, norm = draw(p["seed"], d, p["kind"])
        except G.Skip as e:
            return skip(str(e))
        rows = 4
        data = dataset(rng, size, rows, d)
        out = [os.path.join(d, f"o{i}") for i in range(2)]
        base = {"--model": path, "--function": "inference", "--dataset-size": "2", "--dataset": data, "--conv": "6loops"}
        name, value = {"verbose": ("--verbose", "True"), "bin": ("--bin_dataset", "True"), "size": ("--dataset-size", "3"), "function": ("--function", "other"),
                       "dataset": ("--dataset", None), "conv": ("--conv", "std_gemm_nt"), "opt": ("--optimization", "True"),
                       "page": ("--target_page_size", "512"), "normalize": ("--normalize", None)}[p["option"]]
        tags = ["effect", p["option"], p["kind"]]
        if p["option"] == "normalize" and not norm:
            return skip("not normalised")
        from acetone_nnet import CodeGenerator
        res = []
        for i in range(2):
            o = dict(base)
            if i:
                if p["option"] == "dataset":
                    d2 = os.path.join(d, "d2")
                    os.mkdir(d2)
                    o["--dataset"] = dataset(rng, size, rows, d2)
                else:
                    o[name] = value
            args = [x for k, v in o.items() for x in ([k, v] if v is not None else [k])] + ["--output", out[i]]
            status, text = command(args)
            if status:
                if p["option"] == "conv" or not i:
                    return skip("refused")
                return violation("refused", f"{name} {value}: exit status {status}: {text[-600:]}", tags=tags)
            res.append(M.listing(out[i]))
        want = {"verbose": {"main.c"}, "size": {"test_dataset.h", "test_dataset.c", "output_python.txt"}, "function": {"Makefile"},
                "dataset": {"test_dataset.c", "output_python.txt"}, "bin": {"Makefile", "parameters.c", "test_dataset.c", "parameters.dat", "test_dataset.dat"}}
        changed = {f for f in set(res[0]) | set(res[1]) if res[0].get(f) != res[1].get(f)}
        if p["option"] in want:
            if not changed <= want[p["option"]] or (p["option"] not in ("dataset", "size") and changed != want[p["option"]]) \
                    or p["option"] in ("dataset", "size") and not {"test_dataset.c"} <= changed:
                return violation("effect", f"{name} {value}: changed {sorted(changed)}, expected {sorted(want[p['option']])}", tags=tags)
        elif p["option"] in ("conv", "opt", "page", "normalize"):
            # the interface changes the same files
            files = []
            for i in range(2):
                kw = {"versions": {"Conv2D": "6loops"}}
                if i:
                    kw.update({"conv": {"versions": {"Conv2D": value}}, "opt": {"optimization": True}, "page": {"target_page_size": 512},
                               "normalize": {"normalize": True}}[p["option"]])
                x = os.path.join(d, f"a{i}")
                gen = CodeGenerator(file=path, nb_tests=2, test_dataset=data, **kw)
                gen.generate_c_files(x)
                gen.compute_inference(x)
                files.append(M.listing(x))
            same = {f for f in set(files[0]) | set(files[1]) if files[0].get(f) != files[1].get(f)}
            if same != changed:
                return violation("effect", f"{name} {value}: changed {sorted(changed)}; through the interface {sorted(same)}", tags=tags)
    return ok(tags=tags, count={"effects": int(bool(changed))}, nontrivial=bool(changed), sample={"changed": sorted(changed)})


def run_invalid(p):
    """Invalid arguments are refused, and nothing is left behind."""
    rng = np.random.default_rng([p["seed"], 22])
    how = p["how"]
    with C.scratch() as d:
        try:
            path, size, norm = draw(p["seed"], d, p["kind"])
        except G.Skip as e:
            return skip(str(e))
        out = os.path.join(d, "out")
        o = {"--model": path, "--function": "inference", "--output": out, "--dataset-size": "2", "--dataset": dataset(rng, size, 3, d)}
        if how in ("--model", "--function", "--output", "--dataset-size"):
            del o[how]
        elif how == "no_model":
            o["--model"] = os.path.join(d, "absent" + os.path.splitext(path)[1])
        elif how == "not_a_model":
            o["--model"] = os.path.join(d, "bad" + os.path.splitext(path)[1])
            with open(o["--model"], "wb") as f:
                f.write(rng.bytes(200))
        elif how == "truncated_model":
            data = open(path, "rb").read()
            o["--model"] = os.path.join(d, "cut" + os.path.splitext(path)[1])
            with open(o["--model"], "wb") as f:
                f.write(data[:len(data) // 2])
        elif how == "extension":
            o["--model"] = os.path.join(d, "model.txt")
            os.rename(path, o["--model"])
        elif how == "size":
            o["--dataset-size"] = str(rng.choice(["two", "1.5", "", "-1"]))
            if o["--dataset-size"] == "-1":
                del o["--dataset"]
        elif how == "no_dataset":
            o["--dataset"] = os.path.join(d, "absent.txt")
        elif how == "bad_dataset":
            with open(o["--dataset"], "w") as f:
                f.write(str(rng.choice(["[1, 2", "hello\n", "[\"zz\"]\n", "{}\n", "[null]\n"])))
        elif how == "wrong_size":
            o["--dataset"] = dataset(rng, size + 1, 3, d)
        elif how == "conv":
            o["--conv"] = str(rng.choice(["unknown", "std_gemm", "6 loops"]))
        elif how == "page":
            o["--target_page_size"] = str(rng.choice(["big", "0", "-4096", "100"]))
            if rng.random() < .7:
                o["--bin_dataset"] = "True"
        elif how == "boolean":
            o[str(rng.choice(["--bin_dataset", "--optimization", "--verbose"]))] = "perhaps"
        elif how == "unknown_option":
            o["--unknown"] = "1"
        elif how == "output_is_file":
            with open(out, "w") as f:
                f.write("mine")
        elif how == "occupied":
            os.mkdir(out)
            with open(os.path.join(out, "inference.c"), "w") as f:
                f.write("mine")
        args = [x for k, v in o.items() for x in ([k, v] if v is not None else [k])]
        before = M.listing(out) if os.path.isdir(out) else None
        cwd = sorted(os.listdir("."))
        status, text = command(args)
        tags = ["invalid", how]
        shown = [a.replace(d, "") for a in args]
        if not status:
            if how == "conv" and not _has_conv(path):
                return skip("no convolution")
            if how == "truncated_model":
                return skip("a shorter model")
            return violation("accepted", f"{how}: {shown} accepted", tags=tags)
        if how == "conv" and not _has_conv(path):
            return skip("no convolution")
        after = M.listing(out) if os.path.isdir(out) else {}
        if after != (before or {}) or how == "output_is_file" and open(out).read() != "mine":
            return violation("partial", f"{how}: {shown} refused, leaving {sorted(after)}", tags=tags)
        if sorted(os.listdir(".")) != cwd:
            return violation("partial", f"{how}: files left in the working directory", tags=tags)
    return ok(tags=tags, count={"refused": 1}, sample={"args": shown, "said": text.strip().splitlines()[-1][:200] if text.strip() else ""})


def _has_conv(path):
    return path.endswith(".onnx") and b"Conv" in open(path, "rb").read() or path.endswith(".json") and b'"Conv2D"' in open(path, "rb").read()


HOW = ["--model", "--function", "--output", "--dataset-size", "no_model", "not_a_model", "truncated_model", "extension", "size", "no_dataset",
       "bad_dataset", "wrong_size", "conv", "page", "boolean", "unknown_option", "output_is_file", "occupied"]
OPTIONS = ["verbose", "bin", "size", "function", "dataset", "conv", "opt", "page", "normalize"]


def cycle(tag, key, vals):
    s = seeds(tag)

    def gen(i):
        kind = "nnet" if vals[i % len(vals)] == "normalize" else KINDS[(i // len(vals)) % len(KINDS)]
        return {key: vals[i % len(vals)], "kind": kind, **s(i)}
    return gen


if __name__ == "__main__":
    s = seeds("P20eq")
    sys.exit(Check("P20", [
        Family("equal", lambda i: {"kind": KINDS[i % len(KINDS)], **s(i)}, run_equal, 280, 3000),
        Family("effect", cycle("P20eff", "option", OPTIONS), run_effect, 180, 1500),
        Family("invalid", cycle("P20inv", "how", HOW), run_invalid, 180, 1800),
    ], rule="random commands over every option and input format against the programming interface with the same choices, file by file, reference "
            "outputs included; one option changed at a time; every kind of invalid argument, watching what is left behind; non-trivial: every "
            "case (effect: something changed)",
       min_evals=200, require={"files_compared": 500, "refused": 60, "effects": 40}).main())
