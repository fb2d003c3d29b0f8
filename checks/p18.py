"""P18: implementation and generation choices given by the caller are honoured."""
import _pre  # noqa: F401
import os
import sys

import numpy as np
import onnx
from acv import cases as C, cexec, dag, onnxgen as G
from acv.runner import Check, Family, ok, seeds, skip, violation

CONVS = ["6loops", "std_gemm_nn", "std_gemm_nt", "std_gemm_tn", "std_gemm_tt", "indirect_gemm_nn", "indirect_gemm_tt", "direct_block"]
RUN = CONVS[:5]


def listing(d):
    out = {}
    for f in sorted(os.listdir(d)):
        with open(os.path.join(d, f), "rb") as o:
            out[f] = o.read()
    return out


def build(m, xs, **kw):
    from acetone_nnet import CodeGenerator
    return CodeGenerator(file=m, test_dataset=np.stack(xs), nb_tests=len(xs), **kw)


def sections(gen, d):
    """The code generated for each layer, as found in the generated source file."""
    seen = {}
    for layer in gen.layers:
        orig = layer.generate_inference_code_layer

        def spy(orig=orig, idx=layer.idx):
            s = orig()
            seen.setdefault(idx, []).append(s)
            return s
        layer.generate_inference_code_layer = spy
    gen.generate_c_files(d)
    with open(os.path.join(d, "inference.c")) as f:
        return seen, f.read()


def conv_model(seed, rows=2):
    """A random graph with several convolutions."""
    table = {**dag.IMG_OPS, "conv": 14}
    for k in range(30):
        try:
            c = C.finish(*dag.make(seed * 31 + k, n_ops=(4, 10), table=table, maxsize=500, img=(1, 2, 6, 6)), seed, rows)
        except G.Skip:
            continue
        if sum(nd.op_type == "Conv" for nd in c.model.graph.node) >= 2:
            return c
    return None


def run_mix(p):
    rng = np.random.default_rng([p["seed"], 18])
    c = conv_model(p["seed"])
    if c is None:
        return skip("no model with two convolutions")
    opt = bool(rng.random() < .5)
    pool = RUN if rng.random() < .75 else CONVS
    homog = {}
    for v in pool:
        try:
            with C.scratch() as d:
                g = build(c.model, c.xs, versions={"Conv2D": v}, optimization=opt)
                homog[v] = sections(g, d)[0]
                layers = [(layer.idx, layer.name) for layer in g.layers]
        except Exception as e:  # noqa: BLE001
            if v == "6loops":
                return violation("import", cexec.exc_text(e))
    with C.scratch() as d:
        g = build(c.model, c.xs, optimization=opt)
        default = sections(g, d)[0]
    convs = [i for i, n in layers if n == "Conv2D"]
    names = list(homog)
    versions, expect = {}, {}
    by_type = rng.choice(names) if rng.random() < .7 else None
    if by_type:
        versions["Conv2D"] = str(by_type)
    for i in convs:
        expect[i] = homog[by_type][i] if by_type else default[i]
        if rng.random() < .55:
            v = str(rng.choice(names))
            versions[i] = v
            expect[i] = homog[v][i]
    if rng.random() < .5:        # the order in which the choices are listed does not matter
        keys = list(versions)
        rng.shuffle(keys)
        versions = {(k if k == "Conv2D" else int(k)): versions[k if k == "Conv2D" else int(k)] for k in keys}
    asked = dict(versions)
    tags = ["mix", *sorted({f"impl={v}" for v in versions.values()}), f"convs={min(len(convs), 5)}",
            "type+index" if by_type and len(versions) > 1 else "type" if by_type else "index" if versions else "none"]
    with C.scratch() as d:
        try:
            g = build(c.model, c.xs, versions=versions, optimization=opt)
            seen, text = sections(g, d)
        except Exception as e:  # noqa: BLE001
            return violation("mixed_refused", f"{asked}: {cexec.exc_text(e)}", tags=tags)
        if versions != asked:
            return violation("versions_changed", f"the caller's dictionary became {versions} instead of {asked}", tags=tags)
        pos = 0
        for layer in g.layers:
            i = layer.idx
            want = expect.get(i, default[i])
            if not seen.get(i):
                return violation("not_generated", f"layer {layer.name} {i}: no code generated", tags=tags)
            if seen[i][-1] != want[-1]:
                used = [v for v in names if i in homog[v] and homog[v][i][-1] == seen[i][-1]]
                return violation("wrong_implementation", f"layer {layer.name} {i}: generated as {used} with versions={asked}", tags=tags)
            at = text.find(want[-1].strip(), pos)
            if at < 0:
                return violation("not_in_source", f"layer {layer.name} {i}: its code is not in inference.c (in execution order)", tags=tags)
            pos = at
        distinct = len({homog[v][i][-1] for v in names for i in convs})
        if set(asked.values()) <= set(RUN):
            try:
                cexec.quick_build(d, flags=C.SAN)
                cexec.run_binary(d, extra_env=C.SAN_ENV)
                got = cexec.parse_output(os.path.join(d, "output_c.txt"))
            except cexec.StageError as e:
                return C.stage_violation(e, tags=tags)
            bad = C.compare("outputs", got, c.ref, tags=tags)
            if bad:
                return bad
    return ok(tags=tags, nontrivial=len(versions) > 0, digest=C.digest(c.model, sorted(asked.items(), key=str), opt),
              count={"layers_checked": len(layers), "convolutions_checked": len(convs), "distinct_codes": distinct},
              sample={"versions": {str(k): v for k, v in asked.items()}, "layers": layers[:8]})


# -- implementations registered by the caller -------------------------------------------------------------------

class Registry:
    """Register marked variants in the real factories; forget them afterwards."""

    def __init__(self, names, calls):
        self.names, self.calls = names, calls

    def __enter__(self):
        from acetone_nnet.versioning.layer_factories import implemented
        self.saved = {}
        for f in {id(f): f for f in implemented.values()}.values():
            self.saved[id(f)] = (f, f.implementations)
            f.implementations = dict(f.implementations)
        done = set()
        for n in self.names:
            f = implemented[n]
            if id(f) in done:
                continue
            done.add(id(f))
            base = f.implementations["6loops" if n == "Conv2D" else "default"]
            for k in ("acv_a", "acv_b"):
                f.register_implementation(k, self.variant(base, k))
        return self

    def __exit__(self, *a):
        for f, impl in self.saved.values():
            f.implementations = impl

    def variant(self, base, key):
        calls = self.calls

        def make(layer, version):
            calls.append((key, layer.idx, layer.name, version))
            new = base(layer, "6loops" if layer.name == "Conv2D" else None)
            cls = type(new)

            class Marked(cls):
                def generate_inference_code_layer(self):
                    return f"    /* ACV {key} {self.idx} */\n" + super().generate_inference_code_layer()
            new.__class__ = Marked
            return new
        return make


def run_registry(p):
    rng = np.random.default_rng([p["seed"], 28])
    try:
        c = C.dag_case(p["seed"], maxsize=500)
    except G.Skip as e:
        return skip(str(e))
    kw = {"optimization": bool(rng.random() < .5)}
    try:
        base = build(c.model, c.xs, **kw)
    except Exception as e:  # noqa: BLE001
        return violation("import", cexec.exc_text(e))
    layers = [(x.idx, x.name) for x in base.layers]
    from acetone_nnet.versioning import layer_factories as LF
    from acetone_nnet.versioning import versioning as V
    if any(n not in LF.implemented for _, n in layers):
        return skip("layer without a factory")
    names = sorted({n for _, n in layers})
    versions, expect = {}, {}
    for n in names:
        if rng.random() < .4:
            versions[n] = str(rng.choice(["acv_a", "acv_b"]))
    for i, n in layers:
        if n in versions:
            expect[i] = versions[n]
        if rng.random() < .25:
            versions[i] = str(rng.choice(["acv_a", "acv_b"]))
            expect[i] = versions[i]
    calls, tags = [], ["registry", *c.tags]
    with Registry(names, calls), C.scratch() as d:
        known = V.list_all_implementations()
        for n in names:
            if not {"acv_a", "acv_b"} <= set(known[n]):
                return violation("not_listed", f"a registered implementation of {n} is not listed: {known[n]}", tags=tags)
        try:
            LF.implemented[names[0]].register_implementation("acv_a", lambda layer, version: layer)
            return violation("registered_twice", f"implementation acv_a of {names[0]} registered twice", tags=tags)
        except KeyError:
            pass
        try:
            V.register_factory(names[0], LF.LayerFactory(names[0]))
            return violation("factory_twice", f"factory {names[0]} replaced silently", tags=tags)
        except KeyError:
            pass
        try:
            g = build(c.model, c.xs, versions=dict(versions), **kw)
        except Exception as e:  # noqa: BLE001
            return violation("registered_refused", cexec.exc_text(e), tags=tags)
        want = sorted((v, i) for i, v in expect.items())
        got = sorted((k, i) for k, i, _, _ in calls)
        if got != want:
            return violation("variant_calls", f"variants called for {got}, chosen for {want}", tags=tags)
        for k, i, n, v in calls:
            if v != k or (i, n) not in layers:
                return violation("variant_arguments", f"variant {k} called with version {v} and layer {n} {i}", tags=tags)
        try:
            seen, text = sections(g, d)
            cexec.quick_build(d, flags=C.PLAIN)
            cexec.run_binary(d)
            out = cexec.parse_output(os.path.join(d, "output_c.txt"))
            py = cexec.python_reference(g, d)
        except cexec.StageError as e:
            return C.stage_violation(e, tags=tags)
        except Exception as e:  # noqa: BLE001
            return violation("generate", cexec.exc_text(e), tags=tags)
        import re
        marks = [(k, int(i)) for k, i in re.findall(r"/\* ACV (\w+) (\d+) \*/", text)]
        order = [(expect[x.idx], x.idx) for x in g.layers if x.idx in expect]
        if marks != order:
            return violation("marks", f"implementations in inference.c, in order: {marks}; chosen: {order}", tags=tags)
        bad = C.compare("outputs", out, c.ref, tags=tags) or C.compare("reference", py, c.ref, tags=tags)
        if bad:
            return bad
    return ok(tags=tags, nontrivial=bool(expect), digest=C.digest(c.model, sorted(versions.items(), key=str)),
              count={"variants_called": len(calls), "layers_left_default": len(layers) - len(expect)})


def run_unknown(p):
    """An unknown implementation is refused before anything is generated."""
    rng = np.random.default_rng([p["seed"], 38])
    c = conv_model(p["seed"], 1) if rng.random() < .5 else None
    if c is None:
        try:
            c = C.dag_case(p["seed"], rows=1)
        except G.Skip as e:
            return skip(str(e))
    try:
        base = build(c.model, c.xs)
    except Exception as e:  # noqa: BLE001
        return violation("import", cexec.exc_text(e))
    layer = base.layers[int(rng.integers(len(base.layers)))]
    by = ["index", "type"][int(rng.integers(2))]
    name = str(rng.choice(["unknown", "std_gemm", "6LOOPS", "", "std_gemm_xx", "Default", "winograd_9"]))
    versions = {layer.idx if by == "index" else layer.name: name}
    if layer.name != "Conv2D" and rng.random() < .3:
        versions["Conv2D"] = "std_gemm_nn"
    tags = ["unknown", by, layer.name]
    with C.scratch() as d:
        try:
            g = build(c.model, c.xs, versions=versions)
            g.generate_c_files(os.path.join(d, "g"))
        except Exception:  # noqa: BLE001
            left = os.listdir(os.path.join(d, "g")) if os.path.isdir(os.path.join(d, "g")) else []
            if left:
                return violation("partial", f"{versions} refused after writing {left}", tags=tags)
            return ok(tags=tags, count={"refused": 1})
    return violation("unknown_accepted", f"{versions} ({layer.name}) accepted", tags=tags)


# -- generation functions given by the caller -------------------------------------------------------------------

STD = {"Main": ["main.c", "test_dataset.h"], "Inference": ["inference.c", "inference.h", "global_vars.c", "parameters.c", "train_hook.c"],
       "Makefile": ["Makefile"], "TestValues": ["test_dataset.c"]}


def run_functions(p):
    rng = np.random.default_rng([p["seed"], 48])
    try:
        c = C.dag_case(p["seed"], maxsize=400)
    except G.Skip as e:
        return skip(str(e))
    calls, contents, custom = [], {}, {}
    form = ["list", "tuple"][int(rng.integers(2))]

    def writer(name, token):
        def f(gen, path):
            calls.append((token, gen, str(path)))
            with open(os.path.join(str(path), name), "a") as o:
                o.write(token)
            contents[name] = contents.get(name, "") + token
        return f
    expect_calls, extra = [], []
    keys = [k for k in STD if rng.random() < .35] + [f"Extra{i}" for i in range(int(rng.integers(0, 3)))]
    for k in keys:
        if k in STD and rng.random() < .4:
            custom[k] = []
            continue
        files = [f"acv_{k.lower()}_{i}{rng.choice(['.c', '.h', '.txt'])}" for i in range(int(rng.integers(1, 3)))]
        if form == "tuple":
            files = files[:1]
        fs = []
        for f in files:
            for i in range(int(rng.integers(1, 3))):
                fs.append((f, writer(f, f"/* {f} {i} */\n")))
                expect_calls.append(f"/* {f} {i} */\n")
        extra += files
        custom[k] = (files[0], [fn for _, fn in fs]) if form == "tuple" else fs
    tags = ["functions", form, *[f"{'disabled' if not custom[k] else 'replaced'}={k}" for k in custom if k in STD],
            *(["extra"] if any(k not in STD for k in custom) else [])]
    std = sorted(f for k, v in STD.items() if k not in custom for f in v)
    with C.scratch() as d:
        a, b = os.path.join(d, "a"), os.path.join(d, "b")
        try:
            build(c.model, c.xs).generate_c_files(a)
        except Exception as e:  # noqa: BLE001
            return violation("import", cexec.exc_text(e), tags=tags)
        try:
            g = build(c.model, c.xs, custom_generation_functions=custom)
            if rng.random() < .4 and extra:      # a file of the caller's is already there
                os.mkdir(b)
                victim = str(rng.choice(extra))
                with open(os.path.join(b, victim), "w") as o:
                    o.write("mine")
                try:
                    g.generate_c_files(b)
                except FileExistsError:
                    if calls or listing(b) != {victim: b"mine"}:
                        return violation("called_before_refusing", f"{victim} exists: {len(calls)} functions called, files {sorted(listing(b))}", tags=tags)
                    return ok(tags=[*tags, "file_exists"], count={"refused": 1})
                return violation("overwritten", f"{victim} already exists and generation goes on", tags=tags)
            g.generate_c_files(b)
        except Exception as e:  # noqa: BLE001
            return violation("functions_refused", cexec.exc_text(e), tags=tags)
        before, after = listing(a), listing(b)
        if sorted(after) != sorted(std + extra):
            return violation("files", f"files {sorted(after)} instead of {sorted(std + extra)}", tags=tags)
        if sorted(t for t, _, _ in calls) != sorted(expect_calls) or any(x is not g for _, x, _ in calls) \
                or any(os.path.realpath(x) != os.path.realpath(b) for _, _, x in calls):
            return violation("calls", f"functions called: {[t for t, _, _ in calls]}, given: {expect_calls}", tags=tags)
        for f in extra:
            if after[f].decode() != contents[f]:
                return violation("content", f"{f}: {after[f][:200]!r} instead of {contents[f][:200]!r}", tags=tags)
        for f in std:
            if f != "Makefile" and after[f] != before[f]:
                return violation("standard_file", f"{f} is not what it is without custom functions", tags=tags)
        if "Makefile" not in custom:
            mk = after["Makefile"].decode()
            for f in [*std, *extra]:
                listed = f in mk.split()
                if f.endswith(".c") and not listed:
                    return violation("makefile", f"{f} is not compiled by the Makefile", tags=tags)
            for f in {x for k in custom if k in STD for x in STD[k]} - set(std):
                if f.endswith(".c") and any(ln.startswith("SRC") and f in ln.split() for ln in mk.splitlines()):
                    return violation("makefile", f"{f} is not generated and the Makefile compiles it", tags=tags)
        if all(k not in custom for k in STD):
            try:
                cexec.make(b)
                cexec.run_binary(b)
            except cexec.StageError as e:
                if any(f.endswith((".h", ".txt")) for f in extra):
                    return skip("file")
                return C.stage_violation(e, tags=tags)
            bad = C.compare("outputs", cexec.parse_output(os.path.join(b, "output_c.txt")), c.ref, tags=tags)
            if bad:
                return bad
    return ok(tags=tags, nontrivial=bool(custom), count={"functions_called": len(calls), "standard_files": len(std)},
              digest=C.digest(c.model, tags, expect_calls))


# -- build choices ------------------------------------------------------------------------------------------------

def run_makefile(p):
    """The compiler and flags asked for are those the Makefile uses."""
    rng = np.random.default_rng([p["seed"], 58])
    try:
        c = C.dag_case(p["seed"], maxsize=400)
    except G.Skip as e:
        return skip(str(e))
    with C.scratch() as d:
        log = os.path.join(d, "log")
        cc = os.path.join(d, "mycc")
        with open(cc, "w") as f:
            f.write(f'#!/bin/bash\nprintf "%s " "$@" >> {log}; echo >> {log}\nexec gcc "$@"\n')
        os.chmod(cc, 0o755)
        props, name = {}, str(rng.choice(["inference", "net", "my_model", "acas_1"]))
        if rng.random() < .7:
            props["compiler"] = cc
        flags = [str(x) for x in rng.choice(["-O0", "-O1", "-O2", "-g", "-w", "-DACV=1", "-ffp-contract=off"], int(rng.integers(1, 4)), replace=False)]
        if rng.random() < .7:
            props["compiler_flags"] = list(flags)
        if rng.random() < .5:
            props["linker_flags"] = ["-lm", "-Wl,-z,now"]
        kept = {k: list(v) if isinstance(v, list) else v for k, v in props.items()}
        tags = ["makefile", *props]
        g = os.path.join(d, "g")
        try:
            gen = build(c.model, c.xs, makefile_properties=props, function_name=name)
            gen.generate_c_files(g)
            cexec.make(g)
            cexec.run_binary(g, exe=name)
        except cexec.StageError as e:
            return C.stage_violation(e, tags=tags)
        except Exception as e:  # noqa: BLE001
            return violation("import", cexec.exc_text(e), tags=tags)
        if props != kept:
            return violation("properties_changed", f"the caller's dictionary became {props}", tags=tags)
        lines = open(log).read().splitlines() if os.path.exists(log) else []
        if "compiler" in props:
            if len(lines) < 3:
                return violation("compiler", f"the compiler asked for was called {len(lines)} times", tags=tags)
            for ln in lines:
                want = flags if "compiler_flags" in props else []
                if any(f not in ln.split() for f in want):
                    return violation("compiler_flags", f"{want} asked for; compiler called with {ln}", tags=tags)
            if "linker_flags" in props and not any("-Wl,-z,now" in ln for ln in lines):
                return violation("linker_flags", f"{props['linker_flags']} asked for; compiler called with {lines}", tags=tags)
        bad = C.compare("outputs", cexec.parse_output(os.path.join(g, "output_c.txt")), c.ref, tags=tags)
        if bad:
            return bad
    return ok(tags=tags, count={"compiler_calls": len(lines)}, digest=C.digest(c.model, sorted(kept.items(), key=str), name))


def run_target(p):
    """Build choices of a target configuration, with or without the caller's."""
    import json
    import p16
    from acetone_nnet import CodeGenerator
    rng = np.random.default_rng([p["seed"], 59])
    n, t = p16.make(p["seed"])
    if n is None:
        return skip("no net")
    tags = ["target", t]
    with C.scratch() as d:
        log = os.path.join(d, "log")
        ccs = []
        for k in ("caller", "target"):
            ccs.append(os.path.join(d, k + "cc"))
            with open(ccs[-1], "w") as f:
                f.write(f'#!/bin/bash\nprintf "%s " {k}cc "$@" >> {log}; echo >> {log}\nexec gcc "$@"\n')
            os.chmod(ccs[-1], 0o755)
        conf = n.config(rng)
        conf["cflags"] = str(rng.choice(["-O1", "-O2 -DTGT=3", "-mtune=generic"]))
        want = {"flags": conf["cflags"].split(), "cc": "callercc", "ld": []}
        if rng.random() < .5:
            conf["ldflags"] = "-Wl,-z,now"
            want["ld"].append(conf["ldflags"])
            tags.append("ldflags")
        props = {"compiler": ccs[0]}
        if rng.random() < .5:
            conf["compiler"] = ccs[1]
            want["cc"] = "targetcc"
            tags.append("target_compiler")
        if rng.random() < .6:
            props["compiler_flags"] = ["-w", "-DACV=1"]
            want["flags"] += props["compiler_flags"]
            tags.append("caller_flags")
        if rng.random() < .6:
            props["linker_flags"] = ["-lm", "-Wl,-O1"]
            want["ld"].append("-Wl,-O1")
            tags.append("caller_ldflags")
        kept = json.loads(json.dumps(props))
        old = os.getcwd()
        try:
            os.chdir(d)
            with open("AVX512VNNI.json", "w") as f:
                json.dump(conf, f)
            x = n.vals["X"].astype(n.types["pydtype"])
            try:
                gen = CodeGenerator(n.model(), test_dataset=x, nb_tests=n.rows, target="AVX512VNNI", makefile_properties=props)
            except Exception as e:  # noqa: BLE001
                raise cexec.StageError("import", cexec.exc_text(e)) from e
            outs = [os.path.join(d, k) for k in "ab"]
            for o in outs:
                os.mkdir(o)
                cexec.generate(gen, o)
            if props != kept:
                return violation("properties_changed", f"the caller's dictionary became {props}", tags=tags)
            texts = [open(os.path.join(o, "Makefile")).read() for o in outs]
            if texts[0] != texts[1]:
                return violation("makefile_changed", "generating twice gave different makefiles", tags=tags)
            cexec.make(outs[1])
            cexec.run_binary(outs[1])
            bad = p16.same("program", cexec.parse_output(os.path.join(outs[1], "output_c.txt"), integer=True), list(n.vals[n.out]), tags)
            if bad:
                return bad
            lines = open(log).read().splitlines() if os.path.exists(log) else []
        except cexec.StageError as e:
            return C.stage_violation(e, tags=tags)
        finally:
            os.chdir(old)
    if len(lines) < 3 or any(ln.split()[0] != want["cc"] for ln in lines):
        return violation("compiler", f"{want['cc']} is the compiler to use; calls: {lines[:4]}", tags=tags)
    for ln in lines:
        if any(f not in ln.split() for f in want["flags"]):
            return violation("compiler_flags", f"{want['flags']} asked for; compiler called with {ln}", tags=tags)
    link = [ln for ln in lines if "-c" not in ln.split()]
    if any(f not in ln.split() for f in want["ld"] for ln in link):
        return violation("linker_flags", f"{want['ld']} asked for; compiler called with {link}", tags=tags)
    return ok(tags=tags, count={"compiler_calls": len(lines)}, digest=C.digest(n.model(), sorted(kept.items(), key=str), sorted(conf.items(), key=str)))


if __name__ == "__main__":
    sys.exit(Check("P18", [
        Family("mix", seeds("P18mix"), run_mix, 240, 2400),
        Family("registry", seeds("P18reg"), run_registry, 220, 2400),
        Family("unknown", seeds("P18unk"), run_unknown, 60, 600),
        Family("functions", seeds("P18fun"), run_functions, 120, 1600),
        Family("makefile", seeds("P18mk"), run_makefile, 32, 300),
        Family("target", seeds("P18tgt"), run_target, 32, 300),
    ], rule="random graphs with several convolutions under mixed choices by layer number and type, the code found for every layer against "
            "homogeneous generations; marked implementations and recording generation functions registered through the real interfaces (calls, "
            "arguments, order and place of their output observed); unknown names; compiler and flags recorded by a wrapper; non-trivial: at least "
            "one choice is made",
       min_evals=250, require={"layers_checked": 600, "convolutions_checked": 150, "variants_called": 150, "functions_called": 60, "refused": 30}).main())
