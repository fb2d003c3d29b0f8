"""Write properties.jsonl."""
import json
import os

S = "src/acetone_nnet/"
NN = S + "generator/neural_network.py"
P = []


def prop(i, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    P.append({"id": i, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


prop("P01", "Generated C program computes the function of the ONNX model",
     "For every ONNX model made of supported operators and attributes, the generated sources compile and the resulting program "
     "writes, for each row of the test dataset and in order, the values that ONNX semantics assign to the model's output for that "
     "row, up to floating-point rounding. This holds for any combination of operators in any acyclic graph, including tensors used "
     "by several operators, constants used as operands in either position, negative axes and optional inputs left out.",
     ["programs", "inputs"],
     "all models over the supported operator set (shapes, attributes, topology, weights) and all input rows",
     "tests check one hand-picked shape and attribute set per operator and three fixed networks, never combinations",
     [S + "importers/ONNX_importer/create_layer.py", S + "importers/ONNX_importer/parser_ONNX.py", NN,
      S + "generator/layers", S + "templates/layers", S + "graph/graph_interpretor.py"],
     [("operator import", S + "importers/ONNX_importer/create_layer.py"), ("C generation per layer", S + "generator/layers"),
      ("C assembly", NN + ":generate_function_source_file")],
     ["values written by the compiled program"])

prop("P02", "Unsupported models are rejected, never silently miscompiled",
     "When a model uses an operator, attribute value, rank or data type outside the supported set, generation either fails with an "
     "exception before any program exists, or produces a program that computes the model's function; it never yields a program that "
     "builds, runs and writes different values.",
     ["programs", "configurations"], "all models with at least one feature outside the supported set, in all three import paths",
     "tests only feed supported models; nothing checks what happens to the others",
     [S + "importers/ONNX_importer/create_layer.py", S + "importers/ONNX_importer/parser_ONNX.py",
      S + "importers/PYTORCH_importer/parse_pytorch.py", S + "importers/JSON_importer/parser_JSON.py"],
     [("attribute checks at import", S + "importers/ONNX_importer/create_layer.py"),
      ("unknown operator dispatch", S + "importers/ONNX_importer/parser_ONNX.py")],
     ["exception at import, or values written by the compiled program"])

prop("P03", "Python reference inference agrees with the C program and the model",
     "For every model that is accepted, under every combination of implementation, optimisation and parameter-storage options, the "
     "reference outputs computed in Python (one line per dataset row, in order) equal both the outputs of the compiled program and "
     "those of the original model up to rounding. The values written to the reference file, read back, are the values computed.",
     ["programs", "configurations", "inputs"], "all accepted models, options and datasets",
     "tests compare the two on single layers with one row, mostly with default options",
     [NN, S + "generator/layers", S + "generator/activation_functions.py"],
     [("reference execution", NN + ":compute_inference"), ("per-layer reference", S + "generator/layers/*:forward_path_layer")],
     ["reference output file", "program output file"])

prop("P04", "Generated programs are memory-safe and free of undefined behaviour",
     "While running any accepted model on any finite input, the compiled program never reads or writes outside the buffers it "
     "declares, never reads memory it has not written, and executes no C undefined behaviour, under every layer implementation, "
     "storage and layout option; it terminates, exits successfully and leaks nothing.",
     ["programs", "inputs", "configurations"], "all accepted models, options and inputs",
     "tests run uninstrumented binaries, in which out-of-bounds accesses between neighbouring static buffers go unnoticed",
     [NN, S + "templates", S + "generator/layers", S + "graph/graph_interpretor.py"],
     [("buffer sizing", NN + ":generate_function_header_file"), ("index arithmetic", S + "templates/layers")],
     ["sanitizer reports", "exit status"])

prop("P05", "All convolution implementations compute the same convolution",
     "For every convolution (kernel, stride, padding including asymmetric and SAME padding, dilation, channels, bias, fused "
     "activation) anywhere in a graph, every selectable implementation that accepts it produces the same result as the direct "
     "six-loop implementation and as the model, up to rounding; an implementation that cannot handle it rejects it.",
     ["programs", "configurations"], "all convolution parameters x all implementations x position in the graph",
     "tests run two of the implementations on one shape each, on single-layer graphs",
     [S + "generator/layers/convolution", S + "templates/layers/Conv"],
     [("implementations", S + "generator/layers/convolution"), ("C templates", S + "templates/layers/Conv")],
     ["values written by the compiled program"])

prop("P06", "Graph optimisation never changes what the model computes",
     "Turning graph optimisation on changes neither the outputs of the compiled program nor those of the Python reference (up to "
     "rounding), for any graph: layers are only merged when no other layer observes the intermediate result, and merged parameters "
     "and activations keep their effect. The model given by the caller is left unmodified.",
     ["programs"], "all accepted models, in particular graphs with shared intermediate tensors and chained fusible patterns",
     "tests apply each rewrite to one minimal graph where it is legal, never to graphs where it must not fire",
     [S + "pattern_matching", NN], [("rewrites", S + "pattern_matching/patterns"), ("matcher", S + "pattern_matching/PatternMatcher.py")],
     ["outputs with and without optimisation"])

prop("P07", "Channels-last and channels-first generation are equivalent",
     "A model generated in the channels-last internal layout (with implementations that support it) reads its inputs and writes its "
     "outputs in the model's own layout and computes the same values as the channels-first generation, up to rounding.",
     ["programs", "configurations"], "all models over layers having channels-last implementations",
     "two tests on fixed PyTorch models, with binary parameter storage only",
     [NN, S + "generator/layers/convolution/Conv2Ddirect_block.py", S + "generator/layers/input", S + "generator/layers/pooling",
      S + "templates/layers/Conv", S + "templates/memory_layout"],
     [("input and output conversion", S + "templates/memory_layout"), ("channels-last kernels", S + "templates/layers/Conv")],
     ["values written by the compiled program"])

prop("P08", "Intermediate tensors stay intact until their last use",
     "In the generated program every operator reads, at the moment it executes, exactly the values its producers computed: operators "
     "run after all their producers, and the storage of a tensor is not reused while an operator still to run needs it. Hence "
     "listing the nodes of a model in another valid order, or renaming its tensors, does not change the outputs.",
     ["programs", "schedules"], "all directed acyclic graphs: fan-outs, long skip connections, diamonds, concatenations, any node order",
     "tests contain chains and one or two fixed residual blocks",
     [S + "graph/graph_interpretor.py", NN, S + "templates/template_source_file.c.tpl"],
     [("topological order and buffer assignment", S + "graph/graph_interpretor.py:tri_topo"),
      ("buffer copies", S + "templates/template_source_file.c.tpl")],
     ["values of intermediate tensors in the running program"])

prop("P09", "Inference is re-entrant and independent of history",
     "The result of an inference depends only on its input row: not on the row's position in the dataset or batch, the number of "
     "rows, earlier inferences in the same process or context, or inferences running at the same time in other contexts. The "
     "inference function neither modifies its input nor writes outside its output and context, and concurrent inferences have no "
     "data race.",
     ["schedules", "histories", "inputs"], "all sequences and interleavings of inferences on distinct contexts",
     "tests run one row in one thread",
     [NN, S + "templates/template_main_file.c.tpl", S + "templates/template_source_file.c.tpl",
      S + "templates/template_train_hook_file.c.tpl", S + "templates/template_global_var_file.c.tpl"],
     [("batch loop", S + "templates/template_main_file.c.tpl"), ("context structure", S + "templates/template_header_file.c.tpl")],
     ["outputs per row", "thread sanitizer reports", "input buffers after the call"])

prop("P10", "Model parameters reach the program bit for bit in every storage form",
     "Every weight, bias, normalisation coefficient and constant of the model is stored in the built program with exactly the value "
     "(to the last bit of the model's data type) and in the order the program reads it, for any finite value including subnormals, "
     "signed zeros and extreme magnitudes. Storing the parameters as C text or as a binary image linked into the program "
     "gives the same program outputs bit for bit, at any page alignment.",
     ["inputs", "configurations"], "all parameter values and sizes x text/binary storage x alignment",
     "tests compare outputs under a tolerance on weights drawn from narrow ranges",
     [NN, S + "templates/template_parameter_file.c.tpl", S + "templates/template_makefile.tpl", S + "templates/template_makefile.py",
      S + "templates/template_train_hook_file.c.tpl"],
     [("text storage", NN + ":generate_parameter_file"), ("binary storage", NN + ":generate_bin_parameter_file")],
     ["symbols of the built objects", "program outputs"])

prop("P11", "Generation is deterministic, complete and never overwrites files",
     "Generating twice from the same model and options gives byte-identical files, whatever the process, hash seed, output "
     "directory or earlier generations in the same process. The set of files is complete: it builds with the generated makefile "
     "alone, in a directory moved elsewhere; and when a file to be written already exists, generation raises an error and leaves "
     "the existing files as they were.",
     ["histories", "configurations"], "all models and options, repeated and interleaved generations, pre-existing files",
     "tests generate once into an empty directory",
     [NN, S + "templates/template_makefile.tpl", S + "templates/template_makefile.py"],
     [("file writing", NN + ":generate_c_files")], ["digests of generated files", "file-system events"])

prop("P12", "The same network imported from different formats behaves the same",
     "A network expressible in several input formats (ONNX file or in-memory model, PyTorch exported program, JSON description, NNET "
     "file) gives programs and reference outputs with the same values whichever format it is imported from, equal to the "
     "network's own semantics. Importing does not modify the model object or file.",
     ["programs", "configurations"], "all networks in the common subset of two or more formats",
     "tests compare importers on two or three fixed networks",
     [S + "importers"], [("importers", S + "importers")], ["program outputs per format"])

prop("P13", "Exported ONNX models are valid and equivalent to the imported model",
     "Exporting the internal representation of a supported model to ONNX yields a model the ONNX checker accepts, that computes the "
     "same outputs, and that can be imported again with the same result.",
     ["programs"], "all models over the operators the exporter supports", "no test covers the exporter",
     [S + "exporters"], [("layer export", S + "exporters/ONNX_exporter/acetone_to_onnx_layer.py")],
     ["onnxruntime outputs of the exported model"])

prop("P14", "The comparison tool accepts exactly the outputs that agree",
     "The output comparison tool reports two output files as equal if and only if they hold the same number of rows and values "
     "(the number of tests asked for) and every pair of values agrees within its tolerance; differences anywhere in the files, missing or extra rows or values, and "
     "not-a-number values are reported, and the maximum differences it prints are the true ones.",
     ["inputs"], "all pairs of output files", "tests never call it with differing files",
     [S + "cli/compare.py", S + "debug/debug_tools.py"], [("comparison", S + "cli/compare.py")],
     ["result and printed report of the tool"])

prop("P15", "NNET networks are executed according to the NNET format",
     "For every network in the NNET format, the program and the Python reference compute the network's layers from the weights and "
     "biases in the file; with normalisation requested, inputs are clipped to the file's bounds and normalised by its means and "
     "ranges before, and outputs de-normalised after, identically in C and in Python and without altering the caller's data.",
     ["programs", "inputs"], "all NNET files and all inputs, in particular inputs outside the declared bounds",
     "tests run one file on one input inside the bounds",
     [S + "importers/NNET_importer", S + "templates/normalization", NN],
     [("normalisation", S + "importers/NNET_importer/nnet_normalize.py"), ("C normalisation", S + "templates/normalization")],
     ["program and reference outputs"])

prop("P16", "Quantised fixed-point inference is bit-exact and follows the Qn.m formats",
     "For a model quantised with per-layer Qn.m formats, parameters are rounded to their format, and the integer result of matrix "
     "products (accumulated in the accumulator type and rescaled by the right shift its formats imply), additions, rectifiers and layers "
     "which only move values is the same to the last bit in the C program, in the Python reference and by integer arithmetic on the "
     "formats, as long as no result leaves its type; datasets may be given as arrays, files or at run time.",
     ["programs", "inputs", "configurations"], "all quantisable models, formats and integer inputs",
     "tests use three fixed configurations",
     [S + "quantize", NN, S + "templates/layers/template_MatMul.c.tpl", S + "templates/layers/template_QMatMul.vnni16.tpl"],
     [("parameter quantisation", NN + ":quantize_layers"), ("rescaling", S + "quantize/activation.py")],
     ["integer outputs"])

prop("P17", "Debug mode observes every layer without changing the results",
     "Generating with a debug mode leaves the program's results unchanged, and the per-layer values recorded by the program and by the "
     "Python reference correspond layer by layer, in execution order, to the intermediate values of the model. Comparing two records "
     "reports agreement when they agree and otherwise singles out the layer where they first differ.",
     ["programs", "configurations"], "all models and debug modes, and any single perturbed value in a record",
     "no test runs a debug-mode program", [S + "debug", NN, S + "templates/template_source_file.c.tpl"],
     [("record", NN + ":generate_function_source_file"), ("comparison", S + "debug/debug_tools.py")],
     ["debug records", "program outputs"])

prop("P18", "Implementation and generation choices given by the caller are honoured",
     "An implementation chosen by layer number takes precedence over one chosen by layer type, and that over the default; every other "
     "layer keeps its default, and an unknown implementation is rejected before anything is generated. Implementations and "
     "generation functions registered by the caller are called exactly for the layers and files they were chosen for and their output "
     "appears in the generated sources.",
     ["configurations", "histories"], "all assignments of implementations to layers, by number, type or both",
     "tests always select one implementation for all layers by type",
     [S + "versioning", NN], [("selection", NN + ":select_layers_implementation"), ("factories", S + "versioning/layer_factories.py")],
     ["generated code per layer", "call trace of generation functions"])

prop("P19", "Dataset rows are carried faithfully from the caller to the program's output",
     "Every row of the test dataset, given as an array, as a text file in hexadecimal or decimal notation, generated by default, or "
     "provided to the program at run time, reaches the program with its exact values and in order, and produces exactly one output "
     "line; asking for fewer tests than the file holds uses its first rows. Written outputs, read back, are the program's values.",
     ["inputs", "configurations"], "all datasets (sizes around batch boundaries, any finite values), input forms and output notations",
     "tests use one random row in one notation",
     [NN, S + "templates/template_main_file.c.tpl", S + "templates/template_test_dataset_source.c.tpl"],
     [("loading", NN + ":_load_dataset"), ("main loop", S + "templates/template_main_file.c.tpl")],
     ["program output lines"])

prop("P20", "The command line behaves as the programming interface",
     "Generating through the command-line entry point gives the same files as the programming interface called with the corresponding "
     "options, and writes the same reference outputs; each option has an effect of its own, and invalid arguments are refused "
     "without leaving a partial generation behind.",
     ["configurations"], "all option combinations", "no test calls the command line with options other than the defaults",
     [S + "cli/generate.py", S + "cli/compare.py"], [("options", S + "cli/generate.py")], ["digests of generated files"])

prop("P21", "Double-precision models are computed in double precision",
     "A model in double precision gives a program whose parameters, intermediate values and outputs are double-precision: its results "
     "agree with a double-precision evaluation of the model far beyond single precision.",
     ["programs", "inputs"], "all accepted double-precision models", "tests of double-precision models use single-precision tolerances",
     [NN, S + "templates/layers", S + "generator/activation_functions.py", S + "generator/layers"],
     [("data type of generated code", NN), ("activation code", S + "generator/activation_functions.py")],
     ["program outputs"])

prop("P22", "The shared library runs batches, and saves and replaces parameters, faithfully",
     "The shared library built with every program serves as an interface for training: its batch function gives, for any number of rows, "
     "exactly the results the program gives for each row, in place, reading and writing nothing else; saving writes the weights, biases and "
     "constants the library computes with, byte for byte and in the order of its replacing function, and returns the number of bytes; "
     "replacing them (binary parameter storage) makes the library compute the network with the parameters it was given, leaving the caller's "
     "arrays alone, and giving the original ones back restores its results exactly.",
     ["inputs", "histories", "configurations"],
     "all networks x batch sizes x sequences of batches, saves and replacements x serial/OpenMP builds",
     "one test loads the library of one network, runs one row and replaces the parameters by the same ones",
     [S + "templates/template_train_hook_file.c.tpl", NN, S + "templates/template_makefile.tpl"],
     [("batch_loop, copy_weights, save_weights", S + "templates/template_train_hook_file.c.tpl"), ("generate_train_hook_file", NN),
      ("library target", S + "templates/template_makefile.tpl")],
     ["outputs of the library", "saved files"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
