#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json. Run after adding a check."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BO = "crates/burn-onnx/src/"; IR = "crates/onnx-ir/src/"
def m(name, where): return {"name": name, "where": where}

P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, hook=None, state=None):
    a = {"files": files, "mechanism": mech}
    if state: a["state"] = state
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "The same model always yields the same artefacts",
  "Converting one model twice with the same options produces byte-identical source files and weight files with the same tensors in the same order under the same names and the same bytes, whatever process, time, hash seed, environment or log sink the conversion runs with. Whether a model is accepted is equally reproducible.",
  ["inputs", "configurations", "fault_sequences"], "every model and option set; every value of the process's random hash keys, clock, environment variables and log-sink state; every pattern of interrupted or partial file transfers",
  "Snapshot tests run in one process with one hash seed per run and compare small single-operator graphs; they cannot vary the standard library's random hash keys, which decide the order of every hash-map walk.",
  [IR+"pipeline.rs", IR+"graph_state.rs", IR+"proto_conversion.rs", IR+"phases/", BO+"model_gen.rs", BO+"burn/graph.rs"],
  [m("ordered collections or sorted iteration wherever a map's order could reach the output", IR+"proto_conversion.rs, "+BO+"burn/graph.rs"), m("generated names derived from per-type counters, not addresses or ids", IR+"graph_state.rs")],
  ["bytes of <out>/<stem>.rs and tensors of <out>/<stem>.bpk"])
prop("C02", "Concurrent conversions do not influence each other",
  "Any number of conversions and parses running at the same time on threads of one process each end with exactly the result they have when run alone, under every interleaving. None of them deadlocks or fails because of another.",
  ["schedules", "inputs"], "every interleaving of 2-4 clients at lock, allocation and file-operation granularity; separate or shared input files",
  "The test runner does run tests on threads, but the operating system picks the handful of interleavings that happen, and no test compares a concurrent result with the solo one.",
  [IR+"registry.rs", IR+"processor.rs", IR+"graph_state.rs", IR+"tensor_store.rs", BO+"logger.rs", BO+"formatter.rs"],
  [m("process-wide registries are initialised once and read-only afterwards", IR+"registry.rs"), m("all conversion state hangs off one graph-state object per conversion", IR+"graph_state.rs")],
  ["artefacts or IR dump of every client against its solo run"])
prop("C03", "Weights reach the weight file bit for bit and are used where the model uses them",
  "Every constant tensor the generated code needs is in the weight file with the element type, shape and exact bytes the model gives it (up to the documented layout transposition of linear and recurrent layers), nothing else is in the weight file, and the generated code applies each tensor, and every intermediate value, at the place in the network where the model applies it, in control-flow bodies and across loop iterations too. This holds for every storage form (raw bytes, typed fields, attribute constants, side files), at every nesting depth of control flow. A well-formed model of supported operators with constant weights is not refused, however these are stored.",
  ["inputs", "fault_sequences"], "every model; every storage form of each tensor; interrupted, partial and un-mappable reads and writes during the conversion",
  "Existing tests compare a few numeric outputs of fixed small models in crates that need the network to build; nothing checks weight files themselves, mixed storage forms or repeated names in sibling subgraphs.",
  [IR+"tensor_store.rs", IR+"external_data.rs", IR+"proto_conversion.rs", IR+"phases/node_conversion.rs", BO+"burn/graph.rs", BO+"burn/node/"],
  [m("tensor data is handed through by reference and keyed by a store id", IR+"tensor_store.rs"), m("each generated field has one weight-file path derived from its name", BO+"burn/graph.rs")],
  ["<out>/<stem>.bpk against the generator's own record of the model", "fields and order of use in <out>/<stem>.rs"])
prop("C04", "A model reads the same from a file, from memory and from a stream",
  "Reading a model from a path, from a byte slice or from any reader yields the same graph with the same constant values, no matter how the reader splits or interrupts its data. A reader that fails makes the call fail with an error.",
  ["inputs", "fault_sequences"], "every self-contained model; every chunking of the stream, with interruptions and zero-progress retries; a read error at every position",
  "The reader entry point is exercised once with an in-memory cursor that never splits, interrupts or fails.",
  [IR+"pipeline.rs"], [m("all three entry points converge on one parsed-protobuf path", IR+"pipeline.rs")],
  ["IR dump and constant values of the three entry points"])
prop("C05", "A torn model or side file is refused",
  "If a model file lost any part of its graph or of its operator-set declaration, or a side file is shorter than the constants in use need, the conversion reports failure instead of producing artefacts from the remains, and so does reading the torn model file. The report is an error or panic of the call, and no weight file that looks complete is left for a truncated model.",
  ["crash_points", "inputs"], "every cut position of the model file and of each side file (as left by an interrupted download or copy)",
  "Tests only read intact files; the number of cut positions is unbounded.",
  [IR+"pipeline.rs", IR+"external_data.rs", IR+"tensor_store.rs", BO+"model_gen.rs"], [m("protobuf decoding errors are propagated", IR+"pipeline.rs"), m("side-file ranges are checked against the file's length", IR+"tensor_store.rs")],
  ["outcome of the conversion; contents of the output directory"])
prop("C06", "Side-file references never reach outside the model's directory",
  "No side-file reference in a model, however spelled and whatever symbolic links exist, makes the library read a file outside the directory that holds the model. This holds also when path-resolving system calls fail, and when the model is named by a bare relative name.",
  ["inputs", "fault_sequences", "configurations"], "every reference string (parent steps, absolute, empty, NUL, redundant separators), every symlink layout, every spelling of the model path, failing or denied path resolution",
  "Existing tests try six fixed reference strings on a fault-free file system with no symbolic links.",
  [IR+"external_data.rs", IR+"tensor_store.rs", IR+"pipeline.rs"], [m("reference strings are screened, then the resolved path is compared with the resolved base", IR+"external_data.rs")],
  ["set of files opened by the process", "bytes of any constant or weight"])
prop("C07", "Success is never reported over a failed read or write",
  "When a conversion returns normally, every artefact is present and identical to that of an undisturbed run, whatever read, write, open, map, directory or close failures the system produced on the way. A fault that costs data always surfaces as a failure of the call.",
  ["fault_sequences"], "every kind of hard I/O error at every file operation, alone or in combination, once or persistently (full or dead disk)",
  "No test injects an I/O error; the file system under the tests never fails.",
  [BO+"model_gen.rs", BO+"burn/graph.rs", IR+"pipeline.rs", IR+"tensor_store.rs", IR+"external_data.rs"], [m("I/O results are unwrapped or propagated", BO+"model_gen.rs")],
  ["return value and output directory"])
prop("C08", "After a crash at any point, running again gives the undisturbed result",
  "If the process is killed at any moment of a conversion, a later undisturbed run over what was left on disk gives exactly the artefacts a first run on a clean disk gives. Inputs are never damaged, and a complete source file never appears beside a weight file that is not complete.",
  ["crash_points", "fault_sequences", "histories"], "a kill at every file operation, repeated kills, over a clean or previously used output directory",
  "No test ever kills a conversion.",
  [BO+"model_gen.rs", BO+"burn/graph.rs"], [m("outputs are created anew on each run and the source file is written after the weight file", BO+"model_gen.rs")],
  ["output directory after the crash and after the rerun"])
prop("C09", "A conversion changes nothing but its documented outputs",
  "A conversion creates or changes only the generated source, the weight file and (in development mode) the debug dumps of its own inputs below the chosen output directory, plus missing parent directories. Inputs, side files and unrelated files, including those already in the output directory, keep their content, also when the conversion fails or is killed.",
  ["inputs", "configurations", "fault_sequences", "crash_points"], "every model, option set, layout of pre-existing files, fault sequence and crash point",
  "Tests look only at the files they expect, never at the rest of the file system.",
  [BO+"model_gen.rs", IR+"pipeline.rs"], [m("all output paths derive from the output directory and the input's stem", BO+"model_gen.rs")],
  ["complete file-system listing before and after"])
prop("C10", "Constants stay valid while the graph lives, and nothing stays behind",
  "Values read from a parsed graph are the model's, however late they are read and whatever happens to the directory entries of the model and its side files after the call that reads them has mapped or opened them. Once graph and artefacts are dropped no file descriptor or file mapping is left open.",
  ["histories", "fault_sequences", "schedules"], "every sequence of parse, read, unlink, replace, rename and drop steps",
  "Tests read values immediately and never look at descriptors or mappings.",
  [IR+"tensor_store.rs", IR+"pipeline.rs", IR+"ir/"], [m("the mapping is reference-counted together with the tensors that borrow from it", IR+"tensor_store.rs")],
  ["constant values; descriptors and mappings open at the end"])
prop("C11", "Malformed input cannot take the host process down",
  "Whatever bytes a model or its side-file metadata hold, reading or converting it ends in bounded time and memory with a result, an error or a panic the caller can catch. It never aborts the process, overflows the stack, loops forever or asks for memory out of proportion to the input.",
  ["inputs"], "every mutation of a model's bytes: flipped bits, wrong lengths, huge dimensions, deep nesting, dangling and cyclic references, spliced sections",
  "Tests feed well-formed models only.",
  [IR+"pipeline.rs", IR+"proto_conversion.rs", IR+"phases/", IR+"tensor_store.rs", IR+"processor.rs", IR+"node/"], [m("lengths and indices coming from the model are validated before use", IR+"proto_conversion.rs")],
  ["ending of the simulated process, largest and peak allocation, steps"])
prop("C12", "Model checks run what was asked and report every failure",
  "The model-check command runs the download, build and run steps of exactly the selected models, in order, never starts a later step of a model after an earlier one failed, and ends with failure if and only if some step of some model failed; without fail-fast all remaining models still run and the failure count is right. Skipped or unknown models are never reported as checked.",
  ["fault_sequences", "configurations", "histories"], "every selection, flag combination and pattern of step failures (start failure, non-zero exit, death by signal)",
  "The command has no tests; its steps need a network.",
  ["xtask/src/model_check.rs"], [m("per-model step sequence with early return, failures counted by the caller", "xtask/src/model_check.rs")],
  ["sequence of started processes with directory, arguments and environment; result of the command"])
prop("C13", "The host's panic reporting and logging keep working",
  "Using the converter never loses a panic report: after any number of conversions the panic hook the host installed before is still called for every panic, once. A log sink that fails, blocks or goes away, or a logger the host installed first, changes neither the outcome nor the artefacts of a conversion. Where the converter set up the log itself, a panic is reported there too.",
  ["histories", "fault_sequences", "configurations", "schedules"], "every order of host set-up, conversions and panics; every failure of the log sink; concurrent first use",
  "The logger is process-global state: tests in one process can initialise it only once and do not look at hooks.",
  [BO+"logger.rs", BO+"model_gen.rs"], [m("the previous hook is kept and called", BO+"logger.rs"), m("subscriber installation is attempted once and its failure tolerated", BO+"logger.rs")],
  ["calls of the host's hook; outcome and artefacts"])
prop("C14", "One batch equals separate conversions, and history does not matter",
  "Converting several inputs in one call, or one after the other in one process, gives for each input the artefacts it has when converted alone in a fresh process, whatever was converted, refused or interrupted before. A refused input does not damage the artefacts of the inputs before it.",
  ["histories", "inputs"], "every sequence of inputs, options and failed conversions in one process",
  "Tests convert one model per call and do not compare with a fresh process.",
  [BO+"model_gen.rs", IR+"registry.rs", IR+"processor.rs", IR+"graph_state.rs", IR+"tensor_store.rs"], [m("no state survives a conversion", IR+"pipeline.rs")],
  ["artefacts after each step of the history"])
prop("C15", "The generated module is closed and consistent with its weight file",
  "In every generated module each name used is defined before its use, each field is initialised once, declared once and used, and the weight file's entries correspond one to one to the parameters of the declared fields with the declared shapes. Control-flow bodies see only values that exist on the path that leads to them.",
  ["inputs", "configurations"], "every accepted model, option set and hash seed",
  "Snapshot tests compare text of single-operator graphs; whether arbitrary graphs yield closed modules is only seen when a user compiles them.",
  [BO+"burn/graph.rs", BO+"burn/scope.rs", BO+"burn/node/", BO+"burn/node_codegen.rs"], [m("values are cloned until their last use; names are drawn from the value's unique name", BO+"burn/scope.rs")],
  ["names and fields of <out>/<stem>.rs; entries of <out>/<stem>.bpk"])
prop("C16", "Side-file weights are delivered exactly or refused loudly",
  "A constant stored in a side file is delivered with exactly the bytes its reference designates, also when mapping fails and the file has to be read, when reads are short or interrupted, and when several constants share a file. If the bytes cannot be had, or offset, length, shape and type contradict each other, the call that needs them fails; it never delivers other bytes.",
  ["inputs", "fault_sequences"], "every offset, length and alignment, overlapping or shared ranges, every fault at open, stat, map, seek and read",
  "Tests use one well-formed side file on a fault-free file system.",
  [IR+"tensor_store.rs", IR+"external_data.rs"], [m("range check and mapping with a read fallback", IR+"tensor_store.rs")],
  ["constant values of the parsed graph; weight file"])
prop("C17", "Memory-mapped and plain builds behave the same",
  "Built with or without memory mapping, the library accepts the same models and produces the same artefacts and graphs. Both builds refuse the same torn or unreadable inputs.",
  ["inputs", "configurations", "fault_sequences"], "every model and side-file layout, the same fault plan applied to both builds",
  "The test suite runs in one build configuration only.",
  [IR+"pipeline.rs", IR+"tensor_store.rs", IR+"external_data.rs"], [m("one data abstraction behind both loading paths", IR+"tensor_store.rs")],
  ["artefacts of the two builds"])
prop("C18", "Results do not depend on entry point, location or spelling of paths",
  "The command-line tool, the library call and the build-script call give the same module body and the same weights for the same model and options, wherever model and output directory lie and however their paths are spelled. Options left out have their documented defaults, the last call of a setter counts, and their order does not matter. Only the embedded locations (source note and weight-file path) follow the paths given, and the embedded weight-file path leads to the weight file: from the working directory, or from the source file when the weights are compiled in.",
  ["configurations", "inputs"], "every entry point, working directory, relative or absolute spelling, symlinked or nested directory, and pre-existing output directory",
  "Tests call one internal function with fixed temporary paths.",
  [BO+"model_gen.rs", BO+"bin/onnx2burn.rs"], [m("one conversion routine behind all entry points", BO+"model_gen.rs")],
  ["artefacts modulo the embedded locations"])
prop("C19", "Reading a large model does not copy its weights",
  "Reading a memory-mapped model takes heap memory that depends on the graph's structure and on its largest single weight (at most ten times its size), not on the size of all weights together, whether they lie in the model or in side files. Converting it obeys the same bound, except that recurrent layers may take a small multiple of their own weights.",
  ["inputs", "configurations"], "every model size and storage layout",
  "Tests use kilobyte models, for which copies are invisible.",
  [IR+"pipeline.rs", IR+"tensor_store.rs", IR+"proto_conversion.rs"], [m("protobuf bytes fields share the mapping's buffer; side files are mapped", IR+"pipeline.rs, "+IR+"external_data.rs")],
  ["peak live heap of the simulated process"])

prop("C20", "Download, build and run agree on where a model's artefacts lie",
  "Under every environment the download, build and run steps of one model use the same artefact directory, which belongs to that model alone, exists after the download, and lies below BURN_CACHE_DIR when that names a directory.",
  ["configurations", "histories", "fault_sequences"], "every combination of cache variables (unset, empty, relative, absolute, odd spellings), home directories, models and steps",
  "The rule is written twice, in Python for the download and in Rust for build and run; no test runs either.",
  ["crates/model-checks/common/src/lib.rs", "crates/model-checks/common.py"], [m("same rule in two languages", "crates/model-checks/common/src/lib.rs")],
  ["directory each step's real helper answers, inside the simulated step's working directory and environment"])
prop("C21", "Developer commands run what they are asked and report every failure",
  "The build and test commands start exactly the cargo steps their arguments name, once and in order, with the flags given; in the no-std context the extra targets are installed first. The command succeeds if and only if every started step did, and nothing is started after a failed one.",
  ["fault_sequences", "configurations"], "every context, flag combination and pattern of step failures (start failure, non-zero exit, death by signal, lost status)",
  "The command has no tests; its steps take hours.",
  ["xtask/src/main.rs"], [m("dispatch after the targets of the context are installed", "xtask/src/main.rs")],
  ["sequence of started processes with directory and arguments; result of the command"])
prop("C22", "The names of values and nodes in a model carry no meaning",
  "Renaming the values and nodes of a model consistently, distinct names to distinct names, changes neither whether the model is accepted nor the program generated from it, up to the names of local variables and parameters, nor the tensors in the weight file. Names that differ only in characters an identifier cannot have, that look like names the converter makes up itself, or that are words of the target language are no exception.",
  ["inputs", "configurations", "fault_sequences"], "every model and every injective renaming; every hash seed; interrupted and partial transfers",
  "Tests use a few harmless names; whether two names collide after being reduced to identifiers, or with helper variables and names the converter makes up, depends on the combination.",
  [IR+"proto_conversion.rs", IR+"unique_names.rs", IR+"graph_state.rs", BO+"burn/graph.rs", BO+"burn/scope.rs", BO+"burn/node/subgraph_helper.rs"],
  [m("each value gets an identifier of its own before the graph is converted", IR+"unique_names.rs"), m("generated names come from counters per operator type", IR+"graph_state.rs")],
  ["<out>/<stem>.rs up to local names and tensors of <out>/<stem>.bpk, for a model and its renamed twin"])

prop("C23", "Two ways of writing the same model give the same program",
  "What ONNX defines to mean the same is treated the same: an attribute stated with its default value or left out; an axis counted from the front or from the end; a trailing optional input left out or named by the empty string; a tensor stored raw or in a typed field, a list packed or unpacked, a constant as an initializer or a Constant node, as a tensor or as a number; the order of fields, attributes, initializers and independent nodes; documentation, metadata, unused operator sets and initializers, unknown fields and names of symbolic dimensions. None of them changes whether the model is accepted, the program generated (up to numbering and order of constants where constants are moved) or the weights stored.",
  ["inputs", "configurations", "fault_sequences"], "every model and every sequence of such edits; every hash seed; interrupted and partial transfers",
  "Tests feed each operator one spelling, the one of the exporter that made the test model; the number of equivalent spellings of a model is exponential in its size.",
  [IR+"proto_conversion.rs", IR+"node/", IR+"phases/node_conversion.rs", IR+"graph_state.rs", IR+"tensor_store.rs"],
  [m("documented attribute defaults per operator", IR+"node/"), m("initializers become Constant nodes before processing", IR+"graph_state.rs")],
  ["acceptance, <out>/<stem>.rs and <out>/<stem>.bpk for a model and its edited twin"])

NA = []
def na(id, title, statement, text, why, files, reason):
    prop(id, title, statement, ["inputs"], text, why, files, [])
    NA.append({"property": id, "reason": reason})
na("N01", "Generated code computes what the ONNX model means",
  "For every supported operator and attribute combination the generated module computes the values the ONNX specification defines, within floating-point tolerance.",
  "every model and every input tensor", "Tests compare a few inputs per operator.", [BO+"burn/node/"],
  "Deciding it means running generated code on burn tensors; burn at the pinned revision is not available offline and the stand-ins have no arithmetic. It is also a pure function of model and input: no schedule, clock, I/O or fault takes part, so simulation has nothing to decide.")
na("N02", "Simplification never changes the meaning of a graph",
  "A simplified graph computes the same outputs as the unsimplified one for every input.",
  "every graph and every input tensor", "Tests look at the result of single rewrite rules.", [IR+"simplify/"],
  "A pure graph-to-graph function without concurrency, time, I/O or faults; needs an evaluator for the operators, which is not available offline (see N01). The part that reaches files (constants, names, determinism, closure) is covered by C01, C03 and C15, which run with and without simplification.")
na("N03", "Inferred types, ranks and static shapes are right",
  "For every node the inferred element type, rank and static shape agree with what the ONNX specification prescribes.",
  "every graph", "Tests sample shapes per operator.", [IR+"node/", IR+"phases/type_inference.rs"],
  "A pure function of the graph; nothing nondeterministic takes part and there is no reference implementation of ONNX shape inference in the sandbox to compare with.")
na("N04", "Operator-set versions are honoured",
  "A model is interpreted according to the operator-set version it declares, and unsupported versions or operators are refused with a message naming them.",
  "every operator and version", "Tests sample versions per operator.", [IR+"processor.rs", IR+"node/"],
  "A table of pure decisions; no schedule, fault or I/O influences it.")
na("N05", "Generated source compiles against burn without warnings",
  "Every generated module compiles against the burn release it targets, formatted and free of warnings.",
  "every accepted model", "Only fixed models are compiled in the integration crates.", [BO+"burn/"],
  "Needs the burn crates, which cannot be fetched offline; C15 decides the part that can be judged from the source itself (closure and consistency).")

DONE = json.load(open(os.path.join(ROOT, "tools/done.json")))
TECH = "deterministic simulation with fault injection: seeded search over simulated processes"
CHECKS = []
for p in P:
    i = p["id"]
    if i in DONE:
        CHECKS.append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
            "evidence_file": f"evidence/{i}.json", "technique": TECH + DONE[i]["tech"], "level": DONE[i].get("level", "exploration"), "level_note": DONE[i]["note"]})
have = {c["property"] for c in CHECKS} | {n["property"] for n in NA}
PL = [p for p in P if p["id"] in have]
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PL: f.write(json.dumps(p, ensure_ascii=False) + "\n")
M = {"version": 1, "setup_cmd": "./setup.sh", "hooks": {"guard": "none", "enable": "no hook in /repo is needed: the simulator interposes on libc, the allocator and thread waits from outside", "source_commits": []},
     "checks": CHECKS, "not_applicable": NA,
     "notes": "Replays: ./replay.sh <file>. See DESIGN.md."}
json.dump(M, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(PL), "properties,", len(CHECKS), "checks")
