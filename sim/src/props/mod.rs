pub mod common;
pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c16;
pub mod c11;
pub mod c13;
pub mod c14;
pub mod c15;
pub mod c17;
pub mod c18;
pub mod c19;
pub mod c22;
pub mod c23;
use crate::core::Prop;
pub const REAL: &[&str] = &["onnx-ir (all of it)", "burn-onnx (all of it)", "onnx-ir-derive", "rust-protobuf, bytes, memmap2, proc-macro2, prettyplease, tracing-subscriber", "Rust standard library above libc"];
pub const STUB: &[&str] = &["burn-tensor / burn-store / burn / burn-ndarray (sim/stubs)", "libc file, clock, entropy, thread-wait calls (seam.rs over an in-memory file system)", "heap limits"];
macro_rules! p {
    ($id:literal, $m:ident, $n:literal, $rule:literal) => {
        Prop { id: $id, make: $m::make, exec: $m::exec, quick: $n, level: "exploration", real: REAL, stub: STUB, rule: $rule }
    };
}
pub const ALL: &[Prop] = &[
    p!("C01", c01, 3000, "one case = one model (every third a shipped .onnx, else generated) converted by a reference process and 2-4 others with different hash seeds, clocks, environments, log sinks and benign I/O faults; distinct (model, hash seed) pairs compared are counted"),
    p!("C02", c02, 2500, "one case = 2-4 clients (convert / parse file / parse bytes; separate or shared model files) run alone and then as threads of one process under a seeded preemption plan; distinct interleavings (hash of the sequence of thread choices and their scheduling points) are counted"),
    p!("C03", c03, 4000, "one case = one model (every fifth a shipped .onnx, else generated, with weights in raw, typed, attribute and side-file storage) converted under interrupted/short transfers and refused maps; distinct (source, weight file) results checked are counted"),
    p!("C04", c04, 2500, "one case = one self-contained model read from its path, a byte slice, a reader with a random piece and interruption plan and a reader over the file under benign faults, plus a failing stream; distinct (model, piece plan, failure) situations are counted"),
    p!("C05", c05, 3000, "one case = one accepted model cut at 2-5 positions of the model file or of a side file, then converted or parsed; distinct (file, cut position) pairs below the last needed byte are counted"),
    p!("C06", c06, 6000, "one case = one model whose side-file reference is assembled from hostile pieces, in a file system with planted secrets and symbolic links, named by one of nine spellings, under failing path resolution; distinct (reference, links, spelling, fault plan) situations are counted"),
    p!("C07", c07, 1500, "one case = one model converted (or parsed with all values read) without and then 2-4 times with hard faults (errors, sticky errors, short writes, full disk at a drawn byte, failing maps); distinct (model, fault outcome) executions are counted"),
    p!("C08", c08, 1500, "one case = one model whose conversion is crashed 1-3 times in a row at drawn operations with a drawn torn length, over five states of the output directory, then rerun; distinct crash executions are counted"),
    p!("C09", c09, 1500, "one case = one model converted undisturbed and then under hard faults or a crash, in a file system with neighbours whose names resemble the outputs; distinct (model, name, directory, clutter) situations are counted"),
    p!("C10", c10, 2500, "one case = one model put through a history of reads, holds, clones, drops, unlinks, replacements and renames; or replaced by another process at drawn operations while being read; or read by three threads sharing the graph; distinct executions are counted"),
    p!("C16", c16, 2500, "one case = one model with most constants in side files, references moved over every alignment and overlap or made contradictory in one of 23 ways, converted and read undisturbed, under benign faults (no mapping, short and interrupted reads) and under hard faults; distinct (model, references) are counted"),
    p!("C11", c11, 6000, "one case = one model (every second a shipped .onnx) damaged by 1-9 structure-aware edits of its protobuf tree and sometimes raw byte changes, then converted or parsed under a heap limit; distinct damaged files are counted"),
    p!("C13", c13, 3000, "one case = a history of conversions, refused conversions, host panics, hook and logger changes in one host process (every fourth case: several threads under seeded preemption), with a log sink that fails, fills up, is interrupted or writes short; distinct executions are counted"),
    p!("C14", c14, 2500, "one case = a history of 2-7 calls in one process (batches, one generator used repeatedly, parses; refused, torn and missing inputs; hard I/O faults; shared output directories), each input also converted alone in a fresh process; distinct histories are counted"),
    p!("C15", c15, 4000, "one case = one model (every third a shipped .onnx, else generated) converted under a drawn hash seed, options, benign I/O faults and sometimes next to another preempted conversion; distinct generated sources checked for closure, single use of given-away values and agreement with the weight file are counted"),
    p!("C17", c17, 1500, "one case = one model with its input files cut, grown, replaced, linked or damaged, converted or parsed under the same plan of benign faults in this process and in a peer process built without memory mapping; distinct (model, file state, damage) are counted"),
    p!("C18", c18, 2000, "one case = one model (every fourth a shipped .onnx) converted by the library call and then 1-3 times through another entry point (build script, command line tool), working directory, spelling of input and output paths (relative, links, parent steps, odd names) and environment; distinct (model, situation) are counted"),
    p!("C19", c19, 240, "one case = one generated model of 12-40 layers, built once with tiny and once with large weights (inline or in side files), read and converted; distinct (model, size) are counted; the probe says how often all weights together exceed the bound on live heap"),
    p!("C22", c22, 3000, "the names of values and nodes in a model carry no meaning"),
    p!("C23", c23, 8000, "one case = one model (three of four shipped) and the same model written another way by 1-12 edits that do not change its meaning (default attributes stated or left out, axes counted from the other end, metadata, field order, unknown fields, packed or unpacked lists, raw or typed storage, constants as initializers or nodes, unused initializers, identities), converted under two hash seeds and benign faults; distinct (edited model, source) are counted"),
];
