//! Shared set-up and oracles.
use crate::bpk;
use crate::core::*;
use crate::gen_::{self, Built};
use crate::inc::Out;
use crate::onnx;
use crate::plan::*;
use crate::util::*;
use crate::vfs::{Entry, Vfs};
use serde_json::{Value, json};
use std::collections::BTreeMap;

/// A recipe or a reference to a shipped model, as bytes.
pub fn model(v: &Value, ctx: &Ctx) -> Option<Built> {
    match js(v, "kind") {
        "real" => {
            let it = ctx.corpus.get(js(v, "rel"))?;
            Some(Built { bytes: it.bytes.to_vec(), ..Default::default() })
        }
        _ => Some(gen_::build(v)),
    }
}
pub fn is_real(v: &Value) -> bool {
    js(v, "kind") == "real"
}
/// Identity of a model for findings.
pub fn model_key(v: &Value) -> String {
    if is_real(v) { js(v, "rel").to_string() } else { "generated".to_string() }
}
pub fn real_or_gen(r: &mut Rng, ctx: &Ctx, real_in: u64, st: &gen_::Style) -> Value {
    if r.below(100) < real_in {
        if let Some(i) = ctx.corpus.pick(r) {
            return json!({"kind": "real", "rel": i.rel});
        }
    }
    gen_::recipe(r, st)
}

/// Generated artefacts below `out`: path -> content in comparable form.
pub fn outputs(v: &Vfs, out: &str) -> BTreeMap<String, Vec<u8>> {
    let mut m = BTreeMap::new();
    for (p, e) in v.listing() {
        if let Entry::File(d) = e {
            if p.starts_with(&format!("{out}/")) {
                if p.ends_with(".bpk") {
                    m.insert(p, bpk::canon(&d));
                } else if p.ends_with(".rs") {
                    m.insert(p, d.to_vec());
                }
            }
        }
    }
    m
}
/// First difference between two artefact maps, for a person to read.
pub fn diff(a: &BTreeMap<String, Vec<u8>>, b: &BTreeMap<String, Vec<u8>>) -> Option<String> {
    for (k, x) in a {
        match b.get(k) {
            None => return Some(format!("{k} exists only on one side")),
            Some(y) if x != y => {
                let n = x.iter().zip(y.iter()).take_while(|(p, q)| p == q).count();
                let cut = |v: &[u8]| {
                    let lo = v[..n.min(v.len())].iter().rposition(|c| *c == b'\n').map(|p| p + 1).unwrap_or(0);
                    String::from_utf8_lossy(&v[lo.min(v.len())..(n + 80).min(v.len())]).replace('\n', "\\n")
                };
                return Some(format!("{k} differs at byte {n}: {:?} vs {:?}", cut(x), cut(y)));
            }
            _ => {}
        }
    }
    b.keys().find(|k| !a.contains_key(*k)).map(|k| format!("{k} exists only on one side"))
}

/// Faults every correct program rides out: interrupted and partial transfers,
/// and refused memory maps of side files.
pub fn benign(r: &mut Rng, n: u64, span: u64, mmap_too: bool) -> Vec<Fault> {
    let mut v = vec![];
    for _ in 0..n {
        let mut k = *r.pick(&[FaultKind::Eintr, FaultKind::ShortRead, FaultKind::ShortWrite]);
        if mmap_too && r.chance(1, 3) {
            k = *r.pick(&[FaultKind::MmapEnomem, FaultKind::MmapEnodev]);
        }
        // The model file itself must map: only later maps are side files.
        let map = matches!(k, FaultKind::MmapEnomem | FaultKind::MmapEnodev);
        v.push(Fault { at: r.below(span) + if map { 10 } else { 0 }, kind: k, arg: 1 + r.below(40), sticky: false });
    }
    v
}
pub const HARD: &[FaultKind] = &[
    FaultKind::ReadEio,
    FaultKind::WriteEio,
    FaultKind::Enospc,
    FaultKind::Emfile,
    FaultKind::OpenEacces,
    FaultKind::OpenEio,
    FaultKind::MkdirEacces,
    FaultKind::MmapEnomem,
    FaultKind::MmapEnodev,
    FaultKind::StatEio,
    FaultKind::SeekEio,
    FaultKind::RealpathEacces,
    FaultKind::RealpathEio,
    FaultKind::CloseEio,
    FaultKind::FsyncEio,
    FaultKind::RenameEio,
];
pub fn faults_json(f: &[Fault]) -> Value {
    let e = Env { faults: f.to_vec(), ..Default::default() };
    e.to_json()["faults"].clone()
}
pub fn faults_of(v: &Value, key: &str) -> Vec<Fault> {
    Env::from_json(&json!({"faults": v.get(key).cloned().unwrap_or(json!([]))})).faults
}

pub fn world(b: &Built, dir: &str, name: &str) -> Vfs {
    let mut v = Vfs::new();
    v.mkdirs("/w");
    v.mkdirs("/tmp");
    b.place(&mut v, dir, name);
    v
}

pub fn dt_name(dt: i32) -> &'static str {
    match dt {
        onnx::F32 => "f32",
        onnx::F64 => "f64",
        onnx::F16 => "f16",
        onnx::BF16 => "bf16",
        onnx::I64 => "i64",
        onnx::I32 => "i32",
        onnx::I16 => "i16",
        onnx::I8 => "i8",
        onnx::U64 => "u64",
        onnx::U32 => "u32",
        onnx::U16 => "u16",
        onnx::U8 => "u8",
        _ => "bool",
    }
}
pub fn dt_of_name(n: &str) -> i32 {
    match n.to_lowercase().as_str() {
        "f32" => onnx::F32,
        "f64" => onnx::F64,
        "f16" => onnx::F16,
        "bf16" => onnx::BF16,
        "i64" => onnx::I64,
        "i32" => onnx::I32,
        "i16" => onnx::I16,
        "i8" => onnx::I8,
        "u64" => onnx::U64,
        "u32" => onnx::U32,
        "u16" => onnx::U16,
        "u8" => onnx::U8,
        _ => onnx::BOOL,
    }
}

pub fn last(outs: &[Out]) -> Vec<&Out> {
    outs.iter().collect()
}

pub fn model_hash(v: &Value) -> String {
    format!("{:08x}", fnv(v.to_string().as_bytes()) as u32)
}
/// Stable identity of a message: digits and addresses left out.
pub fn key(s: &str) -> String {
    s.chars().filter(|c| !c.is_ascii_digit()).take(120).collect()
}
pub fn strip(s: &str) -> String {
    crate::inc::first_line(s)
}
