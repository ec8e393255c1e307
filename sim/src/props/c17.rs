//! C17: memory-mapped and plain builds behave the same. The same case runs in
//! this binary and in a peer process built without memory mapping.
use super::common::*;
use crate::core::*;
use crate::gen_::Style;
use crate::inc::{Job, Status};
use crate::plan::*;
use crate::util::*;
use crate::work::*;
use serde_json::{Value, json};
use std::cell::RefCell;
use std::io::{Read, Write};
use std::process::{Child, Command, Stdio};

pub fn make(r: &mut Rng, ctx: &Ctx, i: u64) -> Value {
    let n = ctx.corpus.items.len() as u64;
    let side = r.chance(1, 2);
    let mut m = if i % 3 == 0 && n > 0 {
        json!({"kind": "real", "rel": ctx.corpus.items[((i / 3 + ctx.seed * 17) % n) as usize].rel})
    } else {
        let big = r.chance(1, 6);
        crate::gen_::recipe(r, &Style { max_layers: 9, ext: true, big, ..Style::default() })
    };
    if !is_real(&m) && side {
        for l in m["layers"].as_array_mut().unwrap() {
            if r.chance(1, 2) {
                l["ch"] = json!("ext");
            }
        }
    }
    let mut vars: Vec<Value> = vec![];
    if r.chance(1, 2) {
        vars.push(json!([*r.pick(&["cut", "cut", "cut_side", "cut_side", "grow", "grow_side", "gone", "gone_side", "dir", "dir_side", "empty", "empty_side",
            "zeros_side", "link", "link_side", "loop_link", "page", "page_side"]), r.below(1_000_001), r.below(6)]));
    }
    let k = if r.chance(1, 4) { r.range(1, 3) } else { 0 };
    let edits: Vec<Value> = (0..k).map(|_| json!({"what": *r.pick(crate::pb::KINDS), "a": r.next() >> 24, "b": r.next() >> 24, "c": r.next() >> 24})).collect();
    json!({"model": m, "opts": rand_opts(r), "hash": r.next() >> 12, "vars": vars, "edits": edits, "what": *r.pick(&["convert", "convert", "convert", "file"]),
           "faults": faults_json(&if r.chance(1, 2) { benign(r, 1 + ctx.seed % 2 + 3, 40, false) } else { vec![] })})
}

/// One run of a case in whatever build this is.
pub fn local(c: &Value, run: &mut Run) -> Value {
    let Some(b) = model(&c["model"], run.ctx) else { return Value::Null };
    let mut vfs = world(&b, "/w/in", "m.onnx");
    let mut bytes = if ja(c, "edits").is_empty() { b.bytes.clone() } else { super::c11::damaged(c, &b) };
    let names: Vec<&String> = b.files.keys().collect();
    vfs.put("/w/in/m.onnx", bytes.clone());
    for v in ja(c, "vars") {
        let (what, at, pick) = (v[0].as_str().unwrap_or(""), v[1].as_u64().unwrap_or(0) as u128, v[2].as_u64().unwrap_or(0) as usize);
        let side = names.get(pick % names.len().max(1));
        let part = |n: usize| (at * n as u128 / 1_000_000) as usize;
        let sp = side.map(|s| format!("/w/in/{s}"));
        let mut sd = side.map(|s| b.files[*s].clone()).unwrap_or_default();
        match (what, &sp) {
            ("cut", _) => {
                bytes.truncate(part(bytes.len()));
                vfs.put("/w/in/m.onnx", bytes.clone());
            }
            ("page", _) => {
                // Ends exactly on a page border.
                bytes.truncate(bytes.len() / 4096 * 4096);
                vfs.put("/w/in/m.onnx", bytes.clone());
            }
            ("grow", _) => {
                bytes.extend(std::iter::repeat_n(0u8, 1 + part(5000)));
                vfs.put("/w/in/m.onnx", bytes.clone());
            }
            ("empty", _) => vfs.put("/w/in/m.onnx", vec![]),
            ("gone", _) => {
                let _ = vfs.unlink(b"/w/in/m.onnx");
            }
            ("dir", _) => {
                let _ = vfs.unlink(b"/w/in/m.onnx");
                vfs.mkdirs("/w/in/m.onnx");
            }
            ("link", _) => {
                let _ = vfs.rename(b"/w/in/m.onnx", b"/w/in/real.onnx");
                vfs.ln("real.onnx", "/w/in/m.onnx");
            }
            ("loop_link", _) => {
                let _ = vfs.unlink(b"/w/in/m.onnx");
                vfs.ln("m.onnx", "/w/in/m.onnx");
            }
            ("cut_side", Some(p)) => {
                sd.truncate(part(sd.len()));
                vfs.put(p, sd);
            }
            ("page_side", Some(p)) => {
                sd.resize(sd.len().next_multiple_of(4096), 0x3c);
                vfs.put(p, sd);
            }
            ("grow_side", Some(p)) => {
                sd.extend(std::iter::repeat_n(0x77u8, 1 + part(5000)));
                vfs.put(p, sd);
            }
            ("zeros_side", Some(p)) => {
                let n = sd.len();
                vfs.put(p, vec![0; n]);
            }
            ("empty_side", Some(p)) => vfs.put(p, vec![]),
            ("gone_side", Some(p)) => {
                let _ = vfs.unlink(p.as_bytes());
            }
            ("dir_side", Some(p)) => {
                let _ = vfs.unlink(p.as_bytes());
                vfs.mkdirs(p);
            }
            ("link_side", Some(p)) => {
                let _ = vfs.rename(p.as_bytes(), b"/w/in/other.data");
                vfs.ln("/w/in/other.data", p);
            }
            _ => {}
        }
    }
    let mut e = Env { max_alloc: 1 << 30, max_live: 2 << 30, ..Env::seeded(ju(c, "hash")) };
    e.faults = faults_of(c, "faults");
    let conv = Conv::new("/w/in/m.onnx", "/w/out").opts(&c["opts"]);
    let simp = conv.simplify;
    let file = js(c, "what") == "file";
    let job: Job = if file {
        Box::new(move || match onnx_ir::OnnxGraphBuilder::new().simplify(simp).parse_file("/w/in/m.onnx") {
            Ok(g) => [dump(&g, false).into_bytes(), enc_values(&values(&g))].concat(),
            Err(_) => b"refused".to_vec(),
        })
    } else {
        conv.job()
    };
    let o = run.go(&e, &vfs, vec![job]);
    let end = match &o.status {
        Status::Done => match o.one() {
            Ok(b) if file => format!("{} {:016x}", if b == b"refused" { "refused" } else { "parsed" }, fnv(b)),
            Ok(_) => "converted".to_string(),
            Err(_) => "refused".into(),
        },
        s => format!("{s:?}").split('(').next().unwrap_or("").into(),
    };
    let end = if end.starts_with("refused") { "refused".to_string() } else { end };
    let arts: Vec<Value> = if end == "converted" { outputs(&o.vfs, "/w/out").iter().map(|(p, d)| json!([p, format!("{:016x}", fnv(d))])).collect() } else { vec![] };
    json!({"end": end, "arts": arts, "say": strip(&o.describe())})
}

struct Peer(Child);
thread_local! {
    static PEER: RefCell<Option<Peer>> = const { RefCell::new(None) };
}
fn frame(w: &mut impl Write, b: &[u8]) -> std::io::Result<()> {
    w.write_all(&(b.len() as u32).to_le_bytes())?;
    w.write_all(b)?;
    w.flush()
}
fn unframe(r: &mut impl Read) -> Option<Vec<u8>> {
    let mut n = [0u8; 4];
    r.read_exact(&mut n).ok()?;
    let mut b = vec![0; u32::from_le_bytes(n) as usize];
    r.read_exact(&mut b).ok()?;
    Some(b)
}
/// The peer's side: answers cases until its input ends.
pub fn serve(ctx: &Ctx) {
    // Not std's handles: their locks would be held in every simulated process.
    use std::os::fd::FromRawFd;
    let (mut i, mut o) = unsafe { (std::fs::File::from_raw_fd(libc::dup(0)), std::fs::File::from_raw_fd(libc::dup(1))) };
    while let Some(b) = unframe(&mut i) {
        let c: Value = serde_json::from_slice(&b).unwrap_or(Value::Null);
        let mut r = Run::new(ctx);
        let mut v = local(&c, &mut r);
        v["st"] = json!([r.st.incarnations, r.digest]);
        if frame(&mut o, v.to_string().as_bytes()).is_err() {
            break;
        }
    }
}
fn ask(c: &Value) -> Option<Value> {
    PEER.with(|p| {
        let mut p = p.borrow_mut();
        if p.is_none() {
            let exe = std::env::current_exe().ok()?;
            let dir = exe.parent()?.parent()?.parent()?;
            let k = Command::new(dir.join("target-nommap/debug/onnxsim")).arg("peer").stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().ok()?;
            *p = Some(Peer(k));
        }
        let k = &mut p.as_mut()?.0;
        frame(k.stdin.as_mut()?, c.to_string().as_bytes()).ok()?;
        let b = unframe(k.stdout.as_mut()?)?;
        serde_json::from_slice(&b).ok()
    })
}

pub fn exec(c: &Value, run: &mut Run) -> Option<Viol> {
    let a = local(c, run);
    let Some(mut b) = ask(c) else { panic!("the peer process (build without memory mapping) does not answer") };
    run.st.incarnations += b["st"][0].as_u64().unwrap_or(0);
    run.digest = mix(run.digest, b["st"][1].as_u64().unwrap_or(0));
    b.as_object_mut().unwrap().remove("st");
    run.hit(mix(fnv(c["model"].to_string().as_bytes()), fnv(c["vars"].to_string().as_bytes()) ^ fnv(c["edits"].to_string().as_bytes())));
    let end = a["end"].as_str().unwrap_or("").split(' ').next().unwrap_or("");
    run.probe(&format!("both {end}"));
    for v in ja(c, "vars") {
        run.probe(&format!("{} {}", v[0].as_str().unwrap_or(""), end));
    }
    let k = |s: &str| format!("{}:{s}", model_key(&c["model"]));
    if a["end"] != b["end"] {
        return viol("outcome_differs", &k("outcome_differs"), format!("mapped build: {} ({}); plain build: {} ({})", a["end"], a["say"], b["end"], b["say"]), &[]);
    }
    if a["arts"] != b["arts"] {
        return viol("artefacts_differ", &k("artefacts_differ"), format!("mapped build: {}; plain build: {}", a["arts"], b["arts"]), &[]);
    }
    None
}
