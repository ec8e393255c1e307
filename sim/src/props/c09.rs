//! C09: a conversion changes nothing but its documented outputs.
use super::common::*;
use crate::core::*;
use crate::gen_::Style;
use crate::inc::Status;
use crate::plan::*;
use crate::util::*;
use crate::vfs::Entry;
use crate::work::*;
use serde_json::{Value, json};

pub fn make(r: &mut Rng, ctx: &Ctx, i: u64) -> Value {
    let m = real_or_gen(r, ctx, if i % 5 == 0 { 100 } else { 0 }, &Style { max_layers: 6, ..Style::default() });
    let k = r.below(3);
    let f: Vec<Value> = (0..k)
        .map(|_| {
            let kind = if r.chance(1, 3) { FaultKind::Crash } else { *r.pick(HARD) };
            json!({"frac": r.below(1_000_001), "kind": kind.name(), "arg": r.below(64), "sticky": r.chance(1, 5)})
        })
        .collect();
    json!({"model": m, "opts": {"dev": r.chance(1, 3), "embed": r.chance(1, 3), "nosimplify": r.chance(1, 4), "script": r.chance(1, 3)},
           "stem": *r.pick(&["m", "model", "my-model", "Net_2", "été", "a b", "m"]), "ext": *r.pick(&["onnx", "onnx", "onnx", "pb", "ONNX"]),
           "out": *r.pick(&["/w/out", "/w/out", "/w/a/b/c", "/w/in", "out", ".", "../w/x/", "/w/link"]), "clutter": r.below(32), "hash": r.next() >> 12, "faults": f})
}

pub fn exec(c: &Value, run: &mut Run) -> Option<Viol> {
    let b = model(&c["model"], run.ctx)?;
    let (stem, ext, out) = (js(c, "stem"), js(c, "ext"), js(c, "out"));
    let input = format!("/w/in/{stem}.{ext}");
    let mut conv = Conv::new(&input, out).opts(&c["opts"]);
    let mut vfs = crate::vfs::Vfs::new();
    for d in ["/w", "/tmp", "/w/in", "/w/real", "/build/out"] {
        vfs.mkdirs(d);
    }
    vfs.ln("real", "/w/link");
    b.place(&mut vfs, "/w/in", &format!("{stem}.{ext}"));
    // The output directory with every link resolved.
    let mut e = Env::seeded(ju(c, "hash"));
    let abs = if conv.script {
        e.vars.push(("OUT_DIR".into(), "/build/out".into()));
        conv.out = out.trim_start_matches('/').trim_start_matches("../").to_string();
        format!("/build/out/{}", conv.out.trim_end_matches('/').trim_end_matches('.'))
    } else {
        match out {
            "out" => "/w/out".into(),
            "." => "/w".into(),
            "../w/x/" => "/w/x".into(),
            "/w/link" => "/w/real".into(),
            o => o.to_string(),
        }
    };
    let abs = abs.trim_end_matches('/').to_string();
    let bits = ju(c, "clutter");
    let names = [format!("{stem}.rs.bak"), format!("{stem}.bpk.old"), "notes.txt".into(), "mod.rs".into(), format!("{stem}x.rs")];
    for (k, n) in names.iter().enumerate() {
        if bits >> k & 1 == 1 {
            vfs.mkdirs(&abs);
            vfs.put(&format!("{abs}/{n}"), format!("clutter {k}").into_bytes());
            vfs.put(&format!("/w/{n}"), format!("clutter {k}").into_bytes());
            vfs.put(&format!("/w/in/{n}"), format!("clutter {k}").into_bytes());
        }
    }
    let before = vfs.listing();
    let base = run.go(&e, &vfs, vec![conv.job()]);
    let k = |s: &str| format!("{}:{s}", model_key(&c["model"]));
    let dev = conv.dev;
    let outs = [format!("{abs}/{stem}.rs"), format!("{abs}/{stem}.bpk"), format!("{abs}/{stem}.onnx.txt")];
    let check = |o: &crate::inc::Out, what: &str| -> Option<Viol> {
        let after = o.vfs.listing();
        for (p, x) in &after {
            if before.get(p).is_some_and(|y| same(x, y)) {
                continue;
            }
            let fine = match x {
                Entry::File(_) => *p == outs[0] || *p == outs[1] || (dev && *p == outs[2]),
                Entry::Dir => abs == *p || abs.starts_with(&format!("{p}/")),
                _ => false,
            };
            if !fine {
                return viol("stray_change", &k("stray_change"), format!("{what}: {p} was {}", if before.contains_key(p) { "changed" } else { "created" }), &[o]);
            }
        }
        if let Some(p) = before.keys().find(|p| !after.contains_key(*p)) {
            return viol("stray_removal", &k("stray_removal"), format!("{what}: {p} disappeared"), &[o]);
        }
        None
    };
    run.hit(mix(fnv(c["model"].to_string().as_bytes()), fnv(format!("{stem}{ext}{out}{bits}").as_bytes())));
    if let Some(v) = check(&base, "undisturbed conversion") {
        return Some(v);
    }
    if base.ok() {
        run.probe("converted");
        for f in &outs[..2] {
            if base.vfs.get(f).is_none() {
                return viol("missing_output", &k("missing_output"), format!("converted, but {f} is missing"), &[&base]);
            }
        }
    } else {
        run.probe("model rejected");
    }
    if !ja(c, "faults").is_empty() {
        let mut ef = e.clone();
        ef.faults = super::c07::plan(c, base.iops);
        let o = run.go(&ef, &vfs, vec![conv.job()]);
        if o.fault_done.iter().any(|f| *f) {
            run.probe(if o.status == Status::Crashed { "crashed" } else { "disturbed" });
        }
        if let Some(v) = check(&o, "disturbed conversion") {
            return Some(v);
        }
    }
    None
}

fn same(a: &Entry, b: &Entry) -> bool {
    match (a, b) {
        (Entry::File(x), Entry::File(y)) => x == y,
        (Entry::Dir, Entry::Dir) => true,
        (Entry::Link(x), Entry::Link(y)) => x == y,
        _ => false,
    }
}
