//! C15: the generated module is closed and agrees with its weight file.
use super::common::*;
use crate::bpk;
use crate::core::*;
use crate::gen_::Style;
use crate::inc::Job;
use crate::plan::*;
use crate::util::*;
use crate::work::*;
use crate::{rsrc, shape};
use serde_json::{Value, json};
use std::collections::BTreeSet;

pub fn make(r: &mut Rng, ctx: &Ctx, i: u64) -> Value {
    let n = ctx.corpus.items.len() as u64;
    let m = if i % 3 == 0 && n > 0 {
        json!({"kind": "real", "rel": ctx.corpus.items[((i / 3 + ctx.seed * 7) % n) as usize].rel})
    } else {
        let mut m = crate::gen_::recipe(r, &Style { max_layers: 16, ..Style::default() });
        m["kind"] = json!("gen");
        m
    };
    let other = if r.chance(1, 5) { real_or_gen(r, ctx, 30, &Style { max_layers: 5, ..Style::default() }) } else { Value::Null };
    let sw: Vec<Value> = if other.is_null() { vec![] } else { (0..r.range(1, 40)).map(|_| json!([r.below(60_000), r.below(2)])).collect() };
    json!({"model": m, "other": other, "switches": sw, "opts": rand_opts(r), "hash": r.next() >> 12,
           "benign": faults_json(&if r.chance(1, 2) { benign(r, 4, 40, true) } else { vec![] })})
}

pub fn exec(c: &Value, run: &mut Run) -> Option<Viol> {
    let b = model(&c["model"], run.ctx)?;
    let mut vfs = world(&b, "/w", "m.onnx");
    let conv = Conv::new("/w/m.onnx", "/w/out").opts(&c["opts"]);
    let mut jobs: Vec<Job> = vec![conv.job()];
    if !c["other"].is_null() {
        model(&c["other"], run.ctx)?.place(&mut vfs, "/w/o", "m.onnx");
        jobs.push(Conv::new("/w/o/m.onnx", "/w/out2").opts(&c["opts"]).job());
    }
    let mut e = Env::seeded(ju(c, "hash"));
    e.faults = faults_of(c, "benign");
    e.switches = Env::from_json(c).switches;
    let o = run.go(&e, &vfs, jobs);
    let k = |class: &str| format!("{}:{class}", model_key(&c["model"]));
    if o.res.first().is_none_or(|r| r.is_err()) {
        run.probe("model rejected");
        return None;
    }
    let src = String::from_utf8_lossy(&o.vfs.get("/w/out/m.rs")?).into_owned();
    run.hit(fnv(src.as_bytes()));
    let w = match o.vfs.get("/w/out/m.bpk") {
        Some(d) => match bpk::parse(&d) {
            Ok(w) => w,
            Err(e) => return viol("bad_weights", &k("bad_weights"), format!("the weight file does not parse: {e}"), &[&o]),
        },
        None => Default::default(),
    };
    if let Some((class, msg)) = check(&src, &w, run) {
        if std::env::var("SURVEY").is_ok() {
            run.probe(&format!("V {} {msg}", k(class)));
            return None;
        }
        return viol(class, &k(class), msg, &[&o]);
    }
    None
}

pub fn check(src: &str, w: &bpk::Bpk, run: &mut Run) -> Option<(&'static str, String)> {
    let s = match rsrc::parse(src) {
        Ok(s) => s,
        Err(e) => return Some(("bad_source", format!("the generated source does not parse: {e}"))),
    };
    if let Some(u) = s.unbound.first() {
        return Some(("unbound", format!("names used without a definition in scope: {:?}, first {u}", s.unbound)));
    }
    let set: BTreeSet<&String> = s.fields.iter().collect();
    if set.len() != s.fields.len() {
        return Some(("field_twice", format!("a field is declared twice: {:?}", s.fields)));
    }
    let built: BTreeSet<&String> = s.built.iter().collect();
    if built != set || built.len() != s.built.len() {
        return Some(("field_init", format!("declared {:?}, initialised {:?}", s.fields, s.built)));
    }
    if !s.has_forward {
        return Some(("no_forward", "there is no forward function".into()));
    }
    for f in &s.used {
        if !set.contains(f) {
            return Some(("field_missing", format!("forward uses self.{f}, which is no field")));
        }
    }
    for f in &s.fields {
        if f != "phantom" && f != "device" && !s.used.contains(f) {
            return Some(("field_unused", format!("field {f} is never used in forward")));
        }
    }
    let h = match shape::look(src) {
        Ok(h) => h,
        Err(e) => return Some(("bad_source", e)),
    };
    if let Some(t) = h.twice.first() {
        return Some(("init_twice", format!("{t} is bound twice in new")));
    }
    if let Some(t) = h.rebound.first() {
        return Some(("rebound", format!("{t} is bound twice in the body of forward")));
    }
    if let Some(t) = h.moved.first() {
        return Some(("moved", format!("{t} is used after it was given away in forward")));
    }
    if h.checked_moves > 0 {
        run.probe("value uses checked");
    }
    // Weight file against declarations.
    let mut want = std::collections::BTreeMap::new();
    for f in &s.fields {
        if f == "phantom" || f == "device" {
            continue;
        }
        let Some(d) = h.decls.get(f) else {
            return Some(("field_init", format!("field {f} has no initialiser of its own in new")));
        };
        match shape::params(d) {
            None => {
                run.probe(&format!("unknown initialiser {}", d.kind));
                return None;
            }
            Some(p) => {
                run.probe(&format!("declared {}", d.kind));
                for (x, sh) in p {
                    want.insert(if x.is_empty() { f.clone() } else { format!("{f}.{x}") }, (sh, d.elem.clone(), d.kind.clone()));
                }
            }
        }
    }
    let mut have = BTreeSet::new();
    for t in &w.tensors {
        if !have.insert(t.path.clone()) {
            return Some(("entry_twice", format!("the weight file has {} twice", t.path)));
        }
        let Some((sh, elem, kind)) = want.get(&t.path) else {
            return Some(("entry_foreign", format!("the weight file has {} {:?}, declared are {:?}", t.path, t.shape, want.keys().collect::<Vec<_>>())));
        };
        let ts = t.shape.clone();
        if ts != *sh {
            return Some(("entry_shape", format!("{} is declared as {sh:?} by {kind} and stored as {ts:?}", t.path)));
        }
        let dt = t.dtype.to_lowercase();
        let is = if dt.starts_with("bool") { "Bool" } else if dt.starts_with('i') || dt.starts_with('u') { "Int" } else { "" };
        if kind == "Param::uninitialized" && is != elem {
            return Some(("entry_kind", format!("{} is declared as {elem:?} tensor and stored as {}", t.path, t.dtype)));
        }
    }
    for p in want.keys() {
        if !have.contains(p) {
            return Some(("entry_missing", format!("{p} {:?} is declared but not in the weight file {have:?}", want[p])));
        }
    }
    run.probe("weight file compared");
    None
}
