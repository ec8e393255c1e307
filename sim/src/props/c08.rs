//! C08: after a crash at any point, running again gives the undisturbed result.
use super::common::*;
use crate::core::*;
use crate::gen_::Style;
use crate::inc::Status;
use crate::plan::*;
use crate::util::*;
use crate::work::*;
use serde_json::{Value, json};

pub fn make(r: &mut Rng, ctx: &Ctx, i: u64) -> Value {
    let m = real_or_gen(r, ctx, if i % 3 == 0 { 100 } else { 0 }, &Style { max_layers: 8, ..Style::default() });
    let steps: Vec<Value> = (0..*r.pick(&[1u64, 1, 2, 3]))
        .map(|_| {
            json!({"frac": r.below(1_000_001), "torn": r.below(200), "hash": r.next() >> 12, "other": r.chance(1, 6),
                   "faults": faults_json(&if r.chance(1, 3) { benign(r, 3, 40, true) } else { vec![] })})
        })
        .collect();
    let old = *r.pick(&["none", "none", "same", "other", "junk", "longer"]);
    let other = if old == "other" || steps.iter().any(|s| jb(s, "other")) { crate::gen_::recipe(r, &Style { max_layers: 6, ..Style::default() }) } else { Value::Null };
    json!({"model": m, "other": other, "old": old, "opts": rand_opts(r), "steps": steps, "hash": r.next() >> 12})
}

pub fn exec(c: &Value, run: &mut Run) -> Option<Viol> {
    let b = model(&c["model"], run.ctx)?;
    let conv = Conv::new("/w/m.onnx", "/w/out").opts(&c["opts"]);
    let vfs = world(&b, "/w", "m.onnx");
    let k = |s: &str| format!("{}:{s}", model_key(&c["model"]));
    let base = run.go(&Env::seeded(1), &vfs, vec![conv.job()]);
    if !base.ok() {
        run.probe("model rejected");
        return None;
    }
    let want = outputs(&base.vfs, "/w/out");
    // What an earlier use of the directory left.
    let mut v = vfs.clone();
    v.mkdirs("/w/out");
    let other = if c["other"].is_null() { None } else { model(&c["other"], run.ctx) };
    match js(c, "old") {
        "same" => v = base.vfs.clone(),
        "other" => {
            let ob = other.as_ref()?;
            let mut w = world(ob, "/w", "m.onnx");
            w.mkdirs("/w/out");
            let o = run.go(&Env::seeded(2), &w, vec![conv.job()]);
            for f in ["/w/out/m.rs", "/w/out/m.bpk"] {
                if let Some(d) = o.vfs.get(f) {
                    v.put(f, d);
                }
            }
        }
        "junk" => {
            v.put("/w/out/m.rs", vec![0xff; 300]);
            v.put("/w/out/m.bpk", b"not a weight file".to_vec());
        }
        "longer" => {
            // Longer than any result: what is not truncated shows.
            for (f, d) in base.vfs.listing() {
                if let (true, crate::vfs::Entry::File(d)) = (f.starts_with("/w/out/"), d) {
                    v.put(&f, [d.to_vec(), vec![b'#'; 5000]].concat());
                }
            }
        }
        _ => {}
    }
    let fresh = js(c, "old") == "none";
    let inputs: Vec<(String, Vec<u8>)> =
        std::iter::once(("/w/m.onnx".to_string(), b.bytes.clone())).chain(b.files.iter().map(|(f, d)| (format!("/w/{f}"), d.clone()))).collect();
    let intact = |v: &crate::vfs::Vfs| inputs.iter().find(|(f, d)| v.get(f).as_deref() != Some(&d[..])).map(|x| x.0.clone());
    let mut crashed_other = false;
    for s in ja(c, "steps") {
        let mut e = Env::seeded(ju(s, "hash"));
        e.faults = faults_of(s, "faults");
        e.faults.push(Fault { at: (ju(s, "frac") as u128 * base.iops as u128 / 1_000_000) as u64, kind: FaultKind::Crash, arg: ju(s, "torn"), sticky: false });
        // The model may have been another one when the crash happened.
        let swap = jb(s, "other") && other.is_some();
        let mut w = v.clone();
        if swap {
            let ob = other.as_ref().unwrap();
            w.put("/w/m.onnx", ob.bytes.clone());
            for (f, d) in &ob.files {
                w.put(&format!("/w/{f}"), d.clone());
            }
            crashed_other = true;
        }
        let o = run.go(&e, &w, vec![conv.job()]);
        run.hit(mix(o.digest, mix(fnv(c["model"].to_string().as_bytes()), fnv(js(c, "old").as_bytes()))));
        match o.status {
            Status::Crashed => run.probe("crashed"),
            Status::Done => run.probe("crash point beyond the end"),
            _ => return viol("bad_ending", &k("bad_ending"), format!("run to be crashed ended as {}", o.describe()), &[&o]),
        }
        v = o.vfs.clone();
        if swap {
            for (f, d) in &inputs {
                v.put(f, d.clone());
            }
        } else {
            if let Some(f) = intact(&v) {
                return viol("input_damaged", &k("input_damaged"), format!("after the crash {f} no longer has its content"), &[&o]);
            }
            if fresh && !crashed_other {
                let now = outputs(&v, "/w/out");
                if now.get("/w/out/m.rs") == want.get("/w/out/m.rs") && now.get("/w/out/m.bpk") != want.get("/w/out/m.bpk") {
                    return viol("source_before_weights", &k("source_before_weights"), "the crash left a complete source file beside an incomplete weight file", &[&o]);
                }
            }
        }
    }
    let o = run.go(&Env::seeded(ju(c, "hash")), &v, vec![conv.job()]);
    if !o.ok() {
        return viol("no_recovery", &k("no_recovery"), format!("the run after the crash ended as {}", o.describe()), &[&o]);
    }
    if let Some(d) = diff(&want, &outputs(&o.vfs, "/w/out")) {
        return viol("differs_after_crash", &k("differs_after_crash"), format!("the run after the crash: {d}"), &[&base, &o]);
    }
    if let Some(f) = intact(&o.vfs) {
        return viol("input_damaged", &k("input_damaged"), format!("after the rerun {f} no longer has its content"), &[&o]);
    }
    run.probe("recovered");
    None
}
