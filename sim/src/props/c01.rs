//! C01: the same model always yields the same artefacts.
use super::common::*;
use crate::core::*;
use crate::gen_::Style;
use crate::plan::*;
use crate::util::*;
use crate::work::*;
use serde_json::{Value, json};

pub fn make(r: &mut Rng, ctx: &Ctx, i: u64) -> Value {
    // Walk the shipped models in order, then generated ones.
    let n = ctx.corpus.items.len() as u64;
    let m = if i % 3 == 0 && n > 0 {
        json!({"kind": "real", "rel": ctx.corpus.items[((i / 3 + ctx.seed * 7) % n) as usize].rel})
    } else {
        let mut m = crate::gen_::recipe(r, &Style { max_layers: 14, ..Style::default() });
        m["kind"] = json!("gen");
        m
    };
    let k = r.range(2, 4);
    let hashes: Vec<Value> = (0..k)
        .map(|_| {
            json!({"hash": r.next() >> 11, "clock": r.below(4_000_000_000), "logfail": r.chance(1, 4),
                   "rustlog": r.chance(1, 4), "pid_noise": r.below(1000),
                   "benign": faults_json(&if r.chance(1, 2) { benign(r, 4, 40, false) } else { vec![] })})
        })
        .collect();
    json!({"model": m, "opts": rand_opts(r), "hashes": hashes})
}

pub fn exec(c: &Value, run: &mut Run) -> Option<Viol> {
    let b = model(&c["model"], run.ctx)?;
    let conv = Conv::new("m.onnx", "/w/out").opts(&c["opts"]);
    let vfs = world(&b, "/w", "m.onnx");
    let base = run.go(&Env::seeded(1), &vfs, vec![conv.job()]);
    if !base.ok() {
        run.probe("model rejected");
    }
    let want = outputs(&base.vfs, "/w/out");
    for h in ja(c, "hashes") {
        let mut e = Env::seeded(ju(h, "hash"));
        e.clock0 = ju(h, "clock");
        e.faults = faults_of(h, "benign");
        e.vars.push(("NOISE".into(), ju(h, "pid_noise").to_string()));
        if jb(h, "rustlog") {
            e.vars.push(("RUST_LOG".into(), "trace".into()));
        }
        if jb(h, "logfail") {
            e.log_faults.push((3, libc::EPIPE));
        }
        let o = run.go(&e, &vfs, vec![conv.job()]);
        run.hit(mix(fnv(c["model"].to_string().as_bytes()), ju(h, "hash")));
        if o.ok() != base.ok() {
            return viol(
                "acceptance",
                &format!("{}:acceptance", model_key(&c["model"])),
                format!("accepted in one run, refused in another: {} / {}", base.describe(), o.describe()),
                &[&base, &o],
            );
        }
        if !base.ok() {
            continue;
        }
        if let Some(d) = diff(&want, &outputs(&o.vfs, "/w/out")) {
            return viol("artefacts", &format!("{}:artefacts", model_key(&c["model"])), d, &[&base, &o]);
        }
    }
    if base.ok() {
        run.probe("compared");
    }
    None
}
