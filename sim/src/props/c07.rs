//! C07: success is never reported over a failed read or write.
use super::common::*;
use crate::core::*;
use crate::gen_::Style;
use crate::inc::{Job, Status};
use crate::plan::*;
use crate::util::*;
use crate::work::*;
use serde_json::{Value, json};

pub fn make(r: &mut Rng, ctx: &Ctx, i: u64) -> Value {
    let m = real_or_gen(r, ctx, if i % 3 == 0 { 100 } else { 0 }, &Style { max_layers: 8, ..Style::default() });
    let kinds: Vec<FaultKind> = {
        // Swarm: a few kinds per case.
        let mut v = HARD.to_vec();
        r.shuffle(&mut v);
        v.truncate(r.range(1, 5) as usize);
        v
    };
    let plans: Vec<Value> = (0..r.range(2, 5))
        .map(|_| {
            let n = *r.pick(&[1u64, 1, 1, 2, 4]);
            let f: Vec<Value> = (0..n)
                .map(|_| json!({"frac": r.below(1_000_001), "kind": r.pick(&kinds).name(), "arg": r.below(64), "sticky": r.chance(1, 4)}))
                .collect();
            // Side files that cannot be mapped are read: that path must fail loudly too.
            let mut f = f;
            if r.chance(1, 3) {
                f.push(json!({"frac": 0, "abs": 10, "kind": "mmap_enodev", "arg": 0, "sticky": true}));
                let kind = *r.pick(&[FaultKind::ReadEio, FaultKind::ReadEio, FaultKind::SeekEio, FaultKind::ShortRead, FaultKind::OpenEio]);
                f.push(json!({"frac": r.below(1_000_001), "kind": kind.name(), "arg": r.below(64), "sticky": r.chance(1, 2)}));
            }
            json!({"faults": f, "free": if r.chance(1, 6) { json!(r.below(1_000_001)) } else { Value::Null }})
        })
        .collect();
    json!({"model": m, "opts": rand_opts(r), "hash": r.next() >> 12, "ops": plans, "what": *r.pick(&["convert", "convert", "convert", "values"]),
           "old": r.below(3)})
}

pub fn plan(v: &Value, iops: u64) -> Vec<Fault> {
    ja(v, "faults")
        .iter()
        .filter_map(|f| {
            Some(Fault {
                at: if f["abs"].is_u64() { ju(f, "abs") } else { (ju(f, "frac") as u128 * iops as u128 / 1_000_000) as u64 },
                kind: FaultKind::from_name(js(f, "kind"))?,
                arg: ju(f, "arg"),
                sticky: jb(f, "sticky"),
            })
        })
        .collect()
}

pub fn exec(c: &Value, run: &mut Run) -> Option<Viol> {
    let b = model(&c["model"], run.ctx)?;
    let conv = Conv::new("/w/m.onnx", "/w/out").opts(&c["opts"]);
    let simp = conv.simplify;
    let mut vfs = world(&b, "/w", "m.onnx");
    if ju(c, "old") == 1 {
        // Left-overs of another model; they must not pass for the result.
        vfs.mkdirs("/w/out");
        vfs.put("/w/out/m.rs", b"// old source".to_vec());
        vfs.put("/w/out/m.bpk", b"old weights".to_vec());
    }
    let job = || -> Job {
        if js(c, "what") == "values" {
            Box::new(move || match parse_file("/w/m.onnx", simp) {
                Ok(g) => [dump(&g, true).into_bytes(), enc_values(&values(&g))].concat(),
                Err(e) => panic!("{e}"),
            })
        } else {
            conv.job()
        }
    };
    let k = |s: &str| format!("{}:{s}", model_key(&c["model"]));
    let e = Env::seeded(ju(c, "hash"));
    let base = run.go(&e, &vfs, vec![job()]);
    if !base.ok() {
        run.probe("model rejected");
        return None;
    }
    let want = outputs(&base.vfs, "/w/out");
    let txt = base.vfs.get("/w/out/m.onnx.txt");
    let total: u64 = want.keys().filter_map(|p| base.vfs.get(p)).map(|d| d.len() as u64).sum();
    for p in ja(c, "ops") {
        let mut ef = e.clone();
        ef.faults = plan(p, base.iops);
        let mut v = vfs.clone();
        if let Some(f) = p["free"].as_u64() {
            // A device that fills up half-way.
            v.free = Some((f as u128 * total as u128 / 1_000_000) as u64);
        }
        let o = run.go(&ef, &v, vec![job()]);
        let fired = o.fault_done.iter().any(|f| *f) || v.free.is_some();
        if fired {
            run.hit(mix(fnv(c["model"].to_string().as_bytes()), mix(o.digest, fnv(p.to_string().as_bytes()))));
        }
        if !matches!(o.status, Status::Done) {
            return viol("bad_ending", &k("bad_ending"), format!("under {} the process ended as {}", p["faults"], o.describe()), &[&o]);
        }
        if !o.ok() {
            run.probe("failure reported");
            continue;
        }
        run.probe(if fired { "success despite faults" } else { "fault not met" });
        if o.one().ok() != base.one().ok() {
            return viol("wrong_values", &k("wrong_values"), format!("under {} reading succeeded with other values", p["faults"]), &[&base, &o]);
        }
        if let Some(d) = diff(&want, &outputs(&o.vfs, "/w/out")) {
            return viol("false_success", &k("false_success"), format!("under {} (free {}) the conversion returned normally, but {d}", p["faults"], p["free"]), &[&base, &o]);
        }
        if o.vfs.get("/w/out/m.onnx.txt") != txt {
            return viol("false_success", &k("debug_dump"), format!("under {} the conversion returned normally, but the debug dump differs", p["faults"]), &[&base, &o]);
        }
    }
    None
}
