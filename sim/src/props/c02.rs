//! C02: conversions running at the same time do not influence each other.
use super::common::*;
use crate::core::*;
use crate::gen_::Style;
use crate::inc::Job;
use crate::plan::*;
use crate::util::*;
use crate::work::*;
use serde_json::{Value, json};

pub fn make(r: &mut Rng, ctx: &Ctx, i: u64) -> Value {
    let k = r.range(2, 4);
    let same = r.chance(1, 3);
    let mut first = Value::Null;
    let clients: Vec<Value> = (0..k)
        .map(|j| {
            let mut m = real_or_gen(r, ctx, if i % 4 == 0 { 40 } else { 10 }, &Style { max_layers: 8, ..Style::default() });
            // Callers often share the very same model file.
            if same && j > 0 && r.chance(2, 3) {
                m = first.clone();
            }
            if j == 0 {
                first = m.clone();
            }
            json!({"model": m, "opts": rand_opts(r), "what": *r.pick(&["convert", "convert", "parse", "bytes"]), "slot": if same { 0 } else { j }})
        })
        .collect();
    let ns = match r.below(4) {
        0 => r.range(1, 3),
        1 => r.range(4, 20),
        _ => r.range(10, 200),
    };
    let mut at: Vec<u64> = (0..ns).map(|_| r.below(1_000_000)).collect();
    if r.chance(1, 2) {
        // Bursts: several switches close together.
        let n = at.len();
        for j in 0..n {
            if r.chance(1, 2) {
                let b = at[j];
                at.push((b + r.below(40)).min(999_999));
            }
        }
    }
    // Start-up is where shared state is first touched.
    for _ in 0..r.below(12) {
        at.push(r.below(3000));
    }
    at.sort();
    let switches: Vec<Value> = at.iter().map(|a| json!([a, r.below(k)])).collect();
    json!({"clients": clients, "switches": switches, "sched": r.next() >> 12, "hash": r.next() >> 12,
           "benign": faults_json(&if r.chance(1, 3) { benign(r, 3, 60, false) } else { vec![] })})
}

pub fn job<'a>(c: &Value, dir: &str, name: &str, out: &str, bytes: Vec<u8>) -> Job<'a> {
    let simplify = !jb(&c["opts"], "nosimplify");
    match js(c, "what") {
        "parse" => {
            let p = format!("{dir}/{name}");
            Box::new(move || match parse_file(&p, simplify) {
                Ok(g) => dump(&g, true).into_bytes(),
                Err(e) => format!("error {e}").into_bytes(),
            })
        }
        "bytes" => Box::new(move || match onnx_ir::OnnxGraphBuilder::new().simplify(simplify).parse_bytes(&bytes) {
            Ok(g) => dump(&g, true).into_bytes(),
            Err(e) => format!("error {e}").into_bytes(),
        }),
        _ => Conv::new(&format!("{dir}/{name}"), out).opts(&c["opts"]).job(),
    }
}

pub fn exec(c: &Value, run: &mut Run) -> Option<Viol> {
    let mut vfs = crate::vfs::Vfs::new();
    vfs.mkdirs("/w");
    vfs.mkdirs("/tmp");
    let cl = ja(c, "clients");
    if cl.is_empty() {
        return None;
    }
    let mut built = vec![];
    for k in cl {
        let b = model(&k["model"], run.ctx)?;
        b.place(&mut vfs, &format!("/w/m{}{}", ju(k, "slot"), model_hash(&k["model"])), "net.onnx");
        built.push(b);
    }
    let jobs = |only: Option<usize>| -> Vec<Job> {
        cl.iter()
            .enumerate()
            .filter(|(i, _)| only.is_none_or(|o| o == *i))
            .map(|(i, k)| {
                job(k, &format!("/w/m{}{}", ju(k, "slot"), model_hash(&k["model"])), "net.onnx", &format!("/w/out{i}"), built[i].bytes.clone())
            })
            .collect()
    };
    let mut alone = vec![];
    let mut total = 0;
    for i in 0..cl.len() {
        let o = run.go(&Env::seeded(1), &vfs, jobs(Some(i)));
        total += o.steps;
        alone.push(o);
    }
    let mut e = Env::seeded(ju(c, "hash"));
    e.sched_seed = ju(c, "sched");
    e.switches = ja(c, "switches")
        .iter()
        .map(|x| (x[0].as_u64().unwrap_or(0) * total / 1_000_000, x[1].as_u64().unwrap_or(0) as u32))
        .collect();
    e.faults = faults_of(c, "benign");
    let o = run.go(&e, &vfs, jobs(None));
    run.hit(o.sched_digest);
    if o.status != crate::inc::Status::Done {
        // A process-wide ending is only legitimate if some client alone ends so.
        if alone.iter().all(|a| a.status == crate::inc::Status::Done) {
            return viol("process_lost", &key(&o.describe()), format!("together: {}", o.describe()), &[&o]);
        }
        return None;
    }
    if o.switches > 0 {
        run.probe("interleaved");
    }
    for i in 0..cl.len() {
        let a = &alone[i];
        let together = &o.res[i];
        match (a.one(), together) {
            (Ok(x), Ok(y)) => {
                if x != y.as_slice() {
                    let (x, y) = (String::from_utf8_lossy(x).into_owned(), String::from_utf8_lossy(y).into_owned());
                    let d = x.lines().zip(y.lines()).find(|(p, q)| p != q);
                    return viol("parse_result", "parse_result", format!("client {i}: parsed graph differs when run together: {d:?}"), &[a, &o]);
                }
                let out = format!("/w/out{i}");
                if let Some(d) = diff(&outputs(&a.vfs, &out), &outputs(&o.vfs, &out)) {
                    return viol("artefacts", "artefacts", format!("client {i}: {d}"), &[a, &o]);
                }
                run.probe("compared");
            }
            (Err(x), Err(y)) => {
                if strip(&x) != strip(y) {
                    run.probe("different refusal text");
                }
            }
            (x, y) => {
                return viol(
                    "acceptance",
                    "acceptance",
                    format!("client {i} alone: {:?}, together: {:?}", x.map(|_| "returned"), y.as_ref().map(|_| "returned")),
                    &[a, &o],
                );
            }
        }
    }
    None
}
