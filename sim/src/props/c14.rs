//! C14: a batch equals separate conversions; what was converted, refused or
//! interrupted before in the same process does not matter.
use super::common::*;
use crate::core::*;
use crate::gen_::Style;
use crate::inc::Status;
use crate::plan::*;
use crate::util::*;
use crate::work::*;
use serde_json::{Value, json};
use std::collections::BTreeMap;
use std::panic::{AssertUnwindSafe, catch_unwind};

const NAMES: &[&str] = &["a", "b", "net", "my_model", "Net2", "x-y", "net.v1", "net.v2", "m odel", "net_v1"];

pub fn make(r: &mut Rng, ctx: &Ctx, i: u64) -> Value {
    let nm = r.range(2, 5);
    let models: Vec<Value> = (0..nm)
        .map(|_| real_or_gen(r, ctx, if i % 3 == 0 { 60 } else { 15 }, &Style { max_layers: 8, ..Style::default() }))
        .collect();
    let dots = r.chance(1, 8);
    let names: Vec<usize> = {
        let mut v: Vec<usize> = (0..NAMES.len()).filter(|k| dots || !NAMES[*k].contains('.')).collect();
        r.shuffle(&mut v);
        v.truncate(nm as usize);
        v
    };
    let n = r.range(2, 7);
    let steps: Vec<Value> = (0..n)
        .map(|_| {
            let k = if r.chance(1, 2) { 1 } else { r.range(2, 4) };
            let ins: Vec<Value> = (0..k)
                .map(|_| {
                    let bad = r.chance(1, 7);
                    json!({"m": r.below(nm), "bad": if bad { *r.pick(&["missing", "torn", "garbage", "dir", "ext"]) } else { "" }, "cut": r.below(1000)})
                })
                .collect();
            json!({"ins": ins, "opts": rand_opts(r), "dir": r.below(3), "again": r.chance(1, 6), "what": *r.pick(&["cli", "cli", "cli", "parse", "script"])})
        })
        .collect();
    let mut faults = vec![];
    if r.chance(1, 2) {
        for _ in 0..r.range(1, 3) {
            faults.push(Fault { at: r.below(400), kind: *r.pick(HARD), arg: r.below(4000), sticky: false });
        }
        faults.extend(benign(r, 3, 200, false));
    }
    json!({"models": models, "names": names.iter().map(|k| NAMES[*k]).collect::<Vec<_>>(), "steps": steps, "faults": faults_json(&faults), "hash": r.next() >> 12})
}

fn stem(n: &str) -> String {
    // What with_extension makes of it.
    match n.rfind('.') {
        Some(p) if p > 0 => n[..p].to_string(),
        _ => n.to_string(),
    }
}

fn parse_text(p: &str, simplify: bool) -> String {
    match catch_unwind(AssertUnwindSafe(|| parse_file(p, simplify).map(|g| dump(&g, true)))) {
        Ok(Ok(t)) => t,
        Ok(Err(e)) => format!("error {}\n", strip(&e)),
        Err(e) => format!("panic {}\n", strip(e.downcast_ref::<String>().map(|s| s.as_str()).unwrap_or(""))),
    }
}

struct Step {
    /// (input path, name, accepted elsewhere?)
    ins: Vec<(String, String, bool)>,
    out: String,
    opts: Value,
    again: bool,
    what: String,
}

pub fn exec(c: &Value, run: &mut Run) -> Option<Viol> {
    let mut vfs = crate::vfs::Vfs::new();
    vfs.mkdirs("/w/dir.onnx");
    vfs.mkdirs("/tmp");
    let names: Vec<String> = ja(c, "names").iter().map(|n| n.as_str().unwrap_or("a").to_string()).collect();
    let models = ja(c, "models");
    if names.is_empty() || models.is_empty() {
        return None;
    }
    let mut built = vec![];
    for (i, m) in models.iter().enumerate() {
        let b = model(m, run.ctx)?;
        b.place(&mut vfs, &format!("/w/m{i}"), &format!("{}.onnx", names[i % names.len()]));
        built.push(b);
    }
    let mut steps = vec![];
    for (si, s) in ja(c, "steps").iter().enumerate() {
        let mut ins = vec![];
        for (k, x) in ja(s, "ins").iter().enumerate() {
            let m = ju(x, "m") as usize % models.len();
            let n = names[m % names.len()].clone();
            let good = format!("/w/m{m}/{n}.onnx");
            match js(x, "bad") {
                "" => {
                    // One name once per call: two inputs of one name share their outputs.
                    if ins.iter().any(|(_, y, _): &(String, String, bool)| *y == n) {
                        continue;
                    }
                    ins.push((good, n, true))
                }
                "missing" => ins.push(("/w/none.onnx".into(), "none".into(), false)),
                "dir" => ins.push(("/w/dir.onnx".into(), "dir".into(), false)),
                b => {
                    let bytes = &built[m].bytes;
                    let cut = (bytes.len() as u64 * ju(x, "cut") / 1000) as usize;
                    let data = match b {
                        "torn" => bytes[..cut].to_vec(),
                        "ext" => {
                            // The model without its side files.
                            if !built[m].files.is_empty() { bytes.clone() } else { vec![] }
                        }
                        _ => bytes.iter().rev().copied().collect(),
                    };
                    let p = format!("/w/bad{si}_{k}/bad{si}_{k}.onnx");
                    vfs.put(&p, data);
                    ins.push((p, format!("bad{si}_{k}"), false));
                }
            }
        }
        if ins.is_empty() {
            continue;
        }
        steps.push(Step {
            ins,
            out: format!("/w/out{}", ju(s, "dir")),
            opts: s["opts"].clone(),
            again: jb(s, "again"),
            what: js(s, "what").to_string(),
        });
    }
    // The history, in one process.
    let mut e = Env::seeded(ju(c, "hash"));
    e.faults = faults_of(c, "faults");
    e.vars.push(("OUT_DIR".into(), "/w".into()));
    let st = &steps;
    let o = run.go(
        &e,
        &vfs,
        vec![Box::new(move || {
            let mut doc = vec![];
            for s in st {
                let mut conv = Conv::new(&s.ins[0].0, &s.out).opts(&s.opts);
                conv.inputs = s.ins.iter().map(|x| x.0.clone()).collect();
                let r = catch_unwind(AssertUnwindSafe(|| match s.what.as_str() {
                    "parse" => {
                        let mut t = String::new();
                        for i in &conv.inputs {
                            t += &parse_text(i, conv.simplify);
                        }
                        t
                    }
                    w => {
                        if w == "script" {
                            conv.script = true;
                            conv.out = conv.out.trim_start_matches("/w/").to_string();
                        }
                        if s.again {
                            // The same generator object used twice, as inputs come in.
                            let mut g = burn_onnx::ModelGen::new();
                            g.out_dir(&conv.out).development(conv.dev).embed_states(conv.embed).simplify(conv.simplify);
                            for i in &conv.inputs {
                                g.input(i);
                                if conv.script { g.run_from_script() } else { g.run_from_cli() }
                            }
                        } else {
                            conv.run();
                        }
                        String::new()
                    }
                }));
                doc.push(match r {
                    Ok(t) => json!([true, t]),
                    Err(e) => json!([false, e.downcast_ref::<String>().cloned().unwrap_or_default()]),
                });
            }
            serde_json::to_vec(&doc).unwrap()
        })],
    );
    run.hit(o.digest);
    if o.status != Status::Done {
        // Only an abnormal end some fresh process shares is allowed.
        for s in &steps {
            for x in &s.ins {
                let a = run.go(&Env::seeded(1), &vfs, vec![Conv::new(&x.0, &s.out).opts(&s.opts).job()]);
                if a.status != Status::Done {
                    return None;
                }
            }
        }
        return viol("process_lost", &key(&o.describe()), format!("the history ended: {}", o.describe()), &[&o]);
    }
    let doc: Vec<Value> = serde_json::from_slice(o.res[0].as_ref().ok()?).ok()?;
    // Each input alone, in a fresh process.
    let mut memo: BTreeMap<String, (bool, BTreeMap<String, Vec<u8>>)> = BTreeMap::new();
    let mut expect: BTreeMap<String, (Vec<u8>, String)> = BTreeMap::new();
    let mut unknown: std::collections::BTreeSet<String> = Default::default();
    let fired: u64 = o.fired.iter().filter(|(k, _)| HARD.iter().any(|h| h.name() == k.as_str())).map(|x| *x.1).sum();
    let mut spent = 0;
    for (si, s) in steps.iter().enumerate() {
        let ok = doc[si][0].as_bool().unwrap_or(false);
        if s.what == "parse" {
            if !ok {
                return viol("history", "parse_panic", format!("step {si}: parsing panicked: {}", doc[si][1]), &[&o]);
            }
            let (i, simp) = (s.ins.iter().map(|x| x.0.clone()).collect::<Vec<_>>(), !jb(&s.opts, "nosimplify"));
            let a = run.go(
                &Env::seeded(1),
                &vfs,
                vec![Box::new(move || {
                    let mut t = String::new();
                    for i in &i {
                        t += &parse_text(i, simp);
                    }
                    t.into_bytes()
                })],
            );
            if let Ok(t) = a.one() {
                let t = String::from_utf8_lossy(t).into_owned();
                let u = doc[si][1].as_str().unwrap_or("");
                if t != u {
                    spent += 1;
                    if spent > fired {
                        let d = t.lines().zip(u.lines()).find(|(p, q)| p != q);
                        return viol("history", "parse_differs", format!("step {si}: a fresh process parses differently: {d:?}"), &[&a, &o]);
                    }
                }
            }
            continue;
        }
        let mut refused = false;
        for (pi, (p, n, _)) in s.ins.iter().enumerate() {
            let mut conv = Conv::new(p, &s.out).opts(&s.opts);
            if s.what == "script" {
                conv.script = true;
                conv.out = s.out.trim_start_matches("/w/").to_string();
            }
            let k = format!("{p} {} {} {}", s.out, s.opts, s.what);
            if !memo.contains_key(&k) {
                let mut fe = Env::seeded(1);
                fe.vars.push(("OUT_DIR".into(), "/w".into()));
                let a = run.go(&fe, &vfs, vec![conv.job()]);
                memo.insert(k.clone(), (a.ok(), outputs(&a.vfs, &s.out)));
            }
            let (aok, aout) = &memo[&k];
            let base = format!("{}/{}", s.out, stem(n));
            let base2 = format!("{}/{}", s.out, n);
            let touch = |m: &mut BTreeMap<String, (Vec<u8>, String)>, u: &mut std::collections::BTreeSet<String>| {
                for b in [&base, &base2] {
                    for x in ["rs", "bpk"] {
                        m.remove(&format!("{b}.{x}"));
                        u.insert(format!("{b}.{x}"));
                    }
                }
            };
            if refused {
                // After the refusal: may or may not have been converted.
                touch(&mut expect, &mut unknown);
                continue;
            }
            if !aok {
                refused = true;
                touch(&mut expect, &mut unknown);
                if ok {
                    return viol("acceptance", "accepted_in_history", format!("step {si}: {p} is refused alone but the call with it returned"), &[&o]);
                }
                continue;
            }
            if !ok && s.ins[pi..].iter().all(|x| x.2) && pi + 1 == s.ins.len() {
                // Everything in this call is accepted alone.
                spent += 1;
                if spent > fired {
                    return viol(
                        "acceptance",
                        "refused_in_history",
                        format!("step {si}: every input is accepted alone, the call failed: {}", strip(doc[si][1].as_str().unwrap_or(""))),
                        &[&o],
                    );
                }
            }
            if !ok && fired > 0 {
                touch(&mut expect, &mut unknown);
                continue;
            }
            touch(&mut expect, &mut unknown);
            for (f, d) in aout {
                unknown.remove(f);
                expect.insert(f.clone(), (d.clone(), format!("step {si}, input {pi} ({p})")));
            }
            run.probe("expected artefacts");
        }
        if !ok && !refused && fired == 0 {
            return viol("acceptance", "refused_in_history", format!("step {si}: every input is accepted alone, the call failed: {}", doc[si][1]), &[&o]);
        }
    }
    // Two inputs of one call that end on the same output name although their
    // own names differ.
    for (si, s) in steps.iter().enumerate() {
        if s.what == "parse" || doc[si][0] != json!(true) {
            continue;
        }
        for (i, x) in s.ins.iter().enumerate() {
            for y in &s.ins[..i] {
                if x.1 != y.1 && stem(&x.1) == stem(&y.1) && x.2 && y.2 {
                    let have = outputs(&o.vfs, &s.out);
                    let rs = have.keys().filter(|k| k.ends_with(".rs")).count();
                    if !have.contains_key(&format!("{}/{}.rs", s.out, x.1)) && rs > 0 {
                        return viol(
                            "overwritten",
                            "dotted_stem",
                            format!("{} and {} of one call are both written to {}/{}.rs", x.0, y.0, s.out, stem(&x.1)),
                            &[&o],
                        );
                    }
                }
            }
        }
    }
    let have = outputs(&o.vfs, "/w");
    for (f, (d, who)) in &expect {
        match have.get(f) {
            None => return viol("artefacts", "missing", format!("{f} of {who} does not exist"), &[&o]),
            Some(h) if h != d => {
                let one = |x: &Vec<u8>| BTreeMap::from([(f.clone(), x.clone())]);
                return viol("artefacts", "differs", format!("{who}: {}", diff(&one(d), &one(h)).unwrap_or_default()), &[&o]);
            }
            _ => run.probe("artefact compared"),
        }
    }
    None
}
