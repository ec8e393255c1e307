mod alpha;
mod args;
mod bpk;
mod pb;
mod core;
mod edit;
mod corpus;
mod flow;
mod gen_;
mod inc;
mod onnx;
mod plan;
mod props;
mod rsrc;
mod shape;
mod seam;
mod util;
mod vfs;
mod work;

use crate::core::*;
use serde_json::{Value, json};
use std::collections::BTreeMap;
use std::time::Instant;

#[global_allocator]
static A: seam::SimAlloc = seam::SimAlloc;

fn usage() -> ! {
    eprintln!("usage: onnxsim check <property> [--tier quick|thorough] [--cases N] [--budget S] [--root DIR] | replay <file> | one <property> <index> | list");
    std::process::exit(2)
}
fn arg(a: &[String], k: &str) -> Option<String> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned()
}
fn prop(id: &str) -> &'static Prop {
    props::ALL.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {id}");
        std::process::exit(2)
    })
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let root = arg(&a, "--root").unwrap_or_else(|| "/verif".into());
    let repo = arg(&a, "--repo").unwrap_or_else(|| "/repo".into());
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = arg(&a, "--tier").unwrap_or_else(|| "quick".into());
    let mut ctx = Ctx { corpus: corpus::Corpus::load(&repo), thorough: tier == "thorough", seed };
    match a.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in props::ALL {
                println!("{}", p.id);
            }
        }
        // The other build's half of C17.
        Some("peer") => props::c17::serve(&ctx),
        Some("one") => {
            let p = prop(a.get(2).map(|s| s.as_str()).unwrap_or_else(|| usage()));
            let i: u64 = a.get(3).and_then(|s| s.parse().ok()).unwrap_or_else(|| usage());
            let case = make_case(p, &ctx, i);
            println!("{}", serde_json::to_string_pretty(&case).unwrap());
            let mut r = Run::new(&ctx);
            show(&(p.exec)(&case, &mut r), &r);
        }
        Some("replay") => {
            let f = a.get(2).unwrap_or_else(|| usage());
            let v: Value = serde_json::from_slice(&std::fs::read(f).expect("replay file")).expect("json");
            let p = prop(v["property"].as_str().unwrap_or(""));
            let mut r = Run::new(&ctx);
            let res = (p.exec)(&v["case"], &mut r);
            show(&res, &r);
            let same = format!("{:016x}", r.digest) == v["digest"].as_str().unwrap_or("");
            println!("digest {:016x} ({})", r.digest, if same { "as recorded" } else { "differs from the recorded run" });
            if res.is_some() {
                println!("VIOLATION property={} replay={f}", p.id);
                std::process::exit(1);
            }
        }
        // Debugging aid: the source generated for a replay's model.
        Some("show") => {
            let f = a.get(2).unwrap_or_else(|| usage());
            let v: Value = serde_json::from_slice(&std::fs::read(f).expect("replay file")).expect("json");
            let m = props::common::model(&v["case"]["model"], &ctx).expect("model");
            if let Some(p) = a.get(3) {
                std::fs::write(p, &m.bytes).unwrap();
            }
            let vfs = props::common::world(&m, "/w", "m.onnx");
            let mut r = Run::new(&ctx);
            let o = r.go(&plan::Env::seeded(1), &vfs, vec![work::Conv::new("m.onnx", "/w/out").opts(&v["case"]["opts"]).job()]);
            println!("{}", o.describe());
            println!("{}", String::from_utf8_lossy(&o.vfs.get("/w/out/m.rs").unwrap_or_default()));
        }
        Some("check") => {
            let p = prop(a.get(2).map(|s| s.as_str()).unwrap_or_else(|| usage()));
            std::process::exit(check(p, &mut ctx, &a, &root, &tier));
        }
        _ => usage(),
    }
}

fn show(v: &Option<Viol>, r: &Run) {
    match v {
        None => println!("no violation"),
        Some(v) => {
            println!("class {}\nkey   {}\n{}", v.class, v.key, v.msg);
            for l in &v.trace {
                println!("  {l}");
            }
        }
    }
    println!("processes {} fired {:?} endings {:?} probes {:?}", r.st.incarnations, r.st.fired, r.st.statuses, r.st.probes);
}

fn check(p: &Prop, ctx: &mut Ctx, a: &[String], root: &str, tier: &str) -> i32 {
    let t0 = Instant::now();
    let thorough = tier == "thorough";
    let total = arg(a, "--cases").and_then(|s| s.parse().ok()).unwrap_or(if thorough { u64::MAX / 4 } else { p.quick });
    let budget = arg(a, "--budget").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 1200 } else { 240 });
    let nw = arg(a, "--workers")
        .and_then(|s| s.parse().ok())
        .unwrap_or(std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4));
    let tag = arg(a, "--config").unwrap_or_default();
    let known = findings(root);
    let (st, bad, lost) = explore(p, ctx, &known, total, budget, nw);
    let mut extra: BTreeMap<String, Value> = BTreeMap::new();
    if !tag.is_empty() {
        extra.insert("build_configuration".into(), json!(tag));
    }
    let mut code = 0;
    let mut nviol = 0;
    for k in known.iter().filter(|k| k.property == p.id) {
        let n = st.findings.get(&k.key).copied().unwrap_or(0);
        println!("KNOWN-FINDING: property={} {} (met {n} times in this run)", p.id, k.what);
    }
    if let Some(f) = bad {
        nviol = 1;
        let (case, v, tries) = shrink(p, &f.case, &f.viol, ctx, 40);
        let mut r = Run::new(ctx);
        let again = (p.exec)(&case, &mut r);
        let dir = format!("{root}/evidence/replay");
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{}-{}{}.json", p.id, f.index, if tag.is_empty() { String::new() } else { format!("-{tag}") });
        let file = json!({
            "property": p.id, "seed": ctx.seed, "index": f.index, "config": tag, "class": v.class, "key": v.key, "message": v.msg,
            "case": case, "original_case": f.case, "shrink_attempts": tries, "digest": format!("{:016x}", r.digest), "trace": v.trace,
        });
        std::fs::write(&path, serde_json::to_vec_pretty(&file).unwrap()).expect("write replay");
        println!("{} [{}] {}", v.class, v.key, v.msg);
        for l in v.trace.iter().take(60) {
            println!("  {l}");
        }
        println!("seed {} case {} ; minimised in {tries} attempts ; reproduces: {}", ctx.seed, f.index, again.is_some_and(|w| w.class == v.class));
        println!("VIOLATION property={} replay={path}", p.id);
        code = 1;
    }
    let wall = t0.elapsed().as_secs_f64();
    let ev = evidence(p, ctx, &st, wall, nviol, tier, &extra);
    let ef = arg(a, "--evidence").unwrap_or_else(|| format!("{root}/evidence/{}.json", p.id));
    let _ = std::fs::create_dir_all(format!("{root}/evidence"));
    std::fs::write(&ef, serde_json::to_vec_pretty(&ev).unwrap()).expect("write evidence");
    println!(
        "{}: {} cases, {} simulated processes, {} distinct, rechecks {}/{} differ, {:.1}s, faults {:?}, endings {:?}, probes {:?}",
        p.id, st.cases, st.incarnations, st.distinct.len(), st.recheck_diff, st.recheck, wall, st.fired, st.statuses, st.probes
    );
    if code == 0 && (lost > 0 || st.cases == 0) {
        eprintln!("harness error: {lost} workers lost, {} cases", st.cases);
        return 3;
    }
    code
}
