//! C10: constants stay valid while the graph lives, and nothing stays behind.
use super::common::*;
use crate::core::*;
use crate::gen_::Style;
use crate::inc::{Job, Status};
use crate::plan::*;
use crate::util::*;
use crate::work::*;
use onnx_ir::{Argument, OnnxGraph, OnnxGraphBuilder};
use serde_json::{Value, json};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::mpsc;

const STEPS: &[&str] = &[
    "read", "read", "read", "hold", "hold", "check", "check", "unlink_model", "replace_model", "move_dir", "unlink_side", "move_side", "clone", "args",
    "drop_graph", "read_args", "read_args", "reparse", "convert", "dump", "scratch",
];

pub fn make(r: &mut Rng, ctx: &Ctx, i: u64) -> Value {
    let mode = *r.pick(&["hist", "hist", "hist", "swap", "threads"]);
    let ext = mode != "swap";
    let m = real_or_gen(r, ctx, if i % 4 == 0 { 100 } else { 0 }, &Style { max_layers: 7, ext, ..Style::default() });
    let other = crate::gen_::recipe(r, &Style { max_layers: 5, ext: false, ..Style::default() });
    let steps: Vec<&str> = (0..r.range(2, 14)).map(|_| *r.pick(STEPS)).collect();
    let faults: Vec<Value> = (0..if r.chance(1, 4) { r.range(1, 3) } else { 0 })
        .map(|_| json!({"frac": r.below(1_000_001), "kind": r.pick(HARD).name(), "arg": r.below(40), "sticky": r.chance(1, 5)}))
        .collect();
    let acts: Vec<Value> = (0..r.range(1, 4)).map(|_| json!({"what": *r.pick(&["unlink", "replace", "replace", "away", "back"]), "frac": r.below(1_000_001)})).collect();
    let n = r.range(1, 60);
    let switches: Vec<Value> = (0..n).map(|_| json!([r.below(1_000_000), r.below(3)])).collect();
    json!({"mode": mode, "model": m, "other": other, "from": *r.pick(&["file", "file", "file", "bytes", "reader"]), "nosimplify": r.chance(1, 3),
           "opts": rand_opts(r), "steps": steps, "faults": faults, "acts": acts, "switches": switches, "sched": r.next() >> 12, "hash": r.next() >> 12,
           "convert": r.chance(1, 2)})
}

fn parse(from: &str, path: &str, simplify: bool) -> Result<OnnxGraph, String> {
    let b = OnnxGraphBuilder::new().simplify(simplify);
    let r = match from {
        "file" => b.parse_file(path),
        "bytes" => b.parse_bytes(&std::fs::read(path).map_err(|e| e.to_string())?),
        _ => b.parse_reader(std::fs::File::open(path).map_err(|e| e.to_string())?),
    };
    r.map_err(|e| e.to_string())
}
fn const_args(g: &OnnxGraph) -> Vec<Argument> {
    let mut v = vec![];
    fn go(g: &OnnxGraph, v: &mut Vec<Argument>) {
        for n in &g.nodes {
            v.extend(n.inputs().iter().filter(|a| a.is_constant() || a.is_static()).cloned());
            match n {
                onnx_ir::Node::If(x) => {
                    go(&x.config.then_branch, v);
                    go(&x.config.else_branch, v);
                }
                onnx_ir::Node::Loop(x) => go(&x.config.body, v),
                onnx_ir::Node::Scan(x) => go(&x.config.body, v),
                _ => {}
            }
        }
    }
    go(g, &mut v);
    v
}
fn read_args(v: &[Argument]) -> Vec<u8> {
    let vals: Vec<_> = v.iter().filter_map(|a| a.value()).map(|d| (format!("{:?}", d.dtype), d.shape.clone(), d.bytes.to_vec())).collect();
    enc_values(&vals)
}

/// A history of uses; the answer lists each step with what was read.
fn history(c: &Value, files: Vec<String>, orig: Vec<u8>, junk: Vec<u8>) -> Vec<u8> {
    let simplify = !jb(c, "nosimplify");
    let mut e = Enc::default();
    let mut dir = "/w/d".to_string();
    let mut say = |s: &str, r: Result<Vec<u8>, ()>| {
        e.str(s);
        match r {
            Ok(b) => {
                e.str("ok");
                e.bytes(&b);
            }
            Err(()) => {
                e.str("failed");
                e.bytes(b"");
            }
        }
    };
    let caught = |f: &mut dyn FnMut() -> Vec<u8>| catch_unwind(AssertUnwindSafe(f)).map_err(|_| ());
    let mut g = match parse(js(c, "from"), "/w/d/m.onnx", simplify) {
        Ok(g) => Some(g),
        Err(_) => {
            say("refused", Err(()));
            return e.0;
        }
    };
    let text = g.as_ref().map(|g| dump(g, false)).unwrap_or_default();
    let mut held = vec![];
    let mut held_is = vec![];
    let mut args: Vec<Argument> = vec![];
    for s in ja(c, "steps") {
        let s = s.as_str().unwrap_or("");
        match s {
            "read" => {
                if let Some(g) = &g {
                    say("read", caught(&mut || enc_values(&values(g))));
                }
            }
            "hold" => {
                if let Some(g) = &g {
                    let mut h = vec![];
                    if caught(&mut || {
                        h = const_args(g).iter().filter_map(|a| a.value()).collect::<Vec<_>>();
                        vec![]
                    })
                    .is_ok()
                    {
                        held_is = h.iter().map(|d| d.bytes.to_vec()).collect::<Vec<_>>();
                        held = h;
                    }
                }
            }
            "check" => {
                let vals: Vec<_> = held.iter().map(|d| (format!("{:?}", d.dtype), d.shape.clone(), d.bytes.to_vec())).collect();
                if vals.iter().map(|x| &x.2).ne(held_is.iter()) {
                    say("held_changed", Err(()));
                }
                if !held.is_empty() {
                    say("read", Ok(enc_values(&vals)));
                }
            }
            "unlink_model" => {
                let _ = std::fs::remove_file(format!("{dir}/m.onnx"));
            }
            "replace_model" => {
                let _ = std::fs::write("/w/tmpfile", &junk);
                let _ = std::fs::rename("/w/tmpfile", format!("{dir}/m.onnx"));
            }
            "move_dir" => {
                if std::fs::rename(&dir, "/w/e").is_ok() {
                    dir = "/w/e".into();
                    say("side_gone", Ok(vec![]));
                }
            }
            "unlink_side" => {
                for f in &files {
                    let _ = std::fs::remove_file(format!("{dir}/{f}"));
                }
                say("side_gone", Ok(vec![]));
            }
            "move_side" => {
                for f in &files {
                    let _ = std::fs::rename(format!("{dir}/{f}"), "/w/moved");
                }
                say("side_gone", Ok(vec![]));
            }
            "clone" => {
                let n = g.clone();
                drop(g.take());
                g = n;
            }
            "args" => {
                if let Some(g) = &g {
                    args = const_args(g);
                }
            }
            "read_args" => {
                if !args.is_empty() {
                    say("read", caught(&mut || read_args(&args)));
                }
            }
            "drop_graph" => g = None,
            "reparse" => {
                // Another use of what is there now, dropped at once.
                let _ = catch_unwind(AssertUnwindSafe(|| parse(js(c, "from"), &format!("{dir}/m.onnx"), simplify).map(|g| values(&g).len())));
            }
            "convert" => {
                let _ = std::fs::create_dir_all("/w/x");
                let _ = std::fs::write("/w/x/m.onnx", &orig);
                let conv = Conv::new("/w/x/m.onnx", "/w/out").opts(&c["opts"]);
                let _ = catch_unwind(AssertUnwindSafe(|| conv.run()));
            }
            "dump" => {
                if let Some(g) = &g {
                    if dump(g, false) != text {
                        say("structure_changed", Err(()));
                    }
                }
            }
            "scratch" => {
                // Reuse of freed memory by the host.
                let v: Vec<Vec<u8>> = (0..40).map(|k| vec![0xa5u8; 8 << (k % 12)]).collect();
                std::hint::black_box(&v);
            }
            _ => {}
        }
    }
    e.0
}

pub fn exec(c: &Value, run: &mut Run) -> Option<Viol> {
    let b = model(&c["model"], run.ctx)?;
    let simplify = !jb(c, "nosimplify");
    let k = |s: &str| format!("{}:{s}", model_key(&c["model"]));
    let mut vfs = crate::vfs::Vfs::new();
    for d in ["/w", "/tmp", "/w/d"] {
        vfs.mkdirs(d);
    }
    b.place(&mut vfs, "/w/d", "m.onnx");
    let e = Env::seeded(ju(c, "hash"));
    let full = |path: &'static str, from: String| -> Job {
        Box::new(move || match parse(&from, path, simplify) {
            Ok(g) => enc_values(&values(&g)),
            Err(e) => panic!("{e}"),
        })
    };
    let leak = |o: &crate::inc::Out, what: &str| -> Option<Viol> {
        if o.status == Status::Done && (!o.leaked_fds.is_empty() || o.leaked_maps > 0) {
            return viol("left_behind", &k("left_behind"), format!("{what} ended ({}) with {:?} open and {} mappings", o.describe(), o.leaked_fds, o.leaked_maps), &[o]);
        }
        None
    };
    let base = run.go(&e, &vfs, vec![full("/w/d/m.onnx", js(c, "from").to_string())]);
    if let Some(v) = leak(&base, "parsing") {
        return Some(v);
    }
    let Ok(want) = base.one().map(|x| x.to_vec()) else {
        run.probe("model rejected");
        return None;
    };
    match js(c, "mode") {
        "hist" => {
            let ob = crate::gen_::build(&c["other"]);
            let files: Vec<String> = b.files.keys().cloned().collect();
            let (cc, bytes) = (c.clone(), b.bytes.clone());
            let has_side = !files.is_empty();
            let h: Job = Box::new(move || history(&cc, files, bytes, ob.bytes));
            let mut ef = e.clone();
            ef.faults = super::c07::plan(c, base.iops * 2);
            let faulty = !ef.faults.is_empty();
            let o = run.go(&ef, &vfs, vec![h]);
            run.hit(mix(o.digest, fnv(c["model"].to_string().as_bytes())));
            if o.status != Status::Done {
                return viol("bad_ending", &k("bad_ending"), format!("history ended as {}", o.describe()), &[&o]);
            }
            if let Some(v) = leak(&o, "the history") {
                return Some(v);
            }
            let Ok(ans) = o.one().map(|x| x.to_vec()) else {
                if faulty {
                    return None;
                }
                return viol("history_fails", &k("history_fails"), format!("history ended as {}", o.describe()), &[&o]);
            };
            let mut d = Dec(&ans);
            let mut side_gone = false;
            while let (Some(what), Some(st), Some(by)) = (d.str(), d.str(), d.bytes()) {
                match what.as_str() {
                    "side_gone" => side_gone = true,
                    "read" if st == "ok" => {
                        run.probe("read back");
                        if by != want {
                            return viol("value_changed", &k("value_changed"), format!("constants read in {} are not the model's", c["steps"]), &[&base, &o]);
                        }
                    }
                    "read" => {
                        if !faulty && !(side_gone && has_side) {
                            return viol("value_lost", &k("value_lost"), format!("constants could not be read in {}", c["steps"]), &[&base, &o]);
                        }
                        run.probe("read refused");
                    }
                    "refused" => {
                        if !faulty {
                            return viol("refused", &k("refused"), "the model was accepted before", &[&base, &o]);
                        }
                    }
                    other => return viol(other, &k(other), format!("{other} in {}", c["steps"]), &[&base, &o]),
                }
            }
        }
        "swap" => {
            // Somebody replaces the model file while it is read: the result
            // belongs to one of the two files, entirely.
            let ob = crate::gen_::build(&c["other"]);
            vfs.put("/w/other.onnx", ob.bytes.clone());
            let from = js(c, "from").to_string();
            let conv = Conv::new("/w/d/m.onnx", "/w/out").opts(&c["opts"]);
            let convert = jb(c, "convert");
            let what = |p: &'static str| -> Job {
                if convert { Conv { inputs: vec![p.into()], ..conv.clone() }.job() } else { full(p, from.clone()) }
            };
            let mut w2 = vfs.clone();
            w2.put("/w/d/m.onnx", ob.bytes.clone());
            let a = run.go(&e, &vfs, vec![what("/w/d/m.onnx")]);
            let b2 = run.go(&e, &w2, vec![what("/w/d/m.onnx")]);
            let mut ef = e.clone();
            for (n, x) in ja(c, "acts").iter().enumerate() {
                ef.acts.push(match js(x, "what") {
                    "unlink" => Act::Unlink("/w/d/m.onnx".into()),
                    "replace" => Act::Replace("/w/d/m.onnx".into(), ob.bytes.clone()),
                    "away" => Act::Rename("/w/d/m.onnx".into(), "/w/away.onnx".into()),
                    _ => Act::Replace("/w/d/m.onnx".into(), b.bytes.clone()),
                });
                let at = (ju(x, "frac") as u128 * a.iops.min(if convert { 40 } else { 400 }) as u128 / 1_000_000) as u64;
                ef.faults.push(Fault { at, kind: FaultKind::Act, arg: n as u64, sticky: false });
            }
            let o = run.go(&ef, &vfs, vec![what("/w/d/m.onnx")]);
            run.hit(mix(o.digest, fnv(c["acts"].to_string().as_bytes())));
            if let Some(v) = leak(&o, "reading a file being replaced") {
                return Some(v);
            }
            if !o.ok() {
                run.probe("refused while being replaced");
                return None;
            }
            let fits = |x: &crate::inc::Out| x.ok() && x.one().ok() == o.one().ok() && diff(&outputs(&x.vfs, "/w/out"), &outputs(&o.vfs, "/w/out")).is_none();
            if fits(&a) {
                run.probe("saw the old file");
            } else if fits(&b2) {
                run.probe("saw the new file");
            } else {
                return viol("mixture", &k("mixture"), format!("under {} the result belongs to neither file", c["acts"]), &[&a, &b2, &o]);
            }
        }
        _ => {
            // One thread parses, the others read clones while the file goes.
            let (t1, r1) = mpsc::channel::<OnnxGraph>();
            let (t2, r2) = mpsc::channel::<OnnxGraph>();
            let from = js(c, "from").to_string();
            let has_side = !b.files.is_empty();
            let j0: Job = Box::new(move || {
                let g = parse(&from, "/w/d/m.onnx", simplify).unwrap_or_else(|e| panic!("{e}"));
                let _ = t1.send(g.clone());
                let _ = t2.send(g.clone());
                if !has_side {
                    let _ = std::fs::remove_file("/w/d/m.onnx");
                }
                let v = enc_values(&values(&g));
                drop(g);
                v
            });
            let reader = |r: mpsc::Receiver<OnnxGraph>| -> Job {
                Box::new(move || {
                    let g = r.recv().expect("graph");
                    let a = const_args(&g);
                    let v = enc_values(&values(&g));
                    drop(g);
                    let w = read_args(&a);
                    assert!(v.len() == w.len() && v == w, "two readings differ");
                    v
                })
            };
            let mut ef = e.clone();
            ef.sched_seed = ju(c, "sched");
            ef.switches =
                ja(c, "switches").iter().map(|x| (x[0].as_u64().unwrap_or(0) * base.steps * 2 / 1_000_000, x[1].as_u64().unwrap_or(0) as u32)).collect();
            let o = run.go(&ef, &vfs, vec![j0, reader(r1), reader(r2)]);
            run.hit(o.sched_digest);
            if let Some(v) = leak(&o, "shared reading") {
                return Some(v);
            }
            if !o.ok() {
                return viol("shared_reading", &k("shared_reading"), format!("threads sharing a graph: {}", o.describe()), &[&o]);
            }
            if o.res.iter().any(|r| r.as_ref().ok() != Some(&want)) {
                return viol("value_changed", &k("value_changed"), "a thread read other constants from a shared graph", &[&base, &o]);
            }
            run.probe("shared graph read");
        }
    }
    None
}
