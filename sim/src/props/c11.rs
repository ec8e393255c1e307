//! C11: malformed input cannot take the host process down.
use super::common::*;
use crate::core::*;
use crate::gen_::Style;
use crate::inc::{Job, Status};
use crate::pb;
use crate::plan::*;
use crate::util::*;
use crate::work::*;
use serde_json::{Value, json};

pub fn make(r: &mut Rng, ctx: &Ctx, i: u64) -> Value {
    let n = ctx.corpus.items.len() as u64;
    let m = if i % 2 == 0 && n > 0 {
        json!({"kind": "real", "rel": ctx.corpus.items[((i / 2 + ctx.seed * 131) % n) as usize].rel})
    } else {
        crate::gen_::recipe(r, &Style { max_layers: 7, ..Style::default() })
    };
    let k = *r.pick(&[1u64, 1, 1, 2, 3, 5, 9]);
    let edits: Vec<Value> = (0..k).map(|_| json!({"what": *r.pick(pb::KINDS), "a": r.next() >> 24, "b": r.next() >> 24, "c": r.next() >> 24})).collect();
    let flips: Vec<Value> = (0..if r.chance(1, 8) { r.range(1, 5) } else { 0 }).map(|_| json!([r.below(1_000_001), r.below(256)])).collect();
    json!({"model": m, "edits": edits, "vars": flips, "opts": rand_opts(r), "hash": r.next() >> 12,
           "what": *r.pick(&["convert", "convert", "convert", "bytes", "reader"]), "splice": r.chance(1, 30), "small": r.chance(1, 2)})
}

pub fn damaged(c: &Value, b: &crate::gen_::Built) -> Vec<u8> {
    let mut bytes = match pb::parse(&b.bytes, pb::Ty::Model, 0) {
        Some(mut m) => {
            for e in ja(c, "edits") {
                pb::damage(&mut m, e);
            }
            pb::enc(&m)
        }
        None => b.bytes.clone(),
    };
    if jb(c, "splice") {
        bytes.extend_from_slice(&b.bytes);
    }
    for f in ja(c, "vars") {
        if !bytes.is_empty() {
            let at = (f[0].as_u64().unwrap_or(0) as u128 * (bytes.len() - 1) as u128 / 1_000_000) as usize;
            bytes[at] = f[1].as_u64().unwrap_or(0) as u8;
        }
    }
    bytes
}

pub fn exec(c: &Value, run: &mut Run) -> Option<Viol> {
    let b = model(&c["model"], run.ctx)?;
    let bytes = damaged(c, &b);
    let mut vfs = world(&b, "/w", "m.onnx");
    vfs.put("/w/m.onnx", bytes.clone());
    // Generous for the host, far beyond what these inputs can need.
    // Half the runs have the stack Rust gives a spawned thread.
    let stack = if jb(c, "small") { 2 << 20 } else { 8 << 20 };
    let e = Env { stack, max_alloc: (128 << 20) + bytes.len() as u64 * 16, max_live: (256 << 20) + bytes.len() as u64 * 400, ..Env::seeded(ju(c, "hash")) };
    let conv = Conv::new("/w/m.onnx", "/w/out").opts(&c["opts"]);
    let simp = conv.simplify;
    let by = bytes.clone();
    let job: Job = match js(c, "what") {
        "convert" => conv.job(),
        w => {
            let stream = w == "reader";
            Box::new(move || {
                let g = onnx_ir::OnnxGraphBuilder::new().simplify(simp);
                let r = if stream { g.parse_reader(&by[..]) } else { g.parse_bytes(&by) };
                match r {
                    Ok(g) => enc_values(&values(&g)),
                    Err(e) => panic!("{e}"),
                }
            })
        }
    };
    let o = run.go(&e, &vfs, vec![job]);
    run.hit(fnv(&bytes));
    if o.status != Status::Done {
        let what: Vec<&str> = ja(c, "edits").iter().map(|e| js(e, "what")).collect();
        return viol("host_taken_down", &format!("{}:{}:{}", model_key(&c["model"]), what.join("+"), key(&o.describe())), format!("a damaged model ({} bytes, damage {what:?}) ended the process: {} (largest request {}, peak {}, {} steps)", bytes.len(), o.describe(), o.biggest, o.peak, o.steps), &[&o]);
    }
    run.probe(if o.ok() { "survived as valid" } else { "refused" });
    for e in ja(c, "edits") {
        run.probe(&format!("damage {}", js(e, "what")));
    }
    None
}
