//! C05: a torn model or side file is refused.
use super::common::*;
use crate::core::*;
use crate::gen_::{Built, Style};
use crate::onnx::{self, Chan};
use crate::plan::*;
use crate::util::*;
use crate::work::*;
use serde_json::{Value, json};

pub fn make(r: &mut Rng, ctx: &Ctx, i: u64) -> Value {
    let n = ctx.corpus.items.len() as u64;
    let side = r.chance(2, 5);
    let mut m = if i % 4 == 0 && n > 0 && !side {
        json!({"kind": "real", "rel": ctx.corpus.items[((i / 4 + ctx.seed * 13) % n) as usize].rel})
    } else {
        let big = r.chance(1, 8);
        crate::gen_::recipe(r, &Style { max_layers: 7, ext: side, big, ..Style::default() })
    };
    if !is_real(&m) {
        m["opset_first"] = json!(r.chance(1, 4));
        if side {
            for l in m["layers"].as_array_mut().unwrap() {
                if r.chance(1, 2) {
                    l["ch"] = json!("ext");
                }
            }
        }
    }
    // Cuts near field and tensor borders are the interesting ones.
    let cut: Vec<Value> = (0..r.range(2, 5))
        .map(|_| json!({"kind": *r.pick(&["any", "any", "mark", "tail", "head", "start_of_top_field"]), "at": r.below(1_000_000), "delta": r.below(7)}))
        .collect();
    json!({"model": m, "opts": rand_opts(r), "side": side, "edits": cut, "hash": r.next() >> 12,
           "what": *r.pick(&["convert", "convert", "file", "reader"]),
           "faults": faults_json(&if r.chance(1, 3) { benign(r, 3, 40, true) } else { vec![] })})
}

fn position(e: &Value, len: usize, marks: &[usize], tops: &[usize]) -> usize {
    let at = ju(e, "at") as u128;
    let scaled = (at * len as u128 / 1_000_000) as usize;
    let d = ju(e, "delta") as i64 - 3;
    let near = |m: usize| (m as i64 + d).clamp(0, len as i64) as usize;
    let p = match js(e, "kind") {
        "mark" if !marks.is_empty() => near(marks[(at as usize) % marks.len()]),
        "start_of_top_field" if !tops.is_empty() => tops[(at as usize) % tops.len()],
        "tail" => len.saturating_sub(1 + ju(e, "delta") as usize),
        "head" => ju(e, "delta") as usize,
        _ => scaled,
    };
    p.min(len.saturating_sub(1))
}

pub fn exec(c: &Value, run: &mut Run) -> Option<Viol> {
    let b = model(&c["model"], run.ctx)?;
    let conv = Conv::new("/w/m.onnx", "/w/out").opts(&c["opts"]);
    let vfs = world(&b, "/w", "m.onnx");
    let base = run.go(&Env::seeded(1), &vfs, vec![conv.job()]);
    if !base.ok() {
        run.probe("model rejected");
        return None;
    }
    let k = |s: &str| format!("{}:{s}", model_key(&c["model"]));
    let simp = conv.simplify;
    for e in ja(c, "edits") {
        let mut env = Env::seeded(ju(c, "hash"));
        env.faults = faults_of(c, "faults");
        if jb(c, "side") {
            let files: Vec<&String> = b.files.keys().collect();
            if files.is_empty() {
                return None;
            }
            let f = files[(ju(e, "at") as usize / 7) % files.len()];
            let data = &b.files[f];
            let used: Vec<(usize, usize)> = ranges(&b, f);
            let marks: Vec<usize> = used.iter().flat_map(|u| [u.0, u.0 + u.1]).collect();
            let need = marks.iter().max().copied().unwrap_or(0);
            let p = position(e, data.len().max(1), &marks, &[]);
            if p >= need {
                run.probe("cut beyond the used part");
                continue;
            }
            run.hit(mix(fnv(data), p as u64));
            let mut v = vfs.clone();
            v.put(&format!("/w/{f}"), data[..p].to_vec());
            let o = run.go(&env, &v, vec![conv.job()]);
            run.probe("side file cut");
            if !matches!(o.status, crate::inc::Status::Done) {
                return viol("not_refused_cleanly", &k("side_not_refused_cleanly"), format!("side file cut to {p} of {} bytes: {}", data.len(), o.describe()), &[&o]);
            }
            if o.ok() {
                return viol("torn_side_file_accepted", &k("torn_side_file_accepted"),
                    format!("side file {f} cut to {p} of {} bytes (used up to {need}), conversion succeeded", data.len()), &[&o]);
            }
        } else {
            let (g, op) = onnx::landmarks(&b.bytes)?;
            let tops = onnx::top_fields(&b.bytes);
            let p = position(e, b.bytes.len(), &[g, op], &tops);
            if p >= g.max(op) {
                run.probe("cut after the graph");
                continue;
            }
            run.hit(mix(fnv(&b.bytes), p as u64));
            let mut v = vfs.clone();
            v.put("/w/m.onnx", b.bytes[..p].to_vec());
            let torn = b.bytes[..p].to_vec();
            let o = match js(c, "what") {
                "file" => run.go(&env, &v, vec![Box::new(move || { onnx_ir::OnnxGraphBuilder::new().simplify(simp).parse_file("/w/m.onnx").map(|_| ()).unwrap(); vec![] })]),
                "reader" => run.go(&env, &v, vec![Box::new(move || { onnx_ir::OnnxGraphBuilder::new().simplify(simp).parse_reader(&torn[..]).map(|_| ()).unwrap(); vec![] })]),
                _ => run.go(&env, &v, vec![conv.job()]),
            };
            run.probe("model file cut");
            if !matches!(o.status, crate::inc::Status::Done) {
                return viol("not_refused_cleanly", &k("not_refused_cleanly"), format!("model cut to {p} of {} bytes: {}", b.bytes.len(), o.describe()), &[&o]);
            }
            if o.ok() {
                return viol("torn_model_accepted", &k("torn_model_accepted"),
                    format!("model cut to {p} of {} bytes (graph ends at {g}, operator sets at {op}), {} succeeded", b.bytes.len(), js(c, "what")), &[&o]);
            }
            if outputs(&o.vfs, "/w/out").keys().any(|f| f.ends_with(".bpk") || f.ends_with(".rs")) {
                return viol("artefacts_from_torn_model", &k("artefacts_from_torn_model"), format!("model cut to {p} bytes was refused, but artefacts were written"), &[&o]);
            }
        }
    }
    None
}

/// Byte ranges of a side file that the model needs.
pub fn ranges(b: &Built, file: &str) -> Vec<(usize, usize)> {
    b.all
        .iter()
        .filter(|t| !b.dead.contains(&t.name))
        .filter_map(|t| match &t.chan {
            Chan::Ext(f, o, _) if f == file => Some((o.as_ref().and_then(|o| o.parse().ok()).unwrap_or(0), t.data.len())),
            _ => None,
        })
        .collect()
}
