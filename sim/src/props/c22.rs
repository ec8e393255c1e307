//! C22: the names in a model carry no meaning.
use super::common::*;
use crate::alpha;
use crate::bpk;
use crate::core::*;
use crate::gen_::{NODES, Style, WORDS};
use crate::plan::*;
use crate::util::*;
use crate::work::*;
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};

/// Variables that the generator declares for its own use, and which hide a
/// value of the model of that name (known findings).
const LOCALS: &[&str] = &[
    "actual_idx", "argmax_result", "b", "batch_data_stride", "bias", "c", "channels", "col_channels", "data_dims", "data_strides",
    "device", "dim", "dtype", "end_data", "flat_indices", "float_mask", "gathered", "h", "idx_strides", "indices_data",
    "indices_dims", "indices_values", "input_dims", "input_dtype", "k", "k_dims", "k_scaled", "k_transpose", "leading_dim",
    "log_softmax", "lookups_per_batch", "mean", "num_updates", "onnx_shape", "output_flat", "output_size", "q", "q_dims", "r",
    "scale", "shape", "shape_array", "sizes_array", "sizes_data", "slice_size", "softmax", "start_data", "target_height",
    "total_data", "total_data_size", "total_size", "total_slices", "total_updates", "updates_dims", "v", "var", "w",
];

pub fn make(r: &mut Rng, ctx: &Ctx, i: u64) -> Value {
    let n = ctx.corpus.items.len() as u64;
    let m = if i % 3 != 2 && n > 0 {
        json!({"kind": "real", "rel": ctx.corpus.items[((i + ctx.seed * 7) % n) as usize].rel})
    } else {
        let mut m = crate::gen_::recipe(r, &Style { max_layers: 12, ..Style::default() });
        m["kind"] = json!("gen");
        m
    };
    let locals = r.chance(1, 5);
    let many = *r.pick(&[1, 2, 4, 12, 60]);
    let edits: Vec<Value> = (0..r.range(1, many))
        .map(|j| {
            let k = if r.chance(1, 2) { r.below(8) } else { r.below(200) };
            let w = match r.below(8) {
                0 => return json!(["swap", k, r.below(20)]),
                1 => format!("v{j}"),
                2 => r.pick(WORDS).to_string(),
                3 => {
                    let (a, b, c) = (r.pick(NODES).to_string(), 1 + r.below(4), 1 + r.below(2));
                    format!("{a}{b}_out{c}")
                }
                // Equal to another once reduced to an identifier.
                4 | 5 if !locals => return json!(["like", k, r.below(12), r.below(6)]),
                _ if locals => r.pick(LOCALS).to_string(),
                _ => ["T.{}", "T_{}", "t/{}", "T:{}", "t_{}", "T__{}"][r.below(6) as usize].replace("{}", &r.below(3).to_string()),
            };
            json!(["set", k, w])
        })
        .collect();
    json!({"model": m, "edits": edits, "labels": r.below(5), "opts": rand_opts(r), "hashes": [r.next() >> 12, r.next() >> 12],
           "benign": faults_json(&if r.chance(1, 2) { benign(r, 4, 40, true) } else { vec![] })})
}

/// The renaming: names of values that differ still do.
fn plan(names: &[String], edits: &[Value]) -> BTreeMap<String, String> {
    let mut now: Vec<String> = names.to_vec();
    let mut used: BTreeSet<String> = now.iter().cloned().collect();
    let n = now.len() as u64;
    for e in edits {
        if n == 0 {
            break;
        }
        let k = (e[1].as_u64().unwrap_or(0) % n) as usize;
        let to = match e[0].as_str().unwrap_or("") {
            "swap" => {
                let j = (e[2].as_u64().unwrap_or(0) % n) as usize;
                now.swap(k, j);
                continue;
            }
            "like" => {
                let o = now[(e[2].as_u64().unwrap_or(0) % n) as usize].clone();
                match e[3].as_u64().unwrap_or(0) {
                    0 => o.to_uppercase(),
                    1 => o.replace('_', "."),
                    2 => o.replace(['_', '.', ':'], "/"),
                    3 => format!("{o}_"),
                    4 => format!("{o}."),
                    _ => o.replace('_', "__"),
                }
            }
            _ => e[2].as_str().unwrap_or("v").to_string(),
        };
        if used.insert(to.clone()) {
            used.remove(&now[k]);
            now[k] = to;
        }
    }
    names.iter().cloned().zip(now).filter(|(a, b)| a != b).collect()
}

pub fn exec(c: &Value, run: &mut Run) -> Option<Viol> {
    let b = model(&c["model"], run.ctx)?;
    let names = alpha::names(&b.bytes)?;
    let map = plan(&names, ja(c, "edits"));
    let mut k = 0;
    let kind = ju(c, "labels");
    let bytes = alpha::rename(&b.bytes, &map, &mut |old| {
        k += 1;
        match kind {
            1 => None,
            2 => Some("node".into()),
            3 => Some(format!("n{}", (k * 7919) % 1000)),
            4 => Some(names[k % names.len().max(1)].clone()),
            _ => old.map(|s| s.to_string()),
        }
    })?;
    let mut outs = vec![];
    for (j, m) in [&b.bytes, &bytes].into_iter().enumerate() {
        let mut w = crate::gen_::Built { bytes: m.clone(), ..Default::default() };
        w.files = b.files.clone();
        let vfs = world(&w, "/w", "m.onnx");
        let mut e = Env::seeded(c["hashes"][j].as_u64().unwrap_or(1));
        if j == 1 {
            e.faults = faults_of(c, "benign");
        }
        let o = run.go(&e, &vfs, vec![Conv::new("/w/m.onnx", "/w/out").opts(&c["opts"]).job()]);
        outs.push(o);
    }
    let key = |class: &str| format!("{}:{class}", model_key(&c["model"]));
    let ok: Vec<bool> = outs.iter().map(|o| o.res.first().is_some_and(|r| r.is_ok())).collect();
    let what = || format!("{map:?}").chars().take(600).collect::<String>();
    if ok[0] != ok[1] {
        let o = if ok[0] { &outs[1] } else { &outs[0] };
        return viol("refused", &key("refused"), format!("only the model {} is converted: {}; renamed {}", if ok[0] { "as it was" } else { "renamed" }, o.describe(), what()), &[&outs[0], &outs[1]]);
    }
    if !ok[0] {
        run.probe("model rejected");
        return None;
    }
    let src: Vec<String> = outs.iter().map(|o| o.vfs.get("/w/out/m.rs").map(|d| String::from_utf8_lossy(&d).into_owned()).unwrap_or_default()).collect();
    run.hit(fnv(src[1].as_bytes()));
    let (x, y) = match (alpha::canon(&src[0]), alpha::canon(&src[1])) {
        (Ok(x), Ok(y)) => (x, y),
        (Ok(_), Err(e)) => return viol("bad_source", &key("bad_source"), format!("the source generated from the renamed model does not parse: {e}; renamed {}", what()), &[&outs[1]]),
        _ => return None,
    };
    let (xc, yc) = (x, y);
    let (x, y) = (&xc.toks, &yc.toks);
    if x != y {
        let n = x.iter().zip(y).take_while(|(p, q)| p == q).count();
        let cut = |v: &[String]| v[n.saturating_sub(12)..(n + 12).min(v.len())].join(" ");
        let msg = format!("another program is generated: ..{}.. instead of ..{}..; renamed {}", cut(y), cut(x), what());
        // A value of the model that is hidden by a variable of the generator:
        // what both sides mean has the same name on one of them.
        let (p, q) = (x.get(n).cloned().unwrap_or_default(), y.get(n).cloned().unwrap_or_default());
        if let Some(h) = yc.shared(&p, &q).into_iter().chain(xc.shared(&p, &q)).find(|h| LOCALS.contains(h)) {
            if std::env::var("SURVEY").is_ok() {
                run.probe(&format!("H {h}"));
                return None;
            }
            return viol("hidden", &format!("hidden:{h}"), format!("a value called {h} is hidden by a variable of the generated code: {msg}"), &[&outs[0], &outs[1]]);
        }
        if std::env::var("SURVEY").is_ok() {
            run.probe(&format!("V {} {} {}", model_key(&c["model"]), msg.chars().take(300).collect::<String>(), what().replace('"', "'")));
            return None;
        }
        return viol("program", &key("program"), msg, &[&outs[0], &outs[1]]);
    }
    run.probe(if map.is_empty() { "program compared, node names only" } else { "program compared" });
    let w: Vec<Option<Vec<u8>>> = outs.iter().map(|o| o.vfs.get("/w/out/m.bpk").map(|d| bpk::canon(&d))).collect();
    if w[0] != w[1] {
        return viol("weights", &key("weights"), format!("other weights are stored; renamed {}", what()), &[&outs[0], &outs[1]]);
    }
    None
}
