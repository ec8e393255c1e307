//! C03: every weight reaches the weight file bit for bit, and is used where
//! the model uses it.
use super::common::*;
use crate::core::*;
use crate::gen_::{Exp, Style};
use crate::plan::*;
use crate::util::*;
use crate::work::*;
use crate::{bpk, flow, onnx, rsrc};
use serde_json::{Value, json};
use std::collections::BTreeMap;

pub fn make(r: &mut Rng, ctx: &Ctx, i: u64) -> Value {
    let n = ctx.corpus.items.len() as u64;
    let m = if i % 5 == 0 && n > 0 {
        json!({"kind": "real", "rel": ctx.corpus.items[((i / 5 + ctx.seed * 7) % n) as usize].rel})
    } else {
        let big = r.chance(1, 4);
        crate::gen_::recipe(r, &Style { max_layers: 12, big, ..Style::default() })
    };
    let mut o = rand_opts(r);
    if is_real(&m) {
        // Constant folding legitimately makes new weights; only unfolded
        // conversions of models we did not make can be compared.
        o["nosimplify"] = json!(true);
    }
    json!({"model": m, "opts": o, "hash": r.next() >> 12,
           "faults": faults_json(&if r.chance(2, 3) { benign(r, 1 + ctx.seed % 2 + 4, 60, true) } else { vec![] })})
}

/// Shapes that denote the same tensor in the weight file.
fn same_shape(model: &[i64], file: &[usize]) -> bool {
    let sq = |v: Vec<u64>| -> Vec<u64> { v.into_iter().filter(|d| *d != 1).collect() };
    let a: Vec<u64> = model.iter().map(|d| *d as u64).collect();
    let b: Vec<u64> = file.iter().map(|d| *d as u64).collect();
    a == b || sq(a) == sq(b)
}

pub fn exec(c: &Value, run: &mut Run) -> Option<Viol> {
    let b = model(&c["model"], run.ctx)?;
    let conv = Conv::new("m.onnx", "/w/out").opts(&c["opts"]);
    let vfs = world(&b, "/w", "m.onnx");
    let mut e = Env::seeded(ju(c, "hash"));
    e.faults = faults_of(c, "faults");
    let o = run.go(&e, &vfs, vec![conv.job()]);
    if !o.ok() {
        run.probe("model rejected");
        if std::env::var("SURVEY").is_ok() && is_real(&c["model"]) {
            run.probe(&format!("X {} {}", model_key(&c["model"]), o.describe().chars().take(150).collect::<String>()));
        }
        if std::env::var("SURVEY").is_ok() && !is_real(&c["model"]) {
            run.probe(&format!("R {}", o.describe().chars().filter(|c| !c.is_ascii_digit()).take(260).collect::<String>()));
        }
        if model_key(&c["model"]).starts_with("crates/onnx-tests/tests/") {
            return viol("refused", &format!("{}:refused", model_key(&c["model"])), format!("a model shipped as convertible was refused: {}", o.describe()), &[&o]);
        }
        if !is_real(&c["model"]) {
            // Supported operators in their usual form are accepted. Refused,
            // loudly, are an operator set too old for an operator, weights
            // that are computed, and empty names for trailing inputs.
            let d = o.describe();
            let usual = ja(&c["model"], "layers").iter().all(|l| ju(l, "via") == 0 && !jb(l, "void"));
            if usual && !d.contains("Unsupported opset version") {
                return viol("refused", "generated:refused", format!("a model of supported operators was refused: {d}"), &[&o]);
            }
            // How a weight is stored does not decide over its model.
            let mut moved = 0;
            let plain = crate::gen_::build_with(&c["model"], &mut |_, t| {
                if matches!(t.chan, onnx::Chan::Typed | onnx::Chan::Ext(..)) {
                    t.chan = onnx::Chan::Raw;
                    moved += 1;
                }
            });
            if moved > 0 {
                let p = run.go(&Env::seeded(ju(c, "hash")), &world(&plain, "/w", "m.onnx"), vec![conv.job()]);
                run.probe("rejected model tried with its weights stored plainly");
                if p.ok() {
                    return viol("refused_form", "generated:refused_form", format!("with its weights as raw bytes inside the model it converts, as they are stored it does not: {}", o.describe()), &[&o]);
                }
            }
        }
        return None;
    }
    let k = |s: &str| format!("{}:{s}", model_key(&c["model"]));
    let Some(src) = o.vfs.get("/w/out/m.rs") else {
        return viol("no_source", &k("no_source"), "converted, but no source file", &[&o]);
    };
    let Some(w) = o.vfs.get("/w/out/m.bpk") else {
        return viol("no_weights", &k("no_weights"), "converted, but no weight file", &[&o]);
    };
    let w = match bpk::parse(&w) {
        Ok(w) => w,
        Err(x) => return viol("bad_weights", &k("bad_weights"), format!("weight file unreadable: {x}"), &[&o]),
    };
    let src = String::from_utf8_lossy(&src).into_owned();
    run.hit(mix(fnv(src.as_bytes()), fnv(format!("{w:?}").as_bytes())));
    let r = if is_real(&c["model"]) { real(&b, &w, &src, run) } else { generated(&b, &w, &src, run) };
    r.and_then(|(class, msg)| viol(class, &k(class), msg, &[&o]))
}

/// Shipped models: nothing in the weight file that the model does not hold.
fn real(b: &crate::gen_::Built, w: &bpk::Bpk, src: &str, run: &mut Run) -> Option<(&'static str, String)> {
    let s = onnx::survey(&b.bytes, &b.files)?;
    let rnn = s.ops.keys().any(|o| matches!(o.as_str(), "LSTM" | "GRU" | "RNN"));
    let mut left: BTreeMap<(i32, u64), u64> = BTreeMap::new();
    for t in &s.tensors {
        *left.entry((t.dt, fnv(&t.data))).or_insert(0) += 1;
    }
    if rnn || s.unreadable > 0 {
        run.probe("real model with recurrent weights: skipped");
        return None;
    }
    for t in &w.tensors {
        if !left.contains_key(&(dt_of_name(&t.dtype), fnv(&t.data))) {
            return Some(("foreign_weight", format!("weight file tensor {} {} {:?} is no tensor of the model", t.path, t.dtype, t.shape)));
        }
    }
    run.probe("real model compared");
    // Weights that can be told apart by their bytes.
    let mut mine: BTreeMap<u64, u64> = BTreeMap::new();
    for t in &s.tensors {
        *mine.entry(fnv(&t.data)).or_insert(0) += 1;
    }
    let mut field: BTreeMap<u64, Option<String>> = BTreeMap::new();
    for t in &w.tensors {
        let f = t.path.split('.').next().unwrap_or("").to_string();
        field.entry(fnv(&t.data)).and_modify(|x| *x = None).or_insert(Some(f));
    }
    field.retain(|d, _| mine.get(d) == Some(&1));
    let known: std::collections::BTreeSet<String> = field.values().flatten().cloned().collect();
    let a = flow::of_model(&b.bytes, &b.files, true, &|t| field.get(&fnv(&t.data)).cloned().flatten())?;
    let c = flow::of_source(src, &a.ins, &|f| known.contains(f).then(|| f.to_string()))?;
    if let Some(o) = &c.odd {
        run.probe(&format!("flow of a shipped model not compared: {o}"));
        return None;
    }
    run.probe("flow of a shipped model compared");
    let none = flow::Set::new();
    for (f, u) in &c.up {
        if let Some(x) = u.difference(a.up.get(f).unwrap_or(&none)).next() {
            return Some(("wrong_flow", format!("weights of {f} are combined with what depends on {x}; in the model they are not ({:?})", a.up.get(f))));
        }
    }
    for (i, (o, m)) in c.outs.iter().zip(&a.outs).enumerate() {
        if let Some(x) = o.difference(m).next() {
            return Some(("wrong_flow", format!("output {i} depends on {x}; in the model it does not")));
        }
    }
    None
}

/// Generated models: the same data flow in the model and in the source.
fn same_flow(b: &crate::gen_::Built, at: &[usize], w: &bpk::Bpk, src: &str, run: &mut Run) -> Option<(&'static str, String)> {
    let mut vague: Vec<bool> = b.exp.iter().enumerate().map(|(i, x)| {
        b.exp.iter().filter(|y| y.data == x.data).count() > 1 || w.tensors.iter().filter(|t| t.data == w.tensors[at[i]].data).count() > 1
    }).collect();
    let field = |i: usize| w.tensors[at[i]].path.split('.').next().unwrap_or("").to_string();
    // One vague part makes its field and its unit vague.
    loop {
        let bad: Vec<usize> = (0..vague.len()).filter(|i| !vague[*i] && (0..vague.len()).any(|j| vague[j] && (field(j) == field(*i) || b.exp[j].unit == b.exp[*i].unit))).collect();
        if bad.is_empty() {
            break;
        }
        bad.into_iter().for_each(|i| vague[i] = true);
    }
    // Parts that ended up in one field (a product and its bias) are one.
    let clear: Vec<usize> = (0..vague.len()).filter(|i| !vague[*i]).collect();
    let mut unit: BTreeMap<String, String> = clear.iter().map(|i| (b.exp[*i].unit.clone(), b.exp[*i].unit.clone())).collect();
    {
        for (i, j) in clear.iter().flat_map(|i| clear.iter().map(move |j| (*i, *j))).filter(|(i, j)| i < j && field(*i) == field(*j)) {
            let (a, c) = (unit[&b.exp[i].unit].clone(), unit[&b.exp[j].unit].clone());
            unit.values_mut().filter(|v| **v == c).for_each(|v| *v = a.clone());
        }
    }
    let mut fields = BTreeMap::new();
    let mut tensors = BTreeMap::new();
    for i in clear {
        let u = unit[&b.exp[i].unit].clone();
        fields.insert(field(i), u.clone());
        tensors.insert(b.exp[i].tensor.clone(), u);
    }
    let a = flow::of_model(&b.bytes, &b.files, false, &|t| tensors.get(&t.name).cloned())?;
    let c = flow::of_source(src, &a.ins, &|f| fields.get(f).cloned())?;
    if let Some(o) = &c.odd {
        run.probe(&format!("flow not compared: {o}"));
        return None;
    }
    run.probe("flow compared");
    let none = flow::Set::new();
    for u in fields.values() {
        let (m, s) = (a.up.get(u).unwrap_or(&none), c.up.get(u).unwrap_or(&none));
        if m != s {
            return Some(("wrong_flow", format!("weights of part {u} are combined with what depends on {s:?}; in the model with {m:?}")));
        }
    }
    if a.outs != c.outs {
        return Some(("wrong_flow", format!("outputs depend on {:?}; in the model on {:?}", c.outs, a.outs)));
    }
    None
}

/// What a cast to f32 makes of the elements (the simplifier folds casts of
/// constants).
fn to_f32(dt: i32, d: &[u8]) -> Vec<u8> {
    let w = onnx::width(dt);
    let mut out = vec![];
    for c in d.chunks_exact(w) {
        let mut b = [0u8; 8];
        b[..w].copy_from_slice(c);
        let u = u64::from_le_bytes(b);
        let f = match dt {
            onnx::F64 => f64::from_bits(u) as f32,
            onnx::F16 => {
                let (s, e, m) = ((u >> 15) as u32 & 1, (u >> 10) as i32 & 31, u as u32 & 0x3ff);
                // The generator makes normal numbers only.
                f32::from_bits(s << 31 | ((e + 112) as u32) << 23 | m << 13)
            }
            onnx::BF16 => f32::from_bits((u as u32) << 16),
            onnx::I64 => u as i64 as f32,
            onnx::I32 => u as u32 as i32 as f32,
            onnx::I16 => u as u16 as i16 as f32,
            onnx::I8 => u as u8 as i8 as f32,
            onnx::U64 => u as f32,
            onnx::U32 => u as u32 as f32,
            onnx::BOOL => (u != 0) as u32 as f32,
            _ => u as f32,
        };
        out.extend_from_slice(&f.to_le_bytes());
    }
    out
}

/// Find a place for expectation `i`, moving others if need be.
fn settle(i: usize, cands: &BTreeMap<usize, Vec<usize>>, owner: &mut Vec<Option<usize>>, seen: &mut Vec<usize>) -> bool {
    for j in &cands[&i] {
        if seen.contains(j) {
            continue;
        }
        seen.push(*j);
        if owner[*j].is_none_or(|o| settle(o, cands, owner, seen)) {
            owner[*j] = Some(i);
            return true;
        }
    }
    false
}

pub fn generated(b: &crate::gen_::Built, w: &bpk::Bpk, src: &str, run: &mut Run) -> Option<(&'static str, String)> {
    let exp: &[Exp] = &b.exp;
    let mut owner: Vec<Option<usize>> = vec![None; w.tensors.len()];
    let mut cands: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
    // expectation index -> weight file index
    let mut at = vec![usize::MAX; exp.len()];
    // A tensor that several layers use may be stored once.
    let dup = |i: usize| exp[..i].iter().any(|y| y.tensor == exp[i].tensor && y.role == exp[i].role);
    let (again, first): (Vec<usize>, Vec<usize>) = (0..exp.len()).partition(|i| dup(*i));
    for i in first.into_iter().chain(again) {
        let x = &exp[i];
        let folded = if x.dt == onnx::F32 { vec![] } else { to_f32(x.dt, &x.data) };
        let fits = |j: usize| {
            let t = &w.tensors[j];
            let dt = dt_of_name(&t.dtype);
            let same = dt == x.dt && t.data == x.data || x.dt != onnx::F32 && dt == onnx::F32 && t.data == folded;
            same && same_shape(&x.dims, &t.shape)
        };
        let role_of = |j: usize| w.tensors[j].path.split_once('.').map(|p| p.1.to_string()).unwrap_or_default();
        let mut cand: Vec<usize> = (0..w.tensors.len()).filter(|j| fits(*j)).collect();
        cand.sort_by_key(|j| (role_of(*j) != x.role) as u8);
        let best = cand.iter().copied().find(|j| owner[*j].is_none()).or_else(|| {
            cands.insert(i, cand.clone());
            settle(i, &cands, &mut owner, &mut vec![]).then(|| owner.iter().position(|o| *o == Some(i))).flatten()
        });
        cands.insert(i, cand);
        for (j, o) in owner.iter().enumerate() {
            if let Some(o) = o {
                at[*o] = j;
            }
        }
        // A constant that several layers use is stored once.
        let best = best.or_else(|| (0..i).find(|k| exp[*k].tensor == x.tensor && exp[*k].role == x.role).map(|k| at[k]));
        match best {
            Some(j) => {
                let r = role_of(j);
                // Different small tensors can have equal bytes; a unique match must also have the right role.
                let twins = exp.iter().filter(|y| y.data == x.data && y.dt == x.dt).count();
                if twins == 1 && !r.is_empty() && !x.role.is_empty() && r != x.role {
                    return Some(("wrong_role", format!("{} of layer {} ended up as {}", x.role, x.layer, w.tensors[j].path)));
                }
                owner[j].get_or_insert(i);
                at[i] = j;
            }
            None => {
                return Some(("lost_weight", format!("layer {} {:?} {} {:?} is not in the weight file: {:?}", x.layer, x.role, dt_name(x.dt), x.dims,
                    w.tensors.iter().map(|t| format!("{} {} {:?}", t.path, t.dtype, t.shape)).collect::<Vec<_>>())));
            }
        }
    }
    // A tied weight may be stored once per use.
    if let Some(j) = (0..owner.len()).find(|j| owner[*j].is_none() && !exp.iter().any(|x| x.data == w.tensors[*j].data)) {
        return Some(("foreign_weight", format!("weight file tensor {} {:?} is no weight of the model", w.tensors[j].path, w.tensors[j].shape)));
    }
    // Each field is used by the layer its value belongs to: the order of use
    // in the generated forward pass is the order of the layers.
    let s = match rsrc::parse(src) {
        Ok(s) => s,
        Err(e) => return Some(("bad_source", format!("generated source does not parse: {e}"))),
    };
    // A linear layer says how its matrix is laid out.
    if let Ok(h) = crate::shape::look(src) {
        for (i, x) in exp.iter().enumerate().filter(|(_, x)| x.lin > 0) {
            let twin = |y: &Exp| y.data == x.data && y.lin != x.lin;
            let Some(f) = w.tensors[at[i]].path.strip_suffix(".weight").filter(|_| !exp.iter().any(twin)) else { continue };
            let Some(d) = h.decls.get(f).filter(|d| d.kind == "LinearConfig::new") else { continue };
            let col = d.with.get("layout").is_some_and(|l| l == &[1]);
            if col != (x.lin == 1) {
                return Some(("wrong_layout", format!("layer {} applies its matrix {}, field {f} is declared with {} layout", x.layer, if x.lin == 1 { "transposed" } else { "as it is" }, if col { "column" } else { "row" })));
            }
            run.probe("layout compared");
        }
    }
    let order = rsrc::use_order(src, &s.fields);
    let mut seq: Vec<(usize, &Exp)> = vec![];
    for (i, x) in exp.iter().enumerate() {
        let tied = w.tensors.iter().filter(|t| t.data == w.tensors[at[i]].data).count() > 1;
        if tied || exp.iter().filter(|y| y.data == x.data).count() > 1 {
            continue;
        }
        let f = w.tensors[at[i]].path.split('.').next().unwrap_or("").to_string();
        match order.iter().position(|o| *o == f) {
            Some(p) => seq.push((p, x)),
            None => return Some(("unused_weight", format!("field {f} (layer {} {}) is never used in forward", x.layer, x.role))),
        }
    }
    seq.sort_by_key(|s| s.0);
    for p in seq.windows(2) {
        if p[0].1.layer > p[1].1.layer {
            return Some(("wrong_place", format!("layer {} {:?} is used before layer {} {:?}; order of use {:?}", p[0].1.layer, p[0].1.role, p[1].1.layer, p[1].1.role, order)));
        }
    }
    run.probe("generated model compared");
    same_flow(b, &at, w, src, run)
}
