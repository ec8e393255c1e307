//! C23: two ways of writing the same model give the same program.
use super::common::*;
use crate::alpha;
use crate::bpk;
use crate::core::*;
use crate::edit;
use crate::gen_::{Built, Style};
use crate::inc::Out;
use crate::pb::{self, Ty};
use crate::plan::*;
use crate::util::*;
use crate::vfs::Vfs;
use crate::work::*;
use serde_json::{Value, json};

pub fn make(r: &mut Rng, ctx: &Ctx, i: u64) -> Value {
    let n = ctx.corpus.items.len() as u64;
    let m = if i % 4 != 3 && n > 0 {
        json!({"kind": "real", "rel": ctx.corpus.items[((i + ctx.seed * 13) % n) as usize].rel})
    } else {
        let mut m = crate::gen_::recipe(r, &Style { max_layers: 10, ..Style::default() });
        m["kind"] = json!("gen");
        m
    };
    let many = *r.pick(&[1, 2, 3, 6, 12]);
    let edits: Vec<Value> = (0..r.range(1, many))
        .map(|_| {
            let kind = *r.pick(edit::KINDS);
            json!([kind, r.below(400), r.below(1000), r.below(1000)])
        })
        .collect();
    let mut opts = rand_opts(r);
    opts["embed"] = json!(false);
    json!({"model": m, "edits": edits, "opts": opts, "hashes": [r.next() >> 12, r.next() >> 12],
           "benign": faults_json(&if r.chance(1, 2) { benign(r, 4, 40, true) } else { vec![] })})
}

fn convert(c: &Value, run: &mut Run, b: &Built, bytes: &[u8], j: usize) -> Out {
    let mut w = Built { bytes: bytes.to_vec(), ..Default::default() };
    w.files = b.files.clone();
    let vfs: Vfs = world(&w, "/w", "m.onnx");
    let mut e = Env::seeded(c["hashes"][j].as_u64().unwrap_or(1));
    if j == 1 {
        e.faults = faults_of(c, "benign");
    }
    run.go(&e, &vfs, vec![Conv::new("/w/m.onnx", "/w/out").opts(&c["opts"]).job()])
}
fn edited(bytes: &[u8], edits: &[Value]) -> Option<(Vec<u8>, Vec<String>)> {
    let mut m = pb::parse(bytes, Ty::Model, 0)?;
    let labels = edits.iter().filter_map(|e| edit::apply(&mut m, e)).collect();
    Some((pb::enc(&m), labels))
}
fn source(o: &Out) -> String {
    o.vfs.get("/w/out/m.rs").map(|d| String::from_utf8_lossy(&d).into_owned()).unwrap_or_default()
}
/// Numbers as 32-bit floats, the precision of attributes.
fn plain(t: &mut [String]) {
    for x in t {
        let d = x.trim_end_matches("f32").trim_end_matches("f64");
        if x.starts_with(|c: char| c.is_ascii_digit()) && (x.contains('.') || d.len() < x.len()) {
            if let Ok(v) = d.replace('_', "").parse::<f64>() {
                *x = format!("{:?}", v as f32);
            }
        }
    }
}
/// The statements, fields and arguments of a program, without the numbers in
/// names and without their order.
fn bag(t: &[String]) -> Vec<String> {
    let mut v: Vec<String> = t
        .split(|t| matches!(t.as_str(), ";" | "," | "{" | "}"))
        .map(|p| {
            let p: Vec<String> = p.join(" ").replace(" . clone ( )", "").split(' ').map(String::from).collect();
            let w: Vec<&str> = p
                .iter()
                .map(|t| if t.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_') { t.trim_end_matches(|c: char| c.is_ascii_digit()) } else { t })
                .collect();
            w.join(" ")
        })
        .collect();
    v.sort();
    v
}
/// Does the edit move constants, and with them numbers and places?
fn loose(label: &str) -> bool {
    ["node order", "initializer", "Constant", "unused", "field order", "unknown"].iter().any(|p| label.starts_with(p))
}
/// What differs, as class and description.
fn compare(a: &Out, b: &Out, loose: bool) -> Option<(&'static str, String)> {
    let ok = |o: &Out| o.res.first().is_some_and(|r| r.is_ok());
    match (ok(a), ok(b)) {
        (false, false) => return None,
        (true, false) => return Some(("refused", format!("only the model as it was is converted: {}", b.describe()))),
        (false, true) => return Some(("refused", format!("only the edited model is converted: {}", a.describe()))),
        _ => {}
    }
    match (alpha::canon(&source(a)), alpha::canon(&source(b))) {
        (Ok(mut x), Ok(mut y)) => {
            plain(&mut x.toks);
            plain(&mut y.toks);
            let (x, y) = if loose { (bag(&x.toks), bag(&y.toks)) } else { (x.toks, y.toks) };
            if x != y && loose {
                let less = |a: &[String], b: &[String]| {
                    let mut left = b.to_vec();
                    a.iter().filter(|t| left.iter().position(|u| u == *t).map(|i| left.swap_remove(i)).is_none()).cloned().collect::<Vec<_>>()
                };
                let cut = |v: Vec<String>| v.join(" ; ").chars().take(400).collect::<String>();
                return Some(("program", format!("another program is generated: [{}] instead of [{}]", cut(less(&y, &x)), cut(less(&x, &y)))));
            }
            if x != y {
                let n = x.iter().zip(&y).take_while(|(p, q)| p == q).count();
                let cut = |v: &[String]| v[n.saturating_sub(12)..(n + 12).min(v.len())].join(" ");
                return Some(("program", format!("another program is generated: ..{}.. instead of ..{}..", cut(&y), cut(&x))));
            }
        }
        (Ok(_), Err(e)) => return Some(("bad_source", format!("the source generated from the edited model does not parse: {e}"))),
        _ => return None,
    }
    let w = |o: &Out| {
        o.vfs.get("/w/out/m.bpk").map(|d| match bpk::parse(&d) {
            Ok(p) if loose => {
                let mut v: Vec<String> = p.tensors.iter().map(|t| format!("{} {:?} {:?}", t.dtype, t.shape, t.data)).collect();
                v.sort();
                v.join("\n").into_bytes()
            }
            _ => bpk::canon(&d),
        })
    };
    (w(a) != w(b)).then(|| ("weights", "other weights are stored".to_string()))
}

pub fn exec(c: &Value, run: &mut Run) -> Option<Viol> {
    let b = model(&c["model"], run.ctx)?;
    let edits = ja(c, "edits");
    let (bytes, labels) = edited(&b.bytes, edits)?;
    if labels.is_empty() {
        run.probe("no edit applies");
        return None;
    }
    let one = convert(c, run, &b, &b.bytes, 0);
    let two = convert(c, run, &b, &bytes, 1);
    run.hit(fnv(source(&two).as_bytes()) ^ fnv(&bytes));
    for l in &labels {
        run.probe(l.split(' ').next().unwrap_or(""));
    }
    if !one.res.first().is_some_and(|r| r.is_ok()) && !two.res.first().is_some_and(|r| r.is_ok()) {
        run.probe("model rejected");
        return None;
    }
    if labels.iter().any(|l| l.starts_with("identity")) && one.res.first().is_some_and(|r| r.is_ok()) && two.res.first().is_some_and(|r| r.is_ok()) {
        // Fusions look for direct neighbours: only acceptance is compared.
        run.probe("acceptance compared");
        return None;
    }
    let (class, msg) = compare(&one, &two, labels.iter().any(|l| loose(l)))?;
    // Which of the edits does it?
    let mut what = "several".to_string();
    if labels.len() > 1 {
        // The first edit, in order, after which something differs.
        let mut had = 0;
        for k in 1..=edits.len() {
            let Some((bytes, l)) = edited(&b.bytes, &edits[..k]) else { break };
            if l.len() == had {
                continue;
            }
            had = l.len();
            if l.iter().any(|l| l.starts_with("identity")) {
                break;
            }
            let o = convert(c, run, &b, &bytes, 1);
            if compare(&one, &o, l.iter().any(|l| loose(l))).is_some() {
                what = l[l.len() - 1].clone();
                break;
            }
        }
    } else {
        what = labels[0].clone();
    }
    if std::env::var("SURVEY").is_ok() {
        run.probe(&format!("V {class} {what} {} {}", model_key(&c["model"]), msg.chars().take(1200).collect::<String>().replace('"', "'")));
        return None;
    }
    let site = what.strip_prefix("add ").or(what.strip_prefix("drop ")).unwrap_or(&what);
    viol(class, &if site == "several" { format!("{class}:several:{}", model_key(&c["model"])) } else { format!("{class}:{site}") }, format!("{what}: {msg}; edits {labels:?}"), &[&one, &two])
}
