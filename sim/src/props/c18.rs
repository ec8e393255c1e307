//! C18: the entry point, the working directory and the spelling of the paths
//! change the embedded locations and nothing else.
use super::common::*;
use crate::core::*;
use crate::gen_::Style;
use crate::inc::{Job, Out, Status};
use crate::plan::*;
use crate::util::*;
use crate::vfs::{Entry, Vfs};
use crate::work::*;
use serde_json::{Value, json};
use std::collections::BTreeSet;

/// The shipped command, entered through its own `main`.
mod tool {
    include!("/repo/crates/burn-onnx/src/bin/onnx2burn.rs");
    pub fn entry() -> bool {
        std::process::Termination::report(main()) == std::process::ExitCode::SUCCESS
    }
}

/// Names a directory may have on a user's machine.
const DIRS: &[&str] = &["in", "in", "in", "my models", "mod\u{e8}les", "it's", "a\"b", "back\\slash", "{x}", "100%", "a.b", "x.onnx", "-v", "#1"];
const STEMS: &[&str] = &["m", "m", "m", "Net_2", "my-model", "\u{e9}t\u{e9}", "a b", "{}", "type"];

pub fn make(r: &mut Rng, ctx: &Ctx, i: u64) -> Value {
    let mut m = real_or_gen(r, ctx, if i % 4 == 0 { 100 } else { 0 }, &Style { max_layers: 7, ext: true, ..Style::default() });
    if !is_real(&m) && r.chance(1, 2) {
        for l in m["layers"].as_array_mut().unwrap() {
            if r.chance(1, 2) {
                l["ch"] = json!("ext");
            }
        }
    }
    let vars: Vec<Value> = (0..r.range(1, 3))
        .map(|_| {
            json!({"entry": *r.pick(&["cli", "script", "script", "tool", "tool"]), "dir": *r.pick(DIRS), "stem": *r.pick(STEMS), "cwd": r.below(5), "spell": r.below(11),
                   "out": r.below(14), "env": r.below(4), "calls": r.below(4), "old": r.below(4), "hash": r.next() >> 12})
        })
        .collect();
    json!({"model": m, "opts": {"dev": r.chance(1, 3), "embed": r.chance(1, 3), "nosimplify": r.chance(1, 3)}, "hash": r.next() >> 12, "vars": vars,
           "faults": faults_json(&if r.chance(1, 3) { benign(r, 3, 40, false) } else { vec![] })})
}

/// `to` as seen from directory `from` (both absolute).
fn relative(from: &str, to: &str) -> String {
    let part = |s: &str| s.split('/').filter(|p| !p.is_empty()).map(String::from).collect::<Vec<_>>();
    let (f, t) = (part(from), part(to));
    let k = f.iter().zip(&t).take_while(|(a, b)| a == b).count();
    let mut v: Vec<String> = vec!["..".into(); f.len() - k];
    v.extend(t[k..].iter().cloned());
    if v.is_empty() { ".".into() } else { v.join("/") }
}

/// Leaves of the source as text, without comments and trailing commas (both
/// depend on how lines are wrapped).
fn tokens(src: &str) -> Option<Vec<String>> {
    fn go(t: proc_macro2::TokenStream, o: &mut Vec<String>) {
        for x in t {
            match x {
                proc_macro2::TokenTree::Group(g) => {
                    o.push(format!("{:?}", g.delimiter()));
                    go(g.stream(), o);
                    if o.last().is_some_and(|l| l == ",") {
                        o.pop();
                    }
                    o.push("end".into());
                }
                x => o.push(x.to_string()),
            }
        }
    }
    let mut o = vec![];
    go(src.parse().ok()?, &mut o);
    Some(o)
}
fn notes(src: &str) -> Vec<&str> {
    src.lines().map(|l| l.trim()).filter(|l| l.starts_with("//")).collect()
}

struct Place {
    cwd: String,
    input: String,
    out: String,
    vars: Vec<(String, String)>,
    entry: String,
    stem: String,
}
impl Place {
    /// Directory the artefacts belong to, as a path from the root (may still
    /// go through links).
    fn dir(&self) -> String {
        let from = |base: &str, p: &str| if p.starts_with('/') { p.to_string() } else { format!("{base}/{p}") };
        match self.entry.as_str() {
            "script" => {
                let o = self.vars.iter().rev().find(|(k, _)| k == "OUT_DIR").map(|(_, v)| v.as_str()).unwrap_or("");
                from(&from(&self.cwd, o), &self.out)
            }
            _ => from(&self.cwd, &self.out),
        }
    }
}
/// Lay the model out as the variant says.
fn place(v: &Value, b: &crate::gen_::Built) -> (Vfs, Place) {
    let (dir, stem) = (js(v, "dir"), js(v, "stem"));
    let mut vfs = Vfs::new();
    let home = format!("/w/{dir}");
    for d in ["/w", "/tmp", "/w/deep/er", "/w/outreal", "/build/out", &home] {
        vfs.mkdirs(d);
    }
    let file = format!("{stem}.onnx");
    b.place(&mut vfs, &home, &file);
    vfs.ln(dir, "/w/lnk");
    vfs.ln("/w/lnk", "/w/lnk2");
    vfs.ln(&format!("../{dir}"), "/w/deep/up");
    vfs.ln("outreal", "/w/olnk");
    let cwd = ["/w", &home, "/w/deep/er", "/", "/w/lnk"][ju(v, "cwd") as usize % 5].to_string();
    let real = if cwd == "/w/lnk" { home.clone() } else { cwd.clone() };
    let abs = format!("{home}/{file}");
    let rel = relative(&real, &abs);
    let input = match ju(v, "spell") {
        1 => rel,
        2 => format!("./{rel}"),
        3 => format!("./{}", rel.replace('/', "//")),
        4 => format!("/w/lnk/{file}"),
        5 => relative(&real, &format!("/w/lnk2/{file}")),
        6 => format!("/w/deep/../{dir}/{file}"),
        7 => format!("/w/deep/er/../up/{file}"),
        8 => format!("/w/lnk/../{dir}/{file}"),
        9 => {
            let _ = vfs.rename(abs.as_bytes(), format!("{home}/blob.bin").as_bytes());
            vfs.ln("blob.bin", &abs);
            rel
        }
        10 => format!("{home}/.//{file}"),
        _ => abs,
    };
    let out = match ju(v, "out") {
        1 => relative(&real, "/w/out"),
        2 => format!("./{}/", relative(&real, "/w/out")),
        3 => "/w/out/a/b/c".into(),
        4 => ".".into(),
        5 => home.clone(),
        6 => "/w/olnk".into(),
        7 => relative(&real, "/w/olnk/sub"),
        8 => "/w/none/../out9".into(),
        9 => "/w/out/my dir {x}".into(),
        10 => "/w/out\"q\\".into(),
        11 => "gen//x/".into(),
        12 => "w/../o12".into(),
        13 => "/w/olnk/.".into(),
        _ => "/w/out".to_string(),
    };
    let mut vars: Vec<(String, String)> = match ju(v, "env") {
        1 => vec![("PWD".into(), "/elsewhere".into())],
        2 => vec![("OUT_DIR".into(), "/wrong".into()), ("PWD".into(), "/build".into()), ("HOME".into(), "/nope".into())],
        3 => vec![("CARGO_MANIFEST_DIR".into(), "/wrong".into()), ("TMPDIR".into(), "/nope".into()), ("CARGO_TARGET_DIR".into(), "t".into())],
        _ => vec![],
    };
    let entry = js(v, "entry").to_string();
    if entry == "script" {
        vars.retain(|x| x.0 != "OUT_DIR");
        let o = match ju(v, "old") {
            2 => "target/o".into(),
            3 => relative(&real, "/build/out"),
            _ => "/build/out".to_string(),
        };
        // Cargo creates it before it starts a build script.
        vfs.mkdirs(&if o.starts_with('/') { o.clone() } else { format!("{real}/{o}") });
        vars.push(("OUT_DIR".into(), o));
    }
    let p = Place { cwd: real.clone(), input, out, vars, entry, stem: stem.into() };
    if ju(v, "old") == 1 {
        let d = p.dir();
        if vfs.find(d.as_bytes(), true).is_ok() {
            vfs.put(&format!("{d}/{stem}.rs"), b"pub struct Old;\n".repeat(9000));
            vfs.put(&format!("{d}/{stem}.bpk"), vec![0xab; 300_000]);
        }
    }
    (vfs, p)
}

fn files(v: &Vfs) -> std::collections::BTreeMap<String, Vec<u8>> {
    v.listing().into_iter().filter_map(|(p, e)| if let Entry::File(d) = e { Some((p, d.to_vec())) } else { None }).collect()
}
fn ended(o: &Out) -> &'static str {
    match &o.status {
        Status::Done if o.ok() => "converted",
        Status::Done => "refused",
        Status::Exit(0) => "exit 0",
        Status::Exit(_) => "refused",
        _ => "died",
    }
}

pub fn exec(c: &Value, run: &mut Run) -> Option<Viol> {
    let b = model(&c["model"], run.ctx)?;
    let k = |s: &str| format!("{}:{s}", model_key(&c["model"]));
    let faults = faults_of(c, "faults");
    for v in ja(c, "vars") {
        let tooled = js(v, "entry") == "tool";
        let mut opts = c["opts"].clone();
        if tooled {
            // What the command does is written at its top.
            opts["dev"] = json!(true);
            opts["embed"] = json!(false);
        }
        let conv = Conv::new("/w/in/m.onnx", "/w/out").opts(&opts);
        let e = Env::seeded(ju(c, "hash"));
        let world0 = world(&b, "/w/in", "m.onnx");
        let o1 = run.go(&e, &world0, vec![conv.job()]);

        let (vfs, at) = place(v, &b);
        let mut e2 = Env::seeded(ju(v, "hash"));
        e2.cwd = at.cwd.clone();
        e2.vars = at.vars.clone();
        e2.faults = faults.clone();
        let mut c2 = conv.clone();
        c2.inputs = vec![at.input.clone()];
        c2.out = at.out.clone();
        c2.script = at.entry == "script";
        c2.calls = ju(v, "calls");
        let job: Job = if tooled {
            let mut args = vec!["onnx2burn".to_string(), at.input.clone(), at.out.clone()];
            if !c2.simplify {
                args.push("--no-simplify".into());
            }
            Box::new(move || {
                crate::args::set(&args);
                if !tool::entry() {
                    panic!("the command reports failure");
                }
                vec![]
            })
        } else {
            c2.job()
        };
        let o2 = run.go(&e2, &vfs, vec![job]);
        run.hit(mix(fnv(c["model"].to_string().as_bytes()), fnv(v.to_string().as_bytes())));
        let (a, z) = (ended(&o1), ended(&o2));
        run.probe(&format!("{} {z}", at.entry));
        let here = format!("{} in {:?}, input {:?}, out {:?}, variables {:?}", at.entry, at.cwd, at.input, at.out, at.vars);
        if a != z {
            return viol("outcome_differs", &k("outcome_differs"), format!("library call: {a} ({}); {here}: {z} ({})", strip(&o1.describe()), strip(&o2.describe())), &[&o1, &o2]);
        }
        if a != "converted" {
            continue;
        }
        // Which files appeared.
        let (before, after) = (files(&vfs), files(&o2.vfs));
        let dir = at.dir();
        let mut want: BTreeSet<String> = ["rs", "bpk"].iter().map(|x| format!("{}.{x}", at.stem)).collect();
        if conv.dev {
            want.insert(format!("{}.onnx.txt", at.stem));
        }
        let new: BTreeSet<String> = after.iter().filter(|(p, d)| before.get(*p) != Some(*d)).map(|(p, _)| p.rsplit('/').next().unwrap().to_string()).collect();
        let read = |n: &str| o2.vfs.get(&format!("{dir}/{n}"));
        if let Some(n) = want.iter().find(|n| read(n).is_none()) {
            return viol("missing", &k("missing"), format!("{here}: {n} is not in {dir}"), &[&o2]);
        }
        if let Some(n) = new.iter().find(|n| !want.contains(*n)) {
            return viol("stray", &k("stray"), format!("{here}: {n} was written"), &[&o2]);
        }
        let text = |b: Option<Vec<u8>>| String::from_utf8_lossy(&b.unwrap_or_default()).into_owned();
        let (s1, s2) = (text(o1.vfs.get("/w/out/m.rs")), text(read(&format!("{}.rs", at.stem))));
        let (w1, w2) = (o1.vfs.get("/w/out/m.bpk").unwrap_or_default(), read(&format!("{}.bpk", at.stem)).unwrap_or_default());
        if crate::bpk::canon(&w1) != crate::bpk::canon(&w2) {
            return viol("weights_differ", &k("weights_differ"), format!("{here}: the weight file differs from the library call's"), &[&o2]);
        }
        let (Some(t1), Some(t2)) = (tokens(&s1), tokens(&s2)) else {
            return viol("not_rust", &k("not_rust"), format!("{here}: the generated source does not lex"), &[&o2]);
        };
        if t1.len() != t2.len() {
            return viol("source_differs", &k("source_differs"), format!("{here}: {} tokens instead of {}", t2.len(), t1.len()), &[&o2]);
        }
        for (n, (x, y)) in t1.iter().zip(&t2).enumerate() {
            if x.contains("/w/out/m.bpk") {
                // The weight file, from the working directory or, when the
                // compiler embeds it, from the source file's directory.
                let lit = syn::parse_str::<syn::LitStr>(y).map(|l| l.value()).unwrap_or_default();
                let embed = n >= 3 && t1[n - 3..n].iter().any(|t| t == "include_bytes");
                let base = if embed { &dir } else { &at.cwd };
                let full = if lit.starts_with('/') { lit.clone() } else { format!("{base}/{lit}") };
                if o2.vfs.get(&full).as_ref() != Some(&w2) {
                    return viol("dead_location", &k("dead_location"), format!("{here}: the source names its weight file {lit:?}, which is not there (embedded: {embed})"), &[&o2]);
                }
                run.probe(if embed { "embedded location checked" } else { "location checked" });
            } else if x != y {
                return viol("source_differs", &k("source_differs"), format!("{here}: token {n} is {y} instead of {x}"), &[&o2]);
            }
        }
        let (n1, n2) = (notes(&s1), notes(&s2));
        let bad = n1.len() != n2.len() || n1.iter().zip(&n2).any(|(x, y)| if x.contains("/w/in/m.onnx") { !y.contains(&at.stem) } else { x != y });
        if bad {
            return viol("notes_differ", &k("notes_differ"), format!("{here}: comments {n2:?} instead of {n1:?}"), &[&o2]);
        }
    }
    None
}
