//! C16: side-file weights are delivered exactly or refused loudly.
use super::common::*;
use crate::core::*;
use crate::gen_::{Style, build, build_with};
use crate::inc::{Job, Out, Status};
use crate::onnx::{self, Chan};
use crate::plan::*;
use crate::util::*;
use crate::work::*;
use crate::bpk;
use serde_json::{Value, json};

const VALID: &[&str] = &["shift", "shift", "shift", "share", "nolen", "extra", "order", "plain"];
const BAD: &[&str] = &[
    "len-", "len+", "len0", "len2", "lenhalf", "lenhuge", "off_end", "off_past", "off_max", "off_wrap", "off_neg", "off_word", "off_hex", "off_empty", "off_float", "off_2e64",
    "len_neg", "len_word", "len_empty", "noloc", "gone", "dir", "emptyloc",
];

pub fn make(r: &mut Rng, _ctx: &Ctx, _i: u64) -> Value {
    let big = r.chance(1, 6);
    let mut m = crate::gen_::recipe(r, &Style { max_layers: 7, ext: true, big, ..Style::default() });
    m["ext"]["mode"] = json!(*r.pick(&["single", "single", "subdir", "two_files", "per_tensor"]));
    for l in m["layers"].as_array_mut().unwrap() {
        if r.chance(3, 4) {
            l["ch"] = json!("ext");
        }
    }
    let n = r.below(5);
    let mut edits: Vec<Value> = (0..n).map(|_| json!({"k": r.below(12), "what": *r.pick(VALID), "arg": r.next() >> 12})).collect();
    if r.chance(1, 2) {
        edits.push(json!({"k": r.below(12), "what": *r.pick(BAD), "arg": r.next() >> 12}));
    }
    let nomap = r.chance(1, 2);
    let mut f = benign(r, 4, 60, true);
    for x in &mut f {
        if x.kind == FaultKind::ShortRead {
            x.sticky = r.chance(1, 3);
        }
    }
    if nomap {
        f.push(Fault { at: 10, kind: FaultKind::MmapEnodev, arg: 0, sticky: true });
    }
    let hard: Vec<Value> = (0..r.below(4))
        .map(|_| {
            let kind = *r.pick(&[FaultKind::OpenEio, FaultKind::OpenEacces, FaultKind::Emfile, FaultKind::StatEio, FaultKind::SeekEio, FaultKind::ReadEio, FaultKind::MmapEnomem, FaultKind::ShortRead]);
            json!({"frac": r.below(1_000_001), "kind": kind.name(), "arg": r.below(40), "sticky": r.chance(1, 3)})
        })
        .collect();
    json!({"model": m, "edits": edits, "opts": rand_opts(r), "hash": r.next() >> 12, "faults": hard, "nomap": nomap, "benign": faults_json(&f), "tail": r.below(3) * 37})
}

fn is_bad(w: &str) -> bool {
    BAD.contains(&w)
}

pub fn exec(c: &Value, run: &mut Run) -> Option<Viol> {
    let spec = &c["model"];
    let first = build(spec);
    let mut files = first.files.clone();
    // Bytes behind the last constant belong to nobody.
    for f in files.values_mut() {
        f.extend(std::iter::repeat_n(0xEE, ju(c, "tail") as usize));
    }
    // Recurrent layers cut their tensors up before the edit sees them.
    let rnn = js(spec, "chain") == "rnn";
    // The first edit of a tensor counts.
    let mut bad: Vec<(usize, String, String)> = vec![];
    let mut touched = 0u64;
    let mut b = build_with(spec, &mut |k, t| {
        let Chan::Ext(f, off, _) = t.chan.clone() else { return };
        let Some(e) = ja(c, "edits").iter().find(|e| ju(e, "k") as usize == k) else { return };
        touched += 1;
        let what = js(e, "what");
        let arg = ju(e, "arg");
        let n = t.data.len() as u64;
        let o: u64 = off.as_deref().unwrap_or("0").parse().unwrap_or(0);
        let file = files.get(&f).cloned().unwrap_or_default();
        let size = file.len() as u64;
        let mut new = |off: String, len: String| t.chan = Chan::Ext(f.clone(), Some(off), Some(len));
        if is_bad(what) {
            bad.push((k, t.name.clone(), what.to_string()));
        }
        match what {
            // Any other range of the file: every alignment, overlaps included.
            "shift" if t.dt == onnx::F32 && !rnn && size >= n => {
                let at = arg % (size - n + 1);
                t.data = file[at as usize..(at + n) as usize].to_vec();
                t.chan = Chan::Ext(f.clone(), Some(at.to_string()), if arg >> 20 & 1 == 1 { None } else { Some(n.to_string()) });
            }
            "share" if t.dt == onnx::F32 && !rnn && size >= n => {
                t.data = file[..n as usize].to_vec();
                t.chan = Chan::Ext(f.clone(), if arg & 1 == 1 { None } else { Some("0".into()) }, Some(n.to_string()));
            }
            "nolen" => t.chan = Chan::Ext(f.clone(), off, None),
            "extra" => {
                let mut v = vec![("location".to_string(), f.clone()), ("offset".into(), o.to_string()), ("length".into(), n.to_string())];
                v.insert((arg % 4) as usize, ("checksum".into(), "00ff".into()));
                v.insert((arg % 5) as usize, ("basepath".into(), "/w/elsewhere".into()));
                t.chan = Chan::Kv(v);
            }
            "order" => {
                let mut v = vec![("length".to_string(), n.to_string()), ("offset".into(), o.to_string()), ("location".into(), f.clone())];
                v.rotate_left((arg % 3) as usize);
                t.chan = Chan::Kv(v);
            }
            "len-" => new(o.to_string(), (n - 1 - arg % n).to_string()),
            "len+" => new(o.to_string(), (n + 1 + arg % 9).to_string()),
            "len0" => new(o.to_string(), "0".into()),
            "len2" => new("0".into(), (n * 2).to_string()),
            "lenhalf" => new(o.to_string(), (n / 2).to_string()),
            "lenhuge" => new(o.to_string(), (1u64 << (33 + arg % 31)).to_string()),
            "off_end" => new((size - n + 1).to_string(), n.to_string()),
            "off_past" => new((size + arg % 5000).to_string(), n.to_string()),
            "off_max" => new(u64::MAX.to_string(), n.to_string()),
            "off_wrap" => new((u64::MAX - n + 1 + arg % 9.min(n)).to_string(), n.to_string()),
            "off_neg" => new(format!("-{}", 1 + arg % 64), n.to_string()),
            "off_word" => new("abc".into(), n.to_string()),
            "off_hex" => new(format!("{o:#x}"), n.to_string()),
            "off_empty" => new("".into(), n.to_string()),
            "off_float" => new(format!("{o}.5"), n.to_string()),
            "off_2e64" => new(format!("{}", (1u128 << 64) + o as u128), n.to_string()),
            "len_neg" => new(o.to_string(), format!("-{n}")),
            "len_word" => new(o.to_string(), format!("{n}B")),
            "len_empty" => new(o.to_string(), "".into()),
            "noloc" => t.chan = Chan::Kv(vec![("offset".into(), o.to_string()), ("length".into(), n.to_string())]),
            "gone" => t.chan = Chan::Ext("missing.bin".into(), Some(o.to_string()), Some(n.to_string())),
            "dir" => t.chan = Chan::Ext("somedir".into(), Some("0".into()), Some(n.to_string())),
            "emptyloc" => t.chan = Chan::Ext("".into(), Some("0".into()), Some(n.to_string())),
            _ => {}
        }
    });
    b.files = files.clone();
    let has_side = b.all.iter().any(|t| matches!(t.chan, Chan::Ext(..) | Chan::Kv(..)));
    if !has_side {
        run.probe("no side file in this model");
        return None;
    }
    let mut vfs = crate::vfs::Vfs::new();
    for d in ["/w", "/tmp", "/w/somedir"] {
        vfs.mkdirs(d);
    }
    b.place(&mut vfs, "/w", "m.onnx");
    for (f, d) in &files {
        vfs.put(&format!("/w/{f}"), d.clone());
    }
    let conv = Conv::new("/w/m.onnx", "/w/out").opts(&c["opts"]);
    let simp = conv.simplify;
    let vals = || -> Job {
        Box::new(move || match parse_file("/w/m.onnx", simp) {
            Ok(g) => enc_values(&values(&g)),
            Err(e) => panic!("{e}"),
        })
    };
    run.hit(mix(fnv(spec.to_string().as_bytes()), fnv(c["edits"].to_string().as_bytes())));
    let clean = Env { max_alloc: 256 << 20, max_live: 512 << 20, ..Env::seeded(ju(c, "hash")) };
    let mut soft = clean.clone();
    soft.faults = faults_of(c, "benign");
    // Needed: it surfaces in the weight file of the model as it should be.
    let needed = |k: usize| {
        let t = &b.all[k];
        !b.dead.contains(&t.name) && (rnn || b.exp.iter().any(|x| x.data == t.data && x.dt == t.dt && x.dims == t.dims))
    };
    let check = |o: &Out, run: &mut Run| -> Option<(&'static str, String)> {
        let src = String::from_utf8_lossy(&o.vfs.get("/w/out/m.rs")?).into_owned();
        let w = match bpk::parse(&o.vfs.get("/w/out/m.bpk").unwrap_or_default()) {
            Ok(w) => w,
            Err(x) => return Some(("bad_weights", format!("weight file unreadable: {x}"))),
        };
        super::c03::generated(&b, &w, &src, run)
    };
    let in_values = |o: &Out| -> Option<String> {
        let v = dec_values(o.one().ok()?)?;
        for (k, t) in b.all.iter().enumerate() {
            let refd = matches!(t.chan, Chan::Ext(..) | Chan::Kv(..));
            if refd && t.dt == onnx::F32 && needed(k) && !v.iter().any(|x| x.2 == t.data) {
                return Some(format!("constant {} {:?} was not read as its reference says", t.name, t.dims));
            }
        }
        None
    };
    let mut outs: Vec<(&str, Out)> = vec![];
    outs.push(("undisturbed", run.go(&clean, &vfs, vec![conv.job()])));
    outs.push(("benign faults", run.go(&soft, &vfs, vec![conv.job()])));
    let mut hard = soft.clone();
    if !ja(c, "faults").is_empty() {
        hard.faults.extend(super::c07::plan(c, outs[0].1.iops));
        outs.push(("hard faults", run.go(&hard, &vfs, vec![conv.job()])));
    }
    let k = |s: &str| format!("generated:{s}");
    let must_fail = bad.iter().find(|(n, ..)| needed(*n));
    if let Some(t) = &must_fail {
        run.probe("contradictory reference");
        run.probe(&format!("contradiction {}", t.2));
    }
    for (what, o) in &outs {
        match o.status {
            Status::Done => {}
            _ => return viol("bad_ending", &k("bad_ending"), format!("{what}: {} with {}", o.describe(), c["edits"]), &[o]),
        }
        if o.ok() {
            if let Some((_, name, edit)) = must_fail {
                return viol("contradiction_accepted", &k(edit), format!("{what}: the reference of {name} ({edit}) cannot be met, yet the conversion succeeded"), &[o]);
            }
            if bad.is_empty() {
                if let Some((class, msg)) = check(o, run) {
                    return viol(class, &k(class), format!("{what}: {msg}"), &[o]);
                }
            }
            run.probe("delivered");
        } else if bad.is_empty() && *what != "hard faults" {
            // Only reads of side files can be at stake here: without the
            // edits the same model converts.
            let mut v0 = vfs.clone();
            first.place(&mut v0, "/w", "m.onnx");
            let r = run.go(&clean, &v0, vec![conv.job()]);
            if r.ok() {
                return viol("refused", &k("refused"), format!("{what}: a constant that can be had was refused: {}", o.describe()), &[o]);
            }
            // Nor does it matter that a constant lies in a side file: with
            // the same values inside the model it converts.
            let inner = build_with(spec, &mut |k, t| {
                if matches!(t.chan, Chan::Ext(..)) {
                    t.chan = Chan::Raw;
                }
                if let Some(x) = b.all.get(k) {
                    t.data = x.data.clone();
                }
            });
            let mut v0 = vfs.clone();
            inner.place(&mut v0, "/w", "m.onnx");
            let r = run.go(&clean, &v0, vec![conv.job()]);
            if r.ok() {
                return viol("refused", &k("refused_outside"), format!("{what}: a model with constants in side files was refused, with the same constants inside it converts: {}", o.describe()), &[o]);
            }
            run.probe("model rejected");
        }
    }
    for e in [&clean, &soft, &hard] {
        let o = run.go(e, &vfs, vec![vals()]);
        if o.status != Status::Done {
            return viol("bad_ending", &k("bad_ending"), format!("reading values: {} with {}", o.describe(), c["edits"]), &[&o]);
        }
        if o.ok() {
            if let Some((_, name, edit)) = must_fail {
                return viol("contradiction_accepted", &k(edit), format!("values of {name} ({edit}) cannot be had, yet were read"), &[&o]);
            }
            if let (true, Some(m)) = (bad.is_empty(), in_values(&o)) {
                return viol("wrong_value", &k("wrong_value"), m, &[&o]);
            }
            run.probe("values read");
        }
    }
    if touched > 0 {
        run.probe("references edited");
    }
    None
}
