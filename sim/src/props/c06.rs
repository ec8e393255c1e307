//! C06: side-file references never reach outside the model's directory.
use super::common::*;
use crate::core::*;
use crate::gen_::{Style, build};
use crate::onnx::Chan;
use crate::plan::*;
use crate::util::*;
use crate::vfs::Vfs;
use crate::work::*;
use serde_json::{Value, json};

/// Content of a file outside the model's directory; never a weight value.
const SECRET: &[u8] = b"\xDE\xAD\xBE\xEF\xDE\xAD\xBE\xEF";

pub fn make(r: &mut Rng, _ctx: &Ctx, _i: u64) -> Value {
    let mut m = crate::gen_::recipe(r, &Style { max_layers: 4, ext: true, ..Style::default() });
    m["ext"]["mode"] = json!(*r.pick(&["single", "subdir", "two_files"]));
    for l in m["layers"].as_array_mut().unwrap() {
        l["ch"] = json!("ext");
    }
    // A reference assembled from pieces a hostile or careless writer would use.
    let piece = |r: &mut Rng| -> String {
        r.pick(&[
            "..", "..", ".", "", "lnk", "up", "abs", "sub", "sub", "deep", "secret.bin", "secret.bin", "evil.bin", "chain", "weights.bin", "...", "..\\", "%2e%2e", "~",
            "%2e%2e%2fsecret.bin", "models", "models-evil", "loop", "w",
        ])
        .to_string()
    };
    let n = r.range(1, 6);
    let mut loc = (0..n).map(|_| piece(r)).collect::<Vec<_>>().join(*r.pick(&["/", "/", "/", "//", "/./"]));
    match r.below(24) {
        0 => loc = format!("/{loc}"),
        1 => loc = "/w/secret.bin".into(),
        2 => loc = "../secret.bin".into(),
        3 => loc = "weights.bin\0/../../secret.bin".into(),
        4 => loc = "\0".into(),
        5 => loc = "lnk".into(),
        6 => loc = "up/secret.bin".into(),
        7 => loc = "sub/../../secret.bin".into(),
        8 => loc = "file:///w/secret.bin".into(),
        9 => loc = "evil/evil.bin".into(),
        10 => loc = "evil/weights.bin".into(),
        11 => loc = "sub/back/weights.bin".into(),
        12 => loc = "abs/weights.bin".into(),
        13 => loc = "sub/secret.bin".into(),
        14 => loc = "chain".into(),
        15 => loc = "weights.bin".into(),
        16 => loc = "./sub/deep/../own.bin".into(),
        17 => loc = "sub//own.bin".into(),
        18 => loc = "inner".into(),
        _ => {}
    }
    let spell = r.below(9);
    json!({"model": m, "opts": rand_opts(r), "loc": loc, "which": r.below(8), "spell": spell, "hash": r.next() >> 12,
           "links": if r.chance(2, 3) { 1023 } else { r.below(1024) }, "split": r.chance(1, 6), "what": *r.pick(&["convert", "convert", "values"]),
           "faults": faults_json(&(0..r.below(4)).map(|_| Fault {
               at: r.below(40),
               kind: *r.pick(&[FaultKind::RealpathEacces, FaultKind::RealpathEio, FaultKind::RealpathEacces, FaultKind::RealpathEio, FaultKind::StatEio, FaultKind::MmapEnodev, FaultKind::MmapEnomem]),
               arg: 0, sticky: r.chance(1, 3) }).collect::<Vec<_>>())})
}

pub fn exec(c: &Value, run: &mut Run) -> Option<Viol> {
    let spec = &c["model"];
    let loc = js(c, "loc").to_string();
    // Redirect one tensor's reference.
    let which = ju(c, "which");
    let b = crate::gen_::build_with(spec, &mut |k, t| {
        if k as u64 == which % 4 {
            if let Chan::Ext(f, o, l) = &mut t.chan {
                *f = loc.clone();
                *o = Some("0".into());
                if l.is_none() {
                    *l = Some(t.data.len().to_string());
                }
            }
        }
    });
    let _ = build;
    if !b.all.iter().any(|t| matches!(&t.chan, Chan::Ext(f, ..) if *f == loc)) {
        run.probe("no reference in this model");
        return None;
    }
    let secret = SECRET.repeat(4096);
    let mut v = Vfs::new();
    for d in ["/w", "/tmp", "/w/models", "/w/models/sub", "/w/models/sub/deep", "/w/models-evil", "/w/other/place", "/home/u"] {
        v.mkdirs(d);
    }
    b.place(&mut v, "/w/models", "m.onnx");
    for f in ["/w/secret.bin", "/secret.bin", "/w/models-evil/evil.bin", "/w/models-evil/weights.bin", "/w/other/place/secret.bin", "/home/u/secret.bin", "/w/models-evil/secret.bin", "/w/other/place/weights.bin"] {
        v.put(f, secret.clone());
    }
    v.put("/w/models/sub/own.bin", vec![7u8; 65536]);
    v.put("/w/models/weights.bin", vec![9u8; 65536]);
    let links = ju(c, "links");
    let mut ln = |bit: u64, t: &str, p: &str| {
        if links >> bit & 1 == 1 {
            v.ln(t, p);
        }
    };
    ln(0, "/w/secret.bin", "/w/models/lnk");
    ln(1, "..", "/w/models/up");
    ln(2, "/w/other/place", "/w/models/abs");
    ln(3, "lnk", "/w/models/chain");
    ln(4, "../../secret.bin", "/w/models/sub/secret.bin");
    ln(5, "loop", "/w/models/loop");
    // A neighbour whose name begins with the directory's own.
    ln(6, "/w/models-evil", "/w/models/evil");
    ln(7, "../../models-evil", "/w/models/sub/back");
    // Links that stay inside are fine.
    ln(8, "sub/own.bin", "/w/models/inner");
    ln(9, "/w/models/sub", "/w/models/deep");
    // The very same directory, by other routes.
    v.ln("/w/models", "/home/u/m");
    let mut e = Env::seeded(ju(c, "hash"));
    let (path, base) = match ju(c, "spell") {
        0 => { e.cwd = "/w/models".into(); ("m.onnx", "/w/models") }
        1 => { e.cwd = "/w/models".into(); ("./m.onnx", "/w/models") }
        2 => ("models/m.onnx", "/w/models"),
        3 => ("/home/u/m/m.onnx", "/w/models"),
        4 => { e.cwd = "/home/u".into(); ("m/m.onnx", "/w/models") }
        5 => { e.cwd = "/w/models/sub".into(); ("../m.onnx", "/w/models") }
        6 => ("/w/models/sub/../m.onnx", "/w/models"),
        7 => { e.cwd = "/home/u/m".into(); ("m.onnx", "/w/models") }
        _ => ("/w/models/m.onnx", "/w/models"),
    };
    e.faults = faults_of(c, "faults");
    let conv = Conv::new(path, "/w/out").opts(&c["opts"]);
    let simp = conv.simplify;
    let p = path.to_string();
    let o = match js(c, "what") {
        "values" => run.go(&e, &v, vec![Box::new(move || match parse_file(&p, simp) {
            Ok(g) => enc_values(&values(&g)),
            Err(x) => panic!("{x}"),
        })]),
        _ => run.go(&e, &v, vec![conv.job()]),
    };
    run.hit(mix(fnv(loc.as_bytes()), mix(links, mix(ju(c, "spell"), fnv(c["faults"].to_string().as_bytes())))));
    for f in &o.opened {
        let Some(f) = f.strip_prefix("r:") else { continue };
        // The program's own source of entropy and such is not in the world;
        // everything read must lie under the model's directory.
        if f != base && !f.starts_with(&format!("{base}/")) && !f.starts_with("/w/out/") {
            return viol("read_outside", "read_outside",
                format!("reference {loc:?} in {path} (cwd {}) made the process open {f}, outside {base}; the call {}", e.cwd, o.describe()), &[&o]);
        }
    }
    // Whatever was opened, no content from outside may surface.
    let leak = |d: &[u8]| d.windows(SECRET.len() * 2).any(|w| w == &secret[..SECRET.len() * 2]);
    if o.res.iter().any(|r| r.as_ref().is_ok_and(|b| leak(b))) || o.vfs.get("/w/out/m.bpk").is_some_and(|b| leak(&b)) {
        return viol("outside_content", "outside_content", format!("reference {loc:?} delivered the content of a file outside {base}"), &[&o]);
    }
    if o.ok() {
        run.probe("accepted (stays inside)");
    } else {
        run.probe("refused");
    }
    None
}
