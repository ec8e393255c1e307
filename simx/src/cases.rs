//! Cases and oracles for the model-check command.
use crate::seam;
use crate::util::*;
use serde_json::{Value, json};
use std::collections::BTreeMap;

/// What the models are (directory, display name, variable, download arguments,
/// left out by default), as documented for the command.
pub struct M {
    pub id: &'static str,
    pub dir: &'static str,
    pub name: &'static str,
    pub env: Option<(&'static str, &'static str)>,
    pub dl: &'static [&'static str],
    pub blocked: bool,
}
const fn m(id: &'static str, dir: &'static str, name: &'static str) -> M {
    M { id, dir, name, env: None, dl: &[], blocked: false }
}
pub const MODELS: &[M] = &[
    m("silero-vad", "silero-vad", "Silero VAD"),
    m("all-minilm-l6-v2", "all-minilm-l6-v2", "all-MiniLM-L6-v2"),
    m("clip-vit-b-32-text", "clip-vit-b-32-text", "CLIP ViT-B-32 text"),
    m("clip-vit-b-32-vision", "clip-vit-b-32-vision", "CLIP ViT-B-32 vision"),
    m("modernbert-base", "modernbert-base", "ModernBERT-base"),
    m("rf-detr", "rf-detr", "RF-DETR Small"),
    m("depth-anything-v2", "depth-anything-v2", "Depth-Anything-v2"),
    M { env: Some(("ALBERT_MODEL", "albert-base-v2")), ..m("albert", "albert", "ALBERT") },
    M { env: Some(("YOLO_MODEL", "yolov8n")), ..m("yolo", "yolo", "YOLO") },
    m("mediapipe-face-detector", "mediapipe-face-detector", "MediaPipe Face Detector"),
    M { env: Some(("SMOLLM_MODEL", "smollm-135m")), dl: &["--model", "smollm-135m"], ..m("smollm", "smollm", "SmolLM 135M") },
    M { env: Some(("SMOLLM_MODEL", "smollm2-135m")), dl: &["--model", "smollm2-135m"], ..m("smollm2", "smollm", "SmolLM2 135M") },
    M { env: Some(("QWEN_MODEL", "qwen1.5-0.5b")), dl: &["--model", "qwen1.5-0.5b"], blocked: true, ..m("qwen-1.5", "qwen", "Qwen1.5 0.5B") },
    M { env: Some(("QWEN_MODEL", "qwen2.5-0.5b")), dl: &["--model", "qwen2.5-0.5b"], blocked: true, ..m("qwen-2.5", "qwen", "Qwen2.5 0.5B") },
    M { env: Some(("QWEN_MODEL", "qwen3-0.6b")), dl: &["--model", "qwen3-0.6b"], blocked: true, ..m("qwen-3", "qwen", "Qwen3 0.6B") },
];
const STEPS: &[&str] = &["download", "build", "run"];
pub const REPO: &str = "/repo";

pub struct Viol {
    pub class: String,
    pub msg: String,
}
fn viol(class: &str, msg: String) -> Option<Viol> {
    Some(Viol { class: class.into(), msg })
}

/// One simulated run of the command.
pub struct Ran {
    pub events: Vec<Value>,
    /// Exit code, or minus the signal.
    pub end: i32,
    pub text: String,
}

pub fn make(id: &str, r: &mut Rng, _i: u64) -> Value {
    let model = match r.below(10) {
        0..=4 => Value::Null,
        5..=8 => json!(r.pick(MODELS).id),
        _ => json!(*r.pick(&["", "YOLO", "qwen", "all", "yolo ", "silero_vad", "Silero VAD", "smollm3", "albert,yolo"])),
    };
    let mut features = match r.below(5) {
        0..=2 => Value::Null,
        3 => json!(*r.pick(&["wgpu", "tch", "metal", "ndarray"])),
        _ => json!(*r.pick(&["ndarray,wgpu", "wgpu tch", "--release", "", "x"])),
    };
    let sub = *r.pick(&["", "", "all", "all", "download", "build", "run"]);
    let (debug, ff) = (r.chance(1, 3), r.chance(1, 3));
    let dev = id == "C21";
    let what = *r.pick(&["build", "test", "test unit", "test integration", "test all"]);
    let release = dev && r.chance(1, 3);
    let (model, sub) = if dev { (Value::Null, "") } else { (model, sub) };
    if dev {
        features = if r.chance(1, 3) { json!(*r.pick(&["wgpu", "a,b", "tch"])) } else { Value::Null };
    }
    let mut args = vec![if dev { what.split(' ').next().unwrap().to_string() } else { "model-check".to_string() }];
    let mut flags: Vec<Vec<String>> = vec![];
    let eq = r.chance(1, 2);
    let mut val = |k: &str, v: &str| flags.push(if eq || v.starts_with('-') || v.is_empty() { vec![format!("--{k}={v}")] } else { vec![format!("--{k}"), v.into()] });
    if let Some(m) = model.as_str() {
        val("model", m);
    }
    if let Some(f) = features.as_str() {
        val("features", f);
    }
    if debug && !dev {
        flags.push(vec!["--debug".into()]);
    }
    if ff && !dev {
        flags.push(vec!["--fail-fast".into()]);
    }
    if release {
        flags.push(vec!["--release".into()]);
    }
    r.shuffle(&mut flags);
    args.extend(flags.concat());
    if !sub.is_empty() {
        args.push(sub.into());
    }
    if let Some((_, s)) = what.split_once(' ').filter(|_| dev) {
        args.push(s.into());
    }
    let mut ctx = "std";
    if r.chance(1, 6) {
        ctx = *r.pick(&["std", "all", "no-std", "no-std"]);
        args.insert(0, (*r.pick(&["-c", "--context"])).into());
        args.insert(1, ctx.into());
    }
    let mut bad = false;
    if r.chance(1, 30) {
        // No such flag: refused by the argument parser.
        let at = args.iter().position(|a| a == "model-check" || a == "build" || a == "test").unwrap() + 1;
        args.insert(at, (*r.pick(&["--frobnicate", "--model-check"])).into());
        bad = true;
    }
    if features.is_null() && !dev {
        features = json!("ndarray");
    }
    let mut env = json!({"PATH": "/usr/bin:/bin", "HOME": "/tmp/h"});
    for k in ["ALBERT_MODEL", "YOLO_MODEL", "SMOLLM_MODEL", "QWEN_MODEL"] {
        if r.chance(1, 6) {
            env[k] = json!(*r.pick(&["yolov8s", "", "smollm2-135m", "qwen3-0.6b", "bogus"]));
        }
    }
    for (k, vs) in [
        ("CI", &["1", ""][..]),
        ("DEBUG", &["1"]),
        ("RUST_LOG", &["off", "trace", "error"]),
        ("CARGO_TARGET_DIR", &["/tmp/t"]),
        ("SOME_VAR", &["x=y", "", "two words"]),
    ] {
        if r.chance(1, 8) {
            env[k] = json!(*r.pick(vs));
        }
    }
    if id == "C20" || r.chance(1, 8) {
        let abs = ["/cache/a", "/cache/b/", "/tmp/../cache", "/c d"];
        for k in ["BURN_CACHE_DIR", "XDG_CACHE_HOME"] {
            match r.below(5) {
                0 | 1 => {}
                2 => env[k] = json!(""),
                3 => env[k] = json!(*r.pick(&abs)),
                _ => env[k] = json!(*r.pick(&["rel/cache", ".", "../x", "~/.cache"])),
            }
        }
        env["HOME"] = json!(*r.pick(&["/tmp/h", "/home/u", "/home/u/", "/home/ü"]));
    }
    // Number of steps if nothing fails.
    let n = selected(&model).map_or(0, |v| v.len()) * if sub.is_empty() || sub == "all" { 3 } else { 1 };
    let n = if dev { 2 } else { n } + prelude(ctx).len();
    let mut faults = vec![];
    if n > 0 && r.chance(4, 5) {
        let many = if id == "C20" { 1 } else { *r.pick(&[1u64, 1, 2, 3, 6, 12]) };
        for _ in 0..many {
            let at = if r.chance(1, 5) { n as u64 - 1 } else { r.below(n as u64) };
            let (k, v) = match r.below(8) {
                0..=2 => (0, *r.pick(&[1i64, 2, 101, 127, 255, 3])),
                3 => (1, *r.pick(&[9i64, 15, 6, 11, 2, 1])),
                4 | 5 => (2, *r.pick(&[libc::ENOENT as i64, libc::EACCES as i64, libc::EAGAIN as i64, libc::ENOMEM as i64, libc::E2BIG as i64])),
                6 => (3, r.range(1, 3) as i64),
                _ => (4, 0),
            };
            faults.push(json!([at, k, v]));
        }
    }
    json!({"prop": id, "args": args, "model": model, "features": features, "debug": debug, "ff": ff, "sub": sub, "bad": bad, "env": env, "faults": faults, "ctx": ctx, "dev": if dev { what } else { "" }, "release": release,
           "stderr": if r.chance(1, 10) && env.get("CI").is_none() { *r.pick(&["full", "closed_pipe"]) } else { "file" }})
}

fn selected(model: &Value) -> Option<Vec<&'static M>> {
    match model.as_str() {
        None => Some(MODELS.iter().filter(|m| !m.blocked).collect()),
        Some(s) => MODELS.iter().find(|m| m.id == s).map(|m| vec![m]),
    }
}

/// Targets put in place before anything else.
fn prelude(ctx: &str) -> &'static [&'static str] {
    if ctx == "no-std" { &["wasm32-unknown-unknown", "thumbv7m-none-eabi", "thumbv6m-none-eabi"] } else { &[] }
}

pub struct Want {
    /// Targets installed first.
    pub pre: usize,
    pub dev: Vec<&'static str>,
    pub steps: Vec<(&'static M, &'static str)>,
    pub failed: Vec<&'static str>,
    pub total: usize,
    pub ok: bool,
}
/// The reference model of the command.
pub fn reference(c: &Value) -> Want {
    let mut w = Want { pre: 0, dev: vec![], steps: vec![], failed: vec![], total: 0, ok: false };
    if jb(c, "bad") {
        return w;
    }
    let Some(sel) = (match selected(&c["model"]) {
        None if js(c, "ctx") == "no-std" => Some(vec![]),
        x => x,
    }) else {
        return w;
    };
    let known = selected(&c["model"]).is_some();
    w.total = sel.len();
    let steps: Vec<&'static str> = match js(c, "sub") {
        "" | "all" => STEPS.to_vec(),
        s => STEPS.iter().copied().filter(|x| *x == s).collect(),
    };
    let mut fate: BTreeMap<u64, bool> = BTreeMap::new();
    for f in ja(c, "faults") {
        let (k, kind, v) = (f[0].as_u64().unwrap_or(0), f[1].as_i64().unwrap_or(0), f[2].as_i64().unwrap_or(0));
        let fails = match kind {
            0 => v & 0xff != 0,
            1 | 2 => true,
            4 => true,
            _ => continue,
        };
        // Of several fates drawn for one step the last decides; a lost
        // child status fails on top of any of them.
        let e = fate.entry(k).or_insert(false);
        *e = if kind == 4 { true } else { fails || *e && lost(c, k) };
    }
    let mut k = 0;
    for _ in prelude(js(c, "ctx")) {
        w.pre += 1;
        k += 1;
        if fate.get(&(k - 1)).copied().unwrap_or(false) {
            w.total = 0;
            return w;
        }
    }
    if !known {
        return w;
    }
    if !js(c, "dev").is_empty() {
        w.total = 0;
        for s in match js(c, "dev") {
            "build" => &["build"][..],
            "test unit" => &["--lib"],
            "test integration" => &["--test"],
            _ => &["--lib", "--test"],
        } {
            w.dev.push(s);
            k += 1;
            if fate.get(&(k - 1)).copied().unwrap_or(false) {
                return w;
            }
        }
        w.ok = true;
        return w;
    }
    'all: for m in sel {
        for s in &steps {
            w.steps.push((m, s));
            let bad = fate.get(&k).copied().unwrap_or(false);
            k += 1;
            if bad {
                w.failed.push(m.name);
                if jb(c, "ff") {
                    break 'all;
                }
                break;
            }
        }
    }
    w.ok = w.failed.is_empty();
    w
}
fn lost(c: &Value, k: u64) -> bool {
    ja(c, "faults").iter().any(|f| f[0].as_u64() == Some(k) && f[1].as_i64() == Some(4))
}

fn number_in(s: &str, n: usize) -> bool {
    s.split(|c: char| !c.is_ascii_digit()).any(|t| t == n.to_string())
}

pub fn judge(c: &Value, r: &Ran) -> Option<Viol> {
    let w = reference(c);
    let spawns: Vec<&Value> = r.events.iter().filter(|e| js(e, "ev") == "spawn").collect();
    if r.end < 0 {
        return viol("died", format!("the command was ended by signal {}", -r.end));
    }
    if r.end == 96 {
        return viol("endless", "more than 400 steps were started".into());
    }
    let env0: BTreeMap<String, String> = c["env"].as_object().map(|o| o.iter().map(|(k, v)| (k.clone(), v.as_str().unwrap_or("").to_string())).collect()).unwrap_or_default();
    for (i, s) in spawns.iter().enumerate() {
        let prog = js(s, "prog").rsplit('/').next().unwrap_or("");
        let args: Vec<&str> = ja(s, "args").iter().filter_map(|x| x.as_str()).collect();
        let shown = format!("step {i}: {prog} {} in {}", args.join(" "), js(s, "cwd"));
        if i < w.pre {
            let t = prelude("no-std")[i];
            if prog != "rustup" || args.iter().all(|a| *a != t) {
                return viol("wrong_step", format!("{shown}; expected the installation of target {t}"));
            }
            continue;
        }
        if let Some(d) = w.dev.get(i - w.pre) {
            let cmd = if *d == "build" { "build" } else { "test" };
            let has = |x: &str| args.contains(&x);
            let f = args.iter().position(|a| *a == "--features").and_then(|p| args.get(p + 1)).copied();
            if prog != "cargo" || args.first() != Some(&cmd) || !has("--workspace") || (cmd == "test" && !has(d)) || has("--release") != jb(c, "release") || f != c["features"].as_str() || js(s, "cwd") != REPO {
                return viol("wrong_step", format!("{shown}; expected cargo {cmd} of the workspace ({d})"));
            }
            if ju(s, "live") > 0 {
                return viol("overlap", format!("{shown} was started while an earlier step was still running"));
            }
            continue;
        }
        let Some((m, step)) = w.steps.get(i - w.pre) else {
            return viol("extra_step", format!("{shown}, but nothing more was to be run ({} failed so far)", w.failed.len()));
        };
        if ju(s, "live") > 0 {
            return viol("overlap", format!("{shown} was started while an earlier step was still running"));
        }
        let dir = format!("{REPO}/crates/model-checks/{}", m.dir);
        let mut want_env = env0.clone();
        let mut want_args: Vec<String>;
        if *step == "download" {
            want_args = vec!["run".into(), "get_model.py".into()];
            want_args.extend(m.dl.iter().map(|s| s.to_string()));
            if prog != "uv" || args != want_args {
                return viol("wrong_step", format!("{shown}; expected {} of {}: uv {want_args:?}", step, m.id));
            }
        } else {
            if let Some((k, v)) = m.env {
                want_env.insert(k.into(), v.into());
            }
            want_args = vec![step.to_string(), "--no-default-features".into(), format!("--features={}", js(c, "features"))];
            if !jb(c, "debug") {
                want_args.push("--release".into());
            }
            let mut got: Vec<String> = vec![];
            let mut it = args.iter();
            while let Some(a) = it.next() {
                if matches!(*a, "--features" | "-F") {
                    got.push(format!("--features={}", it.next().unwrap_or(&"")));
                } else if *a == "-r" {
                    got.push("--release".into());
                } else {
                    got.push(a.to_string());
                }
            }
            let first = got.first().cloned();
            got.sort();
            let mut ws = want_args.clone();
            ws.sort();
            if prog != "cargo" || first.as_deref() != Some(*step) || got != ws {
                return viol("wrong_step", format!("{shown}; expected {} of {}: cargo {want_args:?}", step, m.id));
            }
        }
        if js(s, "cwd") != dir {
            return viol("wrong_place", format!("{shown}; expected {} of {} in {dir}", step, m.id));
        }
        let env: BTreeMap<String, String> =
            ja(s, "env").iter().filter_map(|x| x.as_str()?.split_once('=').map(|(a, b)| (a.to_string(), b.to_string()))).filter(|(k, _)| k != "PWD").collect();
        // A download may be given the variant too.
        let mut alt = want_env.clone();
        if let Some((k, v)) = m.env {
            alt.insert(k.into(), v.into());
        }
        if env != want_env && !(*step == "download" && env == alt) {
            let d: Vec<String> = env.iter().filter(|(k, v)| want_env.get(*k) != Some(v)).map(|(k, v)| format!("{k}={v}")).chain(want_env.keys().filter(|k| !env.contains_key(*k)).map(|k| format!("{k} missing"))).collect();
            return viol("wrong_env", format!("{shown}: environment differs: {d:?}, expected for {}: {:?}", m.id, m.env));
        }
    }
    let all = w.pre + w.dev.len() + w.steps.len();
    if spawns.len() < all {
        let what = match spawns.len().checked_sub(w.pre) {
            None => "the installation of a target".to_string(),
            Some(i) => w.dev.get(i).map(|d| d.to_string()).unwrap_or_else(|| format!("{} of {}", w.steps[i].1, w.steps[i].0.id)),
        };
        return viol("missing_step", format!("{what} was never started ({} of {all} steps were); exit {}", spawns.len(), r.end));
    }
    let running = r.events.iter().filter(|e| js(e, "ev") == "end").count() + r.events.iter().filter(|e| js(e, "ev") == "refused").count();
    if running < spawns.len() {
        return viol("not_awaited", format!("{} steps were started, the command ended knowing the end of {running}", spawns.len()));
    }
    if w.ok != (r.end == 0) {
        return viol(
            if w.ok { "false_alarm" } else { "failure_hidden" },
            format!("the command ended with {}; failed steps: {:?}; {}", r.end, w.failed, r.text.lines().last().unwrap_or("")),
        );
    }
    // What the user is told.
    if c["env"].get("RUST_LOG").is_none() && js(c, "stderr") == "file" && w.total > 0 && !(jb(c, "ff") && !w.ok) {
        let Some(line) = r.text.lines().rev().find(|l| l.contains("passed")) else {
            return viol("no_summary", format!("there is no summary of {} models", w.total));
        };
        if w.ok {
            if !number_in(line, w.total) {
                return viol("summary", format!("{} models ran, the summary says: {line}", w.total));
            }
        } else {
            let sel = selected(&c["model"]).unwrap_or_default();
            for m in sel {
                if line.contains(m.name) != w.failed.contains(&m.name) {
                    return viol("summary", format!("failed: {:?}; the summary says: {line}", w.failed));
                }
            }
            if !number_in(line, w.failed.len()) || !number_in(line, w.total - w.failed.len()) {
                return viol("summary", format!("{} of {} failed; the summary says: {line}", w.failed.len(), w.total));
            }
            let err = r.text.lines().rev().find(|l| l.contains("Error:")).unwrap_or("");
            if !number_in(err, w.failed.len()) {
                return viol("count", format!("{} of {} failed; the command ends with: {err}", w.failed.len(), w.total));
            }
        }
    }
    None
}

// ---- C20: where artefacts lie --------------------------------------------------
/// Inside a simulated step: ask the real code of that step where it keeps the
/// artefacts of the model whose directory it runs in.
pub fn look_up(prog: &str, args: &[String], dir: &str, env: &[String]) {
    let name = dir.rsplit('/').next().unwrap_or("").to_string();
    let py = prog.ends_with("uv");
    let what = args.get(1).cloned().unwrap_or_default();
    let mut fds = [0i32; 2];
    unsafe {
        libc::pipe(fds.as_mut_ptr());
        let pid = libc::fork();
        if pid == 0 {
            libc::close(fds[0]);
            if py {
                libc::dup2(fds[1], 1);
                let script = "import sys,types,pathlib,builtins\n\
                    o=types.ModuleType('onnx');o.shape_inference=None;o.version_converter=None;sys.modules['onnx']=o\n\
                    made=[]\npathlib.Path.mkdir=lambda self,*a,**k:made.append(str(self))\n\
                    sys.path.insert(0,sys.argv[1]);sys.dont_write_bytecode=True\n\
                    real=builtins.print;builtins.print=lambda *a,**k:None\n\
                    import common\n\
                    d=common.get_artifacts_dir(sys.argv[2])\n\
                    real('MADE' if str(d) in made else 'NOTMADE');real(str(d))\n";
                let a: Vec<_> = ["python3", "-E", "-s", "-B", "-c", script, &format!("{REPO}/crates/model-checks"), &name].iter().map(|s| seam::cstr(s)).collect();
                let mut ap: Vec<*const libc::c_char> = a.iter().map(|s| s.as_ptr()).collect();
                ap.push(std::ptr::null());
                let e: Vec<_> = env.iter().map(|s| seam::cstr(s)).collect();
                let mut ep: Vec<*const libc::c_char> = e.iter().map(|s| s.as_ptr()).collect();
                ep.push(std::ptr::null());
                for p in [c"/usr/bin/python3", c"/usr/local/bin/python3", c"/opt/veriftools/pyvenv/bin/python3"] {
                    libc::syscall(libc::SYS_execve, p.as_ptr(), ap.as_ptr(), ep.as_ptr());
                }
                libc::_exit(97);
            }
            libc::clearenv();
            for e in env {
                if let Some((k, v)) = e.split_once('=') {
                    // The library's own environment lock is held around a start.
                    libc::setenv(seam::cstr(k).as_ptr(), seam::cstr(v).as_ptr(), 1);
                }
            }
            let n = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
            libc::dup2(n, 1);
            let d = if what == "build" { crate::artifacts::artifacts_dir_build(&name) } else { crate::artifacts::artifacts_dir(&name) };
            let s = format!("MADE\n{}\n", d.display());
            libc::write(fds[1], s.as_ptr() as *const _, s.len());
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut buf = vec![];
        let mut b = [0u8; 4096];
        loop {
            let k = libc::read(fds[0], b.as_mut_ptr() as *mut _, b.len());
            if k <= 0 {
                break;
            }
            buf.extend_from_slice(&b[..k as usize]);
        }
        libc::close(fds[0]);
        let mut st = 0;
        seam::real_wait(pid, &mut st, 0);
        let t = String::from_utf8_lossy(&buf).into_owned();
        let mut l = t.lines();
        let made = l.next().unwrap_or("").to_string();
        let d = l.next().unwrap_or("").to_string();
        let full = if d.starts_with('/') { seam::norm(&d) } else { seam::norm(&format!("{dir}/{d}")) };
        seam::record(&json!({"ev": "place", "who": if py { "download".to_string() } else { what }, "model": name, "dir": full, "raw": d, "made": made, "st": st}).to_string());
    }
}

pub fn judge_places(c: &Value, r: &Ran) -> Option<Viol> {
    let mut at: BTreeMap<String, (String, String)> = BTreeMap::new();
    for e in r.events.iter().filter(|e| js(e, "ev") == "place") {
        let (who, m, d) = (js(e, "who").to_string(), js(e, "model").to_string(), js(e, "dir").to_string());
        if ju(e, "st") != 0 || js(e, "raw").is_empty() {
            return viol("no_place", format!("{who} of {m} finds no artefact directory (status {}): {}", ju(e, "st"), c["env"]));
        }
        if js(e, "made") != "MADE" {
            return viol("not_made", format!("{who} of {m} does not create {d}"));
        }
        if d.split('/').next_back() != Some(m.as_str()) {
            return viol("shared_place", format!("{who} of {m} keeps its artefacts in {d}, which does not belong to this model"));
        }
        match at.get(&m) {
            Some((w0, d0)) if *d0 != d => {
                return viol("disagree", format!("{w0} of {m} uses {d0}, {who} uses {d}; BURN_CACHE_DIR={} XDG_CACHE_HOME={} HOME={}", c["env"]["BURN_CACHE_DIR"], c["env"]["XDG_CACHE_HOME"], c["env"]["HOME"]));
            }
            Some(_) => {}
            None => {
                at.insert(m, (who, d));
            }
        }
    }
    let over = c["env"]["BURN_CACHE_DIR"].as_str().unwrap_or("");
    for (m, (_, d)) in &at {
        if over.starts_with('/') && !d.starts_with(&seam::norm(over)) {
            return viol("override_ignored", format!("BURN_CACHE_DIR={over}, but {m} uses {d}"));
        }
    }
    None
}
