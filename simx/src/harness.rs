//! Takes over before `main`: explores cases, each in a forked copy of this
//! process that goes on into the command's real `main`.
use crate::cases::*;
use crate::seam;
use crate::util::*;
use libc::{c_char, c_int};
use serde_json::{Value, json};
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::Ordering::SeqCst;
use std::time::{Duration, Instant};

const PAD: usize = 48;
#[used]
#[unsafe(link_section = ".init_array")]
static CTOR: unsafe extern "C" fn(c_int, *mut *mut c_char, *mut *mut c_char) = ctor;

unsafe extern "C" fn ctor(argc: c_int, argv: *mut *mut c_char, envp: *mut *mut c_char) {
    unsafe {
        let get = |i: usize| std::ffi::CStr::from_ptr(*argv.add(i)).to_string_lossy().into_owned();
        let a: Vec<String> = (0..argc as usize).map(get).collect();
        if a.last().map(|s| s.as_str()) != Some("\u{1}pad") {
            // Room for the arguments of the simulated runs.
            let mut v: Vec<_> = a.iter().map(|s| seam::cstr(s)).collect();
            for _ in 0..PAD {
                v.push(seam::cstr("\u{1}pad"));
            }
            let mut p: Vec<*const c_char> = v.iter().map(|s| s.as_ptr()).collect();
            p.push(std::ptr::null());
            libc::syscall(libc::SYS_execve, c"/proc/self/exe".as_ptr(), p.as_ptr(), envp);
            libc::_exit(3);
        }
        let a: Vec<String> = a.into_iter().filter(|s| s != "\u{1}pad").collect();
        if let Some(code) = top(&a, argv) {
            use std::io::Write;
            let _ = std::io::stdout().flush();
            libc::_exit(code);
        }
        // A simulated run: on into main.
    }
}

/// Run one case. None: this is the simulated process.
fn run(c: &Value, argv: *mut *mut c_char) -> Option<Ran> {
    let sh = seam::shared();
    sh.len.store(0, SeqCst);
    sh.spawns.store(0, SeqCst);
    sh.cache.store(js(c, "prop") == "C20", SeqCst);
    sh.nplan = 0;
    for f in ja(c, "faults").iter().take(512) {
        sh.plan[sh.nplan] = [f[0].as_i64().unwrap_or(0) as i32, f[1].as_i64().unwrap_or(0) as i32, f[2].as_i64().unwrap_or(0) as i32];
        sh.nplan += 1;
    }
    unsafe {
        let fd = libc::memfd_create(c"out".as_ptr(), 0);
        let pid = libc::fork();
        if pid == 0 {
            libc::alarm(60);
            libc::dup2(fd, 1);
            match js(c, "stderr") {
                "full" => {
                    let f = libc::open(c"/dev/full".as_ptr(), libc::O_WRONLY);
                    libc::dup2(f, 2);
                }
                "closed_pipe" => {
                    let mut p = [0i32; 2];
                    libc::pipe(p.as_mut_ptr());
                    libc::dup2(p[1], 2);
                    libc::close(p[0]);
                }
                _ => {
                    libc::dup2(fd, 2);
                }
            }
            libc::clearenv();
            if let Some(o) = c["env"].as_object() {
                for (k, v) in o {
                    libc::setenv(seam::cstr(k).as_ptr(), seam::cstr(v.as_str().unwrap_or("")).as_ptr(), 1);
                }
            }
            if libc::chdir(seam::cstr(REPO).as_ptr()) != 0 {
                libc::_exit(98);
            }
            let mut args = vec!["xtask".to_string()];
            args.extend(ja(c, "args").iter().filter_map(|x| x.as_str()).map(|s| s.to_string()));
            for (i, s) in args.iter().enumerate().take(PAD) {
                *argv.add(i) = seam::cstr(s).into_raw();
            }
            *argv.add(args.len().min(PAD)) = std::ptr::null_mut();
            seam::ACTIVE.store(true, SeqCst);
            return None;
        }
        let mut st = 0;
        seam::real_wait(pid, &mut st, 0);
        let mut text = vec![];
        let mut b = [0u8; 8192];
        loop {
            let k = libc::pread(fd, b.as_mut_ptr() as *mut _, b.len(), text.len() as i64);
            if k <= 0 {
                break;
            }
            text.extend_from_slice(&b[..k as usize]);
        }
        libc::close(fd);
        let end = if libc::WIFEXITED(st) { libc::WEXITSTATUS(st) } else { -libc::WTERMSIG(st) };
        let t = String::from_utf8_lossy(&text).into_owned();
        let mut plain = String::new();
        let mut it = t.chars();
        while let Some(ch) = it.next() {
            if ch == '\u{1b}' {
                for x in it.by_ref() {
                    if x.is_ascii_alphabetic() {
                        break;
                    }
                }
            } else {
                plain.push(ch);
            }
        }
        let events = seam::taken().iter().map(|l| serde_json::from_str(l).unwrap_or(json!({"ev": l}))).collect();
        Some(Ran { events, end, text: plain })
    }
}
fn digest(r: &Ran) -> u64 {
    let mut h = mix(7, r.end as u64);
    for e in &r.events {
        h = mix(h, fnv(e.to_string().as_bytes()));
    }
    h
}
fn judge_case(c: &Value, r: &Ran) -> Option<Viol> {
    judge(c, r).or_else(|| if js(c, "prop") == "C20" { judge_places(c, r) } else { None })
}
fn make_case(id: &str, seed: u64, i: u64) -> Value {
    make(id, &mut Rng::fork(seed.wrapping_mul(0x1000_0000_01b3).wrapping_add(i), id), i)
}
fn trace(c: &Value, r: &Ran) -> Vec<String> {
    let mut v = vec![format!("$ xtask {}", ja(c, "args").iter().filter_map(|x| x.as_str()).collect::<Vec<_>>().join(" "))];
    for e in &r.events {
        v.push(match js(e, "ev") {
            "spawn" => format!("start {}: {} {} (in {})", ju(e, "k"), js(e, "prog"), ja(e, "args").iter().filter_map(|x| x.as_str()).collect::<Vec<_>>().join(" "), js(e, "cwd")),
            _ => e.to_string(),
        });
    }
    v.push(format!("command ends with {}", r.end));
    v.extend(r.text.lines().rev().take(6).map(|l| format!("| {l}")).collect::<Vec<_>>().into_iter().rev());
    v
}

fn arg(a: &[String], k: &str) -> Option<String> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned()
}
fn rule(id: &str) -> &'static str {
    match id {
        "C21" => "one case = one run of a real developer command (build, test and its parts) with drawn context, flags and fate of every started tool; distinct executions are counted",
        "C20" => "one case = one run of the model-check command in which every download, build and run step asks the real Python and Rust helpers for the artefact directory, under drawn cache variables; distinct (environment, steps) are counted",
        _ => "one case = one run of the real command with drawn arguments, environment and fate of every step (exit code, signal, refused start, lost status, interrupted wait, dead log sink); distinct executions are counted",
    }
}

/// None: go on into main as a simulated process.
fn top(a: &[String], argv: *mut *mut c_char) -> Option<i32> {
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let root = arg(a, "--root").unwrap_or_else(|| "/verif".into());
    match a.get(1).map(|s| s.as_str()) {
        Some("replay") => {
            let v: Value = serde_json::from_slice(&std::fs::read(&a[2]).expect("replay file")).expect("json");
            let r = run(&v["case"], argv)?;
            for l in trace(&v["case"], &r) {
                println!("  {l}");
            }
            let d = format!("{:016x}", digest(&r));
            println!("digest {d} ({})", if d == js(&v, "digest") { "as recorded" } else { "differs from the recorded run" });
            if let Some(x) = judge_case(&v["case"], &r) {
                println!("{} {}\nVIOLATION property={} replay={}", x.class, x.msg, js(&v, "property"), a[2]);
                return Some(1);
            }
            println!("no violation");
            Some(0)
        }
        Some("one") => {
            let i: u64 = a[3].parse().unwrap();
            let c = make_case(&a[2], seed, i);
            let r = run(&c, argv)?;
            println!("{c}");
            for l in trace(&c, &r) {
                println!("  {l}");
            }
            println!("{:?}", judge_case(&c, &r).map(|v| (v.class, v.msg)));
            Some(0)
        }
        Some("check") => check(&a[2], a, seed, &root, argv),
        _ => {
            eprintln!("usage: checksim check C12|C20 [--tier T] [--cases N] [--budget S] | replay FILE | one ID INDEX");
            Some(2)
        }
    }
}

fn check(id: &str, a: &[String], seed: u64, root: &str, argv: *mut *mut c_char) -> Option<i32> {
    let t0 = Instant::now();
    let tier = arg(a, "--tier").unwrap_or_else(|| "quick".into());
    let thorough = tier == "thorough";
    let quick = match id { "C20" => 600, "C21" => 3000, _ => 6000 };
    let total: u64 = arg(a, "--cases").and_then(|s| s.parse().ok()).unwrap_or(if thorough { u64::MAX / 4 } else { quick });
    let budget: u64 = arg(a, "--budget").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 900 } else { 240 });
    let nw = arg(a, "--workers").and_then(|s| s.parse().ok()).unwrap_or(std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4));
    let known: Vec<(String, String)> = serde_json::from_str::<Value>(&std::fs::read_to_string(format!("{root}/known_findings.json")).unwrap_or_default())
        .map(|v| ja(&v, "findings").iter().filter(|f| js(f, "property") == id).map(|f| (js(f, "key").to_string(), js(f, "what").to_string())).collect())
        .unwrap_or_default();
    let deadline = t0 + Duration::from_secs(budget);
    let mut kids = vec![];
    for w in 0..nw {
        let mut fds = [0i32; 2];
        unsafe { libc::pipe(fds.as_mut_ptr()) };
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            seam::own_block();
            let mut n = 0u64;
            let (mut rechecks, mut differ) = (0u64, 0u64);
            let mut distinct: HashSet<u64> = HashSet::new();
            let mut count: BTreeMap<String, u64> = BTreeMap::new();
            let mut met: BTreeMap<String, u64> = BTreeMap::new();
            let mut samples = vec![];
            let mut bad = Value::Null;
            let mut i = w;
            while i < total && Instant::now() < deadline {
                let c = make_case(id, seed, i);
                let r = run(&c, argv)?;
                n += 1;
                let d = digest(&r);
                distinct.insert(mix(d, fnv(c["env"].to_string().as_bytes())));
                for e in &r.events {
                    let k = match js(e, "ev") {
                        "spawn" => "steps started",
                        "refused" => "start refused",
                        "eintr" => "wait interrupted",
                        "echild" => "status lost",
                        "end" if ju(e, "kind") == 1 => "died by signal",
                        "end" if e["value"].as_i64() != Some(0) => "exit code",
                        "place" => "artefact directory asked",
                        _ => continue,
                    };
                    *count.entry(k.into()).or_insert(0) += 1;
                }
                if js(&c, "stderr") != "file" {
                    *count.entry("dead log sink".into()).or_insert(0) += 1;
                }
                *count.entry(if r.end == 0 { "commands succeeded".into() } else { "commands failed".to_string() }).or_insert(0) += 1;
                if samples.is_empty() {
                    samples.push(c.clone());
                }
                if i % 16 == 5 {
                    let r2 = run(&c, argv)?;
                    rechecks += 1;
                    differ += (digest(&r2) != d) as u64;
                }
                if let Some(v) = judge_case(&c, &r) {
                    if known.iter().any(|k| k.0 == v.class) {
                        *met.entry(v.class).or_insert(0) += 1;
                    } else {
                        bad = json!({"index": i, "case": c, "class": v.class, "msg": v.msg});
                        break;
                    }
                }
                i += nw;
            }
            let out = json!({"n": n, "rechecks": rechecks, "differ": differ, "distinct": distinct.into_iter().collect::<Vec<_>>(), "count": count, "met": met, "samples": samples, "bad": bad}).to_string();
            let mut at = 0;
            while at < out.len() {
                let k = unsafe { libc::write(fds[1], out.as_ptr().add(at) as *const _, out.len() - at) };
                if k <= 0 {
                    break;
                }
                at += k as usize;
            }
            unsafe { libc::_exit(0) };
        }
        unsafe { libc::close(fds[1]) };
        kids.push((pid, fds[0]));
    }
    let (mut n, mut rechecks, mut differ, mut lost) = (0u64, 0u64, 0u64, 0);
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut count: BTreeMap<String, u64> = BTreeMap::new();
    let mut met: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<Value> = vec![];
    let mut bad: Option<Value> = None;
    for (pid, fd) in kids {
        use std::io::Read;
        use std::os::fd::FromRawFd;
        let mut s = String::new();
        let _ = unsafe { std::fs::File::from_raw_fd(fd) }.read_to_string(&mut s);
        let mut st = 0;
        unsafe { seam::real_wait(pid, &mut st, 0) };
        let Ok(v) = serde_json::from_str::<Value>(&s) else {
            lost += 1;
            continue;
        };
        n += ju(&v, "n");
        rechecks += ju(&v, "rechecks");
        differ += ju(&v, "differ");
        distinct.extend(ja(&v, "distinct").iter().filter_map(|x| x.as_u64()));
        for (src, dst) in [("count", &mut count), ("met", &mut met)] {
            for (k, x) in v[src].as_object().into_iter().flatten() {
                *dst.entry(k.clone()).or_insert(0) += x.as_u64().unwrap_or(0);
            }
        }
        if samples.len() < 4 {
            samples.extend(ja(&v, "samples").iter().cloned());
        }
        if !v["bad"].is_null() && bad.as_ref().is_none_or(|b| ju(&v["bad"], "index") < ju(b, "index")) {
            bad = Some(v["bad"].clone());
        }
    }
    for (k, what) in &known {
        println!("KNOWN-FINDING: property={id} {what} (met {} times in this run)", met.get(k).unwrap_or(&0));
    }
    let mut code = 0;
    if let Some(b) = &bad {
        code = 1;
        // Minimise: fewer faults, smaller environment.
        let mut best = b["case"].clone();
        let class = js(b, "class").to_string();
        let mut msg = js(b, "msg").to_string();
        loop {
            let mut better = false;
            let mut tries: Vec<Value> = vec![];
            for i in 0..ja(&best, "faults").len() {
                let mut c = best.clone();
                c["faults"].as_array_mut().unwrap().remove(i);
                tries.push(c);
            }
            for k in best["env"].as_object().map(|o| o.keys().cloned().collect::<Vec<_>>()).unwrap_or_default() {
                if k != "PATH" && k != "HOME" {
                    let mut c = best.clone();
                    c["env"].as_object_mut().unwrap().remove(&k);
                    tries.push(c);
                }
            }
            for c in tries {
                let r = run(&c, argv)?;
                if let Some(v) = judge_case(&c, &r) {
                    if v.class == class {
                        best = c;
                        msg = v.msg;
                        better = true;
                        break;
                    }
                }
            }
            if !better {
                break;
            }
        }
        let r = run(&best, argv)?;
        let dir = format!("{root}/evidence/replay");
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{id}-{}.json", ju(b, "index"));
        let t = trace(&best, &r);
        let file = json!({"property": id, "seed": seed, "index": b["index"], "class": class, "message": msg, "case": best, "original_case": b["case"], "digest": format!("{:016x}", digest(&r)), "trace": t});
        std::fs::write(&path, serde_json::to_vec_pretty(&file).unwrap()).expect("write replay");
        println!("{class} {msg}");
        for l in &t {
            println!("  {l}");
        }
        println!("VIOLATION property={id} replay={path}");
    }
    let wall = t0.elapsed().as_secs_f64();
    let per = |x: u64| (x as f64 / wall.max(0.001) * 3600.0).round() as u64;
    let ev = json!({
        "property": id, "tier": tier, "seed": seed, "level": "sampled",
        "coverage": {
            "evaluations": n, "distinct_nontrivial": distinct.len(), "rule": rule(id), "samples": samples,
            "simulated_processes": n, "simulated_runs_per_hour": per(n), "seeds_per_hour": per(n), "simulated_time_s": 0,
            "faults_fired": count, "determinism_rechecks": rechecks, "determinism_mismatches": differ, "known_findings_seen": met,
            "real_components": ["xtask (main.rs, model_check.rs)", "tracel-xtask, clap, env_logger", "model-checks/common (Rust and Python)"],
            "stubbed_components": ["started processes (uv, cargo): each has a drawn fate"],
        },
        "assumptions": ["the table of models and their variants is restated in simx/src/cases.rs", "seeded sampling: a clean batch is evidence, not proof"],
        "wall_s": wall, "violations": code,
    });
    let _ = std::fs::create_dir_all(format!("{root}/evidence"));
    std::fs::write(arg(a, "--evidence").unwrap_or_else(|| format!("{root}/evidence/{id}.json")), serde_json::to_vec_pretty(&ev).unwrap()).expect("evidence");
    println!("{id}: {n} cases, {} distinct, rechecks {differ}/{rechecks} differ, {wall:.1}s, {count:?}", distinct.len());
    if code == 0 && (lost > 0 || n == 0) {
        eprintln!("harness error: {lost} workers lost, {n} cases");
        return Some(3);
    }
    Some(code)
}
