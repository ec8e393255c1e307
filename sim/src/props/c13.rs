//! C13: the host's panic reporting and logging survive any use of the converter.
use super::common::*;
use crate::core::*;
use crate::gen_::Style;
use crate::inc::{Job, Status};
use crate::plan::*;
use crate::util::*;
use crate::work::*;
use serde_json::{Value, json};
use std::io::Write as _;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering::*};

/// Convert, refused convert, and what a host does around them.
const STEPS: &[&str] = &["convert", "convert", "convert", "bad", "panic", "panic", "rehook", "chain", "drop", "logger", "subscriber", "log", "locked", "inlog"];

pub fn make(r: &mut Rng, ctx: &Ctx, i: u64) -> Value {
    let threads = i % 4 == 3;
    let nm = r.range(1, 2);
    let models: Vec<Value> =
        (0..nm).map(|_| real_or_gen(r, ctx, 25, &Style { max_layers: 5, ..Style::default() })).collect();
    let mut clients = vec![];
    let nc = if threads { r.range(2, 4) } else { 1 };
    for c in 0..nc {
        let n = if threads { r.range(1, 4) } else { r.range(2, 9) };
        let steps: Vec<Value> = (0..n)
            .map(|_| {
                let d = if threads {
                    // Hook changes of one host thread against another's panics have no
                    // order, so threads only convert, panic and log.
                    if c + 1 < nc { *r.pick(&["convert", "convert", "bad", "panic"]) } else { *r.pick(&["panic", "panic", "log", "locked", "convert"]) }
                } else {
                    *r.pick(STEPS)
                };
                json!({"do": d, "m": r.below(nm), "opts": rand_opts(r), "keep": r.chance(1, 2)})
            })
            .collect();
        clients.push(json!({"steps": steps}));
    }
    let lf = |r: &mut Rng| {
        let e = *r.pick(&[libc::EPIPE, libc::ENOSPC, libc::EIO, libc::EAGAIN, libc::EBADF, libc::EINTR, 0]);
        let at = if r.chance(1, 2) { 0 } else { r.below(60) };
        json!([at, e + 1000 * r.below(3) as i32])
    };
    let n = if r.chance(2, 3) { r.range(1, 2) } else { 0 };
    let lfs: Vec<Value> = (0..n).map(|_| lf(r)).collect();
    let sw: Vec<Value> = if threads {
        let mut at: Vec<u64> = (0..r.range(1, 30)).map(|_| if r.chance(1, 2) { r.below(400) } else { r.below(40_000) }).collect();
        at.sort();
        at.iter().map(|a| json!([a, r.below(nc)])).collect()
    } else {
        vec![]
    };
    json!({"models": models, "clients": clients, "log_faults": lfs, "switches": sw, "sched": r.next() >> 12, "hash": r.next() >> 12,
           "hook0": r.chance(3, 4)})
}

/// Calls seen by each host hook (0 is the simulator's own, not counted here).
static CALLS: [AtomicU32; 16] = [const { AtomicU32::new(0) }; 16];
static LOST: Mutex<Vec<String>> = Mutex::new(Vec::new());
static HOST_RECORDS: AtomicU32 = AtomicU32::new(0);
/// A first use of the converter that has begun and not returned.
static FIRST_OPEN: AtomicU32 = AtomicU32::new(0);
static FIRST_EPOCH: AtomicU32 = AtomicU32::new(0);
static FIRST_DONE: AtomicBool = AtomicBool::new(false);
/// Panics caused, and those during an open first use.
static PANICS: AtomicU32 = AtomicU32::new(0);
static PANICS_OPEN: AtomicU32 = AtomicU32::new(0);

struct HostLogger;
impl log::Log for HostLogger {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        if r.target() == "host" {
            HOST_RECORDS.fetch_add(1, SeqCst);
        }
    }
    fn flush(&self) {}
}
/// A subscriber's writer: counts what the host logs.
struct Count;
impl std::io::Write for Count {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if b.windows(11).any(|w| w == b"host-record") {
            HOST_RECORDS.fetch_add(1, SeqCst);
        }
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
struct Bomb;
impl std::fmt::Display for Bomb {
    fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result {
        panic!("host: while formatting a log record")
    }
}

/// Run `f`; count the panic it ends with.
fn guarded(f: impl FnOnce()) -> Option<String> {
    let (open, epoch) = (FIRST_OPEN.load(SeqCst), FIRST_EPOCH.load(SeqCst));
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(()) => None,
        Err(e) => {
            PANICS.fetch_add(1, SeqCst);
            if open > 0 || FIRST_EPOCH.load(SeqCst) != epoch {
                PANICS_OPEN.fetch_add(1, SeqCst);
            }
            Some(e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())
        }
    }
}

fn convert(input: &str, out: &str, opts: &Value) -> Option<String> {
    let mut g = None;
    if let Some(m) = guarded(|| {
        g = Some(if FIRST_DONE.load(SeqCst) {
            burn_onnx::ModelGen::new()
        } else {
            FIRST_OPEN.fetch_add(1, SeqCst);
            FIRST_EPOCH.fetch_add(1, SeqCst);
            let g = burn_onnx::ModelGen::new();
            FIRST_DONE.store(true, SeqCst);
            FIRST_OPEN.fetch_sub(1, SeqCst);
            g
        })
    }) {
        return Some(m);
    }
    guarded(|| {
        let mut g = g.unwrap();
        g.input(input).out_dir(out).development(jb(opts, "dev")).embed_states(jb(opts, "embed")).simplify(!jb(opts, "nosimplify"));
        g.run_from_cli();
    })
}

fn hook(k: usize, next: Option<Box<dyn Fn(&std::panic::PanicHookInfo<'_>) + Send + Sync>>) {
    std::panic::set_hook(Box::new(move |i| {
        CALLS[k].fetch_add(1, SeqCst);
        if let Some(n) = &next {
            n(i)
        }
    }));
}

/// One host thread. `serial`: it is the only one, so every step is checked at once.
fn client<'a>(steps: Vec<Value>, c: usize, serial: bool, hook0: bool, paths: Vec<String>) -> Job<'a> {
    Box::new(move || {
        let mut out: Vec<Value> = vec![];
        let mut live: Vec<usize> = vec![];
        let mut next = 1;
        let mut logging = false;
        let mut level = log::max_level();
        if hook0 && serial {
            hook(0, None);
            live.push(0);
        }
        // Whether panics go through the converter's own log, and how many did.
        let (mut ours, mut due) = (None, 0u32);
        let bad = |m: String| LOST.lock().unwrap().push(m);
        for (i, s) in steps.iter().enumerate() {
            let what = js(s, "do");
            let before: Vec<u32> = CALLS.iter().map(|x| x.load(SeqCst)).collect();
            let recs = HOST_RECORDS.load(SeqCst);
            let mut panicked = 0;
            let mut want_rec = 0;
            match what {
                "convert" | "bad" => {
                    let p = &paths[ju(s, "m") as usize % paths.len()];
                    let p = if what == "bad" { "/w/missing.onnx" } else { p };
                    let r = convert(p, &format!("/w/out{c}_{i}"), &s["opts"]);
                    panicked = r.is_some() as u32;
                    out.push(json!([i, r]));
                    if logging && log::max_level() != level {
                        bad(format!("step {i}: the conversion changed the log level the host had set from {level} to {}", log::max_level()));
                    }
                }
                "panic" => {
                    let text = format!("host panic {c}.{i}");
                    let r = guarded(|| panic!("host panic {c}.{i}"));
                    panicked = 1;
                    if r.as_deref() != Some(text.as_str()) {
                        bad(format!("step {i}: a host panic arrived as {r:?}"));
                    }
                }
                "locked" => {
                    // The panic happens while the panicking thread holds the log sink.
                    guarded(|| {
                        let mut g = std::io::stdout().lock();
                        let _ = g.write_all(b"host output\n");
                        panic!("host: holding stdout");
                    });
                    panicked = 1;
                }
                "inlog" => {
                    if log::log_enabled!(target: "host", log::Level::Error) {
                        let h = PANICS.load(SeqCst);
                        guarded(|| log::error!(target: "host", "host-format {}", Bomb));
                        panicked = PANICS.load(SeqCst) - h;
                    }
                }
                "rehook" if next < 16 => {
                    hook(next, None);
                    live = vec![next];
                    next += 1;
                }
                "chain" if next < 16 => {
                    let old = std::panic::take_hook();
                    hook(next, Some(old));
                    live.push(next);
                    next += 1;
                }
                "drop" => {
                    drop(std::panic::take_hook());
                    live.clear();
                }
                "logger" => {
                    if log::set_boxed_logger(Box::new(HostLogger)).is_ok() {
                        log::set_max_level(log::LevelFilter::Warn);
                        logging = true;
                        level = log::max_level();
                    }
                }
                "subscriber" => {
                    let keep = jb(s, "keep");
                    if tracing_subscriber::fmt()
                        .with_max_level(if keep { tracing_core::LevelFilter::ERROR } else { tracing_core::LevelFilter::INFO })
                        .with_writer(|| Count)
                        .try_init()
                        .is_ok()
                    {
                        logging = true;
                        level = log::max_level();
                    }
                }
                "log" => {
                    log::error!(target: "host", "host-record {c} {i}");
                    want_rec = (logging && serial) as u32;
                }
                _ => {}
            }
            match what {
                "convert" | "bad" if ours.is_none() => ours = Some(!logging),
                // The hook is the host's again.
                "rehook" | "drop" if ours.is_some() => ours = Some(false),
                _ => {}
            }
            if ours == Some(true) && matches!(what, "convert" | "bad" | "panic") {
                due += panicked;
            }
            if !serial {
                continue;
            }
            for (k, b) in before.iter().enumerate() {
                let calls = CALLS[k].load(SeqCst) - b;
                let want = if live.contains(&k) { panicked } else { 0 };
                if calls != want {
                    bad(format!("step {i} ({what}): host hook {k} was called {calls} times, expected {want}"));
                }
            }
            let got = HOST_RECORDS.load(SeqCst) - recs;
            if logging && what != "inlog" && got != want_rec {
                bad(format!("step {i} ({what}): the host's log received {got} of its records, expected {want_rec}"));
            }
        }
        let lost = LOST.lock().unwrap().clone();
        serde_json::to_vec(&json!({"out": out, "lost": lost, "panics": PANICS.load(SeqCst), "open": PANICS_OPEN.load(SeqCst), "due": due})).unwrap()
    })
}

pub fn exec(c: &Value, run: &mut Run) -> Option<Viol> {
    let mut vfs = crate::vfs::Vfs::new();
    vfs.mkdirs("/w");
    vfs.mkdirs("/tmp");
    let mut paths = vec![];
    for (i, m) in ja(c, "models").iter().enumerate() {
        let b = model(m, run.ctx)?;
        b.place(&mut vfs, &format!("/w/m{i}"), "net.onnx");
        paths.push(format!("/w/m{i}/net.onnx"));
    }
    let cl = ja(c, "clients");
    if paths.is_empty() || cl.is_empty() {
        return None;
    }
    let serial = cl.len() == 1;
    let mut e = Env::seeded(ju(c, "hash"));
    e.log_faults = Env::from_json(c).log_faults;
    e.switches = Env::from_json(c).switches;
    e.sched_seed = ju(c, "sched");
    let jobs: Vec<Job> = cl
        .iter()
        .enumerate()
        .map(|(i, k)| {
            client(ja(k, "steps").to_vec(), i, serial, jb(c, "hook0"), paths.clone())
        })
        .collect();
    let o = run.go(&e, &vfs, jobs);
    run.hit(mix(o.digest, mix(o.sched_digest, fnv(c["clients"].to_string().as_bytes()))));
    if o.status != Status::Done {
        return viol("process_lost", &key(&o.describe()), format!("the host process ended: {}", o.describe()), &[&o]);
    }
    let mut docs = vec![];
    for (i, r) in o.res.iter().enumerate() {
        match r {
            Ok(b) => docs.push(serde_json::from_slice::<Value>(b).ok()?),
            Err(m) => return viol("host_panicked", "host_panicked", format!("client {i}: host code panicked: {m}"), &[&o]),
        }
    }
    if serial {
        if let Some(m) = ja(&docs[0], "lost").first() {
            return viol("host_disturbed", &key(m.as_str().unwrap_or("")), m.as_str().unwrap_or("").to_string(), &[&o]);
        }
        run.probe("history checked");
    }
    // Totals: the document of the thread that ended last has them all.
    let last = docs.iter().max_by_key(|d| ju(d, "panics")).unwrap();
    let panics = ju(last, "panics");
    let open = docs.iter().map(|d| ju(d, "open")).max().unwrap_or(0);
    if !serial {
        let seen = o.host_hook;
        if panics > 0 {
            run.probe("panics with threads");
        }
        if open > 0 {
            run.probe("panic during first use");
        }
        if seen > panics {
            return viol("hook_twice", "hook_twice", format!("{panics} panics but {seen} reports"), &[&o]);
        }
        if seen < panics {
            if panics - seen <= open {
                return viol("hook_lost", "hook_window", format!("{panics} panics, {seen} reported, {open} while the first ModelGen::new of the process was running"), &[&o]);
            }
            return viol("hook_lost", "hook_lost", format!("{panics} panics but only {seen} reported"), &[&o]);
        }
    }
    if panics > 0 && o.log.len() < 1 << 18 {
        let n = o.log.windows(8).filter(|w| w == b"PANIC =>").count() as u64;
        if n > panics {
            return viol("logged_twice", "logged_twice", format!("{panics} panics but {n} lines in the log"), &[&o]);
        }
        if n > 0 {
            run.probe("panic logged");
        }
        let due = ju(&docs[0], "due");
        if serial && e.log_faults.is_empty() {
            if n < due {
                return viol("not_logged", "not_logged", format!("{due} panics while the converter's log was in place, {n} in it"), &[&o]);
            }
            if due > 0 {
                run.probe("log complete");
            }
        }
    }
    // Outcome and artefacts of every conversion.
    for (ci, d) in docs.iter().enumerate() {
        let steps = ja(&cl[ci], "steps");
        for st in ja(d, "out") {
            let i = st[0].as_u64().unwrap_or(0) as usize;
            let s = &steps[i];
            let bad = js(s, "do") == "bad";
            let p = if bad { "/w/missing.onnx".to_string() } else { paths[ju(s, "m") as usize % paths.len()].clone() };
            let out = format!("/w/out{ci}_{i}");
            let conv = Conv::new(&p, &out).opts(&s["opts"]);
            let alone = run.go(&Env::seeded(1), &vfs, vec![conv.job()]);
            if alone.ok() != st[1].is_null() {
                return viol(
                    "acceptance",
                    "acceptance",
                    format!("client {ci} step {i}: alone with a working log: {}; here: {}", alone.describe(), st[1].as_str().unwrap_or("returned")),
                    &[&alone, &o],
                );
            }
            if let Some(d) = diff(&outputs(&alone.vfs, &out), &outputs(&o.vfs, &out)) {
                return viol("artefacts", "artefacts", format!("client {ci} step {i}: {d}"), &[&alone, &o]);
            }
            run.probe("conversion compared");
        }
    }
    None
}
