//! Cases, verdicts, statistics; the worker pool; shrinking; replay files;
//! evidence.
use crate::inc::{self, Job, Out, Status};
use crate::plan::Env;
use crate::util::*;
use crate::vfs::Vfs;
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::time::Instant;

#[derive(Clone, Debug)]
pub struct Viol {
    /// What kind of breach; kept fixed while shrinking.
    pub class: String,
    /// Identity for the known-findings file.
    pub key: String,
    pub msg: String,
    pub trace: Vec<String>,
}
pub fn viol(class: &str, key: &str, msg: impl Into<String>, outs: &[&Out]) -> Option<Viol> {
    let mut trace = vec![];
    for (i, o) in outs.iter().enumerate() {
        trace.push(format!("-- process {i}: {}", o.describe()));
        trace.extend(o.trace().into_iter().take(400));
    }
    Some(Viol { class: class.into(), key: key.into(), msg: msg.into(), trace })
}

#[derive(Default, Clone)]
pub struct Stats {
    pub cases: u64,
    pub incarnations: u64,
    pub sim_ns: u64,
    pub iops: u64,
    pub steps: u64,
    pub switches: u64,
    pub fired: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub statuses: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub schedules: HashSet<u64>,
    pub recheck: u64,
    pub recheck_diff: u64,
    pub samples: Vec<Value>,
    pub findings: BTreeMap<String, u64>,
}
impl Stats {
    fn merge(&mut self, o: Stats) {
        self.cases += o.cases;
        self.incarnations += o.incarnations;
        self.sim_ns += o.sim_ns;
        self.iops += o.iops;
        self.steps += o.steps;
        self.switches += o.switches;
        for (k, v) in o.fired {
            *self.fired.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.probes {
            *self.probes.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.statuses {
            *self.statuses.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.findings {
            *self.findings.entry(k).or_insert(0) += v;
        }
        self.distinct.extend(o.distinct);
        self.schedules.extend(o.schedules);
        self.recheck += o.recheck;
        self.recheck_diff += o.recheck_diff;
        for s in o.samples {
            if self.samples.len() < 6 {
                self.samples.push(s);
            }
        }
    }
    fn enc(&self) -> Vec<u8> {
        let m = |m: &BTreeMap<String, u64>| json!(m);
        let v = json!({
            "n": [self.cases, self.incarnations, self.sim_ns, self.iops, self.steps, self.switches, self.recheck, self.recheck_diff],
            "fired": m(&self.fired), "probes": m(&self.probes), "statuses": m(&self.statuses), "findings": m(&self.findings),
            "distinct": self.distinct.iter().collect::<Vec<_>>(), "schedules": self.schedules.iter().collect::<Vec<_>>(),
            "samples": self.samples,
        });
        serde_json::to_vec(&v).unwrap()
    }
    fn dec(v: &Value) -> Stats {
        let n = |i: usize| v["n"][i].as_u64().unwrap_or(0);
        let m = |k: &str| -> BTreeMap<String, u64> {
            v[k].as_object()
                .map(|o| o.iter().map(|(k, v)| (k.clone(), v.as_u64().unwrap_or(0))).collect())
                .unwrap_or_default()
        };
        let hs = |k: &str| ja(v, k).iter().filter_map(|x| x.as_u64()).collect();
        Stats {
            cases: n(0),
            incarnations: n(1),
            sim_ns: n(2),
            iops: n(3),
            steps: n(4),
            switches: n(5),
            recheck: n(6),
            recheck_diff: n(7),
            fired: m("fired"),
            probes: m("probes"),
            statuses: m("statuses"),
            findings: m("findings"),
            distinct: hs("distinct"),
            schedules: hs("schedules"),
            samples: ja(v, "samples").to_vec(),
        }
    }
}

/// One case in progress: runs simulated processes and keeps the books.
pub struct Run<'a> {
    pub ctx: &'a Ctx,
    pub st: Stats,
    pub digest: u64,
    pub nontrivial: bool,
}
impl<'a> Run<'a> {
    pub fn new(ctx: &'a Ctx) -> Self {
        Run { ctx, st: Stats::default(), digest: 0, nontrivial: false }
    }
    pub fn go(&mut self, env: &Env, vfs: &Vfs, jobs: Vec<Job>) -> Out {
        let multi = jobs.len() > 1;
        let o = inc::incarnate(env, vfs, jobs);
        self.st.incarnations += 1;
        self.st.sim_ns += o.sim_ns;
        self.st.iops += o.iops;
        self.st.steps += o.steps;
        self.st.switches += o.switches;
        for (k, v) in &o.fired {
            *self.st.fired.entry(k.clone()).or_insert(0) += v;
        }
        if multi {
            self.st.schedules.insert(o.sched_digest);
        }
        let s = match &o.status {
            Status::Done if o.res.iter().all(|r| r.is_ok()) => "returned".to_string(),
            Status::Done => "panicked".into(),
            Status::Crashed => "crashed".into(),
            Status::Exit(_) => "exited".into(),
            Status::Signal(n, _) => format!("signal_{n}"),
            s => format!("{s:?}").split('(').next().unwrap_or("").to_lowercase(),
        };
        *self.st.statuses.entry(s.clone()).or_insert(0) += 1;
        self.digest = mix(self.digest, o.digest);
        self.digest = mix(self.digest, fnv(s.as_bytes()));
        self.digest = mix(self.digest, o.sched_digest);
        for r in &o.res {
            match r {
                Ok(b) => self.digest = mix(self.digest, fnv(b)),
                Err(b) => self.digest = mix(self.digest, fnv(b.as_bytes())),
            }
        }
        o
    }
    pub fn probe(&mut self, k: &str) {
        *self.st.probes.entry(k.into()).or_insert(0) += 1;
    }
    /// This case reached what the property is about; `k` identifies the
    /// distinct situation.
    pub fn hit(&mut self, k: u64) {
        self.nontrivial = true;
        self.st.distinct.insert(k);
    }
}

pub struct Ctx {
    pub corpus: crate::corpus::Corpus,
    #[allow(dead_code)]
    pub thorough: bool,
    #[allow(dead_code)]
    pub seed: u64,
}

pub struct Prop {
    pub id: &'static str,
    pub make: fn(&mut Rng, &Ctx, u64) -> Value,
    pub exec: fn(&Value, &mut Run) -> Option<Viol>,
    /// Cases in the quick tier.
    pub quick: u64,
    pub rule: &'static str,
    pub level: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
}

// ---- shrinking -------------------------------------------------------------
/// Remove array elements and simplify numbers under these keys.
const SHRINK_ARRAYS: &[&str] =
    &["faults", "switches", "layers", "ops", "acts", "clients", "log_faults", "chunks", "edits", "vars", "steps", "hashes"];

fn paths(v: &Value, at: Vec<String>, out: &mut Vec<Vec<String>>) {
    match v {
        Value::Object(m) => {
            for (k, x) in m {
                let mut p = at.clone();
                p.push(k.clone());
                if SHRINK_ARRAYS.contains(&k.as_str()) && x.is_array() {
                    out.push(p.clone());
                }
                paths(x, p, out);
            }
        }
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                let mut p = at.clone();
                p.push(i.to_string());
                paths(x, p, out);
            }
        }
        _ => {}
    }
}
fn get_mut<'a>(v: &'a mut Value, p: &[String]) -> Option<&'a mut Value> {
    let mut c = v;
    for k in p {
        c = match c {
            Value::Object(m) => m.get_mut(k)?,
            Value::Array(a) => a.get_mut(k.parse::<usize>().ok()?)?,
            _ => return None,
        };
    }
    Some(c)
}
pub fn shrink(p: &Prop, case: &Value, v: &Viol, ctx: &Ctx, budget_s: u64) -> (Value, Viol, u64) {
    let t0 = Instant::now();
    let mut best = case.clone();
    let mut bv = v.clone();
    let mut tries = 0;
    let mut progress = true;
    while progress && t0.elapsed().as_secs() < budget_s {
        progress = false;
        let mut ps = vec![];
        paths(&best, vec![], &mut ps);
        for path in ps {
            let mut i = 0;
            let mut chunk = get_mut(&mut best, &path).and_then(|x| x.as_array()).map(|a| a.len() / 2).unwrap_or(0).max(1);
            loop {
                if t0.elapsed().as_secs() >= budget_s {
                    break;
                }
                let len = match get_mut(&mut best, &path).and_then(|x| x.as_array()) {
                    Some(a) => a.len(),
                    None => break,
                };
                if i >= len {
                    if chunk == 1 {
                        break;
                    }
                    chunk /= 2;
                    i = 0;
                    continue;
                }
                let mut c = best.clone();
                if let Some(Value::Array(a)) = get_mut(&mut c, &path) {
                    a.drain(i..(i + chunk).min(a.len()));
                }
                tries += 1;
                let mut r = Run::new(ctx);
                match (p.exec)(&c, &mut r) {
                    Some(w) if w.class == bv.class => {
                        best = c;
                        bv = w;
                        progress = true;
                    }
                    _ => i += chunk,
                }
            }
        }
    }
    (best, bv, tries)
}

// ---- known findings --------------------------------------------------------
pub struct Finding {
    pub property: String,
    pub key: String,
    pub what: String,
}
pub fn findings(root: &str) -> Vec<Finding> {
    let t = std::fs::read_to_string(format!("{root}/known_findings.json")).unwrap_or_default();
    let v: Value = serde_json::from_str(&t).unwrap_or(json!({}));
    ja(&v, "findings")
        .iter()
        .map(|f| Finding {
            property: js(f, "property").into(),
            key: js(f, "key").into(),
            what: js(f, "what").into(),
        })
        .collect()
}

// ---- the pool ----------------------------------------------------------------
pub struct Found {
    pub index: u64,
    pub case: Value,
    pub viol: Viol,
}

pub fn make_case(p: &Prop, ctx: &Ctx, i: u64) -> Value {
    let mut rng = Rng::fork(ctx.seed.wrapping_mul(0x1000_0000_01b3).wrapping_add(i), p.id);
    (p.make)(&mut rng, ctx, i)
}

fn worker(p: &Prop, ctx: &Ctx, known: &[Finding], w: u64, nw: u64, total: u64, deadline: Instant, fd: i32) -> ! {
    let mut st = Stats::default();
    let mut i = w;
    let mut bad: Option<(u64, Value, Viol)> = None;
    while i < total && Instant::now() < deadline {
        let case = make_case(p, ctx, i);
        let mut r = Run::new(ctx);
        let v = (p.exec)(&case, &mut r);
        st.cases += 1;
        if r.nontrivial && st.samples.len() < 2 {
            st.samples.push(json!({"index": i, "case": brief(&case)}));
        }
        let d1 = r.digest;
        st.merge(r.st);
        if i % 16 == 5 {
            // Same case again: one seed, one execution.
            let mut r2 = Run::new(ctx);
            let _ = (p.exec)(&case, &mut r2);
            st.recheck += 1;
            if r2.digest != d1 {
                st.recheck_diff += 1;
            }
        }
        if let Some(v) = v {
            if known.iter().any(|k| k.property == p.id && k.key == v.key) {
                *st.findings.entry(v.key.clone()).or_insert(0) += 1;
            } else {
                bad = Some((i, case, v));
                break;
            }
        }
        i += nw;
    }
    let mut out = json!({"stats": serde_json::from_slice::<Value>(&st.enc()).unwrap()});
    if let Some((i, c, v)) = bad {
        out["bad"] = json!({"index": i, "case": c, "class": v.class, "key": v.key, "msg": v.msg, "trace": v.trace});
    }
    crate::seam::raw::write_all(fd, &serde_json::to_vec(&out).unwrap());
    crate::seam::raw::exit(0)
}
/// Cases can embed long schedules; evidence shows their head.
fn brief(v: &Value) -> Value {
    let s = v.to_string();
    if s.len() <= 1500 { v.clone() } else { json!(s.chars().take(1500).collect::<String>()) }
}

pub fn viol_json(v: &Value) -> Viol {
    Viol {
        class: js(v, "class").into(),
        key: js(v, "key").into(),
        msg: js(v, "msg").into(),
        trace: ja(v, "trace").iter().map(|x| x.as_str().unwrap_or("").to_string()).collect(),
    }
}

pub fn explore(p: &Prop, ctx: &Ctx, known: &[Finding], total: u64, budget_s: u64, nw: u64) -> (Stats, Option<Found>, u64) {
    let deadline = Instant::now() + std::time::Duration::from_secs(budget_s);
    let mut kids = vec![];
    for w in 0..nw {
        let mut fds = [0i32; 2];
        unsafe { libc::pipe(fds.as_mut_ptr()) };
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            unsafe { libc::close(fds[0]) };
            worker(p, ctx, known, w, nw, total, deadline, fds[1]);
        }
        unsafe { libc::close(fds[1]) };
        kids.push((pid, fds[0]));
    }
    let mut st = Stats::default();
    let mut best: Option<Found> = None;
    let mut lost = 0;
    for (pid, fd) in kids {
        let mut buf = vec![];
        let mut chunk = vec![0u8; 1 << 16];
        loop {
            let k = unsafe { libc::read(fd, chunk.as_mut_ptr() as *mut _, chunk.len()) };
            if k <= 0 {
                break;
            }
            buf.extend_from_slice(&chunk[..k as usize]);
        }
        unsafe {
            libc::close(fd);
            let mut ws = 0;
            libc::waitpid(pid, &mut ws, 0);
        }
        match serde_json::from_slice::<Value>(&buf) {
            Ok(v) => {
                st.merge(Stats::dec(&v["stats"]));
                if let Some(b) = v.get("bad") {
                    let f = Found { index: ju(b, "index"), case: b["case"].clone(), viol: viol_json(b) };
                    if best.as_ref().is_none_or(|x| f.index < x.index) {
                        best = Some(f);
                    }
                }
            }
            Err(_) => lost += 1,
        }
    }
    (st, best, lost)
}

pub fn evidence(p: &Prop, ctx: &Ctx, st: &Stats, wall: f64, violations: u64, tier: &str, extra: &BTreeMap<String, Value>) -> Value {
    let per_h = |n: u64| if wall > 0.0 { (n as f64 / wall * 3600.0).round() as u64 } else { 0 };
    let mut cov = json!({
        "evaluations": st.cases,
        "distinct_nontrivial": st.distinct.len(),
        "rule": p.rule,
        "samples": st.samples,
        "simulated_processes": st.incarnations,
        "simulated_runs_per_hour": per_h(st.incarnations),
        "seeds_per_hour": per_h(st.cases),
        "simulated_time_s": st.sim_ns as f64 / 1e9,
        "file_operations": st.iops,
        "scheduling_points": st.steps,
        "context_switches": st.switches,
        "distinct_interleavings": st.schedules.len(),
        "distinct_interleavings_measure": "hash of the sequence of (thread chosen, scheduling point) over one simulated process",
        "faults_fired": st.fired,
        "process_endings": st.statuses,
        "probes": st.probes,
        "determinism_rechecks": st.recheck,
        "determinism_mismatches": st.recheck_diff,
        "known_findings_seen": st.findings,
        "real_components": p.real,
        "stubbed_components": p.stub,
    });
    for (k, v) in extra {
        cov[k] = v.clone();
    }
    json!({
        "property": p.id, "tier": tier, "seed": ctx.seed, "level": p.level,
        "coverage": cov,
        "assumptions": [
            "burn, burn-tensor, burn-store and burn-ndarray are replaced by the stand-ins in sim/stubs: their pinned revision cannot be fetched offline",
            "the file system, clock, entropy source, allocator limits and scheduler are the simulator's; a crash keeps the page cache (process kill, not power loss) unless the check says otherwise",
            "seeded sampling: a clean batch is evidence, not proof"
        ],
        "wall_s": wall, "violations": violations,
    })
}

pub fn uniq(v: &[String]) -> Vec<String> {
    v.iter().cloned().collect::<BTreeSet<_>>().into_iter().collect()
}
