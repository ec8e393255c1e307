//! The seam: libc entry points, the allocator and the thread scheduler of a
//! simulated process.
//!
//! The symbols below are defined in the executable, so every call the Rust
//! standard library (and so the code under test) makes to libc lands here.
//! While a simulated process is active, files live in the in-memory VFS,
//! entropy and clocks are functions of the run's seed, threads run one at a
//! time under the simulator's scheduler, and faults are injected at the planned
//! operation. When inactive, calls go straight to the kernel.
#![allow(clippy::missing_safety_doc, unknown_lints, invalid_runtime_symbol_definitions)]
use crate::plan::{Act, Env, Fault, FaultKind};
use crate::util::{Enc, Rng, mix};
use crate::vfs::{Ino, Node, ROOT, Vfs};
use libc::{c_char, c_int, c_long, c_void, off64_t, size_t, ssize_t};
use std::alloc::{GlobalAlloc, Layout, System};
use std::arch::asm;
use std::cell::Cell;
use std::collections::BTreeMap;
use std::ffi::CStr;
use std::sync::Arc;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU32, AtomicU64, Ordering::*};

pub static ACTIVE: AtomicBool = AtomicBool::new(false);
pub const FD0: c_int = 1_000_000;

thread_local! {
    static INSIDE: Cell<u32> = const { Cell::new(0) };
    static TID: Cell<i32> = const { Cell::new(-1) };
}

// ---------------------------------------------------------------------------
// raw system calls
// ---------------------------------------------------------------------------
pub mod raw {
    use super::*;
    #[inline]
    pub unsafe fn sc(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
        let r: isize;
        unsafe {
            asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
                 in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
        }
        r
    }
    pub unsafe fn ret(r: isize) -> isize {
        if r < 0 {
            unsafe { *libc::__errno_location() = -r as c_int };
            -1
        } else {
            r
        }
    }
    pub fn futex_wait(a: &AtomicU32, v: u32) {
        unsafe {
            sc(libc::SYS_futex, a as *const _ as usize, libc::FUTEX_WAIT as usize, v as usize, 0, 0, 0);
        }
    }
    pub fn futex_wake(a: &AtomicU32) {
        unsafe {
            sc(libc::SYS_futex, a as *const _ as usize, libc::FUTEX_WAKE as usize, i32::MAX as usize, 0, 0, 0);
        }
    }
    pub fn write_all(fd: c_int, mut b: &[u8]) {
        while !b.is_empty() {
            let r = unsafe { sc(libc::SYS_write, fd as usize, b.as_ptr() as usize, b.len(), 0, 0, 0) };
            if r == -(libc::EINTR as isize) {
                continue;
            }
            if r <= 0 {
                return;
            }
            b = &b[r as usize..];
        }
    }
    pub fn exit(code: c_int) -> ! {
        unsafe {
            sc(libc::SYS_exit_group, code as usize, 0, 0, 0, 0, 0);
        }
        loop {}
    }
}

fn err(e: c_int) -> isize {
    unsafe { *libc::__errno_location() = e };
    -1
}

// ---------------------------------------------------------------------------
// state
// ---------------------------------------------------------------------------
/// Page shared with the controlling process: survives an abort.
#[repr(C)]
pub struct Shared {
    pub cause: AtomicU64,
    pub cause_arg: AtomicU64,
    pub steps: AtomicU64,
    pub iops: AtomicU64,
    pub peak: AtomicU64,
    pub biggest: AtomicU64,
    pub live: AtomicI64,
    pub hook: AtomicU64,
}
pub const CAUSE_ALLOC: u64 = 1;
pub const CAUSE_LIVE: u64 = 2;
pub const CAUSE_STEPS: u64 = 3;
pub const CAUSE_DEADLOCK: u64 = 4;

static SHARED: std::sync::atomic::AtomicPtr<Shared> = std::sync::atomic::AtomicPtr::new(std::ptr::null_mut());
pub fn shared() -> Option<&'static Shared> {
    unsafe { SHARED.load(Relaxed).as_ref() }
}
pub fn set_shared(p: *mut Shared) {
    SHARED.store(p, Relaxed);
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Op {
    Open,
    Creat,
    Read,
    Write,
    Seek,
    Stat,
    Mmap,
    Munmap,
    Close,
    Mkdir,
    Realpath,
    Readlink,
    Unlink,
    Rename,
    Truncate,
    Fsync,
    Access,
    Readdir,
    Link,
    Chdir,
}

struct OpenFile {
    ino: Ino,
    pos: u64,
    read: bool,
    write: bool,
    append: bool,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Ts {
    Runnable,
    Blocked { addr: usize, deadline: Option<u64> },
    Done,
}
struct Th {
    st: Ts,
    word: Arc<AtomicU32>,
    timed_out: bool,
}

/// What a simulated process did to the file system, in order.
#[derive(Clone, Debug)]
pub struct Ev {
    pub n: u64,
    pub tid: i32,
    pub op: Op,
    pub path: String,
    pub ret: i64,
    pub note: &'static str,
}

pub struct State {
    pub env: Env,
    pub vfs: Vfs,
    pub base_len: usize,
    fds: BTreeMap<c_int, OpenFile>,
    next_fd: c_int,
    pub maps: BTreeMap<usize, (usize, Ino)>,
    pub dirs: BTreeMap<usize, (Vec<Vec<u8>>, usize, Box<libc::dirent64>)>,
    rng_hash: Rng,
    rng_sched: Rng,
    clock_ns: u64,
    pub events: Vec<Ev>,
    pub digest: u64,
    pub fired: BTreeMap<&'static str, u64>,
    pub fault_done: Vec<bool>,
    pub sched_digest: u64,
    pub switches_done: u64,
    pub log: Vec<u8>,
    pub log_writes: u64,
    pub log_bytes: u64,
    log_intr: u64,
    threads: Vec<Th>,
    cur: u32,
    finished: Arc<AtomicU32>,
    pub unscheduled: u64,
    report_fd: c_int,
    next_switch: usize,
    pub outside: Vec<String>,
}

static mut ST: Option<Box<State>> = None;
static LOCK: AtomicU32 = AtomicU32::new(0);
static MULTI: AtomicBool = AtomicBool::new(false);
static STEPS: AtomicU64 = AtomicU64::new(0);
static MAX_STEPS: AtomicU64 = AtomicU64::new(u64::MAX);
static NEXT_SWITCH: AtomicU64 = AtomicU64::new(u64::MAX);
static MAX_ALLOC: AtomicU64 = AtomicU64::new(u64::MAX);
static MAX_LIVE: AtomicI64 = AtomicI64::new(i64::MAX);

struct Guard;
impl Drop for Guard {
    fn drop(&mut self) {
        LOCK.store(0, Release);
        INSIDE.with(|i| i.set(i.get() - 1));
    }
}
fn lock() -> Guard {
    INSIDE.with(|i| i.set(i.get() + 1));
    while LOCK.swap(1, Acquire) != 0 {
        unsafe { raw::sc(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) };
    }
    Guard
}
#[allow(static_mut_refs)]
fn st() -> &'static mut State {
    unsafe { ST.as_mut().expect("sim state") }
}
fn inside() -> bool {
    INSIDE.with(|i| i.get() > 0)
}
fn on() -> bool {
    ACTIVE.load(Relaxed) && !inside()
}

pub fn install(env: Env, vfs: Vfs, report_fd: c_int) {
    let base_len = vfs.inodes.len();
    let mut vfs = vfs;
    vfs.clean();
    if let Ok(i) = vfs.find(env.cwd.as_bytes(), true) {
        vfs.cwd = i;
    }
    let nf = env.faults.len();
    MAX_STEPS.store(env.max_steps, Relaxed);
    MAX_ALLOC.store(env.max_alloc, Relaxed);
    MAX_LIVE.store(env.max_live as i64, Relaxed);
    STEPS.store(0, Relaxed);
    NEXT_SWITCH.store(env.switches.first().map(|s| s.0).unwrap_or(u64::MAX), Relaxed);
    let s = State {
        rng_hash: Rng::fork(env.hash_seed, "hash"),
        rng_sched: Rng::fork(env.sched_seed, "sched"),
        clock_ns: env.clock0.wrapping_mul(1_000_000_000),
        vfs,
        base_len,
        fds: BTreeMap::new(),
        next_fd: FD0,
        maps: BTreeMap::new(),
        dirs: BTreeMap::new(),
        events: Vec::new(),
        digest: 0,
        fired: BTreeMap::new(),
        fault_done: vec![false; nf],
        sched_digest: 0,
        switches_done: 0,
        log: Vec::new(),
        log_writes: 0,
        log_intr: 0,
        log_bytes: 0,
        threads: Vec::new(),
        cur: 0,
        finished: Arc::new(AtomicU32::new(0)),
        unscheduled: 0,
        report_fd,
        next_switch: 0,
        outside: Vec::new(),
        env,
    };
    unsafe { ST = Some(Box::new(s)) };
}

pub fn activate() {
    TID.with(|t| t.set(0));
    ACTIVE.store(true, SeqCst);
}
pub fn deactivate() {
    ACTIVE.store(false, SeqCst);
}

// ---------------------------------------------------------------------------
// report
// ---------------------------------------------------------------------------
pub const ST_DONE: u64 = 0;
pub const ST_CRASH: u64 = 1;
pub const ST_EXIT: u64 = 2;
pub const ST_DEADLOCK: u64 = 3;

/// Send the outcome of this simulated process to its controller and stop.
/// Must be called with INSIDE raised.
fn report_and_exit(s: &mut State, status: u64, code: u64, results: &[(bool, Vec<u8>)]) -> ! {
    let mut e = Enc::default();
    e.u64(status);
    e.u64(code);
    e.u64(results.len() as u64);
    for (ok, b) in results {
        e.u64(*ok as u64);
        e.bytes(b);
    }
    e.u64(s.digest);
    e.u64(s.sched_digest);
    e.u64(s.switches_done);
    e.u64(STEPS.load(Relaxed));
    e.u64(s.clock_ns - s.env.clock0.wrapping_mul(1_000_000_000));
    e.u64(s.unscheduled);
    e.u64(s.log_writes);
    e.bytes(&s.log);
    e.u64(s.fired.len() as u64);
    for (k, v) in &s.fired {
        e.str(k);
        e.u64(*v);
    }
    e.u64(s.fault_done.len() as u64);
    for d in &s.fault_done {
        e.u64(*d as u64);
    }
    let leaks: Vec<String> = s
        .fds
        .values()
        .map(|f| s.vfs.path_of(f.ino).map(|p| String::from_utf8_lossy(&p).into_owned()).unwrap_or_default())
        .collect();
    e.u64(leaks.len() as u64);
    for l in &leaks {
        e.str(l);
    }
    e.u64(s.maps.len() as u64);
    e.u64(s.outside.len() as u64);
    for l in &s.outside {
        e.str(l);
    }
    e.u64(s.events.len() as u64);
    for ev in &s.events {
        e.u64(ev.n);
        e.u64(ev.tid as i64 as u64);
        e.str(&format!("{:?}", ev.op));
        e.str(&ev.path);
        e.u64(ev.ret as u64);
        e.str(ev.note);
    }
    s.vfs.encode_diff(s.base_len, &mut e);
    e.u64(0x0ddc_0ffe);
    raw::write_all(s.report_fd, &e.0);
    raw::exit(0)
}

pub fn finish(results: &[(bool, Vec<u8>)]) -> ! {
    deactivate();
    INSIDE.with(|i| i.set(i.get() + 1));
    report_and_exit(st(), ST_DONE, 0, results)
}

// ---------------------------------------------------------------------------
// scheduler
// ---------------------------------------------------------------------------
/// Register the threads of this simulated process; they start parked.
pub fn sched_init(n: usize) {
    let s = st();
    s.threads = (0..n)
        .map(|_| Th { st: Ts::Runnable, word: Arc::new(AtomicU32::new(0)), timed_out: false })
        .collect();
    s.cur = 0;
    MULTI.store(n > 1, SeqCst);
}
/// First thing a simulated thread does: wait for its turn.
pub fn thread_enter(tid: u32, arrived: &AtomicU32) {
    let w = {
        let _g = lock();
        st().threads[tid as usize].word.clone()
    };
    arrived.fetch_add(1, SeqCst);
    while w.load(Acquire) == 0 {
        raw::futex_wait(&w, 0);
    }
    w.store(0, Release);
    TID.with(|t| t.set(tid as i32));
}
pub fn thread_exit() {
    let g = lock();
    let s = st();
    let me = s.cur as usize;
    s.threads[me].st = Ts::Done;
    TID.with(|t| t.set(-1));
    match pick(s, None) {
        Some(t) => {
            s.cur = t as u32;
            s.sched_digest = mix(s.sched_digest, 0x100 + t as u64);
            let w = s.threads[t].word.clone();
            drop(g);
            w.store(1, Release);
            raw::futex_wake(&w);
        }
        None => {
            if s.threads.iter().all(|t| t.st == Ts::Done) {
                let f = s.finished.clone();
                drop(g);
                f.store(1, Release);
                raw::futex_wake(&f);
            } else {
                deadlock(s);
            }
        }
    }
}
fn deadlock(s: &mut State) -> ! {
    if let Some(sh) = shared() {
        sh.cause.store(CAUSE_DEADLOCK, Relaxed);
    }
    report_and_exit(s, ST_DEADLOCK, 0, &[])
}
/// Give the first thread its turn and wait until all are done.
pub fn sched_run() {
    let (w, f) = {
        let _g = lock();
        let s = st();
        (s.threads[s.cur as usize].word.clone(), s.finished.clone())
    };
    w.store(1, Release);
    raw::futex_wake(&w);
    while f.load(Acquire) == 0 {
        raw::futex_wait(&f, 0);
    }
}
fn pick(s: &mut State, want: Option<usize>) -> Option<usize> {
    let run: Vec<usize> =
        (0..s.threads.len()).filter(|i| s.threads[*i].st == Ts::Runnable).collect();
    if let Some(w) = want {
        if run.contains(&w) {
            return Some(w);
        }
    }
    if !run.is_empty() {
        let k = s.rng_sched.below(run.len() as u64) as usize;
        return Some(run[k]);
    }
    // Nobody can run: let virtual time pass until a timed wait expires.
    let mut best: Option<(u64, usize)> = None;
    for (i, t) in s.threads.iter().enumerate() {
        if let Ts::Blocked { deadline: Some(d), .. } = t.st {
            if best.is_none_or(|b| d < b.0) {
                best = Some((d, i));
            }
        }
    }
    let (d, i) = best?;
    s.clock_ns = s.clock_ns.max(d);
    s.threads[i].st = Ts::Runnable;
    s.threads[i].timed_out = true;
    Some(i)
}
/// Hand the baton to `to` and wait for it to come back.
fn switch_to(g: Guard, to: usize) {
    let s = st();
    let me = s.cur as usize;
    if to == me {
        return;
    }
    s.cur = to as u32;
    s.switches_done += 1;
    s.sched_digest = mix(s.sched_digest, (to as u64) << 32 | (STEPS.load(Relaxed) & 0xffff_ffff));
    let wt = s.threads[to].word.clone();
    let wm = s.threads[me].word.clone();
    drop(g);
    INSIDE.with(|i| i.set(i.get() + 1));
    wt.store(1, Release);
    raw::futex_wake(&wt);
    while wm.load(Acquire) == 0 {
        raw::futex_wait(&wm, 0);
    }
    wm.store(0, Release);
    drop(wt);
    drop(wm);
    INSIDE.with(|i| i.set(i.get() - 1));
}
#[cold]
fn preempt(now: u64) {
    let g = lock();
    let s = st();
    let mut want = None;
    while s.next_switch < s.env.switches.len() && s.env.switches[s.next_switch].0 <= now {
        want = Some(s.env.switches[s.next_switch].1 as usize);
        s.next_switch += 1;
    }
    NEXT_SWITCH.store(
        s.env.switches.get(s.next_switch).map(|x| x.0).unwrap_or(u64::MAX),
        Relaxed,
    );
    if let Some(w) = want {
        let n = s.threads.len();
        // Prefer the planned thread; any other runnable one if it cannot run.
        let me = s.cur as usize;
        let mut cand = w % n.max(1);
        for _ in 0..n {
            if cand != me && s.threads[cand].st == Ts::Runnable {
                switch_to(g, cand);
                return;
            }
            cand = (cand + 1) % n;
        }
    }
}
#[inline]
fn step() {
    let now = STEPS.fetch_add(1, Relaxed) + 1;
    if now > MAX_STEPS.load(Relaxed) {
        if let Some(sh) = shared() {
            sh.cause.store(CAUSE_STEPS, Relaxed);
        }
        raw::exit(77);
    }
    if now >= NEXT_SWITCH.load(Relaxed) && MULTI.load(Relaxed) {
        preempt(now);
    }
}
/// A point where the scheduler may run another thread. Threads the simulator
/// did not create are counted but not scheduled.
fn point() {
    if TID.with(|t| t.get()) < 0 {
        let _g = lock();
        st().unscheduled += 1;
        return;
    }
    step();
}

// ---------------------------------------------------------------------------
// allocator
// ---------------------------------------------------------------------------
pub struct SimAlloc;
impl SimAlloc {
    #[inline]
    fn before(&self, size: usize) -> bool {
        if !ACTIVE.load(Relaxed) || inside() || TID.with(|t| t.get()) < 0 {
            return true;
        }
        step();
        if let Some(sh) = shared() {
            let sz = size as u64;
            if sz > sh.biggest.load(Relaxed) {
                sh.biggest.store(sz, Relaxed);
            }
            if sz > MAX_ALLOC.load(Relaxed) {
                sh.cause.store(CAUSE_ALLOC, Relaxed);
                sh.cause_arg.store(sz, Relaxed);
                return false;
            }
            let l = sh.live.load(Relaxed) + size as i64;
            if l > MAX_LIVE.load(Relaxed) {
                sh.cause.store(CAUSE_LIVE, Relaxed);
                sh.cause_arg.store(l as u64, Relaxed);
                return false;
            }
        }
        true
    }
    #[inline]
    fn account(&self, delta: i64) {
        if !ACTIVE.load(Relaxed) || inside() {
            return;
        }
        if let Some(sh) = shared() {
            let l = sh.live.load(Relaxed) + delta;
            sh.live.store(l, Relaxed);
            if l > 0 && l as u64 > sh.peak.load(Relaxed) {
                sh.peak.store(l as u64, Relaxed);
            }
        }
    }
}
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !self.before(l.size()) {
            return std::ptr::null_mut();
        }
        self.account(l.size() as i64);
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        self.account(-(l.size() as i64));
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !self.before(l.size()) {
            return std::ptr::null_mut();
        }
        self.account(l.size() as i64);
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !self.before(n) {
            return std::ptr::null_mut();
        }
        self.account(n as i64 - l.size() as i64);
        unsafe { System.realloc(p, l, n) }
    }
}

// ---------------------------------------------------------------------------
// faults
// ---------------------------------------------------------------------------
fn applicable(k: FaultKind, op: Op) -> bool {
    use FaultKind::*;
    match k {
        Eintr => matches!(op, Op::Read | Op::Write | Op::Open | Op::Creat),
        ShortRead | ReadEio => op == Op::Read,
        ShortWrite | WriteEio => op == Op::Write,
        Enospc => matches!(op, Op::Write | Op::Creat | Op::Mkdir | Op::Truncate),
        Emfile | OpenEacces | OpenEio => matches!(op, Op::Open | Op::Creat),
        MkdirEacces => op == Op::Mkdir,
        MmapEnomem | MmapEnodev => op == Op::Mmap,
        StatEio => op == Op::Stat,
        SeekEio => op == Op::Seek,
        RealpathEacces | RealpathEio => op == Op::Realpath,
        CloseEio => op == Op::Close,
        FsyncEio => op == Op::Fsync,
        RenameEio => op == Op::Rename,
        Crash | Act => true,
    }
}
fn errno_of(k: FaultKind) -> c_int {
    use FaultKind::*;
    match k {
        Eintr => libc::EINTR,
        Enospc => libc::ENOSPC,
        Emfile => libc::EMFILE,
        OpenEacces | MkdirEacces | RealpathEacces => libc::EACCES,
        MmapEnomem => libc::ENOMEM,
        MmapEnodev => libc::ENODEV,
        _ => libc::EIO,
    }
}

enum Verdict {
    Go,
    Fail(c_int, &'static str),
    Limit(u64, &'static str),
    Die(u64),
}

/// Count the operation and decide whether a planned fault hits it.
fn fault(s: &mut State, op: Op) -> (u64, Verdict) {
    let n = if let Some(sh) = shared() { sh.iops.fetch_add(1, Relaxed) } else { 0 };
    s.clock_ns += 20_000;
    let mut v = Verdict::Go;
    for i in 0..s.env.faults.len() {
        let f: Fault = s.env.faults[i].clone();
        if n < f.at || (s.fault_done[i] && !f.sticky) || !applicable(f.kind, op) {
            continue;
        }
        s.fault_done[i] = true;
        *s.fired.entry(f.kind.name()).or_insert(0) += 1;
        match f.kind {
            FaultKind::Act => {
                let a = s.env.acts.get(f.arg as usize).cloned();
                if let Some(a) = a {
                    act(&mut s.vfs, &a);
                }
            }
            FaultKind::ShortRead | FaultKind::ShortWrite => v = Verdict::Limit(f.arg.max(1), f.kind.name()),
            FaultKind::Crash => v = Verdict::Die(f.arg),
            k => v = Verdict::Fail(errno_of(k), k.name()),
        }
        if !matches!(v, Verdict::Go) {
            break;
        }
    }
    (n, v)
}
pub fn act(v: &mut Vfs, a: &Act) {
    match a {
        Act::Unlink(p) => {
            let _ = v.unlink(p.as_bytes());
        }
        Act::Replace(p, d) => {
            let _ = v.unlink(p.as_bytes());
            v.put(p, d.clone());
        }
        Act::Rename(a, b) => {
            let _ = v.rename(a.as_bytes(), b.as_bytes());
        }
        Act::Symlink(t, p) => {
            let _ = v.unlink(p.as_bytes());
            let _ = v.symlink(t.as_bytes(), p.as_bytes());
        }
    }
}

const MAX_EVENTS: usize = 200_000;
fn log_ev(s: &mut State, n: u64, op: Op, path: &[u8], ret: i64, note: &'static str) {
    let tid = TID.with(|t| t.get());
    s.digest = mix(s.digest, n);
    s.digest = mix(s.digest, op as u64 | (tid as u64) << 8);
    s.digest = mix(s.digest, crate::util::fnv(path));
    s.digest = mix(s.digest, ret as u64);
    if s.events.len() < MAX_EVENTS {
        s.events.push(Ev { n, tid, op, path: String::from_utf8_lossy(path).into_owned(), ret, note });
    }
}
fn ino_path(s: &State, i: Ino) -> Vec<u8> {
    s.vfs.path_of(i).unwrap_or_else(|| format!("(unlinked inode {i})").into_bytes())
}

/// Common shape of a file operation: schedule, fault, perform, log.
fn file_op(op: Op, path: &dyn Fn(&State) -> Vec<u8>, f: &mut dyn FnMut(&mut State, u64) -> Result<i64, c_int>) -> isize {
    point();
    let _g = lock();
    let s = st();
    let (n, v) = fault(s, op);
    let p = path(s);
    match v {
        Verdict::Fail(e, note) => {
            log_ev(s, n, op, &p, -(e as i64), note);
            err(e)
        }
        Verdict::Die(k) => {
            // A killed process may have got part of a write to the file.
            let mut part = 0;
            if op == Op::Write && k > 0 {
                part = f(s, k).unwrap_or(0);
            }
            log_ev(s, n, op, &p, part, "crash");
            report_and_exit(s, ST_CRASH, n, &[])
        }
        v => {
            let (lim, note) = match v {
                Verdict::Limit(l, note) => (l, note),
                _ => (u64::MAX, ""),
            };
            match f(s, lim) {
                Ok(r) => {
                    log_ev(s, n, op, &p, r, note);
                    r as isize
                }
                Err(e) => {
                    log_ev(s, n, op, &p, -(e as i64), "");
                    err(e)
                }
            }
        }
    }
}

unsafe fn cpath(p: *const c_char) -> Vec<u8> {
    unsafe { CStr::from_ptr(p) }.to_bytes().to_vec()
}

fn abs_of(s: &State, p: &[u8]) -> Vec<u8> {
    if p.first() == Some(&b'/') {
        return p.to_vec();
    }
    let mut b = ino_path(s, s.vfs.cwd);
    if b != b"/" {
        b.push(b'/');
    }
    b.extend_from_slice(p);
    b
}

unsafe fn do_open(path: *const c_char, flags: c_int) -> c_int {
    let p = unsafe { cpath(path) };
    let creat = flags & libc::O_CREAT != 0;
    let acc = flags & libc::O_ACCMODE;
    let op = if creat || flags & libc::O_TRUNC != 0 { Op::Creat } else { Op::Open };
    file_op(op, &|s| abs_of(s, &p), &mut |s, _| {
        let follow = flags & libc::O_NOFOLLOW == 0 && !(creat && flags & libc::O_EXCL != 0);
        let (par, name, c) = s.vfs.lookup(&p, follow)?;
        let ino = match c {
            Some(i) => {
                if creat && flags & libc::O_EXCL != 0 {
                    return Err(libc::EEXIST);
                }
                if s.vfs.inodes[i].denied {
                    return Err(libc::EACCES);
                }
                match &s.vfs.inodes[i].node {
                    Node::Dir(_) if acc != libc::O_RDONLY || creat => return Err(libc::EISDIR),
                    Node::Link(_) => return Err(libc::ELOOP),
                    Node::File(_) if flags & libc::O_DIRECTORY != 0 => return Err(libc::ENOTDIR),
                    _ => {}
                }
                if acc != libc::O_RDONLY && s.vfs.inodes[i].readonly {
                    return Err(libc::EROFS);
                }
                if flags & libc::O_TRUNC != 0 && acc != libc::O_RDONLY {
                    s.vfs.data_mut(i)?.clear();
                    s.vfs.inodes[i].mtime = s.clock_ns;
                }
                i
            }
            None => {
                if !creat {
                    return Err(libc::ENOENT);
                }
                s.vfs.create(par, &name, Node::File(Arc::new(Vec::new())))?
            }
        };
        // The object really opened, after symlinks: what containment looks at.
        if let Some(rp) = s.vfs.path_of(ino) {
            s.outside.push(format!(
                "{}{}",
                if acc == libc::O_RDONLY { "r:" } else { "w:" },
                String::from_utf8_lossy(&rp)
            ));
        }
        let fd = s.next_fd;
        s.next_fd += 1;
        s.fds.insert(
            fd,
            OpenFile {
                ino,
                pos: 0,
                read: acc != libc::O_WRONLY,
                write: acc != libc::O_RDONLY,
                append: flags & libc::O_APPEND != 0,
            },
        );
        Ok(fd as i64)
    }) as c_int
}

fn fd_path(fd: c_int) -> impl Fn(&State) -> Vec<u8> {
    move |s| s.fds.get(&fd).map(|f| ino_path(s, f.ino)).unwrap_or_else(|| b"(bad fd)".to_vec())
}

unsafe fn do_read(fd: c_int, buf: *mut u8, n: usize, at: Option<u64>) -> isize {
    file_op(Op::Read, &fd_path(fd), &mut |s, lim| {
        let f = s.fds.get_mut(&fd).ok_or(libc::EBADF)?;
        if !f.read {
            return Err(libc::EBADF);
        }
        let d = s.vfs.data(f.ino)?;
        let pos = at.unwrap_or(f.pos);
        let avail = (d.len() as u64).saturating_sub(pos);
        let k = avail.min(n as u64).min(lim) as usize;
        if k > 0 {
            let p = pos as usize;
            unsafe { std::ptr::copy_nonoverlapping(d[p..].as_ptr(), buf, k) };
        }
        if at.is_none() {
            f.pos += k as u64;
        }
        Ok(k as i64)
    })
}
unsafe fn do_write(fd: c_int, buf: *const u8, n: usize, at: Option<u64>) -> isize {
    file_op(Op::Write, &fd_path(fd), &mut |s, lim| {
        let f = s.fds.get_mut(&fd).ok_or(libc::EBADF)?;
        if !f.write {
            return Err(libc::EBADF);
        }
        let ino = f.ino;
        let len = s.vfs.data(ino)?.len() as u64;
        let pos = at.unwrap_or(if f.append { len } else { f.pos });
        let mut k = (n as u64).min(lim);
        let grow = (pos + k).saturating_sub(len);
        if let Some(free) = &mut s.vfs.free {
            if grow > *free {
                k = k.saturating_sub(grow - *free);
                if k == 0 {
                    *s.fired.entry("disk_full").or_insert(0) += 1;
                    return Err(libc::ENOSPC);
                }
            }
            *free -= (pos + k).saturating_sub(len);
        }
        let d = s.vfs.data_mut(ino)?;
        if (d.len() as u64) < pos + k {
            d.resize((pos + k) as usize, 0);
        }
        let src = unsafe { std::slice::from_raw_parts(buf, k as usize) };
        d[pos as usize..(pos + k) as usize].copy_from_slice(src);
        s.vfs.inodes[ino].mtime = s.clock_ns;
        if at.is_none() {
            f.pos = pos + k;
        }
        Ok(k as i64)
    })
}
/// stdout / stderr of the simulated process.
fn do_log(fd: c_int, b: &[u8]) -> isize {
    point();
    let _g = lock();
    let s = st();
    let n = s.log_writes;
    s.log_writes += 1;
    // errno, plus 1000 for "stdout and stderr" or 2000 for "stderr only".
    let mut take = b.len();
    for i in 0..s.env.log_faults.len() {
        let (at, code) = s.env.log_faults[i];
        let (scope, e) = (code / 1000, code % 1000);
        let hits = match scope {
            0 => fd == 1,
            1 => true,
            _ => fd == 2,
        };
        if n < at || !hits {
            continue;
        }
        if e == libc::EINTR {
            // An interruption passes.
            if s.log_intr & (1 << (i & 63)) == 0 {
                s.log_intr |= 1 << (i & 63);
                *s.fired.entry("log_sink_interrupted").or_insert(0) += 1;
                return err(e);
            }
            continue;
        }
        if e == 0 {
            if take > 1 {
                *s.fired.entry("log_sink_short").or_insert(0) += 1;
                take = take.div_ceil(2);
            }
            continue;
        }
        *s.fired.entry("log_sink_error").or_insert(0) += 1;
        return err(e);
    }
    let b = &b[..take];
    s.log_bytes += b.len() as u64;
    if s.log.len() < 1 << 18 {
        s.log.extend_from_slice(b);
    }
    b.len() as isize
}

fn virt(fd: c_int) -> bool {
    fd >= FD0
}

fn fill_stat(s: &State, i: Ino, out: *mut libc::stat64) {
    let n = &s.vfs.inodes[i];
    unsafe {
        std::ptr::write_bytes(out, 0, 1);
        let o = &mut *out;
        o.st_ino = i as u64 + 2;
        o.st_nlink = n.nlink as u64;
        o.st_blksize = 4096;
        o.st_mtime = (n.mtime / 1_000_000_000) as i64;
        match &n.node {
            Node::File(d) => {
                o.st_mode = libc::S_IFREG | 0o644;
                o.st_size = d.len() as i64;
            }
            Node::Dir(_) => {
                o.st_mode = libc::S_IFDIR | 0o755;
                o.st_size = 4096;
            }
            Node::Link(t) => {
                o.st_mode = libc::S_IFLNK | 0o777;
                o.st_size = t.len() as i64;
            }
        }
    }
}
fn do_stat(path: Vec<u8>, follow: bool, out: *mut libc::stat64) -> c_int {
    file_op(Op::Stat, &|s| abs_of(s, &path), &mut |s, _| {
        let i = s.vfs.find(&path, follow)?;
        fill_stat(s, i, out);
        Ok(0)
    }) as c_int
}
fn do_fstat(fd: c_int, out: *mut libc::stat64) -> c_int {
    file_op(Op::Stat, &fd_path(fd), &mut |s, _| {
        let i = s.fds.get(&fd).ok_or(libc::EBADF)?.ino;
        fill_stat(s, i, out);
        Ok(0)
    }) as c_int
}

macro_rules! dlnext {
    ($name:literal, $t:ty) => {{
        static P: AtomicU64 = AtomicU64::new(0);
        let mut p = P.load(Relaxed);
        if p == 0 {
            p = unsafe { libc::dlsym(libc::RTLD_NEXT, concat!($name, "\0").as_ptr() as *const c_char) } as u64;
            P.store(p, Relaxed);
        }
        unsafe { std::mem::transmute::<u64, $t>(p) }
    }};
}

// ---------------------------------------------------------------------------
// libc entry points
// ---------------------------------------------------------------------------
#[unsafe(no_mangle)]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    if on() {
        return unsafe { do_open(path, flags) };
    }
    unsafe {
        raw::ret(raw::sc(
            libc::SYS_openat,
            libc::AT_FDCWD as usize,
            path as usize,
            flags as usize,
            mode as usize,
            0,
            0,
        )) as c_int
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    unsafe { open64(path, flags, mode) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn openat64(d: c_int, path: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    if on() {
        return unsafe { do_open(path, flags) };
    }
    unsafe {
        raw::ret(raw::sc(libc::SYS_openat, d as usize, path as usize, flags as usize, mode as usize, 0, 0)) as c_int
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn openat(d: c_int, path: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    unsafe { openat64(d, path, flags, mode) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if on() && virt(fd) {
        return unsafe { do_read(fd, buf as *mut u8, n, None) };
    }
    unsafe { raw::ret(raw::sc(libc::SYS_read, fd as usize, buf as usize, n, 0, 0, 0)) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    if on() && virt(fd) {
        return unsafe { do_read(fd, buf as *mut u8, n, Some(off as u64)) };
    }
    unsafe { raw::ret(raw::sc(libc::SYS_pread64, fd as usize, buf as usize, n, off as usize, 0, 0)) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    if on() && virt(fd) {
        for i in 0..cnt as usize {
            let v = unsafe { &*iov.add(i) };
            if v.iov_len > 0 {
                return unsafe { do_read(fd, v.iov_base as *mut u8, v.iov_len, None) };
            }
        }
        return 0;
    }
    unsafe { raw::ret(raw::sc(libc::SYS_readv, fd as usize, iov as usize, cnt as usize, 0, 0, 0)) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if on() {
        if virt(fd) {
            return unsafe { do_write(fd, buf as *const u8, n, None) };
        }
        if fd == 1 || fd == 2 {
            return do_log(fd, unsafe { std::slice::from_raw_parts(buf as *const u8, n) });
        }
    }
    unsafe { raw::ret(raw::sc(libc::SYS_write, fd as usize, buf as usize, n, 0, 0, 0)) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    if on() && virt(fd) {
        return unsafe { do_write(fd, buf as *const u8, n, Some(off as u64)) };
    }
    unsafe { raw::ret(raw::sc(libc::SYS_pwrite64, fd as usize, buf as usize, n, off as usize, 0, 0)) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    if on() && (virt(fd) || fd == 1 || fd == 2) {
        for i in 0..cnt as usize {
            let v = unsafe { &*iov.add(i) };
            if v.iov_len > 0 {
                return unsafe { write(fd, v.iov_base, v.iov_len) };
            }
        }
        return 0;
    }
    unsafe { raw::ret(raw::sc(libc::SYS_writev, fd as usize, iov as usize, cnt as usize, 0, 0, 0)) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, wh: c_int) -> off64_t {
    if on() && virt(fd) {
        return file_op(Op::Seek, &fd_path(fd), &mut |s, _| {
            let f = s.fds.get_mut(&fd).ok_or(libc::EBADF)?;
            let len = s.vfs.data(f.ino).map(|d| d.len() as i64).unwrap_or(0);
            let base = match wh {
                libc::SEEK_SET => 0,
                libc::SEEK_CUR => f.pos as i64,
                libc::SEEK_END => len,
                _ => return Err(libc::EINVAL),
            };
            let p = base.checked_add(off).ok_or(libc::EINVAL)?;
            if p < 0 {
                return Err(libc::EINVAL);
            }
            f.pos = p as u64;
            Ok(p)
        }) as off64_t;
    }
    unsafe { raw::ret(raw::sc(libc::SYS_lseek, fd as usize, off as usize, wh as usize, 0, 0, 0)) as off64_t }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn lseek(fd: c_int, off: off64_t, wh: c_int) -> off64_t {
    unsafe { lseek64(fd, off, wh) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if on() && virt(fd) {
        let path = fd_path(fd);
        let p = {
            let _g = lock();
            path(st())
        };
        let r = file_op(Op::Close, &|_| p.clone(), &mut |s, _| {
            s.fds.remove(&fd).ok_or(libc::EBADF)?;
            Ok(0)
        });
        // The descriptor is gone even when close reports an error.
        let _g = lock();
        st().fds.remove(&fd);
        return r as c_int;
    }
    unsafe { raw::ret(raw::sc(libc::SYS_close, fd as usize, 0, 0, 0, 0, 0)) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn stat64(p: *const c_char, o: *mut libc::stat64) -> c_int {
    if on() {
        return do_stat(unsafe { cpath(p) }, true, o);
    }
    unsafe {
        raw::ret(raw::sc(libc::SYS_newfstatat, libc::AT_FDCWD as usize, p as usize, o as usize, 0, 0, 0)) as c_int
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn stat(p: *const c_char, o: *mut libc::stat64) -> c_int {
    unsafe { stat64(p, o) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn lstat64(p: *const c_char, o: *mut libc::stat64) -> c_int {
    if on() {
        return do_stat(unsafe { cpath(p) }, false, o);
    }
    unsafe {
        raw::ret(raw::sc(
            libc::SYS_newfstatat,
            libc::AT_FDCWD as usize,
            p as usize,
            o as usize,
            libc::AT_SYMLINK_NOFOLLOW as usize,
            0,
            0,
        )) as c_int
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fstat64(fd: c_int, o: *mut libc::stat64) -> c_int {
    if on() && virt(fd) {
        return do_fstat(fd, o);
    }
    unsafe { raw::ret(raw::sc(libc::SYS_fstat, fd as usize, o as usize, 0, 0, 0, 0)) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fstat(fd: c_int, o: *mut libc::stat64) -> c_int {
    unsafe { fstat64(fd, o) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fstatat64(d: c_int, p: *const c_char, o: *mut libc::stat64, fl: c_int) -> c_int {
    if on() {
        return do_stat(unsafe { cpath(p) }, fl & libc::AT_SYMLINK_NOFOLLOW == 0, o);
    }
    unsafe {
        raw::ret(raw::sc(libc::SYS_newfstatat, d as usize, p as usize, o as usize, fl as usize, 0, 0)) as c_int
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn statx(d: c_int, p: *const c_char, fl: c_int, mask: u32, o: *mut libc::statx) -> c_int {
    if on() {
        if p.is_null() {
            // std's availability probe.
            return err(libc::EFAULT) as c_int;
        }
        let path = unsafe { cpath(p) };
        let mut sb: libc::stat64 = unsafe { std::mem::zeroed() };
        let r = if path.is_empty() && fl & libc::AT_EMPTY_PATH != 0 {
            if !virt(d) {
                let r = unsafe { raw::sc(libc::SYS_fstat, d as usize, &mut sb as *mut _ as usize, 0, 0, 0, 0) };
                if r < 0 { err(-r as c_int) as c_int } else { 0 }
            } else {
                do_fstat(d, &mut sb)
            }
        } else {
            do_stat(path, fl & libc::AT_SYMLINK_NOFOLLOW == 0, &mut sb)
        };
        if r != 0 {
            return r;
        }
        unsafe {
            std::ptr::write_bytes(o, 0, 1);
            let x = &mut *o;
            x.stx_mask = libc::STATX_BASIC_STATS;
            x.stx_mode = sb.st_mode as u16;
            x.stx_size = sb.st_size as u64;
            x.stx_ino = sb.st_ino;
            x.stx_nlink = sb.st_nlink as u32;
            x.stx_blksize = 4096;
            x.stx_mtime.tv_sec = sb.st_mtime;
        }
        return 0;
    }
    unsafe {
        raw::ret(raw::sc(libc::SYS_statx, d as usize, p as usize, fl as usize, mask as usize, o as usize, 0)) as c_int
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn access(p: *const c_char, m: c_int) -> c_int {
    if on() {
        let path = unsafe { cpath(p) };
        return file_op(Op::Access, &|s| abs_of(s, &path), &mut |s, _| s.vfs.find(&path, true).map(|_| 0)) as c_int;
    }
    unsafe { raw::ret(raw::sc(libc::SYS_access, p as usize, m as usize, 0, 0, 0, 0)) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn mkdir(p: *const c_char, m: libc::mode_t) -> c_int {
    if on() {
        let path = unsafe { cpath(p) };
        return file_op(Op::Mkdir, &|s| abs_of(s, &path), &mut |s, _| s.vfs.mkdir(&path).map(|_| 0)) as c_int;
    }
    unsafe { raw::ret(raw::sc(libc::SYS_mkdir, p as usize, m as usize, 0, 0, 0, 0)) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn rmdir(p: *const c_char) -> c_int {
    if on() {
        let path = unsafe { cpath(p) };
        return file_op(Op::Unlink, &|s| abs_of(s, &path), &mut |s, _| s.vfs.rmdir(&path).map(|_| 0)) as c_int;
    }
    unsafe { raw::ret(raw::sc(libc::SYS_rmdir, p as usize, 0, 0, 0, 0, 0)) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    if on() {
        let path = unsafe { cpath(p) };
        return file_op(Op::Unlink, &|s| abs_of(s, &path), &mut |s, _| s.vfs.unlink(&path).map(|_| 0)) as c_int;
    }
    unsafe { raw::ret(raw::sc(libc::SYS_unlink, p as usize, 0, 0, 0, 0, 0)) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn unlinkat(d: c_int, p: *const c_char, fl: c_int) -> c_int {
    if on() {
        return if fl & libc::AT_REMOVEDIR != 0 { unsafe { rmdir(p) } } else { unsafe { unlink(p) } };
    }
    unsafe { raw::ret(raw::sc(libc::SYS_unlinkat, d as usize, p as usize, fl as usize, 0, 0, 0)) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    if on() {
        let (x, y) = unsafe { (cpath(a), cpath(b)) };
        return file_op(
            Op::Rename,
            &|s| {
                let mut v = abs_of(s, &x);
                v.extend_from_slice(b" -> ");
                v.extend_from_slice(&abs_of(s, &y));
                v
            },
            &mut |s, _| s.vfs.rename(&x, &y).map(|_| 0),
        ) as c_int;
    }
    unsafe { raw::ret(raw::sc(libc::SYS_rename, a as usize, b as usize, 0, 0, 0, 0)) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    if on() {
        let (x, y) = unsafe { (cpath(a), cpath(b)) };
        return file_op(Op::Link, &|s| abs_of(s, &y), &mut |s, _| s.vfs.link(&x, &y).map(|_| 0)) as c_int;
    }
    unsafe { raw::ret(raw::sc(libc::SYS_link, a as usize, b as usize, 0, 0, 0, 0)) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn linkat(
    d: c_int,
    a: *const c_char,
    d2: c_int,
    b: *const c_char,
    fl: c_int,
) -> c_int {
    if on() {
        return unsafe { link(a, b) };
    }
    unsafe {
        raw::ret(raw::sc(libc::SYS_linkat, d as usize, a as usize, d2 as usize, b as usize, fl as usize, 0)) as c_int
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn symlink(a: *const c_char, b: *const c_char) -> c_int {
    if on() {
        let (x, y) = unsafe { (cpath(a), cpath(b)) };
        return file_op(Op::Link, &|s| abs_of(s, &y), &mut |s, _| s.vfs.symlink(&x, &y).map(|_| 0)) as c_int;
    }
    unsafe { raw::ret(raw::sc(libc::SYS_symlink, a as usize, b as usize, 0, 0, 0, 0)) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn chmod(p: *const c_char, m: libc::mode_t) -> c_int {
    if on() {
        return 0;
    }
    unsafe { raw::ret(raw::sc(libc::SYS_chmod, p as usize, m as usize, 0, 0, 0, 0)) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fchmod(fd: c_int, m: libc::mode_t) -> c_int {
    if on() {
        return 0;
    }
    unsafe { raw::ret(raw::sc(libc::SYS_fchmod, fd as usize, m as usize, 0, 0, 0, 0)) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn ftruncate64(fd: c_int, n: off64_t) -> c_int {
    if on() && virt(fd) {
        return file_op(Op::Truncate, &fd_path(fd), &mut |s, _| {
            let f = s.fds.get(&fd).ok_or(libc::EBADF)?;
            if !f.write {
                return Err(libc::EINVAL);
            }
            let i = f.ino;
            s.vfs.data_mut(i)?.resize(n as usize, 0);
            Ok(0)
        }) as c_int;
    }
    unsafe { raw::ret(raw::sc(libc::SYS_ftruncate, fd as usize, n as usize, 0, 0, 0, 0)) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if on() && virt(fd) {
        return file_op(Op::Fsync, &fd_path(fd), &mut |_, _| Ok(0)) as c_int;
    }
    unsafe { raw::ret(raw::sc(libc::SYS_fsync, fd as usize, 0, 0, 0, 0, 0)) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    unsafe { fsync(fd) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    if on() && virt(fd) {
        return 0;
    }
    unsafe { raw::ret(raw::sc(libc::SYS_flock, fd as usize, op as usize, 0, 0, 0, 0)) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    if on() && virt(fd) {
        if cmd == libc::F_DUPFD_CLOEXEC || cmd == libc::F_DUPFD {
            let _g = lock();
            let s = st();
            let Some(f) = s.fds.get(&fd) else { return err(libc::EBADF) as c_int };
            let n = OpenFile { ino: f.ino, pos: f.pos, read: f.read, write: f.write, append: f.append };
            let k = s.next_fd;
            s.next_fd += 1;
            s.fds.insert(k, n);
            return k;
        }
        return 0;
    }
    unsafe { raw::ret(raw::sc(libc::SYS_fcntl, fd as usize, cmd as usize, arg, 0, 0, 0)) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn ioctl(fd: c_int, req: libc::c_ulong, arg: usize) -> c_int {
    if on() {
        return err(libc::ENOTTY) as c_int;
    }
    unsafe { raw::ret(raw::sc(libc::SYS_ioctl, fd as usize, req as usize, arg, 0, 0, 0)) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn isatty(fd: c_int) -> c_int {
    if on() {
        err(libc::ENOTTY);
        return 0;
    }
    let mut t: libc::termios = unsafe { std::mem::zeroed() };
    (unsafe { ioctl(fd, libc::TCGETS, &mut t as *mut _ as usize) } == 0) as c_int
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getcwd(buf: *mut c_char, n: size_t) -> *mut c_char {
    if on() {
        let p = {
            let _g = lock();
            ino_path(st(), st().vfs.cwd)
        };
        if buf.is_null() || p.len() + 1 > n {
            err(libc::ERANGE);
            return std::ptr::null_mut();
        }
        unsafe {
            std::ptr::copy_nonoverlapping(p.as_ptr(), buf as *mut u8, p.len());
            *buf.add(p.len()) = 0;
        }
        return buf;
    }
    let r = unsafe { raw::ret(raw::sc(libc::SYS_getcwd, buf as usize, n, 0, 0, 0, 0)) };
    if r < 0 { std::ptr::null_mut() } else { buf }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn chdir(p: *const c_char) -> c_int {
    if on() {
        let path = unsafe { cpath(p) };
        return file_op(Op::Chdir, &|s| abs_of(s, &path), &mut |s, _| {
            let i = s.vfs.find(&path, true)?;
            s.vfs.dir(i)?;
            s.vfs.cwd = i;
            Ok(0)
        }) as c_int;
    }
    unsafe { raw::ret(raw::sc(libc::SYS_chdir, p as usize, 0, 0, 0, 0, 0)) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn readlink(p: *const c_char, buf: *mut c_char, n: size_t) -> ssize_t {
    if on() {
        let path = unsafe { cpath(p) };
        return file_op(Op::Readlink, &|s| abs_of(s, &path), &mut |s, _| {
            let i = s.vfs.find(&path, false)?;
            match &s.vfs.inodes[i].node {
                Node::Link(t) => {
                    let k = t.len().min(n);
                    unsafe { std::ptr::copy_nonoverlapping(t.as_ptr(), buf as *mut u8, k) };
                    Ok(k as i64)
                }
                _ => Err(libc::EINVAL),
            }
        });
    }
    unsafe { raw::ret(raw::sc(libc::SYS_readlink, p as usize, buf as usize, n, 0, 0, 0)) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn realpath(p: *const c_char, out: *mut c_char) -> *mut c_char {
    if on() {
        let path = unsafe { cpath(p) };
        let mut res: Vec<u8> = Vec::new();
        let r = {
            let rr = &mut res;
            file_op(Op::Realpath, &|s| abs_of(s, &path), &mut |s, _| {
                let i = s.vfs.find(&path, true)?;
                *rr = s.vfs.path_of(i).ok_or(libc::ENOENT)?;
                Ok(0)
            })
        };
        if r < 0 {
            return std::ptr::null_mut();
        }
        INSIDE.with(|i| i.set(i.get() + 1));
        let b = if out.is_null() { unsafe { libc::malloc(res.len() + 1) as *mut c_char } } else { out };
        unsafe {
            std::ptr::copy_nonoverlapping(res.as_ptr(), b as *mut u8, res.len());
            *b.add(res.len()) = 0;
        }
        drop(res);
        INSIDE.with(|i| i.set(i.get() - 1));
        return b;
    }
    let f = dlnext!("realpath", unsafe extern "C" fn(*const c_char, *mut c_char) -> *mut c_char);
    unsafe { f(p, out) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn mmap64(
    addr: *mut c_void,
    len: size_t,
    prot: c_int,
    flags: c_int,
    fd: c_int,
    off: off64_t,
) -> *mut c_void {
    if on() && virt(fd) {
        let mut res = 0usize;
        let rr = &mut res;
        let r = file_op(Op::Mmap, &fd_path(fd), &mut |s, _| {
            let f = s.fds.get(&fd).ok_or(libc::EBADF)?;
            let ino = f.ino;
            if len == 0 {
                return Err(libc::EINVAL);
            }
            let d = s.vfs.data(ino).map_err(|_| libc::ENODEV)?.clone();
            let a = unsafe {
                raw::sc(
                    libc::SYS_mmap,
                    0,
                    len,
                    (libc::PROT_READ | libc::PROT_WRITE) as usize,
                    (libc::MAP_PRIVATE | libc::MAP_ANONYMOUS) as usize,
                    usize::MAX,
                    0,
                )
            };
            if a < 0 {
                return Err(-a as c_int);
            }
            let o = (off as usize).min(d.len());
            let k = (d.len() - o).min(len);
            unsafe {
                std::ptr::copy_nonoverlapping(d[o..].as_ptr(), a as *mut u8, k);
                if prot & libc::PROT_WRITE == 0 {
                    raw::sc(libc::SYS_mprotect, a as usize, len, libc::PROT_READ as usize, 0, 0, 0);
                }
            }
            s.maps.insert(a as usize, (len, ino));
            *rr = a as usize;
            Ok(0)
        });
        return if r < 0 { libc::MAP_FAILED } else { res as *mut c_void };
    }
    let r = unsafe {
        raw::sc(libc::SYS_mmap, addr as usize, len, prot as usize, flags as usize, fd as usize, off as usize)
    };
    if r < 0 {
        err(-r as c_int);
        return libc::MAP_FAILED;
    }
    r as *mut c_void
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn mmap(
    addr: *mut c_void,
    len: size_t,
    prot: c_int,
    flags: c_int,
    fd: c_int,
    off: off64_t,
) -> *mut c_void {
    unsafe { mmap64(addr, len, prot, flags, fd, off) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn munmap(addr: *mut c_void, len: size_t) -> c_int {
    if ACTIVE.load(Relaxed) && !inside() {
        let known = {
            let _g = lock();
            st().maps.contains_key(&(addr as usize))
        };
        if known {
            return file_op(Op::Munmap, &|_| Vec::new(), &mut |s, _| {
                s.maps.remove(&(addr as usize));
                unsafe { raw::sc(libc::SYS_munmap, addr as usize, len, 0, 0, 0, 0) };
                Ok(0)
            }) as c_int;
        }
    }
    unsafe { raw::ret(raw::sc(libc::SYS_munmap, addr as usize, len, 0, 0, 0, 0)) as c_int }
}
fn fill_random(buf: *mut u8, n: usize) {
    let _g = lock();
    let s = st();
    let b = s.rng_hash.bytes(n);
    unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), buf, n) };
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: size_t, fl: libc::c_uint) -> ssize_t {
    if on() {
        fill_random(buf as *mut u8, n);
        return n as ssize_t;
    }
    unsafe { raw::ret(raw::sc(libc::SYS_getrandom, buf as usize, n, fl as usize, 0, 0, 0)) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, t: *mut libc::timespec) -> c_int {
    if on() {
        let _g = lock();
        let s = st();
        s.clock_ns += 1000;
        let v = s.clock_ns;
        unsafe {
            (*t).tv_sec = (v / 1_000_000_000) as i64;
            (*t).tv_nsec = (v % 1_000_000_000) as i64;
        }
        return 0;
    }
    unsafe { raw::ret(raw::sc(libc::SYS_clock_gettime, id as usize, t as usize, 0, 0, 0, 0)) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn nanosleep(t: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if on() {
        {
            let _g = lock();
            unsafe { st().clock_ns += (*t).tv_sec as u64 * 1_000_000_000 + (*t).tv_nsec as u64 };
        }
        yield_now();
        return 0;
    }
    unsafe { raw::ret(raw::sc(libc::SYS_nanosleep, t as usize, rem as usize, 0, 0, 0, 0)) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_nanosleep(
    c: libc::clockid_t,
    fl: c_int,
    t: *const libc::timespec,
    rem: *mut libc::timespec,
) -> c_int {
    if on() {
        return unsafe { nanosleep(t, rem) };
    }
    unsafe { -raw::sc(libc::SYS_clock_nanosleep, c as usize, fl as usize, t as usize, rem as usize, 0, 0) as c_int }
}
/// Voluntarily let another runnable thread go first.
pub fn yield_now() {
    point();
    if TID.with(|t| t.get()) < 0 || !MULTI.load(Relaxed) {
        return;
    }
    let g = lock();
    let s = st();
    let me = s.cur as usize;
    let other: Vec<usize> = (0..s.threads.len())
        .filter(|i| *i != me && s.threads[*i].st == Ts::Runnable)
        .collect();
    if !other.is_empty() {
        let k = s.rng_sched.below(other.len() as u64) as usize;
        let t = other[k];
        switch_to(g, t);
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if on() {
        yield_now();
        return 0;
    }
    unsafe { raw::sc(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) as c_int }
}
fn futex(a: *const AtomicU32, op: c_int, val: u32, ts: *const libc::timespec, abs: bool) -> isize {
    let cmd = op & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME);
    if cmd == libc::FUTEX_WAIT || cmd == libc::FUTEX_WAIT_BITSET {
        point();
        let g = lock();
        let s = st();
        if unsafe { (*a).load(SeqCst) } != val {
            return err(libc::EAGAIN);
        }
        let deadline = if ts.is_null() {
            None
        } else {
            let t = unsafe { (*ts).tv_sec as u64 * 1_000_000_000 + (*ts).tv_nsec as u64 };
            Some(if abs { t } else { s.clock_ns + t })
        };
        let me = s.cur as usize;
        s.threads[me].st = Ts::Blocked { addr: a as usize, deadline };
        s.threads[me].timed_out = false;
        match pick(s, None) {
            Some(t) if t == me => drop(g),
            Some(t) => switch_to(g, t),
            None => deadlock(s),
        }
        let _g = lock();
        if st().threads[me].timed_out {
            return err(libc::ETIMEDOUT);
        }
        return 0;
    }
    if cmd == libc::FUTEX_WAKE || cmd == libc::FUTEX_WAKE_BITSET {
        point();
        let _g = lock();
        let s = st();
        let mut w: Vec<usize> = (0..s.threads.len())
            .filter(|i| matches!(s.threads[*i].st, Ts::Blocked { addr, .. } if addr == a as usize))
            .collect();
        let mut woken = 0;
        while !w.is_empty() && woken < val as i32 as i64 {
            let k = s.rng_sched.below(w.len() as u64) as usize;
            let t = w.remove(k);
            s.threads[t].st = Ts::Runnable;
            woken += 1;
        }
        return woken as isize;
    }
    err(libc::ENOSYS)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if on() {
        match n {
            libc::SYS_futex if TID.with(|t| t.get()) >= 0 && MULTI.load(Relaxed) => {
                let cmd = b as c_int & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME);
                return futex(
                    a as *const AtomicU32,
                    b as c_int,
                    c as u32,
                    d as *const libc::timespec,
                    cmd == libc::FUTEX_WAIT_BITSET,
                ) as c_long;
            }
            libc::SYS_getrandom => {
                fill_random(a as *mut u8, b);
                return b as c_long;
            }
            libc::SYS_statx => {
                return unsafe {
                    statx(a as c_int, b as *const c_char, c as c_int, d as u32, e as *mut libc::statx)
                } as c_long;
            }
            libc::SYS_copy_file_range => return err(libc::ENOSYS) as c_long,
            _ => {}
        }
    }
    unsafe { raw::ret(raw::sc(n, a, b, c, d, e, f)) as c_long }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn copy_file_range(
    a: c_int,
    b: usize,
    c: c_int,
    d: usize,
    n: size_t,
    fl: libc::c_uint,
) -> ssize_t {
    if on() {
        return err(libc::ENOSYS);
    }
    unsafe { raw::ret(raw::sc(libc::SYS_copy_file_range, a as usize, b, c as usize, d, n, fl as usize)) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sendfile64(a: c_int, b: c_int, o: usize, n: size_t) -> ssize_t {
    if on() {
        return err(libc::EINVAL);
    }
    unsafe { raw::ret(raw::sc(libc::SYS_sendfile, a as usize, b as usize, o, n, 0, 0)) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn opendir(p: *const c_char) -> *mut c_void {
    if on() {
        let path = unsafe { cpath(p) };
        let mut h = 0usize;
        let hh = &mut h;
        let r = file_op(Op::Readdir, &|s| abs_of(s, &path), &mut |s, _| {
            let i = s.vfs.find(&path, true)?;
            let names: Vec<Vec<u8>> = s.vfs.dir(i)?.keys().cloned().collect();
            *hh = 0x10_0000 + s.dirs.len() * 8;
            s.dirs.insert(*hh, (names, 0, Box::new(unsafe { std::mem::zeroed() })));
            Ok(0)
        });
        return if r < 0 { std::ptr::null_mut() } else { h as *mut c_void };
    }
    let f = dlnext!("opendir", unsafe extern "C" fn(*const c_char) -> *mut c_void);
    unsafe { f(p) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn readdir64(d: *mut c_void) -> *mut libc::dirent64 {
    if on() {
        let _g = lock();
        if let Some((names, k, ent)) = st().dirs.get_mut(&(d as usize)) {
            if *k >= names.len() {
                return std::ptr::null_mut();
            }
            let nm = &names[*k];
            *k += 1;
            ent.d_ino = *k as u64;
            ent.d_type = libc::DT_UNKNOWN;
            for (i, b) in nm.iter().take(250).enumerate() {
                ent.d_name[i] = *b as c_char;
            }
            ent.d_name[nm.len().min(250)] = 0;
            return &mut **ent;
        }
    }
    let f = dlnext!("readdir64", unsafe extern "C" fn(*mut c_void) -> *mut libc::dirent64);
    unsafe { f(d) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn closedir(d: *mut c_void) -> c_int {
    if on() {
        let _g = lock();
        if st().dirs.remove(&(d as usize)).is_some() {
            return 0;
        }
    }
    let f = dlnext!("closedir", unsafe extern "C" fn(*mut c_void) -> c_int);
    unsafe { f(d) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn exit(code: c_int) -> ! {
    if ACTIVE.load(Relaxed) {
        let _g = lock();
        report_and_exit(st(), ST_EXIT, code as u64, &[]);
    }
    let f = dlnext!("exit", unsafe extern "C" fn(c_int) -> !);
    unsafe { f(code) }
}
#[allow(dead_code)]
pub const ROOT_INO: Ino = ROOT;
