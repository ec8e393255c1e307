//! One simulated process: fork, run real code under the seam, report back.
use crate::plan::Env;
use crate::seam::{self, Shared};
use crate::util::Dec;
use crate::vfs::Vfs;
use std::collections::BTreeMap;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicU32, Ordering::*};

#[derive(Clone, Debug, PartialEq)]
pub enum Status {
    /// All threads of the process came to an end.
    Done,
    /// Killed by the planned crash at this operation.
    Crashed,
    /// Called exit().
    Exit(i32),
    /// Died from a signal; the string says why when the simulator knows.
    Signal(i32, String),
    Deadlock,
    /// Exceeded the step budget.
    NoProgress,
    /// Did not end in wall-clock time.
    Hang,
    Lost(String),
}

#[derive(Clone, Debug)]
pub struct Event {
    pub n: u64,
    pub tid: i64,
    pub op: String,
    pub path: String,
    pub ret: i64,
    pub note: String,
}

/// What the controller learns about a simulated process.
#[derive(Clone, Debug)]
pub struct Out {
    pub status: Status,
    /// Per thread: value returned, or panic message.
    pub res: Vec<Result<Vec<u8>, String>>,
    pub vfs: Vfs,
    pub digest: u64,
    pub sched_digest: u64,
    pub switches: u64,
    pub steps: u64,
    pub iops: u64,
    pub sim_ns: u64,
    pub unscheduled: u64,
    pub log_writes: u64,
    pub log: Vec<u8>,
    pub fired: BTreeMap<String, u64>,
    pub fault_done: Vec<bool>,
    pub leaked_fds: Vec<String>,
    pub leaked_maps: u64,
    pub opened: Vec<String>,
    pub events: Vec<Event>,
    pub peak: u64,
    pub biggest: u64,
    /// Calls of the panic hook that was installed before anything ran.
    pub host_hook: u64,
}
impl Out {
    pub fn ok(&self) -> bool {
        self.status == Status::Done && self.res.iter().all(|r| r.is_ok())
    }
    /// The single thread's outcome.
    pub fn one(&self) -> Result<&[u8], String> {
        match &self.status {
            Status::Done => match self.res.first() {
                Some(Ok(b)) => Ok(b),
                Some(Err(e)) => Err(e.clone()),
                None => Err("no result".into()),
            },
            s => Err(format!("{s:?}")),
        }
    }
    pub fn describe(&self) -> String {
        match &self.status {
            Status::Done => self
                .res
                .iter()
                .map(|r| match r {
                    Ok(_) => "returned".to_string(),
                    Err(e) => format!("panicked: {}", first_line(e)),
                })
                .collect::<Vec<_>>()
                .join("; "),
            s => format!("{s:?}"),
        }
    }
    pub fn trace(&self) -> Vec<String> {
        self.events
            .iter()
            .map(|e| {
                format!(
                    "#{} t{} {} {} = {}{}",
                    e.n,
                    e.tid,
                    e.op,
                    e.path,
                    e.ret,
                    if e.note.is_empty() { String::new() } else { format!("  <- {}", e.note) }
                )
            })
            .collect()
    }
}
pub fn first_line(s: &str) -> String {
    let l = s.lines().next().unwrap_or("");
    l.chars().take(220).collect()
}

pub type Job<'a> = Box<dyn FnOnce() -> Vec<u8> + Send + 'a>;

struct Page(*mut Shared);
impl Page {
    fn new() -> Self {
        unsafe {
            let p = seam::raw::sc(
                libc::SYS_mmap,
                0,
                4096,
                (libc::PROT_READ | libc::PROT_WRITE) as usize,
                (libc::MAP_SHARED | libc::MAP_ANONYMOUS) as usize,
                usize::MAX,
                0,
            );
            Page(p as *mut Shared)
        }
    }
}
impl Drop for Page {
    fn drop(&mut self) {
        unsafe { seam::raw::sc(libc::SYS_munmap, self.0 as usize, 4096, 0, 0, 0, 0) };
    }
}

fn child(env: &Env, vfs: &Vfs, fd: i32, page: *mut Shared, jobs: Vec<Job>) -> ! {
    seam::set_shared(page);
    // A clean, fixed environment.
    for (k, _) in std::env::vars_os().collect::<Vec<_>>() {
        unsafe { std::env::remove_var(k) };
    }
    for (k, v) in &env.vars {
        unsafe { std::env::set_var(k, v) };
    }
    static LAST: Mutex<Vec<(std::thread::ThreadId, String)>> = Mutex::new(Vec::new());
    let page_addr = page as usize;
    std::panic::set_hook(Box::new(move |info| {
        unsafe { &*(page_addr as *const Shared) }.hook.fetch_add(1, SeqCst);
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "(opaque panic payload)".to_string()
        };
        let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        let id = std::thread::current().id();
        let mut g = LAST.lock().unwrap_or_else(|e| e.into_inner());
        g.retain(|x| x.0 != id);
        g.push((id, format!("{msg}{loc}")));
    }));
    let take = || {
        let id = std::thread::current().id();
        let g = LAST.lock().unwrap_or_else(|e| e.into_inner());
        g.iter().find(|x| x.0 == id).map(|x| x.1.clone()).unwrap_or_else(|| "(panic)".into())
    };
    seam::install(env.clone(), vfs.clone(), fd);
    let n = jobs.len();
    // Always on fresh threads: thread-local state of the controller (such as
    // the standard library's hash keys) must not leak into the simulation.
    seam::sched_init(n);
    let results: Vec<Mutex<Option<(bool, Vec<u8>)>>> = (0..n).map(|_| Mutex::new(None)).collect();
    let arrived = AtomicU32::new(0);
    std::thread::scope(|s| {
        for (i, j) in jobs.into_iter().enumerate() {
            let results = &results;
            let arrived = &arrived;
            std::thread::Builder::new()
                .stack_size(env.stack as usize)
                .spawn_scoped(s, move || {
                    seam::thread_enter(i as u32, arrived);
                    let r = catch_unwind(AssertUnwindSafe(j));
                    let r = match r {
                        Ok(b) => (true, b),
                        Err(_) => (false, take().into_bytes()),
                    };
                    *results[i].lock().unwrap() = Some(r);
                    seam::thread_exit();
                })
                .expect("spawn");
        }
        while arrived.load(SeqCst) < n as u32 {
            unsafe { seam::raw::sc(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) };
        }
        seam::ACTIVE.store(true, SeqCst);
        seam::sched_run();
        seam::deactivate();
        let rs: Vec<(bool, Vec<u8>)> =
            results.iter().map(|m| m.lock().unwrap().take().unwrap_or((false, b"(lost)".to_vec()))).collect();
        seam::finish(&rs)
    })
}

/// Run `jobs` as the threads of one fresh simulated process over `vfs`.
pub fn incarnate(env: &Env, vfs: &Vfs, jobs: Vec<Job>) -> Out {
    let mut fds = [0i32; 2];
    assert_eq!(unsafe { libc::pipe(fds.as_mut_ptr()) }, 0);
    let page = Page::new();
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0, "fork failed");
    if pid == 0 {
        unsafe { libc::close(fds[0]) };
        child(env, vfs, fds[1], page.0, jobs);
    }
    drop(jobs);
    unsafe { libc::close(fds[1]) };
    let mut buf = Vec::new();
    let mut chunk = vec![0u8; 1 << 16];
    let t0 = std::time::Instant::now();
    let mut hang = false;
    loop {
        let mut p = libc::pollfd { fd: fds[0], events: libc::POLLIN, revents: 0 };
        let r = unsafe { libc::poll(&mut p, 1, 500) };
        if r > 0 {
            let k = unsafe { libc::read(fds[0], chunk.as_mut_ptr() as *mut _, chunk.len()) };
            if k <= 0 {
                break;
            }
            buf.extend_from_slice(&chunk[..k as usize]);
        }
        if t0.elapsed().as_secs() > 60 {
            hang = true;
            unsafe { libc::kill(pid, libc::SIGKILL) };
            break;
        }
    }
    unsafe { libc::close(fds[0]) };
    let mut ws = 0;
    unsafe { libc::waitpid(pid, &mut ws, 0) };
    let sh = unsafe { &*page.0 };
    let mut out = Out {
        status: Status::Done,
        res: vec![],
        vfs: vfs.clone(),
        digest: 0,
        sched_digest: 0,
        switches: 0,
        steps: 0,
        iops: sh.iops.load(Relaxed),
        sim_ns: 0,
        unscheduled: 0,
        log_writes: 0,
        log: vec![],
        fired: BTreeMap::new(),
        fault_done: vec![false; env.faults.len()],
        leaked_fds: vec![],
        leaked_maps: 0,
        opened: vec![],
        events: vec![],
        peak: sh.peak.load(Relaxed),
        biggest: sh.biggest.load(Relaxed),
        host_hook: sh.hook.load(Relaxed),
    };
    if hang {
        out.status = Status::Hang;
        return out;
    }
    if libc::WIFSIGNALED(ws) {
        let why = match sh.cause.load(Relaxed) {
            seam::CAUSE_ALLOC => {
                format!("allocation of {} bytes refused", sh.cause_arg.load(Relaxed))
            }
            seam::CAUSE_LIVE => {
                format!("{} bytes of live heap refused", sh.cause_arg.load(Relaxed))
            }
            _ => String::new(),
        };
        out.status = Status::Signal(libc::WTERMSIG(ws), why);
        return out;
    }
    if libc::WIFEXITED(ws) && libc::WEXITSTATUS(ws) == 77 && sh.cause.load(Relaxed) == seam::CAUSE_STEPS {
        out.status = Status::NoProgress;
        return out;
    }
    if decode(&buf, &mut out).is_none() {
        out.status = Status::Lost(format!("wait status {ws:#x}, {} bytes", buf.len()));
    }
    out
}

fn decode(buf: &[u8], o: &mut Out) -> Option<()> {
    let mut d = Dec(buf);
    let st = d.u64()?;
    let code = d.u64()?;
    o.status = match st {
        seam::ST_DONE => Status::Done,
        seam::ST_CRASH => Status::Crashed,
        seam::ST_EXIT => Status::Exit(code as i32),
        seam::ST_DEADLOCK => Status::Deadlock,
        _ => return None,
    };
    for _ in 0..d.u64()? {
        let ok = d.u64()?;
        let b = d.bytes()?;
        o.res.push(if ok == 1 { Ok(b.to_vec()) } else { Err(String::from_utf8_lossy(b).into_owned()) });
    }
    o.digest = d.u64()?;
    o.sched_digest = d.u64()?;
    o.switches = d.u64()?;
    o.steps = d.u64()?;
    o.sim_ns = d.u64()?;
    o.unscheduled = d.u64()?;
    o.log_writes = d.u64()?;
    o.log = d.bytes()?.to_vec();
    for _ in 0..d.u64()? {
        let k = d.str()?;
        o.fired.insert(k, d.u64()?);
    }
    let nf = d.u64()?;
    o.fault_done.clear();
    for _ in 0..nf {
        o.fault_done.push(d.u64()? == 1);
    }
    for _ in 0..d.u64()? {
        o.leaked_fds.push(d.str()?);
    }
    o.leaked_maps = d.u64()?;
    for _ in 0..d.u64()? {
        o.opened.push(d.str()?);
    }
    for _ in 0..d.u64()? {
        o.events.push(Event {
            n: d.u64()?,
            tid: d.u64()? as i64,
            op: d.str()?,
            path: d.str()?,
            ret: d.u64()? as i64,
            note: d.str()?,
        });
    }
    o.vfs.apply_diff(&mut d)?;
    if d.u64()? != 0x0ddc_0ffe {
        return None;
    }
    Some(())
}
