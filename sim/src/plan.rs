//! Everything the simulator decides for one simulated process, as data.
use crate::util::*;
use serde_json::{Value, json};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
#[repr(u8)]
pub enum FaultKind {
    Eintr,
    ShortRead,
    ShortWrite,
    ReadEio,
    WriteEio,
    Enospc,
    Emfile,
    OpenEacces,
    OpenEio,
    MkdirEacces,
    MmapEnomem,
    MmapEnodev,
    StatEio,
    SeekEio,
    RealpathEacces,
    RealpathEio,
    CloseEio,
    FsyncEio,
    RenameEio,
    Crash,
    Act,
}
pub const ALL_KINDS: &[FaultKind] = &[
    FaultKind::Eintr,
    FaultKind::ShortRead,
    FaultKind::ShortWrite,
    FaultKind::ReadEio,
    FaultKind::WriteEio,
    FaultKind::Enospc,
    FaultKind::Emfile,
    FaultKind::OpenEacces,
    FaultKind::OpenEio,
    FaultKind::MkdirEacces,
    FaultKind::MmapEnomem,
    FaultKind::MmapEnodev,
    FaultKind::StatEio,
    FaultKind::SeekEio,
    FaultKind::RealpathEacces,
    FaultKind::RealpathEio,
    FaultKind::CloseEio,
    FaultKind::FsyncEio,
    FaultKind::RenameEio,
    FaultKind::Crash,
    FaultKind::Act,
];
impl FaultKind {
    pub fn name(self) -> &'static str {
        match self {
            FaultKind::Eintr => "eintr",
            FaultKind::ShortRead => "short_read",
            FaultKind::ShortWrite => "short_write",
            FaultKind::ReadEio => "read_eio",
            FaultKind::WriteEio => "write_eio",
            FaultKind::Enospc => "enospc",
            FaultKind::Emfile => "emfile",
            FaultKind::OpenEacces => "open_eacces",
            FaultKind::OpenEio => "open_eio",
            FaultKind::MkdirEacces => "mkdir_eacces",
            FaultKind::MmapEnomem => "mmap_enomem",
            FaultKind::MmapEnodev => "mmap_enodev",
            FaultKind::StatEio => "stat_eio",
            FaultKind::SeekEio => "seek_eio",
            FaultKind::RealpathEacces => "realpath_eacces",
            FaultKind::RealpathEio => "realpath_eio",
            FaultKind::CloseEio => "close_eio",
            FaultKind::FsyncEio => "fsync_eio",
            FaultKind::RenameEio => "rename_eio",
            FaultKind::Crash => "crash",
            FaultKind::Act => "external_change",
        }
    }
    pub fn from_name(s: &str) -> Option<FaultKind> {
        ALL_KINDS.iter().copied().find(|k| k.name() == s)
    }
}

/// Fires at the first applicable file operation whose index is >= `at`.
#[derive(Clone, Debug, PartialEq)]
pub struct Fault {
    pub at: u64,
    pub kind: FaultKind,
    pub arg: u64,
    /// Keeps failing every later applicable operation (a full or dead disk).
    pub sticky: bool,
}

/// Something another process does to the file system.
#[derive(Clone, Debug, PartialEq)]
pub enum Act {
    Unlink(String),
    /// Replace by a new file (rename over): old inode stays readable.
    Replace(String, Vec<u8>),
    Rename(String, String),
    Symlink(String, String),
}

#[derive(Clone, Debug)]
pub struct Env {
    pub hash_seed: u64,
    pub clock0: u64,
    pub cwd: String,
    pub vars: Vec<(String, String)>,
    pub faults: Vec<Fault>,
    /// (index of the write to stdout/stderr, errno): the log sink fails.
    pub log_faults: Vec<(u64, i32)>,
    /// Preemptions: at this step, run that thread instead.
    pub switches: Vec<(u64, u32)>,
    pub sched_seed: u64,
    pub acts: Vec<Act>,
    /// Largest single allocation the machine grants.
    pub max_alloc: u64,
    /// Most live heap the machine grants.
    pub max_live: u64,
    pub max_steps: u64,
    /// Stack of each simulated thread.
    pub stack: u64,
}
impl Default for Env {
    fn default() -> Self {
        Env {
            hash_seed: 1,
            clock0: 1_700_000_000,
            cwd: "/w".into(),
            vars: vec![],
            faults: vec![],
            log_faults: vec![],
            switches: vec![],
            sched_seed: 0,
            acts: vec![],
            max_alloc: 1 << 30,
            max_live: 2 << 30,
            max_steps: 40_000_000,
            stack: 8 << 20,
        }
    }
}
impl Env {
    pub fn seeded(h: u64) -> Self {
        Env { hash_seed: h, ..Default::default() }
    }
    pub fn to_json(&self) -> Value {
        json!({
            "hash_seed": self.hash_seed,
            "clock0": self.clock0,
            "cwd": self.cwd,
            "vars": self.vars.iter().map(|(k, v)| json!([k, v])).collect::<Vec<_>>(),
            "faults": self.faults.iter().map(|f| json!({"at": f.at, "kind": f.kind.name(), "arg": f.arg, "sticky": f.sticky})).collect::<Vec<_>>(),
            "log_faults": self.log_faults.iter().map(|(a, e)| json!([a, e])).collect::<Vec<_>>(),
            "switches": self.switches.iter().map(|(s, t)| json!([s, t])).collect::<Vec<_>>(),
            "sched_seed": self.sched_seed,
            "acts": self.acts.iter().map(|a| match a {
                Act::Unlink(p) => json!(["unlink", p]),
                Act::Replace(p, d) => json!(["replace", p, hex(d)]),
                Act::Rename(a, b) => json!(["rename", a, b]),
                Act::Symlink(t, p) => json!(["symlink", t, p]),
            }).collect::<Vec<_>>(),
            "max_alloc": self.max_alloc,
            "max_live": self.max_live,
            "max_steps": self.max_steps,
            "stack": self.stack,
        })
    }
    pub fn from_json(v: &Value) -> Self {
        let pair = |x: &Value| (x[0].as_u64().unwrap_or(0), x[1].as_u64().unwrap_or(0));
        let d = Env::default();
        let or = |k: &str, d: u64| v.get(k).and_then(|x| x.as_u64()).unwrap_or(d);
        Env {
            hash_seed: ju(v, "hash_seed"),
            clock0: or("clock0", d.clock0),
            cwd: if js(v, "cwd").is_empty() { d.cwd } else { js(v, "cwd").to_string() },
            vars: ja(v, "vars")
                .iter()
                .map(|x| (x[0].as_str().unwrap_or("").into(), x[1].as_str().unwrap_or("").into()))
                .collect(),
            faults: ja(v, "faults")
                .iter()
                .filter_map(|f| {
                    Some(Fault {
                        at: ju(f, "at"),
                        kind: FaultKind::from_name(js(f, "kind"))?,
                        arg: ju(f, "arg"),
                        sticky: jb(f, "sticky"),
                    })
                })
                .collect(),
            log_faults: ja(v, "log_faults").iter().map(|x| (pair(x).0, pair(x).1 as i32)).collect(),
            switches: ja(v, "switches").iter().map(|x| (pair(x).0, pair(x).1 as u32)).collect(),
            sched_seed: ju(v, "sched_seed"),
            acts: ja(v, "acts")
                .iter()
                .filter_map(|a| {
                    let s = |i: usize| a[i].as_str().unwrap_or("").to_string();
                    Some(match s(0).as_str() {
                        "unlink" => Act::Unlink(s(1)),
                        "replace" => Act::Replace(s(1), unhex(&s(2))),
                        "rename" => Act::Rename(s(1), s(2)),
                        "symlink" => Act::Symlink(s(1), s(2)),
                        _ => return None,
                    })
                })
                .collect(),
            max_alloc: or("max_alloc", d.max_alloc),
            max_live: or("max_live", d.max_live),
            max_steps: or("max_steps", d.max_steps),
            stack: or("stack", d.stack),
        }
    }
}
