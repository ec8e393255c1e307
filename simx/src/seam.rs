//! The world around the command: starting a process, its working directory,
//! waiting for it. Active in simulated runs only; otherwise calls go through.
#![allow(clippy::missing_safety_doc)]
use libc::{c_char, c_int, c_void, pid_t};
use std::ffi::{CStr, CString};
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU64, AtomicUsize, Ordering::SeqCst};

pub static ACTIVE: AtomicBool = AtomicBool::new(false);
const LOG: usize = 1 << 20;
/// Shared between the simulated process and the harness.
#[repr(C)]
pub struct Shared {
    pub len: AtomicUsize,
    pub spawns: AtomicU64,
    pub log: [u8; LOG],
    pub plan: [[i32; 3]; 512],
    pub nplan: usize,
    pub asked: AtomicUsize,
    /// Where `asked` answers go: real artifact directory look-ups.
    pub cache: AtomicBool,
}
static mut SHARED: *mut Shared = std::ptr::null_mut();
pub fn shared() -> &'static mut Shared {
    unsafe {
        if SHARED.is_null() {
            let p = libc::mmap(std::ptr::null_mut(), size_of::<Shared>(), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
            assert!(p != libc::MAP_FAILED);
            SHARED = p as *mut Shared;
        }
        &mut *SHARED
    }
}
/// A private block for this worker.
pub fn own_block() {
    unsafe { SHARED = std::ptr::null_mut() };
    shared();
}
pub fn record(s: &str) {
    let sh = shared();
    let b = s.replace('\n', "\u{1}");
    let at = sh.len.load(SeqCst);
    if at + b.len() + 1 < LOG {
        sh.log[at..at + b.len()].copy_from_slice(b.as_bytes());
        sh.log[at + b.len()] = b'\n';
        sh.len.store(at + b.len() + 1, SeqCst);
    }
}
pub fn taken() -> Vec<String> {
    let sh = shared();
    let n = sh.len.load(SeqCst);
    String::from_utf8_lossy(&sh.log[..n]).lines().map(|l| l.to_string()).collect()
}

// ---- simulated children ------------------------------------------------------
const FAKE: i32 = 1 << 22;
static CWD: std::sync::Mutex<Vec<(usize, Vec<u8>)>> = std::sync::Mutex::new(Vec::new());
static LIVE: AtomicI32 = AtomicI32::new(0);
/// Outcome of fake child k: (kind, value), 0 exit, 1 signal, 2 spawn errno.
static ENDS: std::sync::Mutex<Vec<(i32, i32, bool)>> = std::sync::Mutex::new(Vec::new());
static INTR: AtomicI32 = AtomicI32::new(0);
static ECHILD: AtomicI32 = AtomicI32::new(0);

unsafe fn strs(p: *const *const c_char) -> Vec<String> {
    let mut v = vec![];
    let mut i = 0;
    unsafe {
        while !p.is_null() && !(*p.add(i)).is_null() {
            v.push(CStr::from_ptr(*p.add(i)).to_string_lossy().into_owned());
            i += 1;
        }
    }
    v
}
pub fn norm(p: &str) -> String {
    let mut v: Vec<&str> = vec![];
    for c in p.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                v.pop();
            }
            c => v.push(c),
        }
    }
    format!("/{}", v.join("/"))
}
fn cwd() -> String {
    std::env::current_dir().map(|p| p.to_string_lossy().into_owned()).unwrap_or_default()
}

/// Decide the fate of the next child; Err is the errno of the attempt.
unsafe fn start(file: *const c_char, dir: Option<Vec<u8>>, argv: *const *const c_char, envp: *const *const c_char) -> Result<i32, i32> {
    let sh = shared();
    let k = sh.spawns.fetch_add(1, SeqCst);
    if k > 400 {
        record("ENDLESS");
        unsafe { libc::_exit(96) };
    }
    let here = cwd();
    let d = match &dir {
        Some(d) => {
            let s = String::from_utf8_lossy(d).into_owned();
            if s.starts_with('/') { norm(&s) } else { norm(&format!("{here}/{s}")) }
        }
        None => norm(&here),
    };
    let prog = unsafe { CStr::from_ptr(file).to_string_lossy().into_owned() };
    let args = unsafe { strs(argv) };
    let env = if envp.is_null() { std::env::vars().map(|(k, v)| format!("{k}={v}")).collect() } else { unsafe { strs(envp) } };
    let mut env: Vec<String> = env;
    env.sort();
    record(&serde_json::json!({"ev": "spawn", "k": k, "prog": prog, "args": args.get(1..).unwrap_or(&[]), "cwd": d, "env": env, "live": LIVE.load(SeqCst)}).to_string());
    let (mut kind, mut val, mut intr, mut lost) = (0, 0, 0, 0);
    for i in 0..sh.nplan {
        let [at, kd, v] = sh.plan[i];
        if at as u64 == k {
            match kd {
                3 => intr = v,
                4 => lost = 1,
                _ => (kind, val) = (kd, v),
            }
        }
    }
    if kind == 2 {
        record(&serde_json::json!({"ev": "refused", "k": k, "errno": val}).to_string());
        return Err(val);
    }
    INTR.store(intr, SeqCst);
    ECHILD.store(lost, SeqCst);
    if sh.cache.load(SeqCst) {
        crate::cases::look_up(&prog, &args, &d, &env);
    }
    let mut e = ENDS.lock().unwrap();
    e.push((kind, val, false));
    LIVE.fetch_add(1, SeqCst);
    Ok(FAKE + e.len() as i32 - 1)
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn posix_spawn_file_actions_addchdir_np(fa: *mut libc::posix_spawn_file_actions_t, path: *const c_char) -> c_int {
    let mut c = CWD.lock().unwrap();
    c.retain(|x| x.0 != fa as usize);
    c.push((fa as usize, unsafe { CStr::from_ptr(path).to_bytes().to_vec() }));
    0
}
unsafe fn spawn(pid: *mut pid_t, file: *const c_char, fa: *const c_void, argv: *const *const c_char, envp: *const *const c_char) -> c_int {
    let dir = {
        let mut c = CWD.lock().unwrap();
        let d = c.iter().find(|x| x.0 == fa as usize).map(|x| x.1.clone());
        c.retain(|x| x.0 != fa as usize);
        d
    };
    if !ACTIVE.load(SeqCst) {
        eprintln!("harness error: a real process was about to be started");
        return libc::EPERM;
    }
    match unsafe { start(file, dir, argv, envp) } {
        Ok(p) => {
            unsafe {
                if !pid.is_null() {
                    *pid = p;
                }
            }
            0
        }
        Err(e) => e,
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn posix_spawnp(pid: *mut pid_t, file: *const c_char, fa: *const c_void, _at: *const c_void, argv: *const *const c_char, envp: *const *const c_char) -> c_int {
    unsafe { spawn(pid, file, fa, argv, envp) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn posix_spawn(pid: *mut pid_t, file: *const c_char, fa: *const c_void, _at: *const c_void, argv: *const *const c_char, envp: *const *const c_char) -> c_int {
    unsafe { spawn(pid, file, fa, argv, envp) }
}
/// The fork-and-exec way of starting a process ends here.
unsafe fn exec(file: *const c_char, argv: *const *const c_char, envp: *const *const c_char) -> c_int {
    unsafe {
        if !ACTIVE.load(SeqCst) {
            *libc::__errno_location() = libc::EPERM;
            return -1;
        }
        match start(file, None, argv, envp) {
            Ok(_) => {
                let (k, v, _) = *ENDS.lock().unwrap().last().unwrap();
                if k == 1 {
                    libc::signal(v, libc::SIG_DFL);
                    libc::kill(libc::getpid(), v);
                }
                libc::_exit(v)
            }
            Err(e) => {
                *libc::__errno_location() = e;
                -1
            }
        }
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn execvp(file: *const c_char, argv: *const *const c_char) -> c_int {
    unsafe { exec(file, argv, std::ptr::null()) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn execve(file: *const c_char, argv: *const *const c_char, envp: *const *const c_char) -> c_int {
    unsafe { exec(file, argv, envp) }
}
pub unsafe fn real_wait(pid: pid_t, st: *mut c_int, opt: c_int) -> pid_t {
    unsafe { libc::syscall(libc::SYS_wait4, pid, st, opt, 0usize) as pid_t }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn waitpid(pid: pid_t, st: *mut c_int, opt: c_int) -> pid_t {
    if !ACTIVE.load(SeqCst) || pid < FAKE {
        return unsafe { real_wait(pid, st, opt) };
    }
    let k = (pid - FAKE) as usize;
    let set = |e: i32| unsafe {
        *libc::__errno_location() = e;
        -1
    };
    if INTR.load(SeqCst) > 0 {
        INTR.fetch_sub(1, SeqCst);
        record("{\"ev\": \"eintr\"}");
        return set(libc::EINTR);
    }
    let mut e = ENDS.lock().unwrap();
    let Some(x) = e.get_mut(k) else { return set(libc::ECHILD) };
    if x.2 {
        return set(libc::ECHILD);
    }
    x.2 = true;
    LIVE.fetch_sub(1, SeqCst);
    record(&serde_json::json!({"ev": "end", "k": k, "kind": x.0, "value": x.1}).to_string());
    if ECHILD.swap(0, SeqCst) != 0 {
        record("{\"ev\": \"echild\"}");
        return set(libc::ECHILD);
    }
    unsafe {
        if !st.is_null() {
            *st = if x.0 == 1 { x.1 | if x.1 == libc::SIGSEGV { 0x80 } else { 0 } } else { (x.1 & 0xff) << 8 };
        }
    }
    pid
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn kill(pid: pid_t, sig: c_int) -> c_int {
    if pid >= FAKE {
        record(&format!("{{\"ev\": \"kill\", \"pid\": {}, \"sig\": {sig}}}", pid - FAKE));
        return 0;
    }
    unsafe { libc::syscall(libc::SYS_kill, pid, sig) as c_int }
}
pub fn cstr(s: &str) -> CString {
    CString::new(s.replace('\0', " ")).unwrap()
}
