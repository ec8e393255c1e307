//! The process's own argument vector, for code that reads it.
use std::ffi::{CStr, CString};
use std::sync::atomic::{AtomicUsize, Ordering::*};

const PAD: usize = 12;
static ARGV: AtomicUsize = AtomicUsize::new(0);
#[used]
#[unsafe(link_section = ".init_array")]
static CTOR: unsafe extern "C" fn(libc::c_int, *mut *mut libc::c_char, *mut *mut libc::c_char) = ctor;

/// Start again with room for the arguments of simulated runs: the standard
/// library remembers how many there were at the start.
unsafe extern "C" fn ctor(argc: libc::c_int, argv: *mut *mut libc::c_char, envp: *mut *mut libc::c_char) {
    unsafe {
        let n = argc as usize;
        if n > PAD && CStr::from_ptr(*argv.add(n - 1)).to_bytes() == b"\x01pad" {
            // Hide the padding.
            *argv.add(n - PAD) = std::ptr::null_mut();
            ARGV.store(argv as usize, SeqCst);
            return;
        }
        let pad: Vec<CString> = (0..PAD).map(|_| CString::new("\x01pad").unwrap()).collect();
        let mut p: Vec<*const libc::c_char> = (0..n).map(|i| *argv.add(i) as *const _).collect();
        p.extend(pad.iter().map(|s| s.as_ptr()));
        p.push(std::ptr::null());
        libc::syscall(libc::SYS_execve, c"/proc/self/exe".as_ptr(), p.as_ptr(), envp);
        libc::_exit(3);
    }
}
/// In a simulated process: what `std::env::args` gives from now on.
pub fn set(a: &[String]) {
    let v = ARGV.load(SeqCst) as *mut *mut libc::c_char;
    assert!(!v.is_null() && a.len() < PAD);
    for (i, s) in a.iter().enumerate() {
        let s = CString::new(s.as_str()).expect("argument");
        unsafe { *v.add(i) = s.into_raw() };
    }
    unsafe { *v.add(a.len()) = std::ptr::null_mut() };
}
