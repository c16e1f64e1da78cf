//! The operating system's random source as a choice of the harness.
//!
//! Requests of the process for random bytes go through `syscall`, `getrandom` or `getentropy`. These are
//! defined here and pass everything on, except that a thread can arm a script that answers instead.

use std::cell::{Cell, RefCell};

thread_local! {
    static ARMED: Cell<bool> = const { Cell::new(false) };
    static SCRIPT: RefCell<Option<Script>> = const { RefCell::new(None) };
}

/// What happens at a request.
#[derive(Clone, Copy, Debug, PartialEq, Hash)]
pub enum Fault {
    /// fails with this error, once
    Once(i32),
    /// this and all later ones fail
    Forever(i32),
    /// claims to have given no bytes
    Nothing,
}

pub struct Script {
    pub stream: Box<dyn Fn(usize) -> u8>,
    /// at most this many bytes per request
    pub chunk: usize,
    pub fault: Option<(usize, Fault)>,
    pub requests: usize,
    pub given: usize,
}

/// Runs `f` with a scripted source; gives the number of requests and bytes.
pub fn scripted<T>(stream: impl Fn(usize) -> u8 + 'static, chunk: usize, fault: Option<(usize, Fault)>, f: impl FnOnce() -> T) -> (T, usize, usize) {
    // the hash keys of this thread are drawn before
    let _ = std::collections::hash_map::RandomState::new();
    SCRIPT.with(|s| *s.borrow_mut() = Some(Script { stream: Box::new(stream), chunk, fault, requests: 0, given: 0 }));
    ARMED.with(|a| a.set(true));
    let r = f();
    ARMED.with(|a| a.set(false));
    let s = SCRIPT.with(|s| s.borrow_mut().take()).unwrap();
    (r, s.requests, s.given)
}
/// Bytes given so far by the armed script.
pub fn given() -> usize {
    SCRIPT.with(|s| s.borrow().as_ref().map_or(0, |s| s.given))
}

unsafe fn answer(buf: *mut u8, len: usize) -> Result<isize, i32> {
    // allocations of the closure must not recurse into the script
    ARMED.with(|a| a.set(false));
    let r = SCRIPT.with(|s| {
        let mut s = s.borrow_mut();
        let s = s.as_mut().unwrap();
        if len == 0 {
            return Ok(0);
        }
        let k = s.requests;
        s.requests += 1;
        match s.fault {
            Some((at, Fault::Once(e))) if at == k => return Err(e),
            Some((at, Fault::Forever(e))) if at <= k => return Err(e),
            Some((at, Fault::Nothing)) if at == k => return Ok(0),
            _ => {}
        }
        let n = len.min(s.chunk);
        for i in 0..n {
            *buf.add(i) = (s.stream)(s.given + i);
        }
        s.given += n;
        Ok(n as isize)
    });
    ARMED.with(|a| a.set(true));
    r
}
fn armed() -> bool {
    ARMED.try_with(|a| a.get()).unwrap_or(false)
}

#[cfg(target_arch = "x86_64")]
unsafe fn raw(n: i64, a: [i64; 6]) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a[0], in("rsi") a[1], in("rdx") a[2], in("r10") a[3], in("r8") a[4], in("r9") a[5], lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
unsafe fn fail(e: i32) -> i64 {
    *libc::__errno_location() = e;
    -1
}

/// # Safety
/// As the C function.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == libc::SYS_getrandom && armed() {
        return match answer(a as *mut u8, b as usize) {
            Ok(n) => n as i64,
            Err(e) => fail(e),
        };
    }
    match raw(n, [a, b, c, d, e, f]) {
        r if (-4095..0).contains(&r) => fail(-r as i32),
        r => r,
    }
}
/// # Safety
/// As the C function.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    syscall(libc::SYS_getrandom, buf as i64, len as i64, flags as i64, 0, 0, 0) as isize
}
/// # Safety
/// As the C function.
#[no_mangle]
pub unsafe extern "C" fn getentropy(buf: *mut u8, len: usize) -> i32 {
    let mut at = 0;
    while at < len {
        let r = getrandom(buf.add(at), len - at, 0);
        if r <= 0 {
            return -1;
        }
        at += r as usize;
    }
    0
}

/// Runs `f` on the real source.
pub fn pausing<T>(f: impl FnOnce() -> T) -> T {
    let was = ARMED.with(|a| a.replace(false));
    let r = f();
    ARMED.with(|a| a.set(was));
    r
}
