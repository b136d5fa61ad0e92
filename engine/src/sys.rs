//! Process-level plumbing: fork, shared counters, worker tokens.
use std::ffi::{c_int, c_void};
use std::sync::atomic::{AtomicU64, Ordering};

extern "C" {
    pub fn fork() -> c_int;
    pub fn waitpid(pid: c_int, status: *mut c_int, opt: c_int) -> c_int;
    pub fn _exit(c: c_int) -> !;
    fn mmap(a: *mut c_void, n: usize, prot: c_int, fl: c_int, fd: c_int, off: i64) -> *mut c_void;
    fn sem_init(s: *mut c_void, pshared: c_int, v: u32) -> c_int;
    fn sem_wait(s: *mut c_void) -> c_int;
    fn sem_trywait(s: *mut c_void) -> c_int;
    fn sem_post(s: *mut c_void) -> c_int;
    fn prctl(op: c_int, a: u64, b: u64, c: u64, d: u64) -> c_int;
}

pub const NCOUNT: usize = 32;
#[derive(Clone, Copy)]
#[repr(usize)]
pub enum Cn {
    Paths,
    Forks,
    Branches,
    Queries,
    Unknown,
    Violations,
    Errors,
    Instrs,
    SolverNs,
    Infeasible,
    Asserts,
    AssertQueries,
    Runs,
    Concretized,
    SymLoads,
    Stop,
    Procs,
    ExitOk,
    ExitFail,
    Panics,
    Hangs,
    AssertSym,
}

pub struct Shared {
    base: *mut u8,
    pub cov_bytes: usize,
}
impl Shared {
    pub fn new(tokens: u32, cov_bits: usize) -> Shared {
        let cov_bytes = cov_bits / 8 + 1;
        let n = 4096 + cov_bytes;
        unsafe {
            let p = mmap(std::ptr::null_mut(), n, 3, 0x21, -1, 0);
            assert!(p as isize != -1);
            let s = Shared { base: p as *mut u8, cov_bytes };
            sem_init(s.sem(), 1, tokens);
            s
        }
    }
    fn sem(&self) -> *mut c_void {
        self.base as *mut c_void
    }
    pub fn c(&self, c: Cn) -> &AtomicU64 {
        unsafe { &*(self.base.add(1024 + 8 * c as usize) as *const AtomicU64) }
    }
    pub fn add(&self, c: Cn, v: u64) {
        self.c(c).fetch_add(v, Ordering::Relaxed);
    }
    pub fn get(&self, c: Cn) -> u64 {
        self.c(c).load(Ordering::Relaxed)
    }
    pub fn cover(&self, bit: usize) {
        if bit / 8 < self.cov_bytes {
            unsafe {
                let p = &*(self.base.add(4096 + bit / 8) as *const std::sync::atomic::AtomicU8);
                p.fetch_or(1 << (bit % 8), Ordering::Relaxed);
            }
        }
    }
    pub fn covered(&self, bit: usize) -> bool {
        bit / 8 < self.cov_bytes
            && unsafe { *self.base.add(4096 + bit / 8) } & (1 << (bit % 8)) != 0
    }
    pub fn wait_token(&self) {
        unsafe { while sem_wait(self.sem()) != 0 {} }
    }
    pub fn try_token(&self) -> bool {
        unsafe { sem_trywait(self.sem()) == 0 }
    }
    pub fn post_token(&self) {
        unsafe {
            sem_post(self.sem());
        }
    }
}

pub fn die_with_parent() {
    unsafe {
        prctl(1, 9, 0, 0, 0);
    }
}

/// waits for a child; returns true when it exited normally with status 0
pub fn wait_child(pid: c_int) -> bool {
    let mut st: c_int = 0;
    loop {
        let r = unsafe { waitpid(pid, &mut st, 0) };
        if r == pid {
            return st == 0;
        }
        if r < 0 && std::io::Error::last_os_error().kind() != std::io::ErrorKind::Interrupted {
            return false;
        }
    }
}
