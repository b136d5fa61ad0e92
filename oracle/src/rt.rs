//! The checker interface: symbolic values, assumptions and assertions.
//!
//! Under the symbolic executor these are externs it implements; the `native` feature replaces
//! them by a replayer that reads the variables' values from the file named by SYMX_VALUES and
//! prints failed assertions, so that the same scenario code re-runs against the real linker.
#![allow(dead_code)]

#[cfg(not(feature = "native"))]
mod imp {
    extern "C" {
        fn symx_u(p: *const u8, n: usize, w: u32) -> u64;
        fn symx_assume(c: u8);
        fn symx_assert(c: u8, p: *const u8, n: usize);
        fn symx_concretize(v: u64) -> u64;
        fn symx_select(c: u8, a: u64, b: u64) -> u64;
        fn symx_reach(p: *const u8, n: usize);
        fn symx_status(i: usize) -> i64;
        fn symx_print(p: *const u8, n: usize);
        fn symx_find(h: *const u8, n: usize, p: *const u8, m: usize, from: usize) -> usize;
    }
    pub fn sym(name: &str, w: u32) -> u64 {
        unsafe { symx_u(name.as_ptr(), name.len(), w) }
    }
    pub fn assume(c: bool) {
        unsafe { symx_assume(c as u8) }
    }
    pub fn check(c: bool, msg: &str) {
        unsafe { symx_assert(c as u8, msg.as_ptr(), msg.len()) }
    }
    pub fn conc(v: u64) -> u64 {
        unsafe { symx_concretize(v) }
    }
    pub fn select(c: bool, a: u64, b: u64) -> u64 {
        unsafe { symx_select(c as u8, a, b) }
    }
    pub fn reach(l: &str) {
        unsafe { symx_reach(l.as_ptr(), l.len()) }
    }
    pub fn status(i: usize) -> i64 {
        unsafe { symx_status(i) }
    }
    pub fn print(l: &str) {
        unsafe { symx_print(l.as_ptr(), l.len()) }
    }
    /// first position >= from where `pat` occurs with concrete bytes; usize::MAX if none
    pub fn find_from(h: &[u8], pat: &[u8], from: usize) -> Option<usize> {
        let r = unsafe { symx_find(h.as_ptr(), h.len(), pat.as_ptr(), pat.len(), from) };
        if r == usize::MAX {
            None
        } else {
            Some(r)
        }
    }
}

#[cfg(feature = "native")]
mod imp {
    use std::collections::BTreeMap;
    use std::sync::Mutex;
    static VALS: Mutex<Option<BTreeMap<String, u64>>> = Mutex::new(None);
    pub static STATUS: Mutex<Vec<i64>> = Mutex::new(Vec::new());
    fn file() -> BTreeMap<String, u64> {
        let mut m = BTreeMap::new();
        if let Ok(f) = std::env::var("SYMX_VALUES") {
            for l in std::fs::read_to_string(f).unwrap().lines() {
                let w: Vec<&str> = l.split_whitespace().collect();
                if w.len() == 2 {
                    m.insert(w[0].to_string(), w[1].parse::<u128>().unwrap() as u64);
                }
            }
        }
        m
    }
    pub fn sym(name: &str, w: u32) -> u64 {
        let mut g = VALS.lock().unwrap();
        let v = g.get_or_insert_with(file).get(name).copied().unwrap_or(0);
        if w >= 64 {
            v
        } else {
            v & ((1 << w) - 1)
        }
    }
    pub fn assume(c: bool) {
        if !c {
            println!("ASSUMPTION-FALSE");
            std::process::exit(3);
        }
    }
    pub fn check(c: bool, msg: &str) {
        if !c {
            println!("FAILED: {}", msg);
            std::process::exit(1);
        }
    }
    pub fn conc(v: u64) -> u64 {
        v
    }
    pub fn select(c: bool, a: u64, b: u64) -> u64 {
        if c {
            a
        } else {
            b
        }
    }
    pub fn reach(l: &str) {
        println!("REACH: {}", l);
    }
    pub fn status(i: usize) -> i64 {
        // statuses of the native runs, one per line
        let (f, i) = if i >= 1000 { ("faults", i - 1000) } else { ("statuses", i) };
        let s = std::fs::read_to_string(f).unwrap_or_default();
        s.lines().nth(i).and_then(|l| l.trim().parse().ok()).unwrap_or(-1)
    }
    pub fn print(l: &str) {
        println!("{}", l);
    }
    pub fn find_from(h: &[u8], pat: &[u8], from: usize) -> Option<usize> {
        if h.len() < pat.len() {
            return None;
        }
        (from..=h.len() - pat.len()).find(|i| &h[*i..*i + pat.len()] == pat)
    }
}
pub use imp::*;

pub fn sym8(n: &str) -> u8 {
    sym(n, 8) as u8
}
pub fn sym16(n: &str) -> u16 {
    sym(n, 16) as u16
}
pub fn sym32(n: &str) -> u32 {
    sym(n, 32) as u32
}
pub fn sym64(n: &str) -> u64 {
    sym(n, 64)
}
/// a symbolic choice, turned into one path per alternative
pub fn choose(n: &str, k: u64) -> u64 {
    let v = sym(n, if k <= 256 { 8 } else { 16 });
    assume(v < k);
    conc(v)
}
pub fn find(h: &[u8], pat: &[u8]) -> Option<usize> {
    find_from(h, pat, 0)
}
/// stop checking this path as violated
pub fn fail(msg: &str) -> ! {
    check(false, msg);
    std::process::exit(0)
}
#[macro_export]
macro_rules! ck {
    ($c:expr, $($a:tt)*) => { $crate::rt::check($c, &format!($($a)*)) };
}
