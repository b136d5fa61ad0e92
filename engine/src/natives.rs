//! Environment model: C library, file system, hashing, panics and the checker's own API.
use crate::exec::*;
use crate::ir::*;
use crate::term::*;
use std::rc::Rc;

pub const EPERM: u64 = 1;
pub const ENOENT: u64 = 2;
pub const EBADF: u64 = 9;
pub const EINTR: u64 = 4;
pub const EIO: u64 = 5;
pub const ENOSPC: u64 = 28;
pub const EACCES: u64 = 13;
pub const EEXIST: u64 = 17;
pub const ENOTDIR: u64 = 20;
pub const EISDIR: u64 = 21;
pub const EINVAL: u64 = 22;
pub const EFBIG: u64 = 27;
pub const ENOSYS: u64 = 38;
const MAX_FILE: usize = 64 << 20;
const MAX_ALLOC: u64 = 1 << 30;

pub fn lookup(name: &str) -> Option<Native> {
    if name.starts_with("_R") {
        if name.contains("__rust_") {
            if name.ends_with("___rust_alloc") || name.ends_with("___rust_alloc_zeroed") {
                return Some(rust_alloc);
            }
            if name.ends_with("___rust_dealloc") {
                return Some(rust_dealloc);
            }
            if name.ends_with("___rust_realloc") {
                return Some(rust_realloc);
            }
            if name.contains("___rust_no_alloc_shim_is_unstable") {
                return Some(ret0);
            }
        }
        if name.contains("4core9panicking") && !name.starts_with("_RNSNv") {
            if name.contains("nounwind") || name.contains("panic_in_cleanup") {
                return Some(do_abort);
            }
            return Some(do_panic);
        }
        if name.contains("3std9panicking11begin_panic") && name.starts_with("_RINvNtC") {
            return Some(do_panic);
        }
        if name.contains("3std2io5stdio") && name.starts_with("_RNvNtNtC") {
            if name.ends_with("6_print") || name.ends_with("7_eprint") {
                return Some(ret0);
            }
            if name.ends_with("23attempt_print_to_stderr") {
                return Some(ret0);
            }
        }
        if name.contains("10std_detect") && name.ends_with("detect_and_initialize") {
            return None;
        }
        return None;
    }
    Some(match name {
        "malloc" => c_malloc,
        "calloc" => c_calloc,
        "free" => c_free,
        "realloc" => c_realloc,
        "posix_memalign" => c_posix_memalign,
        "memcmp" => c_memcmp,
        "bcmp" => c_bcmp,
        "strlen" => c_strlen,
        "memcpy" | "memmove" => c_memcpy,
        "memset" => c_memset,
        "__errno_location" => |e, _| Ok(Val::C(e.errno)),
        "open64" | "open" => c_open,
        "read" => c_read,
        "pread64" => c_pread,
        "readv" => c_readv,
        "write" => c_write,
        "pwrite64" => c_pwrite,
        "writev" => c_writev,
        "close" => c_close,
        "lseek64" => c_lseek,
        "ftruncate64" => c_ftruncate,
        "fstat64" => c_fstat,
        "stat64" | "lstat64" => c_stat,
        "realpath" => c_realpath,
        "getcwd" => c_getcwd,
        "getenv" => ret0,
        "fchmod" => c_fchmod,
        "chmod" => c_chmod,
        "mkdir" => c_mkdir,
        "unlink" => c_unlink,
        "rename" => c_rename,
        "isatty" => ret0,
        "poll" => ret0,
        "sigaction" => c_sigaction,
        "signal" => ret0,
        "sigaltstack" => ret0,
        "sysconf" => |_, a| Ok(Val::C(if arg(a, 0) == 30 { 4096 } else { 1 })),
        "getauxval" => ret0,
        "pthread_self" => |_, _| Ok(Val::C(1)),
        "pthread_key_create" => c_key_create,
        "pthread_key_delete" => ret0,
        "pthread_setspecific" => ret0,
        "pthread_getattr_np" => |_, _| Ok(Val::C(1)),
        "pthread_attr_init" | "pthread_attr_destroy" => ret0,
        "__cxa_thread_atexit_impl" => ret0,
        "__xpg_strerror_r" => c_strerror,
        "syscall" => c_syscall,
        "getpid" | "gettid" => |e, _| Ok(Val::C(1000 + e.nruns)),
        "sched_yield" => ret0,
        "clock_gettime" => c_clock,
        "exit" | "_exit" => |e, a| {
            let c = e.conc(&a[0])?;
            Err(Stop::Exit(c as u32 as i32 as i64 & 0xff))
        },
        "abort" => do_abort,
        "fcntl" | "fcntl64" => c_fcntl,
        "dup" => c_dup,
        "fsync" | "fdatasync" | "sync" | "flock" | "posix_fadvise64" | "posix_fadvise" => ret0,
        "access" | "euidaccess" => c_access,
        "readlink" => c_readlink,
        "sendfile64" | "splice" => no_sys,
        "dl_iterate_phdr" => ret0,
        // ---- checker API
        "symx_hash_write" => hash_write,
        "symx_hash_finish" => hash_finish,
        "symx_u" => symx_u,
        "symx_assume" => symx_assume,
        "symx_assert" => symx_assert,
        "symx_concretize" => symx_concretize,
        "symx_select" => symx_select,
        "symx_reach" => symx_reach,
        "symx_status" => symx_status,
        "symx_print" => symx_print,
        "symx_find" => symx_find,
        _ => return None,
    })
}

fn arg(a: &[Val], i: usize) -> u64 {
    match &a[i] {
        Val::C(c) => *c,
        _ => panic!("symbolic argument to a library call"),
    }
}
fn ret0(_: &mut Ex, _: &[Val]) -> X<Val> {
    Ok(Val::C(0))
}
fn do_panic(e: &mut Ex, _: &[Val]) -> X<Val> {
    if e.trace_panics {
        let r: X<Val> = e.err("panic");
        if let Err(Stop::Error(s)) = r {
            eprintln!("{}", s);
        }
    }
    Err(Stop::Exit(ST_PANIC))
}
fn do_abort(_: &mut Ex, _: &[Val]) -> X<Val> {
    Err(Stop::Exit(134))
}
fn errno(e: &mut Ex, v: u64) -> X<Val> {
    let a = e.errno;
    e.store_int(a, 32, 4, &Val::C(v))?;
    Ok(Val::C(u64::MAX))
}
fn err32(e: &mut Ex, v: u64) -> X<Val> {
    errno(e, v)?;
    Ok(Val::C(0xffff_ffff))
}

// ------------------------------------------------------------------ allocation
fn do_alloc(e: &mut Ex, n: u64) -> X<Val> {
    if n > MAX_ALLOC {
        return Ok(Val::C(0));
    }
    Ok(Val::C(e.alloc(n as usize, Kind::Heap)))
}
fn do_free(e: &mut Ex, p: u64) -> X<()> {
    if p == 0 {
        return Ok(());
    }
    let o = match e.mem.get_mut((p >> 32) as usize) {
        Some(o) if o.kind == Kind::Heap && p as u32 == 0 => o,
        _ => return e.crash(&format!("free of {:#x}", p)),
    };
    o.kind = Kind::Dead;
    o.data = vec![];
    o.sym = vec![];
    Ok(())
}
fn do_realloc(e: &mut Ex, p: u64, n: u64) -> X<Val> {
    if n > MAX_ALLOC {
        return Ok(Val::C(0));
    }
    let o = match e.mem.get_mut((p >> 32) as usize) {
        Some(o) if o.kind == Kind::Heap && p as u32 == 0 => o,
        _ => return e.crash(&format!("realloc of {:#x}", p)),
    };
    o.data.resize(n as usize, 0);
    if !o.sym.is_empty() {
        o.sym.resize(n as usize, 0);
    }
    Ok(Val::C(p))
}
fn rust_alloc(e: &mut Ex, a: &[Val]) -> X<Val> {
    let n = e.conc(&a[0])?;
    do_alloc(e, n)
}
fn rust_dealloc(e: &mut Ex, a: &[Val]) -> X<Val> {
    let p = e.conc(&a[0])?;
    do_free(e, p)?;
    Ok(Val::C(0))
}
fn rust_realloc(e: &mut Ex, a: &[Val]) -> X<Val> {
    let p = e.conc(&a[0])?;
    let n = e.conc(&a[3])?;
    do_realloc(e, p, n)
}
fn c_malloc(e: &mut Ex, a: &[Val]) -> X<Val> {
    let n = e.conc(&a[0])?;
    do_alloc(e, n)
}
fn c_calloc(e: &mut Ex, a: &[Val]) -> X<Val> {
    let n = e.conc(&a[0])?;
    let m = e.conc(&a[1])?;
    do_alloc(e, n.saturating_mul(m))
}
fn c_free(e: &mut Ex, a: &[Val]) -> X<Val> {
    let p = e.conc(&a[0])?;
    do_free(e, p)?;
    Ok(Val::C(0))
}
fn c_realloc(e: &mut Ex, a: &[Val]) -> X<Val> {
    let p = e.conc(&a[0])?;
    let n = e.conc(&a[1])?;
    if p == 0 {
        return do_alloc(e, n);
    }
    do_realloc(e, p, n)
}
fn c_posix_memalign(e: &mut Ex, a: &[Val]) -> X<Val> {
    let n = e.conc(&a[2])?;
    let r = do_alloc(e, n)?;
    let p = e.conc(&a[0])?;
    e.store_int(p, 64, 8, &r)?;
    Ok(Val::C(0))
}

// ------------------------------------------------------------------ memory
fn c_memcmp(e: &mut Ex, a: &[Val]) -> X<Val> {
    let n = e.conc(&a[2])? as usize;
    let (x, y) = (e.conc(&a[0])?, e.conc(&a[1])?);
    // concrete prefix first
    let mut pairs = vec![];
    for i in 0..n as u64 {
        let (p, q) = (e.byte(x + i)?, e.byte(y + i)?);
        match (&p, &q) {
            (Val::C(p), Val::C(q)) => {
                if p != q {
                    if pairs.is_empty() {
                        return Ok(Val::C(if p < q { 0xffff_ffff } else { 1 }));
                    }
                    pairs.push((Val::C(*p), Val::C(*q)));
                    break;
                }
            }
            _ => pairs.push((p, q)),
        }
    }
    let mut acc = tp().konst(32, 0);
    for (p, q) in pairs.into_iter().rev() {
        let (p, q) = (as_term(&p, 8), as_term(&q, 8));
        let t = tp();
        let lt = t.bin(Op::Ult, p, q);
        let eq = t.bin(Op::Eq, p, q);
        let m = t.konst(32, 0xffff_ffff);
        let one = t.konst(32, 1);
        let d = t.ite(lt, m, one);
        acc = t.ite(eq, acc, d);
    }
    Ok(from_term(acc))
}
fn c_bcmp(e: &mut Ex, a: &[Val]) -> X<Val> {
    let n = e.conc(&a[2])? as usize;
    let (x, y) = (e.conc(&a[0])?, e.conc(&a[1])?);
    let mut acc = tp().konst(1, 1);
    for i in 0..n as u64 {
        let (p, q) = (e.byte(x + i)?, e.byte(y + i)?);
        match (&p, &q) {
            (Val::C(p), Val::C(q)) => {
                if p != q {
                    return Ok(Val::C(1));
                }
            }
            _ => {
                let (p, q) = (as_term(&p, 8), as_term(&q, 8));
                let eq = tp().bin(Op::Eq, p, q);
                acc = tp().bin(Op::And, acc, eq);
            }
        }
    }
    let ne = tp().not1(acc);
    Ok(from_term(tp().zext(ne, 32)))
}
fn c_strlen(e: &mut Ex, a: &[Val]) -> X<Val> {
    let p = e.conc(&a[0])?;
    let mut n = 0;
    loop {
        let b = e.byte(p + n)?;
        let z = e.icmp(Pred::Eq, 8, &b, &Val::C(0));
        if e.branch(as_term(&z, 1))? {
            return Ok(Val::C(n));
        }
        n += 1;
    }
}
fn c_memcpy(e: &mut Ex, a: &[Val]) -> X<Val> {
    let n = e.conc(&a[2])? as usize;
    let (d, s) = (e.conc(&a[0])?, e.conc(&a[1])?);
    e.copy(d, s, n)?;
    Ok(Val::C(d))
}
fn c_memset(e: &mut Ex, a: &[Val]) -> X<Val> {
    let n = e.conc(&a[2])? as usize;
    let d = e.conc(&a[0])?;
    let v = e.cast(CastOp::Trunc, 32, 8, &a[1]);
    e.memset(d, &v, n)?;
    Ok(Val::C(d))
}

// ------------------------------------------------------------------ files
pub fn norm(p: &str) -> String {
    let full = if p.starts_with('/') { p.to_string() } else { format!("/work/{}", p) };
    let mut v: Vec<&str> = vec![];
    for c in full.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                v.pop();
            }
            c => v.push(c),
        }
    }
    format!("/{}", v.join("/"))
}
fn parent_ok(e: &Ex, p: &str) -> bool {
    let i = p.rfind('/').unwrap_or(0);
    i == 0 || e.vfs.get(&p[..i]).map_or(false, |f| f.dir)
}
/// does every directory component exist (so that `a/../b` fails when `a` does not exist)?
fn walk(e: &Ex, p: &str) -> Result<String, u64> {
    if p.is_empty() {
        return Err(ENOENT);
    }
    let n = norm(p);
    let full = if p.starts_with('/') { p.to_string() } else { format!("/work/{}", p) };
    let mut cur = String::new();
    let comps: Vec<&str> = full.split('/').collect();
    for (i, c) in comps.iter().enumerate() {
        if i + 1 == comps.len() {
            break;
        }
        match *c {
            "" | "." => {}
            ".." => {
                cur = norm(&format!("{}/..", cur));
                if cur == "/" {
                    cur.clear();
                }
            }
            c => {
                cur = format!("{}/{}", cur, c);
                match e.vfs.get(&cur) {
                    Some(f) if f.dir => {}
                    Some(_) => return Err(ENOTDIR),
                    None => return Err(ENOENT),
                }
            }
        }
    }
    Ok(n)
}
fn c_open(e: &mut Ex, a: &[Val]) -> X<Val> {
    let pa = e.conc(&a[0])?;
    let p = e.cstr(pa)?;
    let fl = e.conc(&a[1])?;
    if let Some(Fault::Errno(x)) = fault(e, 0, EACCES, true)? {
        return err32(e, x);
    }
    let p = match walk(e, &p) {
        Ok(p) => p,
        Err(x) => return err32(e, x),
    };
    let mode = if a.len() > 2 { e.conc(&a[2])? as u32 } else { 0 };
    let exists = e.vfs.contains_key(&p);
    if !exists {
        if fl & 0x40 == 0 {
            return err32(e, ENOENT);
        }
        if !parent_ok(e, &p) {
            return err32(e, ENOENT);
        }
        e.vfs.insert(p.clone(), VFile { mode: mode & 0o755, ..Default::default() });
    } else {
        if fl & 0xc0 == 0xc0 {
            return err32(e, EEXIST);
        }
        let f = e.vfs.get_mut(&p).unwrap();
        if f.dir && fl & 3 != 0 {
            return err32(e, EISDIR);
        }
        if fl & 0x200 != 0 && fl & 3 != 0 {
            f.data.clear();
            f.sym.clear();
        }
    }
    let fd = Fd { path: p, pos: Default::default(), append: fl & 0x400 != 0 };
    Ok(new_fd(e, fd))
}
fn new_fd(e: &mut Ex, fd: Fd) -> Val {
    for i in 3..e.fds.len() {
        if e.fds[i].is_none() {
            e.fds[i] = Some(fd);
            return Val::C(i as u64);
        }
    }
    e.fds.push(Some(fd));
    Val::C(e.fds.len() as u64 - 1)
}
fn dup(e: &mut Ex, fd: u64) -> X<Val> {
    let f = match e.fds.get(fd as u32 as usize).and_then(|f| f.as_ref()) {
        Some(f) => Fd { path: f.path.clone(), pos: f.pos.clone(), append: f.append },
        None => return err32(e, EBADF),
    };
    Ok(new_fd(e, f))
}
fn c_dup(e: &mut Ex, a: &[Val]) -> X<Val> {
    let fd = e.conc(&a[0])?;
    dup(e, fd)
}
fn c_fcntl(e: &mut Ex, a: &[Val]) -> X<Val> {
    let (fd, cmd) = (e.conc(&a[0])?, e.conc(&a[1])? as u32);
    if cmd == 0 || cmd == 1030 {
        return dup(e, fd);
    }
    Ok(Val::C(0))
}
fn c_access(e: &mut Ex, a: &[Val]) -> X<Val> {
    let pa = e.conc(&a[0])?;
    let p = e.cstr(pa)?;
    match walk(e, &p) {
        Ok(p) if e.vfs.contains_key(&p) => Ok(Val::C(0)),
        Ok(_) => err32(e, ENOENT),
        Err(x) => err32(e, x),
    }
}
/// not available here: the callers have another way
fn no_sys(e: &mut Ex, _: &[Val]) -> X<Val> {
    errno(e, ENOSYS)
}
/// there are no symbolic links
fn c_readlink(e: &mut Ex, a: &[Val]) -> X<Val> {
    let pa = e.conc(&a[0])?;
    let p = e.cstr(pa)?;
    match walk(e, &p) {
        Ok(p) if e.vfs.contains_key(&p) => errno(e, EINVAL),
        Ok(_) => errno(e, ENOENT),
        Err(x) => errno(e, x),
    }
}
fn fd_path(e: &Ex, fd: u64) -> Option<String> {
    e.fds.get(fd as u32 as usize).and_then(|f| f.as_ref()).map(|f| f.path.clone())
}
fn put(e: &mut Ex, d: u64, data: &[u8], sym: &[T]) -> X<()> {
    e.write_bytes(d, data)?;
    for (i, t) in sym.iter().enumerate() {
        if *t != 0 {
            e.store_int(d + i as u64, 8, 1, &Val::S(*t))?;
        }
    }
    Ok(())
}
pub fn read_at(e: &mut Ex, path: &str, pos: usize, d: u64, n: usize) -> X<Result<usize, u64>> {
    let f = match e.vfs.get(path) {
        Some(f) => f,
        None => return Ok(Ok(0)),
    };
    if f.dir {
        return Ok(Err(EISDIR));
    }
    let end = (pos + n).min(f.data.len());
    if pos >= end {
        return Ok(Ok(0));
    }
    let data = f.data[pos..end].to_vec();
    let sym = if f.sym.is_empty() { vec![] } else { f.sym[pos..end].to_vec() };
    put(e, d, &data, &sym)?;
    Ok(Ok(end - pos))
}
fn do_read(e: &mut Ex, fd: u64, d: u64, n: usize) -> X<Result<usize, u64>> {
    if fd as u32 == 0 {
        return Ok(Ok(0));
    }
    let p = match fd_path(e, fd) {
        Some(p) => p,
        None => return Ok(Err(EBADF)),
    };
    let pos = e.fds[fd as u32 as usize].as_ref().unwrap().pos.get();
    let r = read_at(e, &p, pos, d, n)?;
    if let Ok(k) = r {
        e.fds[fd as u32 as usize].as_ref().unwrap().pos.set(pos + k);
    }
    Ok(r)
}
// what can happen to a system call: nothing, a signal interrupts it, it fails, the process is
// killed before it, it transfers one byte, half, or all but one
const INTR: u64 = 1;
const FAIL: u64 = 2;
const KILL: u64 = 3;
enum Fault {
    Errno(u64),
    Limit(usize),
}
/// decides the fate of a call that transfers `n` bytes
fn fault(e: &mut Ex, n: usize, err: u64, intr: bool) -> X<Option<Fault>> {
    if e.fault_left == 0 || e.fault_calls > e.fault_until {
        return Ok(None);
    }
    let name = format!("fault{}_{}", e.run_label, e.fault_calls);
    e.fault_calls += 1;
    let k = if let Some(f) = &e.fixed {
        f.get(&name).copied().unwrap_or(0) as u64
    } else if let Some(k) = e.pin.get(&name) {
        *k as u64
    } else {
        let v = tp().var(&name, 8);
        let lim = tp().konst(8, if n > 1 { 7 } else { 4 });
        let mut c = tp().bin(Op::Ult, v, lim);
        if !intr {
            let one = tp().konst(8, INTR as u128);
            let x = tp().bin(Op::Eq, v, one);
            let x = tp().not1(x);
            c = tp().bin(Op::And, c, x);
        }
        e.assume(c)?;
        e.conc_t(v)? as u64
    };
    if k == 0 {
        return Ok(None);
    }
    e.fault_left -= 1;
    e.fault_until = e.fault_calls.saturating_add(e.fault_window).saturating_sub(1);
    *e.fault_log.last_mut().unwrap() |= 1 << k;
    Ok(match k {
        INTR => Some(Fault::Errno(EINTR)),
        FAIL => Some(Fault::Errno(err)),
        KILL => return Err(Stop::Exit(crate::exec::ST_CRASH)),
        4 => Some(Fault::Limit(1)),
        5 => Some(Fault::Limit(n / 2)),
        _ => Some(Fault::Limit(n - 1)),
    })
}
/// the bytes a read of at most `n` would transfer
fn available(e: &Ex, fd: u64, n: usize) -> usize {
    let p = match fd_path(e, fd) {
        Some(p) => p,
        None => return 0,
    };
    let pos = e.fds[fd as u32 as usize].as_ref().unwrap().pos.get();
    e.vfs.get(&p).map_or(0, |f| f.data.len()).saturating_sub(pos).min(n)
}
fn ret(e: &mut Ex, r: Result<usize, u64>) -> X<Val> {
    match r {
        Ok(n) => Ok(Val::C(n as u64)),
        Err(x) => errno(e, x),
    }
}
fn c_read(e: &mut Ex, a: &[Val]) -> X<Val> {
    let (fd, d, mut n) = (e.conc(&a[0])?, e.conc(&a[1])?, e.conc(&a[2])?);
    if fd_path(e, fd).is_some() {
        let k = available(e, fd, n as usize);
        match fault(e, k, EIO, true)? {
            Some(Fault::Errno(x)) => return errno(e, x),
            Some(Fault::Limit(l)) => n = l as u64,
            None => {}
        }
    }
    let r = do_read(e, fd, d, n as usize)?;
    ret(e, r)
}
fn c_pread(e: &mut Ex, a: &[Val]) -> X<Val> {
    let (fd, d, mut n, o) = (e.conc(&a[0])?, e.conc(&a[1])?, e.conc(&a[2])?, e.conc(&a[3])?);
    if let Some(p) = fd_path(e, fd) {
        let k = e.vfs.get(&p).map_or(0, |f| f.data.len() as u64).saturating_sub(o).min(n);
        match fault(e, k as usize, EIO, true)? {
            Some(Fault::Errno(x)) => return errno(e, x),
            Some(Fault::Limit(l)) => n = l as u64,
            None => {}
        }
    }
    let r = match fd_path(e, fd) {
        Some(p) => read_at(e, &p, o as usize, d, n as usize)?,
        None => Err(EBADF),
    };
    ret(e, r)
}
fn iov(e: &mut Ex, v: u64, n: u64) -> X<Vec<(u64, usize)>> {
    let mut r = vec![];
    for i in 0..n {
        let p = e.load_int(v + i * 16, 64, 8)?;
        let l = e.load_int(v + i * 16 + 8, 64, 8)?;
        r.push((e.conc(&p)?, e.conc(&l)? as usize));
    }
    Ok(r)
}
fn c_readv(e: &mut Ex, a: &[Val]) -> X<Val> {
    let (fd, v, n) = (e.conc(&a[0])?, e.conc(&a[1])?, e.conc(&a[2])?);
    let mut tot = 0;
    let v = iov(e, v, n)?;
    let mut left = v.iter().map(|x| x.1).sum();
    if fd_path(e, fd).is_some() {
        let k = available(e, fd, left);
        match fault(e, k, EIO, true)? {
            Some(Fault::Errno(x)) => return errno(e, x),
            Some(Fault::Limit(l)) => left = l,
            None => {}
        }
    }
    for (p, l) in v {
        let l = l.min(left);
        left -= l;
        match do_read(e, fd, p, l)? {
            Ok(k) => {
                tot += k;
                if k < l {
                    break;
                }
            }
            Err(x) => return errno(e, x),
        }
    }
    Ok(Val::C(tot as u64))
}
fn grab(e: &mut Ex, p: u64, n: usize) -> X<(Vec<u8>, Vec<T>)> {
    if n == 0 {
        return Ok((vec![], vec![]));
    }
    let (id, off) = e.obj(p, n)?;
    let o = &e.mem[id];
    let sym = if o.sym.is_empty() || o.sym[off..off + n].iter().all(|t| *t == 0) {
        vec![]
    } else {
        o.sym[off..off + n].to_vec()
    };
    Ok((o.data[off..off + n].to_vec(), sym))
}
fn write_at(e: &mut Ex, path: &str, pos: usize, p: u64, n: usize) -> X<Result<usize, u64>> {
    if pos.saturating_add(n) > MAX_FILE {
        return Ok(Err(EFBIG));
    }
    let (data, sym) = grab(e, p, n)?;
    let f = match e.vfs.get_mut(path) {
        Some(f) => f,
        None => return Ok(Ok(n)), // unlinked
    };
    if n == 0 {
        return Ok(Ok(0));
    }
    if f.data.len() < pos + n {
        f.data.resize(pos + n, 0);
        if !f.sym.is_empty() {
            f.sym.resize(pos + n, 0);
        }
    }
    f.data[pos..pos + n].copy_from_slice(&data);
    if !sym.is_empty() {
        if f.sym.is_empty() {
            f.sym = vec![0; f.data.len()];
        }
        f.sym[pos..pos + n].copy_from_slice(&sym);
    } else if !f.sym.is_empty() {
        f.sym[pos..pos + n].fill(0);
    }
    Ok(Ok(n))
}
fn do_write(e: &mut Ex, fd: u64, p: u64, n: usize) -> X<Result<usize, u64>> {
    let fdi = fd as u32 as usize;
    if fdi == 1 || fdi == 2 {
        let (d, s) = grab(e, p, n)?;
        let out = if fdi == 1 { &mut e.stdout } else { &mut e.stderr };
        for i in 0..n {
            out.push(if s.get(i).map_or(false, |t| *t != 0) { b'?' } else { d[i] });
        }
        return Ok(Ok(n));
    }
    let path = match fd_path(e, fd) {
        Some(p) => p,
        None => return Ok(Err(EBADF)),
    };
    let f = e.fds[fdi].as_ref().unwrap();
    let pos = if f.append { e.vfs.get(&path).map_or(0, |f| f.data.len()) } else { f.pos.get() };
    let r = write_at(e, &path, pos, p, n)?;
    if let Ok(k) = r {
        e.fds[fdi].as_ref().unwrap().pos.set(pos + k);
    }
    Ok(r)
}
fn c_write(e: &mut Ex, a: &[Val]) -> X<Val> {
    let (fd, p, mut n) = (e.conc(&a[0])?, e.conc(&a[1])?, e.conc(&a[2])?);
    if fd_path(e, fd).is_some() {
        match fault(e, n as usize, ENOSPC, true)? {
            Some(Fault::Errno(x)) => return errno(e, x),
            Some(Fault::Limit(l)) => n = l as u64,
            None => {}
        }
    }
    let r = do_write(e, fd, p, n as usize)?;
    ret(e, r)
}
fn c_pwrite(e: &mut Ex, a: &[Val]) -> X<Val> {
    let (fd, p, mut n, o) = (e.conc(&a[0])?, e.conc(&a[1])?, e.conc(&a[2])?, e.conc(&a[3])?);
    if fd_path(e, fd).is_some() {
        match fault(e, n as usize, ENOSPC, true)? {
            Some(Fault::Errno(x)) => return errno(e, x),
            Some(Fault::Limit(l)) => n = l as u64,
            None => {}
        }
    }
    let r = match fd_path(e, fd) {
        Some(path) => write_at(e, &path, o as usize, p, n as usize)?,
        None => Err(EBADF),
    };
    ret(e, r)
}
fn c_writev(e: &mut Ex, a: &[Val]) -> X<Val> {
    let (fd, v, n) = (e.conc(&a[0])?, e.conc(&a[1])?, e.conc(&a[2])?);
    let mut tot = 0;
    let v = iov(e, v, n)?;
    let mut left: usize = v.iter().map(|x| x.1).sum();
    if fd_path(e, fd).is_some() {
        match fault(e, left, ENOSPC, true)? {
            Some(Fault::Errno(x)) => return errno(e, x),
            Some(Fault::Limit(l)) => left = l,
            None => {}
        }
    }
    for (p, l) in v {
        let l = l.min(left);
        left -= l;
        match do_write(e, fd, p, l)? {
            Ok(k) => tot += k,
            Err(x) => return errno(e, x),
        }
    }
    Ok(Val::C(tot as u64))
}
fn c_close(e: &mut Ex, a: &[Val]) -> X<Val> {
    let fd = e.conc(&a[0])? as u32 as usize;
    if let Some(f) = e.fds.get_mut(fd) {
        *f = None;
    }
    Ok(Val::C(0))
}
fn c_lseek(e: &mut Ex, a: &[Val]) -> X<Val> {
    let (fd, o, w) = (e.conc(&a[0])?, e.conc(&a[1])? as i64, e.conc(&a[2])?);
    let p = match fd_path(e, fd) {
        Some(p) => p,
        None => return errno(e, EBADF),
    };
    let len = e.vfs.get(&p).map_or(0, |f| f.data.len()) as i64;
    let f = e.fds[fd as u32 as usize].as_mut().unwrap();
    let base = match w {
        0 => 0,
        1 => f.pos.get() as i64,
        2 => len,
        _ => return errno(e, EINVAL),
    };
    match base.checked_add(o) {
        Some(n) if n >= 0 => {
            f.pos.set(n as usize);
            Ok(Val::C(n as u64))
        }
        _ => errno(e, EINVAL),
    }
}
fn c_ftruncate(e: &mut Ex, a: &[Val]) -> X<Val> {
    if let Some(Fault::Errno(x)) = fault(e, 0, EPERM, true)? {
        return err32(e, x);
    }
    let (fd, n) = (e.conc(&a[0])?, e.conc(&a[1])? as usize);
    let p = match fd_path(e, fd) {
        Some(p) => p,
        None => return err32(e, EBADF),
    };
    if n > MAX_FILE {
        return err32(e, EFBIG);
    }
    if let Some(f) = e.vfs.get_mut(&p) {
        f.data.resize(n, 0);
        if !f.sym.is_empty() {
            f.sym.resize(n, 0);
        }
    }
    Ok(Val::C(0))
}
fn fill_stat(e: &mut Ex, path: &str, b: u64) -> X<Val> {
    let (dir, mode, len) = match e.vfs.get(path) {
        Some(f) => (f.dir, f.mode, f.data.len() as u64),
        None => return err32(e, ENOENT),
    };
    let mut s = [0u8; 144];
    let ino = path.bytes().fold(5381u64, |h, c| h.wrapping_mul(33) ^ c as u64);
    s[8..16].copy_from_slice(&ino.to_le_bytes());
    s[16] = 1;
    let m = if dir { 0o040755 } else { 0o100000 | (mode & 0o7777) };
    s[24..28].copy_from_slice(&(m as u32).to_le_bytes());
    s[48..56].copy_from_slice(&len.to_le_bytes());
    s[56..64].copy_from_slice(&4096u64.to_le_bytes());
    e.write_bytes(b, &s)?;
    Ok(Val::C(0))
}
fn c_fstat(e: &mut Ex, a: &[Val]) -> X<Val> {
    let (fd, b) = (e.conc(&a[0])?, e.conc(&a[1])?);
    match fd_path(e, fd) {
        Some(p) => fill_stat(e, &p, b),
        None => err32(e, EBADF),
    }
}
fn c_stat(e: &mut Ex, a: &[Val]) -> X<Val> {
    let (pa, b) = (e.conc(&a[0])?, e.conc(&a[1])?);
    let p = e.cstr(pa)?;
    match walk(e, &p) {
        Ok(p) => fill_stat(e, &p, b),
        Err(x) => err32(e, x),
    }
}
fn c_realpath(e: &mut Ex, a: &[Val]) -> X<Val> {
    let (pa, b) = (e.conc(&a[0])?, e.conc(&a[1])?);
    let p = e.cstr(pa)?;
    let p = match walk(e, &p) {
        Ok(p) if e.vfs.contains_key(&p) => p,
        Ok(_) => {
            errno(e, ENOENT)?;
            return Ok(Val::C(0));
        }
        Err(x) => {
            errno(e, x)?;
            return Ok(Val::C(0));
        }
    };
    let b = if b == 0 { e.alloc(p.len() + 1, Kind::Heap) } else { b };
    e.write_bytes(b, p.as_bytes())?;
    e.write_bytes(b + p.len() as u64, &[0])?;
    Ok(Val::C(b))
}
fn c_getcwd(e: &mut Ex, a: &[Val]) -> X<Val> {
    let b = e.conc(&a[0])?;
    e.write_bytes(b, b"/work\0")?;
    Ok(Val::C(b))
}
fn c_fchmod(e: &mut Ex, a: &[Val]) -> X<Val> {
    if let Some(Fault::Errno(x)) = fault(e, 0, EPERM, true)? {
        return err32(e, x);
    }
    let (fd, m) = (e.conc(&a[0])?, e.conc(&a[1])?);
    match fd_path(e, fd) {
        Some(p) => {
            if let Some(f) = e.vfs.get_mut(&p) {
                f.mode = m as u32 & 0o7777;
            }
            Ok(Val::C(0))
        }
        None => err32(e, EBADF),
    }
}
fn c_chmod(e: &mut Ex, a: &[Val]) -> X<Val> {
    if let Some(Fault::Errno(x)) = fault(e, 0, EPERM, true)? {
        return err32(e, x);
    }
    let (pa, m) = (e.conc(&a[0])?, e.conc(&a[1])?);
    let p = e.cstr(pa)?;
    match walk(e, &p) {
        Ok(p) => match e.vfs.get_mut(&p) {
            Some(f) => {
                f.mode = m as u32 & 0o7777;
                Ok(Val::C(0))
            }
            None => err32(e, ENOENT),
        },
        Err(x) => err32(e, x),
    }
}
fn c_mkdir(e: &mut Ex, a: &[Val]) -> X<Val> {
    let pa = e.conc(&a[0])?;
    let p = e.cstr(pa)?;
    match walk(e, &p) {
        Ok(p) => {
            if e.vfs.contains_key(&p) {
                return err32(e, EEXIST);
            }
            e.vfs.insert(p, VFile { dir: true, mode: 0o755, ..Default::default() });
            Ok(Val::C(0))
        }
        Err(x) => err32(e, x),
    }
}
fn c_unlink(e: &mut Ex, a: &[Val]) -> X<Val> {
    if let Some(Fault::Errno(x)) = fault(e, 0, EPERM, false)? {
        return err32(e, x);
    }
    let pa = e.conc(&a[0])?;
    let p = e.cstr(pa)?;
    match walk(e, &p) {
        Ok(p) => {
            if e.vfs.remove(&p).is_none() {
                return err32(e, ENOENT);
            }
            Ok(Val::C(0))
        }
        Err(x) => err32(e, x),
    }
}
fn c_rename(e: &mut Ex, a: &[Val]) -> X<Val> {
    if let Some(Fault::Errno(x)) = fault(e, 0, EPERM, false)? {
        return err32(e, x);
    }
    let (pa, pb) = (e.conc(&a[0])?, e.conc(&a[1])?);
    let (p, q) = (e.cstr(pa)?, e.cstr(pb)?);
    match (walk(e, &p), walk(e, &q)) {
        (Ok(p), Ok(q)) => match e.vfs.remove(&p) {
            Some(f) => {
                for fd in e.fds.iter_mut().flatten() {
                    if fd.path == p {
                        fd.path = q.clone();
                    }
                }
                e.vfs.insert(q, f);
                Ok(Val::C(0))
            }
            None => err32(e, ENOENT),
        },
        _ => err32(e, ENOENT),
    }
}
fn c_sigaction(e: &mut Ex, a: &[Val]) -> X<Val> {
    let old = e.conc(&a[2])?;
    if old != 0 {
        e.store_int(old, 64, 8, &Val::C(1))?; // SIG_IGN: no handler gets installed
    }
    Ok(Val::C(0))
}
fn c_key_create(e: &mut Ex, a: &[Val]) -> X<Val> {
    let p = e.conc(&a[0])?;
    e.pthread_keys.push(Val::C(0));
    let n = e.pthread_keys.len() as u64;
    e.store_int(p, 32, 4, &Val::C(n))?;
    Ok(Val::C(0))
}
fn c_strerror(e: &mut Ex, a: &[Val]) -> X<Val> {
    let b = e.conc(&a[1])?;
    e.write_bytes(b, b"error\0")?;
    Ok(Val::C(0))
}
fn c_clock(e: &mut Ex, a: &[Val]) -> X<Val> {
    let b = e.conc(&a[1])?;
    // every process runs at another time
    let t = 0x6000_0000 + 1_000_003 * e.nruns;
    e.write_bytes(b, &t.to_le_bytes())?;
    let n = (e.icount / 16) % 1_000_000_000;
    e.write_bytes(b + 8, &n.to_le_bytes())?;
    Ok(Val::C(0))
}
fn c_syscall(e: &mut Ex, a: &[Val]) -> X<Val> {
    match e.conc(&a[0])? {
        318 => {
            let (p, n) = (e.conc(&a[1])?, e.conc(&a[2])? as usize);
            let mut x = e.getrandom_seed ^ 0x9e37_79b9_7f4a_7c15;
            let mut v = vec![];
            for _ in 0..n {
                x ^= x << 13;
                x ^= x >> 7;
                x ^= x << 17;
                v.push((x >> 32) as u8);
            }
            e.write_bytes(p, &v)?;
            Ok(Val::C(n as u64))
        }
        202 => {
            let op = e.conc(&a[2])? & 0x7f;
            if op == 0 || op == 9 {
                let (p, v, timeout) = (e.conc(&a[1])?, e.conc(&a[3])?, e.conc(&a[4])?);
                let now = e.load_int(p, 32, 4)?;
                if e.conc(&now)? as u32 == v as u32 && timeout == 0 {
                    // a single thread: nobody is going to wake it up
                    return Err(Stop::Exit(crate::exec::ST_HANG));
                }
                return errno(e, 11);
            }
            Ok(Val::C(0))
        }
        _ => errno(e, ENOSYS),
    }
}

// ------------------------------------------------------------------ hashing
fn hash_write(e: &mut Ex, a: &[Val]) -> X<Val> {
    if e.hash_mode == HashMode::Const {
        return Ok(Val::C(0));
    }
    let (h, p, n) = (e.conc(&a[2])?, e.conc(&a[3])?, e.conc(&a[4])? as usize);
    let b = e.bytes_concrete(p, n)?;
    let mut v = e.hashes[h as usize].clone();
    v.extend_from_slice(&b);
    e.hashes.push(v);
    Ok(Val::C(e.hashes.len() as u64 - 1))
}
fn hash_finish(e: &mut Ex, a: &[Val]) -> X<Val> {
    match e.hash_mode {
        HashMode::Const => Ok(Val::C(0)),
        HashMode::Sip(_) => {
            let (k0, k1, h) = (e.conc(&a[0])?, e.conc(&a[1])?, e.conc(&a[2])?);
            Ok(Val::C(siphash13(k0, k1, &e.hashes[h as usize])))
        }
        HashMode::Sym(n, first, count) => {
            let (k0, h) = (e.conc(&a[0])?, e.conc(&a[2])?);
            let key = (k0, e.hashes[h as usize].clone());
            if let Some(t) = e.hash_ids.get(&key) {
                return Ok(from_term(*t));
            }
            let i = e.hash_ids.len();
            if i < first || i >= first + count {
                let t = tp().konst(64, 0);
                e.hash_ids.insert(key, t);
                return Ok(Val::C(0));
            }
            let name = format!("hash_{}_{}", e.run_label, e.hash_ids.len());
            if let Some(f) = &e.fixed {
                let k = f.get(&name).copied().unwrap_or(0);
                let t = tp().konst(64, k);
                e.hash_ids.insert(key, t);
                return Ok(Val::C(k as u64));
            }
            let v = tp().var(&name, 8);
            let lim = tp().konst(8, n as u128);
            let c = tp().bin(Op::Ult, v, lim);
            e.assume(c)?;
            // concretise: the table position is needed immediately
            let k = e.conc_t(v)?;
            let t = tp().konst(64, k);
            e.hash_ids.insert(key, t);
            Ok(from_term(t))
        }
    }
}
fn siphash13(k0: u64, k1: u64, b: &[u8]) -> u64 {
    let mut v = [
        k0 ^ 0x736f6d6570736575,
        k1 ^ 0x646f72616e646f6d,
        k0 ^ 0x6c7967656e657261,
        k1 ^ 0x7465646279746573,
    ];
    fn round(v: &mut [u64; 4]) {
        v[0] = v[0].wrapping_add(v[1]);
        v[1] = v[1].rotate_left(13) ^ v[0];
        v[0] = v[0].rotate_left(32);
        v[2] = v[2].wrapping_add(v[3]);
        v[3] = v[3].rotate_left(16) ^ v[2];
        v[0] = v[0].wrapping_add(v[3]);
        v[3] = v[3].rotate_left(21) ^ v[0];
        v[2] = v[2].wrapping_add(v[1]);
        v[1] = v[1].rotate_left(17) ^ v[2];
        v[2] = v[2].rotate_left(32);
    }
    for c in b.chunks(8) {
        if c.len() == 8 {
            let m = u64::from_le_bytes(c.try_into().unwrap());
            v[3] ^= m;
            round(&mut v);
            v[0] ^= m;
        }
    }
    let mut last = [0u8; 8];
    let r = b.len() % 8;
    last[..r].copy_from_slice(&b[b.len() - r..]);
    last[7] = b.len() as u8;
    let m = u64::from_le_bytes(last);
    v[3] ^= m;
    round(&mut v);
    v[0] ^= m;
    v[2] ^= 0xff;
    round(&mut v);
    round(&mut v);
    round(&mut v);
    v[0] ^ v[1] ^ v[2] ^ v[3]
}

// ------------------------------------------------------------------ checker API
fn text(e: &mut Ex, p: &Val, n: &Val) -> X<String> {
    let (p, n) = (e.conc(p)?, e.conc(n)? as usize);
    Ok(String::from_utf8_lossy(&e.bytes_concrete(p, n)?).into_owned())
}
fn symx_u(e: &mut Ex, a: &[Val]) -> X<Val> {
    let name = text(e, &a[0], &a[1])?;
    let w = e.conc(&a[2])? as u32;
    if let Some(f) = &e.fixed {
        let v = f.get(&name).copied().unwrap_or(0);
        return Ok(Val::C(v as u64));
    }
    if let Some(k) = e.pin.get(&name) {
        return Ok(Val::C(*k as u64));
    }
    let v = tp().var(&name, w);
    Ok(from_term(tp().zext(v, 64)))
}
fn bool_term(e: &Ex, v: &Val) -> T {
    let w = match v {
        Val::S(t) => tp().w(*t),
        _ => 8,
    };
    let b = e.cast(CastOp::Trunc, w, 1, v);
    as_term(&b, 1)
}
fn symx_assume(e: &mut Ex, a: &[Val]) -> X<Val> {
    let t = bool_term(e, &a[0]);
    e.assume(t)?;
    Ok(Val::C(0))
}
fn symx_assert(e: &mut Ex, a: &[Val]) -> X<Val> {
    let t = bool_term(e, &a[0]);
    let msg = text(e, &a[1], &a[2])?;
    e.assert_prop(&from_term(t), &msg)?;
    Ok(Val::C(0))
}
fn symx_concretize(e: &mut Ex, a: &[Val]) -> X<Val> {
    Ok(Val::C(e.conc(&a[0])?))
}
fn symx_select(e: &mut Ex, a: &[Val]) -> X<Val> {
    let t = bool_term(e, &a[0]);
    Ok(e.ite(t, 64, &a[1], &a[2]))
}
fn symx_reach(e: &mut Ex, a: &[Val]) -> X<Val> {
    let l = text(e, &a[0], &a[1])?;
    if !e.reached.contains(&l) {
        e.reached.push(l);
    }
    Ok(Val::C(0))
}
fn symx_status(e: &mut Ex, a: &[Val]) -> X<Val> {
    let i = e.conc(&a[0])? as usize;
    if i >= 1000 {
        return Ok(Val::C(e.fault_log.get(i - 1000).copied().unwrap_or(0)));
    }
    Ok(Val::C(e.statuses.get(i).copied().unwrap_or(-1) as u64))
}
fn symx_print(e: &mut Ex, a: &[Val]) -> X<Val> {
    let l = text(e, &a[0], &a[1])?;
    if e.verbose {
        eprintln!("[oracle] {}", l);
    }
    Ok(Val::C(0))
}
fn symx_find(e: &mut Ex, a: &[Val]) -> X<Val> {
    let (h, n, p, m, from) = (
        e.conc(&a[0])?,
        e.conc(&a[1])? as usize,
        e.conc(&a[2])?,
        e.conc(&a[3])? as usize,
        e.conc(&a[4])? as usize,
    );
    let pat = e.bytes_concrete(p, m)?;
    if n < m {
        return Ok(Val::C(u64::MAX));
    }
    let (d, s) = grab(e, h, n)?;
    for i in from..=n - m {
        if d[i..i + m] == pat[..] && (s.is_empty() || s[i..i + m].iter().all(|t| *t == 0)) {
            return Ok(Val::C(i as u64));
        }
    }
    Ok(Val::C(u64::MAX))
}
#[allow(dead_code)]
fn unused(_: Rc<()>) {}
