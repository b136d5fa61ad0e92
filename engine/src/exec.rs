//! Symbolic interpreter for the compiled IR.
use crate::ir::*;
use crate::sys::{self, Cn, Shared};
use crate::term::*;
use crate::z3::{Res, Solver};
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

#[derive(Debug, Clone)]
pub enum Stop {
    /// the interpreted process ended with this status
    Exit(i64),
    /// this path's assumptions are unsatisfiable, or it was given up after a violation
    End,
    /// a limitation of the engine (never a verdict)
    Error(String),
}
pub type X<V> = Result<V, Stop>;

pub const ST_PANIC: i64 = 101;
pub const ST_CRASH: i64 = 1001;
pub const ST_HANG: i64 = 1002;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Dead,
    Heap,
    Const,
    Global,
    Stack,
    Func(u32),
}
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Vec<T>,
    pub kind: Kind,
}

#[derive(Default)]
pub struct VFile {
    pub data: Vec<u8>,
    pub sym: Vec<T>,
    pub mode: u32,
    pub dir: bool,
}
pub struct Fd {
    pub path: String,
    /// shared by duplicates
    pub pos: std::rc::Rc<std::cell::Cell<usize>>,
    pub append: bool,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum HashMode {
    /// every key hashes to the same value: iteration order is insertion order (modulo wrap)
    Const,
    /// SipHash-1-3 with these keys (data must be concrete)
    Sip(u64),
    /// hashes are symbolic: an unknown function of (map, key), n possible values
    /// (values, first, count): the hash of `count` of the distinct keys is symbolic
    Sym(u32, usize, usize),
}

pub type Native = fn(&mut Ex, &[Val]) -> X<Val>;

#[derive(Clone, Copy)]
pub enum FnState {
    Unknown,
    Compiled(&'static Func),
    Native(Native),
    Undefined,
}

pub struct Prog {
    pub name: String,
    pub ix: Index,
    pub fstate: Vec<FnState>,
    pub fn_addr: HashMap<u32, u64>,
    pub types: HashMap<(u32, &'static str), Ty>,
    /// (gid, object id, pristine image) of mutable globals
    pub mutable: Vec<(u32, Vec<u8>)>,
    pub pending: Vec<u32>,
    pub cov_base: usize,
}

struct Frame {
    f: &'static Func,
    pc: usize,
    base: usize,
    sp: usize,
    dst: Option<u32>,
}

pub struct Ex {
    pub progs: Vec<Prog>,
    pub cur: usize,
    pub mem: Vec<Obj>,
    pub first_heap: usize,
    regs: Vec<Val>,
    frames: Vec<Frame>,
    sp: usize,
    stack_id: usize,
    pub solver: Solver,
    pub model: Model,
    pub shared: Rc<Shared>,
    pub vfs: BTreeMap<String, VFile>,
    pub fds: Vec<Option<Fd>>,
    pub statuses: Vec<i64>,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
    pub errno: u64,
    pub budget: u64,
    pub icount: u64,
    pub out: std::fs::File,
    pub children: Vec<i32>,
    pub scenario: String,
    pub trace: bool,
    pub show_forks: bool,
    pub hash_mode: HashMode,
    pub hashes: Vec<Vec<u8>>,
    pub hash_ids: HashMap<(u64, Vec<u8>), T>,
    pub getrandom_seed: u64,
    /// processes run on this path so far
    pub nruns: u64,
    /// faults that may still happen to the running linker, calls so far that can fail, and what
    /// happened to every run (a bit per kind)
    pub fault_left: u32,
    pub fault_calls: u32,
    /// how many calls after a fault the next one may happen
    pub fault_window: u32,
    pub fault_until: u32,
    pub fault_log: Vec<u64>,
    pub branches: u64,
    pub forks: u64,
    pub reached: Vec<String>,
    pub asserts: u64,
    pub assert_queries: u64,
    pub path_log: Vec<String>,
    pub is_child: bool,
    pub sample_every: u64,
    pub pthread_keys: Vec<Val>,
    pub dirs: Vec<Option<(Vec<(String, bool)>, usize)>>,
    pub max_paths: u64,
    pub run_label: String,
    pub fixed: Option<HashMap<String, u128>>,
    /// variables explored with one value only (for debugging)
    pub pin: HashMap<String, u128>,
    /// queries longer than this many ms are reported (for debugging)
    pub slow: u128,
    pub verbose: bool,
    pub trace_panics: bool,
    pub warm: bool,
}

impl Env for (&mut Vec<Obj>, &mut Prog) {
    fn sym_addr(&mut self, module: u32, name: &'static str) -> u64 {
        let (mem, p) = (&mut *self.0, &mut *self.1);
        // function?
        let f = p.ix.modules[module as usize].fns.get(name).copied();
        let gid = if f.is_none() { p.ix.resolve_glob(module, name) } else { None };
        if let (None, Some(g)) = (f, gid) {
            return glob_addr(mem, p, g);
        }
        let fid = f.unwrap_or_else(|| p.ix.resolve_fn(module, name));
        while p.fstate.len() < p.ix.fdefs.len() {
            p.fstate.push(FnState::Unknown);
        }
        if p.ix.fdefs[fid as usize].text.is_none() && crate::natives::lookup(name).is_none() {
            return 0; // unresolved weak symbol
        }
        if let Some(a) = p.fn_addr.get(&fid) {
            return *a;
        }
        let id = mem.len() as u64;
        mem.push(Obj { data: vec![], sym: vec![], kind: Kind::Func(fid) });
        p.fn_addr.insert(fid, id << 32);
        id << 32
    }
    fn fn_id(&mut self, module: u32, name: &'static str) -> u32 {
        let f = self.1.ix.resolve_fn(module, name);
        while self.1.fstate.len() < self.1.ix.fdefs.len() {
            self.1.fstate.push(FnState::Unknown);
        }
        f
    }
    fn is_fn(&mut self, _module: u32, _name: &'static str) -> bool {
        true
    }
    fn type_text(&self, module: u32, name: &str) -> Option<&'static str> {
        self.1.ix.modules[module as usize].types.get(name).copied()
    }
    fn memo_ty(&mut self, module: u32, name: &'static str, ty: Option<Ty>) -> Option<Ty> {
        match ty {
            Some(t) => {
                self.1.types.insert((module, name), t);
                None
            }
            None => self.1.types.get(&(module, name)).cloned(),
        }
    }
}

fn glob_addr(mem: &mut Vec<Obj>, p: &mut Prog, g: u32) -> u64 {
    if let Some(a) = p.ix.gdefs[g as usize].addr {
        return a;
    }
    let (module, text) = {
        let d = &p.ix.gdefs[g as usize];
        (d.module, d.text)
    };
    let (ty, constant, _, weak, external) =
        glob_type(text, module, &mut (&mut *mem, &mut *p)).unwrap_or_else(|e| panic!("{}", e));
    if weak {
        p.ix.gdefs[g as usize].addr = Some(0);
        return 0;
    }
    let _ = external;
    let id = mem.len() as u64;
    mem.push(Obj {
        data: vec![0; ty.size() as usize],
        sym: vec![],
        kind: if constant { Kind::Const } else { Kind::Global },
    });
    p.ix.gdefs[g as usize].addr = Some(id << 32);
    p.pending.push(g);
    id << 32
}

pub fn write_const(data: &mut [u8], ty: &Ty, v: &Val) {
    match ty {
        Ty::Struct(..) | Ty::Array(..) => {
            if let Val::Agg(a) = v {
                for (i, x) in a.iter().enumerate() {
                    let o = ty.field_off(i) as usize;
                    write_const(&mut data[o..], ty.elem(i), x);
                }
            }
        }
        Ty::Vec(n, e) => {
            if let Val::Agg(a) = v {
                let s = e.store_size() as usize;
                for i in 0..*n as usize {
                    write_const(&mut data[i * s..], e, &a[i]);
                }
            }
        }
        Ty::Void | Ty::Other => {}
        _ => {
            let n = ty.store_size() as usize;
            let k = match v {
                Val::C(c) => *c as u128,
                Val::S(t) => tp().cval(*t).unwrap(),
                _ => 0,
            };
            data[..n].copy_from_slice(&k.to_le_bytes()[..n]);
        }
    }
}

impl Prog {
    pub fn new(name: &str, files: &[String]) -> Prog {
        let mut ix = Index::default();
        for f in files {
            ix.load(f);
        }
        Prog {
            name: name.into(),
            fstate: vec![FnState::Unknown; ix.fdefs.len()],
            ix,
            fn_addr: Default::default(),
            types: Default::default(),
            mutable: vec![],
            pending: vec![],
            cov_base: 0,
        }
    }
}

#[inline]
fn ct(v: &Val) -> Option<u64> {
    match v {
        Val::C(c) => Some(*c),
        Val::S(t) => tp().cval(*t).filter(|k| *k <= u64::MAX as u128).map(|k| k as u64),
        _ => None,
    }
}
pub fn as_term(v: &Val, w: u32) -> T {
    match v {
        Val::C(c) => tp().konst(w, *c as u128),
        Val::S(t) => {
            debug_assert_eq!(tp().w(*t), w);
            *t
        }
        Val::Agg(_) => panic!("aggregate used as scalar"),
    }
}
pub fn from_term(t: T) -> Val {
    let n = tp().n(t);
    if n.op == Op::Const && n.w <= 64 {
        Val::C(n.k as u64)
    } else {
        Val::S(t)
    }
}
fn m64(w: u32) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}

impl Ex {
    pub fn prog(&mut self) -> &mut Prog {
        let c = self.cur;
        &mut self.progs[c]
    }
    pub fn err<V>(&self, m: impl Into<String>) -> X<V> {
        let mut s = m.into();
        let n = self.frames.len();
        for f in self.frames[n.saturating_sub(6)..].iter().rev() {
            s += &format!(" < {}", self.progs[self.cur].ix.fdefs[f.f.fid as usize].name);
        }
        Err(Stop::Error(s))
    }

    pub fn init_pending(&mut self) -> X<()> {
        loop {
            let cur = self.cur;
            let g = match self.progs[cur].pending.pop() {
                Some(g) => g,
                None => return Ok(()),
            };
            let (module, text, addr) = {
                let d = &self.progs[cur].ix.gdefs[g as usize];
                (d.module, d.text, d.addr.unwrap())
            };
            let mut env = (&mut self.mem, &mut self.progs[cur]);
            let r = glob_type(text, module, &mut env);
            let (ty, constant, at, _, external) = match r {
                Ok(x) => x,
                Err(e) => return Err(Stop::Error(format!("global: {}", e))),
            };
            let id = (addr >> 32) as usize;
            if !external {
                let mut p = P::new(text, module, &mut env);
                p.i = at;
                match p.konst(&ty) {
                    Ok(v) => {
                        let mut data = vec![0u8; ty.size() as usize];
                        write_const(&mut data, &ty, &v);
                        self.mem[id].data = data;
                    }
                    Err(e) => {
                        return Err(Stop::Error(format!(
                            "global initialiser: {} in {}",
                            e,
                            &text[..text.len().min(200)]
                        )))
                    }
                }
            }
            if !constant {
                let img = self.mem[id].data.clone();
                self.progs[cur].mutable.push((id as u32, img));
            }
        }
    }

    fn fn_state(&mut self, fid: u32) -> X<FnState> {
        let cur = self.cur;
        match self.progs[cur].fstate[fid as usize] {
            FnState::Unknown => {}
            s => return Ok(s),
        }
        let def = self.progs[cur].ix.fdefs[fid as usize];
        let st = if let Some(n) = crate::natives::lookup(def.name) {
            FnState::Native(n)
        } else if def.text.is_some() {
            let mut env = (&mut self.mem, &mut self.progs[cur]);
            match compile(fid, def, &mut env) {
                Ok(f) => FnState::Compiled(Box::leak(Box::new(f))),
                Err(e) => return self.err(format!("cannot compile {}: {}", def.name, e)),
            }
        } else {
            FnState::Undefined
        };
        self.init_pending()?;
        while self.progs[cur].fstate.len() < self.progs[cur].ix.fdefs.len() {
            self.progs[cur].fstate.push(FnState::Unknown);
        }
        self.progs[cur].fstate[fid as usize] = st;
        let cb = self.progs[cur].cov_base;
        if cb + (fid as usize) < self.shared.cov_bytes * 8 {
            self.shared.cover(cb + fid as usize);
        }
        Ok(st)
    }

    // ---------------------------------------------------------------- memory
    pub fn alloc(&mut self, n: usize, kind: Kind) -> u64 {
        let id = self.mem.len() as u64;
        self.mem.push(Obj { data: vec![0; n], sym: vec![], kind });
        id << 32
    }
    pub fn crash<V>(&self, m: &str) -> X<V> {
        if self.trace {
            eprintln!("crash: {}", m);
        }
        // an access violation in safe Rust means the engine mis-executed something: surface it
        self.err(format!("memory fault: {}", m))
    }
    #[inline]
    pub fn obj(&self, a: u64, n: usize) -> X<(usize, usize)> {
        let id = (a >> 32) as usize;
        let off = (a & 0xffff_ffff) as usize;
        match self.mem.get(id) {
            Some(o) if off + n <= o.data.len() => Ok((id, off)),
            _ => {
                if n == 0 {
                    return Ok((0, 0));
                }
                self.crash(&format!("access of {} bytes at {:#x}", n, a))
            }
        }
    }
    #[inline]
    pub fn load_int(&mut self, a: u64, w: u32, n: usize) -> X<Val> {
        let (id, off) = self.obj(a, n)?;
        let o = &self.mem[id];
        if o.sym.is_empty() || o.sym[off..off + n].iter().all(|t| *t == 0) {
            if n <= 8 {
                let mut b = [0u8; 8];
                b[..n].copy_from_slice(&o.data[off..off + n]);
                return Ok(Val::C(u64::from_le_bytes(b) & m64(w)));
            }
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(&o.data[off..off + n]);
            return Ok(Val::S(tp().konst(w, u128::from_le_bytes(b))));
        }
        let p = tp();
        let mut acc: T = 0;
        for i in 0..n {
            let s = o.sym[off + i];
            let t = if s != 0 { s } else { p.konst(8, o.data[off + i] as u128) };
            acc = if i == 0 { t } else { p.concat(t, acc) };
        }
        if w != n as u32 * 8 {
            acc = p.extract(acc, 0, w);
        }
        Ok(from_term(acc))
    }
    pub fn store_int(&mut self, a: u64, w: u32, n: usize, v: &Val) -> X<()> {
        let (id, off) = self.obj(a, n)?;
        let o = &mut self.mem[id];
        if o.kind == Kind::Const {
            return self.crash(&format!("write to constant memory at {:#x}", a));
        }
        match v {
            Val::C(c) => {
                let b = c.to_le_bytes();
                if n <= 8 {
                    o.data[off..off + n].copy_from_slice(&b[..n]);
                } else {
                    o.data[off..off + 8].copy_from_slice(&b);
                    o.data[off + 8..off + n].fill(0);
                }
                if !o.sym.is_empty() {
                    o.sym[off..off + n].fill(0);
                }
            }
            Val::S(t) => {
                let p = tp();
                let mut t = *t;
                if w != n as u32 * 8 {
                    t = p.zext(t, n as u32 * 8);
                }
                if let Some(k) = p.cval(t) {
                    o.data[off..off + n].copy_from_slice(&k.to_le_bytes()[..n]);
                    if !o.sym.is_empty() {
                        o.sym[off..off + n].fill(0);
                    }
                    return Ok(());
                }
                if o.sym.is_empty() {
                    o.sym = vec![0; o.data.len()];
                }
                for i in 0..n {
                    let b = p.extract(t, i as u32 * 8, 8);
                    if let Some(k) = p.cval(b) {
                        o.data[off + i] = k as u8;
                        o.sym[off + i] = 0;
                    } else {
                        o.sym[off + i] = b;
                    }
                }
            }
            Val::Agg(_) => return self.err("aggregate store"),
        }
        Ok(())
    }
    pub fn load_ty(&mut self, a: u64, ty: &Ty) -> X<Val> {
        match ty {
            Ty::Struct(..) | Ty::Array(..) => {
                let mut v = Vec::with_capacity(ty.count());
                for i in 0..ty.count() {
                    v.push(self.load_ty(a + ty.field_off(i), ty.elem(i))?);
                }
                Ok(Val::Agg(Rc::new(v)))
            }
            Ty::Vec(n, e) => {
                let ew = e.width();
                let mut v = Vec::with_capacity(*n as usize);
                if ew % 8 != 0 {
                    let total = *n * ew;
                    let x = self.load_int(a, total, ty.store_size() as usize)?;
                    let t = as_term(&x, total);
                    for i in 0..*n {
                        v.push(from_term(tp().extract(t, i * ew, ew)));
                    }
                } else {
                    for i in 0..*n as u64 {
                        v.push(self.load_int(a + i * (ew / 8) as u64, ew, (ew / 8) as usize)?);
                    }
                }
                Ok(Val::Agg(Rc::new(v)))
            }
            Ty::Void | Ty::Other => self.err("load of odd type"),
            _ => self.load_int(a, ty.width(), ty.store_size() as usize),
        }
    }
    pub fn store_ty(&mut self, a: u64, ty: &Ty, v: &Val) -> X<()> {
        match ty {
            Ty::Struct(..) | Ty::Array(..) => {
                if let Val::Agg(x) = v {
                    for i in 0..ty.count() {
                        self.store_ty(a + ty.field_off(i), ty.elem(i), &x[i])?;
                    }
                }
                Ok(())
            }
            Ty::Vec(n, e) => {
                let ew = e.width();
                if let Val::Agg(x) = v {
                    if ew % 8 != 0 {
                        let t = self.vec_bits(x, ew);
                        return self.store_int(a, n * ew, ty.store_size() as usize, &from_term(t));
                    }
                    for i in 0..*n as u64 {
                        self.store_int(a + i * (ew / 8) as u64, ew, (ew / 8) as usize, &x[i as usize])?;
                    }
                }
                Ok(())
            }
            Ty::Void | Ty::Other => self.err("store of odd type"),
            _ => self.store_int(a, ty.width(), ty.store_size() as usize, v),
        }
    }
    fn vec_bits(&self, x: &[Val], ew: u32) -> T {
        let mut acc = as_term(&x[0], ew);
        for v in &x[1..] {
            let t = as_term(v, ew);
            acc = tp().concat(t, acc);
        }
        acc
    }
    pub fn copy(&mut self, d: u64, s: u64, n: usize) -> X<()> {
        if n == 0 {
            return Ok(());
        }
        let (si, so) = self.obj(s, n)?;
        let (di, d_o) = self.obj(d, n)?;
        if self.mem[di].kind == Kind::Const {
            return self.crash("memcpy to constant memory");
        }
        if si == di {
            let o = &mut self.mem[si];
            o.data.copy_within(so..so + n, d_o);
            if !o.sym.is_empty() {
                o.sym.copy_within(so..so + n, d_o);
            }
            return Ok(());
        }
        let (a, b) = if si < di {
            let (l, r) = self.mem.split_at_mut(di);
            (&l[si], &mut r[0])
        } else {
            let (l, r) = self.mem.split_at_mut(si);
            (&r[0], &mut l[di])
        };
        b.data[d_o..d_o + n].copy_from_slice(&a.data[so..so + n]);
        let src_sym = !a.sym.is_empty() && a.sym[so..so + n].iter().any(|t| *t != 0);
        if src_sym {
            if b.sym.is_empty() {
                b.sym = vec![0; b.data.len()];
            }
            b.sym[d_o..d_o + n].copy_from_slice(&a.sym[so..so + n]);
        } else if !b.sym.is_empty() {
            b.sym[d_o..d_o + n].fill(0);
        }
        Ok(())
    }
    /// byte at address as a value of width 8
    pub fn byte(&mut self, a: u64) -> X<Val> {
        self.load_int(a, 8, 1)
    }
    pub fn bytes_concrete(&mut self, a: u64, n: usize) -> X<Vec<u8>> {
        let (id, off) = self.obj(a, n)?;
        if !self.mem[id].sym.is_empty() && self.mem[id].sym[off..off + n].iter().any(|t| *t != 0) {
            let mut v = vec![];
            for i in 0..n {
                let b = self.byte(a + i as u64)?;
                v.push(self.conc(&b)? as u8);
            }
            return Ok(v);
        }
        Ok(self.mem[id].data[off..off + n].to_vec())
    }
    pub fn cstr(&mut self, a: u64) -> X<String> {
        let mut v = vec![];
        let mut a = a;
        loop {
            let b = self.byte(a)?;
            let c = self.conc(&b)? as u8;
            if c == 0 {
                break;
            }
            v.push(c);
            a += 1;
        }
        Ok(String::from_utf8_lossy(&v).into_owned())
    }
    pub fn write_bytes(&mut self, a: u64, b: &[u8]) -> X<()> {
        if b.is_empty() {
            return Ok(());
        }
        let (id, off) = self.obj(a, b.len())?;
        let o = &mut self.mem[id];
        o.data[off..off + b.len()].copy_from_slice(b);
        if !o.sym.is_empty() {
            o.sym[off..off + b.len()].fill(0);
        }
        Ok(())
    }

    // ---------------------------------------------------------------- path condition
    pub fn set_model(&mut self, v: Vec<u128>) {
        self.model = Model::new(v);
    }
    fn query(&mut self, c: T) -> X<Option<Vec<u128>>> {
        if self.shared.get(Cn::Stop) != 0 {
            return Err(Stop::End);
        }
        let t0 = std::time::Instant::now();
        let (r, m) = self.solver.check(c, &self.model.vals);
        if t0.elapsed().as_millis() > self.slow {
            let e: X<()> = self.err("");
            if let Err(Stop::Error(s)) = e {
                eprintln!("slow {} ms {}", t0.elapsed().as_millis(), s);
            }
        }
        match r {
            Res::Sat => Ok(m),
            Res::Unsat => Ok(None),
            Res::Unknown => {
                self.shared.add(Cn::Unknown, 1);
                self.err("solver gave no answer")
            }
        }
    }
    /// Forks: returns true in the child.
    fn fork(&mut self) -> X<bool> {
        if self.shared.get(Cn::Forks) > self.max_paths {
            return self.err("path budget exceeded");
        }
        self.shared.add(Cn::Forks, 1);
        self.forks += 1;
        if self.show_forks {
            let e: X<()> = self.err("");
            if let Err(Stop::Error(s)) = e {
                eprintln!("fork{}", s);
            }
        }
        let tok = self.shared.try_token();
        // flush counters so that the child starts from zero
        self.flush_counts();
        let pid = unsafe { sys::fork() };
        if pid < 0 {
            return self.err("fork failed");
        }
        if pid == 0 {
            self.children.clear();
            self.is_child = true;
            sys::die_with_parent();
            return Ok(true);
        }
        if tok {
            self.children.push(pid);
        } else {
            // lend our token to the child, run it to completion first
            if !sys::wait_child(pid) {
                self.shared.add(Cn::Errors, 1);
                self.report("error", "a worker process died", None);
            }
            self.shared.wait_token();
        }
        Ok(false)
    }
    pub fn flush_counts(&mut self) {
        let s = &self.shared;
        s.add(Cn::Branches, std::mem::take(&mut self.branches));
        s.add(Cn::Queries, std::mem::take(&mut self.solver.queries));
        s.add(Cn::SolverNs, std::mem::take(&mut self.solver.time).as_nanos() as u64);
        s.add(Cn::Instrs, std::mem::take(&mut self.icount));
        s.add(Cn::Asserts, std::mem::take(&mut self.asserts));
        s.add(Cn::AssertQueries, std::mem::take(&mut self.assert_queries));
    }
    /// Decide a symbolic condition; explores both outcomes when both are possible.
    pub fn branch(&mut self, c: T) -> X<bool> {
        if let Some(k) = tp().cval(c) {
            return Ok(k != 0);
        }
        self.branches += 1;
        let v = self.model.eval(c) != 0;
        let nc = tp().not1(c);
        let (mine, other) = if v { (c, nc) } else { (nc, c) };
        match self.query(other)? {
            None => Ok(v),
            Some(m) => {
                if self.fork()? {
                    self.solver.add(other);
                    self.set_model(m);
                    Ok(!v)
                } else {
                    self.solver.add(mine);
                    Ok(v)
                }
            }
        }
    }
    pub fn assume(&mut self, c: T) -> X<()> {
        if let Some(k) = tp().cval(c) {
            return if k != 0 { Ok(()) } else { Err(Stop::End) };
        }
        if self.model.eval(c) == 0 {
            match self.query(c)? {
                None => return Err(Stop::End),
                Some(m) => self.set_model(m),
            }
        }
        self.solver.add(c);
        Ok(())
    }
    /// Concrete value of `v`, exploring every feasible value.
    pub fn conc_t(&mut self, t: T) -> X<u128> {
        let mut tried = 0;
        loop {
            tried += 1;
            if tried > 4000 {
                return self.err("a value with too many possibilities is needed concretely");
            }
            if let Some(k) = tp().cval(t) {
                return Ok(k);
            }
            self.branches += 1;
            let w = tp().w(t);
            let k = self.model.eval(t);
            let kt = tp().konst(w, k);
            let eq = tp().bin(Op::Eq, t, kt);
            let ne = tp().not1(eq);
            match self.query(ne)? {
                None => return Ok(k),
                Some(m) => {
                    // the child takes this value: chains of children would nest as deep as there are values
                    if self.fork()? {
                        self.solver.add(eq);
                        return Ok(k);
                    } else {
                        self.solver.add(ne);
                        self.set_model(m);
                    }
                }
            }
        }
    }
    pub fn conc(&mut self, v: &Val) -> X<u64> {
        match v {
            Val::C(c) => Ok(*c),
            Val::S(t) => {
                if tp().cval(*t).is_none() {
                    self.shared.add(Cn::Concretized, 1);
                }
                Ok(self.conc_t(*t)? as u64)
            }
            Val::Agg(_) => self.err("aggregate as scalar"),
        }
    }
    /// All feasible values (bounded) of a term, without forking.
    pub fn values(&mut self, t: T, max: usize) -> X<Option<Vec<u128>>> {
        let w = tp().w(t);
        let mut vals = vec![self.model.eval(t)];
        let mut ex = {
            let k = tp().konst(w, vals[0]);
            let e = tp().bin(Op::Eq, t, k);
            tp().not1(e)
        };
        loop {
            match self.query(ex)? {
                None => return Ok(Some(vals)),
                Some(m) => {
                    let mut mm = Model::new(m);
                    let v = mm.eval(t);
                    vals.push(v);
                    if vals.len() > max {
                        return Ok(None);
                    }
                    let k = tp().konst(w, v);
                    let e = tp().bin(Op::Eq, t, k);
                    let n = tp().not1(e);
                    ex = tp().bin(Op::And, ex, n);
                }
            }
        }
    }
    pub fn values_json(&self, vals: &[u128]) -> String {
        let mut s = String::from("{");
        for (i, (n, _)) in tp().vars.iter().enumerate() {
            if i > 0 {
                s += ",";
            }
            s += &format!("\"{}\":\"{}\"", n, vals.get(i).copied().unwrap_or(0));
        }
        s + "}"
    }
    pub fn report(&mut self, kind: &str, msg: &str, vals: Option<&[u128]>) {
        use std::io::Write;
        let esc = |s: &str| -> String {
            s.chars()
                .map(|c| match c {
                    '"' => "'".to_string(),
                    '\\' => "/".to_string(),
                    c if (c as u32) < 32 => " ".to_string(),
                    c => c.to_string(),
                })
                .collect()
        };
        let st: Vec<String> = self.statuses.iter().map(|s| s.to_string()).collect();
        let line = format!(
            "{{\"kind\":\"{}\",\"msg\":\"{}\",\"status\":[{}],\"reached\":\"{}\",\"values\":{}}}\n",
            kind,
            esc(msg),
            st.join(","),
            esc(&self.reached.join(",")),
            match vals {
                Some(v) => self.values_json(v),
                None => "null".into(),
            }
        );
        let _ = self.out.write_all(line.as_bytes());
    }
    /// An assertion of the property.
    pub fn assert_prop(&mut self, c: &Val, msg: &str) -> X<()> {
        if self.warm {
            return Ok(());
        }
        self.asserts += 1;
        let t = as_term(c, 1);
        match tp().cval(t) {
            Some(1) => return Ok(()),
            Some(_) => {
                self.shared.add(Cn::Violations, 1);
                let v = self.model.vals.clone();
                self.report("violation", msg, Some(&v));
                return Err(Stop::End);
            }
            None => {}
        }
        self.assert_queries += 1;
        self.shared.add(Cn::AssertSym, 1);
        let n = tp().not1(t);
        if let Some(m) = self.query(n)? {
            self.shared.add(Cn::Violations, 1);
            self.report("violation", msg, Some(&m));
            // continue on the values for which it holds, if any
            return self.assume(t);
        }
        Ok(())
    }

    // ---------------------------------------------------------------- values
    #[inline]
    fn ev(&self, base: usize, o: &Opd) -> Val {
        match o {
            Opd::R(r) => self.regs[base + *r as usize].clone(),
            Opd::C(c) => Val::C(*c),
            Opd::V(v) => v.clone(),
        }
    }
    #[inline]
    fn cv(&self, base: usize, o: &Opd) -> Option<u64> {
        match o {
            Opd::R(r) => match &self.regs[base + *r as usize] {
                Val::C(c) => Some(*c),
                _ => None,
            },
            Opd::C(c) => Some(*c),
            Opd::V(_) => None,
        }
    }
    pub fn bin(&self, op: BinOp, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            if w <= 64 {
                return Val::C(bin64(op, w, *x, *y));
            }
        }
        let (x, y) = (as_term(a, w), as_term(b, w));
        let o = match op {
            BinOp::Add => Op::Add,
            BinOp::Sub => Op::Sub,
            BinOp::Mul => Op::Mul,
            BinOp::UDiv => Op::UDiv,
            BinOp::SDiv => Op::SDiv,
            BinOp::URem => Op::URem,
            BinOp::SRem => Op::SRem,
            BinOp::Shl => Op::Shl,
            BinOp::LShr => Op::LShr,
            BinOp::AShr => Op::AShr,
            BinOp::And => Op::And,
            BinOp::Or => Op::Or,
            BinOp::Xor => Op::Xor,
        };
        from_term(tp().bin(o, x, y))
    }
    pub fn icmp(&self, p: Pred, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            return Val::C(cmp64(p, w, *x, *y) as u64);
        }
        let (x, y) = (as_term(a, w), as_term(b, w));
        let t = tp();
        let r = match p {
            Pred::Eq => t.bin(Op::Eq, x, y),
            Pred::Ne => {
                let e = t.bin(Op::Eq, x, y);
                t.not1(e)
            }
            Pred::Ult => t.bin(Op::Ult, x, y),
            Pred::Ule => t.bin(Op::Ule, x, y),
            Pred::Ugt => t.bin(Op::Ult, y, x),
            Pred::Uge => t.bin(Op::Ule, y, x),
            Pred::Slt => t.bin(Op::Slt, x, y),
            Pred::Sle => t.bin(Op::Sle, x, y),
            Pred::Sgt => t.bin(Op::Slt, y, x),
            Pred::Sge => t.bin(Op::Sle, y, x),
        };
        from_term(r)
    }
    pub fn cast(&self, op: CastOp, f: u32, t: u32, v: &Val) -> Val {
        if let Val::C(c) = v {
            if t <= 64 {
                return Val::C(match op {
                    CastOp::SExt => sx(*c, f) as u64 & m64(t),
                    _ => *c & m64(t),
                });
            }
        }
        let x = as_term(v, f);
        from_term(match op {
            CastOp::Trunc => tp().extract(x, 0, t),
            CastOp::ZExt => tp().zext(x, t),
            CastOp::SExt => tp().sext(x, t),
            CastOp::Bit => x,
        })
    }
    pub fn ite(&self, c: T, w: u32, a: &Val, b: &Val) -> Val {
        match (a, b) {
            (Val::Agg(_), _) | (_, Val::Agg(_)) => panic!("ite on aggregates"),
            _ => {
                let (x, y) = (as_term(a, w), as_term(b, w));
                from_term(tp().ite(c, x, y))
            }
        }
    }
    fn ite_ty(&self, c: T, ty: &Ty, a: &Val, b: &Val) -> Val {
        match (a, b) {
            (Val::Agg(x), Val::Agg(y)) => Val::Agg(Rc::new(
                x.iter()
                    .zip(y.iter())
                    .enumerate()
                    .map(|(i, (p, q))| self.ite_ty(c, ty.elem(i), p, q))
                    .collect(),
            )),
            _ => self.ite(c, ty.width(), a, b),
        }
    }

    fn load_sym(&mut self, t: T, w: u32, n: usize) -> X<Val> {
        self.shared.add(Cn::SymLoads, 1);
        let vals = match self.values(t, 300)? {
            Some(v) => v,
            None => {
                let a = self.conc_t(t)? as u64;
                return self.load_int(a, w, n);
            }
        };
        let mut res: Option<Val> = None;
        let mut ptrs = false;
        let mut loads = vec![];
        for k in &vals {
            let v = self.load_int(*k as u64, w, n)?;
            if let Val::C(c) = v {
                if w == 64 && c >> 32 != 0 && ((c >> 32) as usize) < self.mem.len() {
                    ptrs = true;
                }
            }
            loads.push(v);
        }
        if ptrs && vals.len() > 1 {
            let a = self.conc_t(t)? as u64;
            return self.load_int(a, w, n);
        }
        for (k, v) in vals.iter().zip(loads) {
            res = Some(match res {
                None => v,
                Some(r) => {
                    let kt = tp().konst(64, *k);
                    let e = tp().bin(Op::Eq, t, kt);
                    self.ite(e, w, &v, &r)
                }
            });
        }
        Ok(res.unwrap())
    }

    // ---------------------------------------------------------------- execution
    fn push_frame(&mut self, f: &'static Func, args: &[Val], dst: Option<u32>) -> X<()> {
        if self.frames.len() > 20000 {
            return Err(Stop::Exit(ST_CRASH)); // stack overflow of the program under test
        }
        let base = self.regs.len();
        // A number in the text of an error message does not influence anything else, the message
        // is written for one of the possible values.
        if f.prints {
            if let Val::S(t) = &args[0] {
                if self.frames.iter().any(|g| {
                    let n = self.progs[self.cur].ix.fdefs[g.f.fid as usize].name;
                    n.contains("6goblin") || n.contains("5Error") && n.contains("7Display3fmt")
                }) {
                    let mut v = args.to_vec();
                    v[0] = Val::C(self.model.eval(*t) as u64);
                    return self.push_frame(f, &v, dst);
                }
            }
        }
        self.regs.reserve(f.nregs as usize);
        let np = f.nparams as usize;
        for i in 0..f.nregs as usize {
            self.regs.push(if i < np && i < args.len() { args[i].clone() } else { Val::C(0) });
        }
        self.frames.push(Frame { f, pc: 0, base, sp: self.sp, dst });
        Ok(())
    }
    fn pop_frame(&mut self) -> Frame {
        let fr = self.frames.pop().unwrap();
        self.regs.truncate(fr.base);
        if self.sp > fr.sp {
            let o = &mut self.mem[self.stack_id];
            if !o.sym.is_empty() {
                o.sym[fr.sp..self.sp].fill(0);
            }
        }
        self.sp = fr.sp;
        fr
    }

    pub fn call_fid(&mut self, fid: u32, args: &[Val]) -> X<Val> {
        match self.fn_state(fid)? {
            FnState::Native(n) => n(self, args),
            FnState::Compiled(f) => {
                let depth = self.frames.len();
                self.push_frame(f, args, None)?;
                self.run(depth)
            }
            _ => {
                let n = self.progs[self.cur].ix.fdefs[fid as usize].name;
                self.err(format!("call of undefined function {}", n))
            }
        }
    }
    pub fn call_ptr(&mut self, a: u64, args: &[Val]) -> X<Val> {
        match self.mem.get((a >> 32) as usize).map(|o| o.kind) {
            Some(Kind::Func(fid)) if a as u32 == 0 => self.call_fid(fid, args),
            _ => self.crash(&format!("call of {:#x}", a)),
        }
    }

    fn take_edge(&mut self, f: &'static Func, base: usize, e: u32) -> usize {
        let e = &f.edges[e as usize];
        match e.moves.len() {
            0 => {}
            1 => {
                let v = self.ev(base, &e.moves[0].1);
                self.regs[base + e.moves[0].0 as usize] = v;
            }
            _ => {
                let mut tmp: [Val; 8] = Default::default();
                if e.moves.len() <= 8 {
                    for (i, (_, o)) in e.moves.iter().enumerate() {
                        tmp[i] = self.ev(base, o);
                    }
                    for (i, (d, _)) in e.moves.iter().enumerate() {
                        self.regs[base + *d as usize] = std::mem::take(&mut tmp[i]);
                    }
                } else {
                    let vs: Vec<Val> = e.moves.iter().map(|(_, o)| self.ev(base, o)).collect();
                    for ((d, _), v) in e.moves.iter().zip(vs) {
                        self.regs[base + *d as usize] = v;
                    }
                }
            }
        }
        e.target as usize
    }

    /// Runs until the frame stack is back at `depth`; returns the value returned by that frame.
    fn run(&mut self, depth: usize) -> X<Val> {
        let mut f: &'static Func;
        let mut pc: usize;
        let mut base: usize;
        macro_rules! sync {
            () => {{
                let fr = self.frames.last().unwrap();
                f = fr.f;
                pc = fr.pc;
                base = fr.base;
            }};
        }
        sync!();
        let mut n: u64 = 0;
        loop {
            let inst = &f.insts[pc];
            pc += 1;
            n += 1;
            if n & 0xfff == 0 {
                self.icount += 0x1000;
                if self.budget < 0x1000 {
                    return Err(Stop::Exit(ST_HANG));
                }
                self.budget -= 0x1000;
            }
            match inst {
                Inst::Bin(op, w, d, a, b) => {
                    let r = match (self.cv(base, a), self.cv(base, b)) {
                        (Some(x), Some(y)) if *w <= 64 => Val::C(bin64(*op, *w, x, y)),
                        _ => {
                            let (x, y) = (self.ev(base, a), self.ev(base, b));
                            self.bin(*op, *w, &x, &y)
                        }
                    };
                    self.regs[base + *d as usize] = r;
                }
                Inst::ICmp(p, w, d, a, b) => {
                    let r = match (self.cv(base, a), self.cv(base, b)) {
                        (Some(x), Some(y)) => Val::C(cmp64(*p, *w, x, y) as u64),
                        _ => {
                            let (x, y) = (self.ev(base, a), self.ev(base, b));
                            self.icmp(*p, *w, &x, &y)
                        }
                    };
                    self.regs[base + *d as usize] = r;
                }
                Inst::LoadI(w, nb, d, a) => {
                    let r = match self.cv(base, a) {
                        Some(a) => self.load_int(a, *w, *nb as usize)?,
                        None => {
                            let v = self.ev(base, a);
                            self.frames.last_mut().unwrap().pc = pc;
                            self.load_sym(as_term(&v, 64), *w, *nb as usize)?
                        }
                    };
                    self.regs[base + *d as usize] = r;
                }
                Inst::StoreI(w, nb, v, a) => {
                    let v = self.ev(base, v);
                    let a = match self.cv(base, a) {
                        Some(a) => a,
                        None => {
                            let a = self.ev(base, a);
                            self.conc(&a)?
                        }
                    };
                    self.store_int(a, *w, *nb as usize, &v)?;
                }
                Inst::Gep(d, b, off, terms) => {
                    let mut acc = match self.cv(base, b) {
                        Some(c) => Val::C(c.wrapping_add(*off)),
                        None => {
                            let v = self.ev(base, b);
                            self.bin(BinOp::Add, 64, &v, &Val::C(*off))
                        }
                    };
                    for (o, w, scale) in terms {
                        match (self.cv(base, o), &acc) {
                            (Some(i), Val::C(c)) => {
                                acc = Val::C(
                                    c.wrapping_add((sx(i, *w) as u64).wrapping_mul(*scale)),
                                );
                            }
                            _ => {
                                let v = self.ev(base, o);
                                let v = self.cast(CastOp::SExt, *w, 64, &v);
                                let v = self.bin(BinOp::Mul, 64, &v, &Val::C(*scale));
                                acc = self.bin(BinOp::Add, 64, &acc, &v);
                            }
                        }
                    }
                    self.regs[base + *d as usize] = acc;
                }
                Inst::Br(e) => pc = self.take_edge(f, base, *e),
                Inst::CondBr(c, a, b) => {
                    let t = match self.cv(base, c) {
                        Some(c) => c & 1 != 0,
                        None => {
                            let v = self.ev(base, c);
                            self.branch(as_term(&v, 1))?
                        }
                    };
                    pc = self.take_edge(f, base, if t { *a } else { *b });
                }
                Inst::Switch(o, w, de, cases) => {
                    let e = match self.cv(base, o) {
                        Some(c) => {
                            let c = c & m64(*w);
                            cases.iter().find(|(k, _)| *k == c).map(|x| x.1).unwrap_or(*de)
                        }
                        None => {
                            let v = self.ev(base, o);
                            self.switch_sym(as_term(&v, *w), *w, f, *de, cases)?
                        }
                    };
                    pc = self.take_edge(f, base, e);
                }
                Inst::Cast(op, fw, tw, d, v) => {
                    let r = match self.cv(base, v) {
                        Some(c) if *tw <= 64 => Val::C(match op {
                            CastOp::SExt => sx(c, *fw) as u64 & m64(*tw),
                            _ => c & m64(*tw),
                        }),
                        _ => {
                            let x = self.ev(base, v);
                            self.cast(*op, *fw, *tw, &x)
                        }
                    };
                    self.regs[base + *d as usize] = r;
                }
                Inst::Select(ty, d, c, a, b) => {
                    let r = match self.cv(base, c) {
                        Some(c) => {
                            if c & 1 != 0 {
                                self.ev(base, a)
                            } else {
                                self.ev(base, b)
                            }
                        }
                        None => {
                            let cv = self.ev(base, c);
                            let ctm = as_term(&cv, 1);
                            let (x, y) = (self.ev(base, a), self.ev(base, b));
                            let fork = *ty == Ty::Ptr
                                || matches!((&x, &y), (Val::C(p), Val::C(q))
                                    if *ty == Ty::Int(64) && (p >> 32 != 0 || q >> 32 != 0)
                                        && ((p >> 32) as usize) < self.mem.len()
                                        && ((q >> 32) as usize) < self.mem.len());
                            if fork {
                                if self.branch(ctm)? {
                                    x
                                } else {
                                    y
                                }
                            } else {
                                self.ite_ty(ctm, ty, &x, &y)
                            }
                        }
                    };
                    self.regs[base + *d as usize] = r;
                }
                Inst::Call(dst, callee, args) => {
                    let mut av: Vec<Val> = Vec::with_capacity(args.len());
                    for a in args {
                        av.push(self.ev(base, a));
                    }
                    let fid = match callee {
                        Callee::Fid(x) => *x,
                        Callee::Ptr(o) => {
                            let v = self.ev(base, o);
                            let a = self.conc(&v)?;
                            match self.mem.get((a >> 32) as usize).map(|o| o.kind) {
                                Some(Kind::Func(fid)) if a as u32 == 0 => fid,
                                _ => return self.crash(&format!("call of {:#x}", a)),
                            }
                        }
                    };
                    self.frames.last_mut().unwrap().pc = pc;
                    let st = match self.progs[self.cur].fstate[fid as usize] {
                        FnState::Unknown => self.fn_state(fid)?,
                        s => s,
                    };
                    match st {
                        FnState::Compiled(g) => {
                            if self.trace {
                                let nm = self.progs[self.cur].ix.fdefs[fid as usize].name;
                                eprintln!("{}{} {:x?}", " ".repeat(self.frames.len()), nm, av);
                            }
                            self.push_frame(g, &av, *dst)?;
                            f = g;
                            pc = 0;
                            base = self.frames.last().unwrap().base;
                        }
                        FnState::Native(nf) => {
                            let r = nf(self, &av)?;
                            if let Some(d) = dst {
                                self.regs[base + *d as usize] = r;
                            }
                        }
                        _ => {
                            let nm = self.progs[self.cur].ix.fdefs[fid as usize].name;
                            return self.err(format!("call of undefined function {}", nm));
                        }
                    }
                }
                Inst::Ret(v) => {
                    let r = match v {
                        Some(o) => self.ev(base, o),
                        None => Val::C(0),
                    };
                    let fr = self.pop_frame();
                    if self.frames.len() == depth {
                        self.icount += n & 0xfff;
                        return Ok(r);
                    }
                    sync!();
                    if let Some(d) = fr.dst {
                        self.regs[base + d as usize] = r;
                    }
                }
                Inst::Alloca(d, size, cnt, align) => {
                    let c = self.ev(base, cnt);
                    let c = self.conc(&c)?;
                    let sp = up(self.sp as u64, (*align).max(1));
                    let end = sp + size * c;
                    if end as usize > self.mem[self.stack_id].data.len() {
                        return Err(Stop::Exit(ST_CRASH));
                    }
                    self.sp = end as usize;
                    self.regs[base + *d as usize] = Val::C(((self.stack_id as u64) << 32) | sp);
                }
                Inst::Load(ty, d, a) => {
                    let a = self.ev(base, a);
                    let a = self.conc(&a)?;
                    let r = self.load_ty(a, ty)?;
                    self.regs[base + *d as usize] = r;
                }
                Inst::Store(ty, v, a) => {
                    let a = self.ev(base, a);
                    let a = self.conc(&a)?;
                    let v = self.ev(base, v);
                    self.store_ty(a, ty, &v)?;
                }
                Inst::ExtractValue(d, v, idx) => {
                    let mut x = self.ev(base, v);
                    for i in idx {
                        x = match x {
                            Val::Agg(a) => a[*i as usize].clone(),
                            _ => return self.err("extractvalue of scalar"),
                        };
                    }
                    self.regs[base + *d as usize] = x;
                }
                Inst::InsertValue(ty, d, a, v, idx) => {
                    let x = self.ev(base, a);
                    let v = self.ev(base, v);
                    let r = insert(x, &v, idx, ty);
                    self.regs[base + *d as usize] = r;
                }
                Inst::Intr(k, dst, w, rt, args) => {
                    let mut av: Vec<Val> = Vec::with_capacity(args.len());
                    for a in args {
                        av.push(self.ev(base, a));
                    }
                    self.frames.last_mut().unwrap().pc = pc;
                    let r = self.intr(*k, *w, rt, &av)?;
                    if let Some(d) = dst {
                        self.regs[base + *d as usize] = r;
                    }
                }
                Inst::VBin(op, w, n, d, a, b) => {
                    let (x, y) = (self.ev(base, a), self.ev(base, b));
                    if let (Val::Agg(x), Val::Agg(y)) = (x, y) {
                        let v = (0..*n as usize).map(|i| self.bin(*op, *w, &x[i], &y[i])).collect();
                        self.regs[base + *d as usize] = Val::Agg(Rc::new(v));
                    } else {
                        return self.err("vector op");
                    }
                }
                Inst::VICmp(p, w, n, d, a, b) => {
                    let (x, y) = (self.ev(base, a), self.ev(base, b));
                    if let (Val::Agg(x), Val::Agg(y)) = (x, y) {
                        let v = (0..*n as usize).map(|i| self.icmp(*p, *w, &x[i], &y[i])).collect();
                        self.regs[base + *d as usize] = Val::Agg(Rc::new(v));
                    } else {
                        return self.err("vector compare");
                    }
                }
                Inst::VCast(op, ft, tt, d, v) => {
                    let x = self.ev(base, v);
                    let r = self.vcast(*op, ft, tt, x)?;
                    self.regs[base + *d as usize] = r;
                }
                Inst::ExtractElement(d, v, i) => {
                    let i = self.ev(base, i);
                    let i = self.conc(&i)? as usize;
                    let r = match self.ev(base, v) {
                        Val::Agg(a) => a[i].clone(),
                        _ => return self.err("extractelement"),
                    };
                    self.regs[base + *d as usize] = r;
                }
                Inst::InsertElement(d, v, x, i) => {
                    let i = self.ev(base, i);
                    let i = self.conc(&i)? as usize;
                    let x = self.ev(base, x);
                    let r = match self.ev(base, v) {
                        Val::Agg(mut a) => {
                            Rc::make_mut(&mut a)[i] = x;
                            Val::Agg(a)
                        }
                        _ => return self.err("insertelement"),
                    };
                    self.regs[base + *d as usize] = r;
                }
                Inst::Shuffle(d, a, b, m) => {
                    if let (Val::Agg(x), Val::Agg(y)) = (self.ev(base, a), self.ev(base, b)) {
                        let v = m
                            .iter()
                            .map(|i| {
                                let i = i.unwrap_or(0) as usize;
                                if i < x.len() {
                                    x[i].clone()
                                } else {
                                    y[i - x.len()].clone()
                                }
                            })
                            .collect();
                        self.regs[base + *d as usize] = Val::Agg(Rc::new(v));
                    } else {
                        return self.err("shuffle");
                    }
                }
                Inst::Copy(d, v) => {
                    let x = self.ev(base, v);
                    self.regs[base + *d as usize] = x;
                }
                Inst::AtomicRmw(op, w, d, a, v) => {
                    let a = self.ev(base, a);
                    let a = self.conc(&a)?;
                    let nb = (*w as usize + 7) / 8;
                    let old = self.load_int(a, *w, nb)?;
                    let v = self.ev(base, v);
                    let new = match op {
                        Rmw::Xchg => v,
                        Rmw::Add => self.bin(BinOp::Add, *w, &old, &v),
                        Rmw::Sub => self.bin(BinOp::Sub, *w, &old, &v),
                        Rmw::And => self.bin(BinOp::And, *w, &old, &v),
                        Rmw::Or => self.bin(BinOp::Or, *w, &old, &v),
                        Rmw::Xor => self.bin(BinOp::Xor, *w, &old, &v),
                        _ => return self.err("atomicrmw"),
                    };
                    self.store_int(a, *w, nb, &new)?;
                    self.regs[base + *d as usize] = old;
                }
                Inst::CmpXchg(w, d, a, e, nv) => {
                    let a = self.ev(base, a);
                    let a = self.conc(&a)?;
                    let nb = (*w as usize + 7) / 8;
                    let old = self.load_int(a, *w, nb)?;
                    let e = self.ev(base, e);
                    let eq = self.icmp(Pred::Eq, *w, &old, &e);
                    let ok = self.branch(as_term(&eq, 1))?;
                    if ok {
                        let v = self.ev(base, nv);
                        self.store_int(a, *w, nb, &v)?;
                    }
                    self.regs[base + *d as usize] =
                        Val::Agg(Rc::new(vec![old, Val::C(ok as u64)]));
                }
                Inst::Nop => {}
                Inst::Unreachable => {
                    self.frames.last_mut().unwrap().pc = pc;
                    return self.err("unreachable executed");
                }
                Inst::Unsupported(s) => {
                    self.frames.last_mut().unwrap().pc = pc;
                    return self.err(format!("unsupported: {}", s));
                }
            }
        }
    }

    fn switch_sym(
        &mut self,
        t: T,
        w: u32,
        f: &'static Func,
        de: u32,
        cases: &[(u64, u32)],
    ) -> X<u32> {
        loop {
            self.branches += 1;
            let v = self.model.eval(t) as u64;
            let e = cases.iter().find(|(k, _)| *k == v).map(|x| x.1).unwrap_or(de);
            let tgt = f.edges[e as usize].target;
            // all values that lead to the same block through an equivalent edge
            let same = |x: u32| -> bool {
                x == e || (f.edges[x as usize].target == tgt && f.edges[x as usize].moves.is_empty())
            };
            let p = tp();
            let mut c;
            if same(de) {
                c = p.konst(1, 1);
                for (k, x) in cases {
                    if !same(*x) {
                        let kt = p.konst(w, *k as u128);
                        let q = p.bin(Op::Eq, t, kt);
                        let nq = p.not1(q);
                        c = p.bin(Op::And, c, nq);
                    }
                }
            } else {
                c = p.konst(1, 0);
                for (k, x) in cases {
                    if same(*x) {
                        let kt = p.konst(w, *k as u128);
                        let q = p.bin(Op::Eq, t, kt);
                        c = p.bin(Op::Or, c, q);
                    }
                }
            }
            let nc = p.not1(c);
            match self.query(nc)? {
                None => return Ok(e),
                Some(m) => {
                    if self.fork()? {
                        self.solver.add(nc);
                        self.set_model(m);
                    } else {
                        self.solver.add(c);
                        return Ok(e);
                    }
                }
            }
        }
    }

    fn vcast(&mut self, op: CastOp, ft: &Ty, tt: &Ty, x: Val) -> X<Val> {
        match (op, ft, tt) {
            (CastOp::Bit, _, _) => {
                // flatten to bits, then split
                let t = match (&x, ft) {
                    (Val::Agg(v), Ty::Vec(_, e)) => {
                        if v.iter().all(|v| matches!(v, Val::C(_))) && (v.len() as u32 * e.width()) <= 128 {
                            let mut acc = 0u128;
                            for (i, v) in v.iter().enumerate() {
                                if let Val::C(c) = v {
                                    acc |= (*c as u128) << (i as u32 * e.width());
                                }
                            }
                            tp().konst(v.len() as u32 * e.width(), acc)
                        } else {
                            if v.len() as u32 * e.width() > 128 {
                                return self.err("wide vector bitcast");
                            }
                            self.vec_bits(v, e.width())
                        }
                    }
                    (v, t) if t.is_scalar() => as_term(v, t.width()),
                    _ => return self.err("bitcast"),
                };
                Ok(match tt {
                    Ty::Vec(n, e) => Val::Agg(Rc::new(
                        (0..*n)
                            .map(|i| from_term(tp().extract(t, i * e.width(), e.width())))
                            .collect(),
                    )),
                    _ => from_term(t),
                })
            }
            (_, Ty::Vec(n, fe), Ty::Vec(_, te)) => {
                if let Val::Agg(v) = x {
                    Ok(Val::Agg(Rc::new(
                        (0..*n as usize)
                            .map(|i| self.cast(op, fe.width(), te.width(), &v[i]))
                            .collect(),
                    )))
                } else {
                    self.err("vector cast")
                }
            }
            _ => self.err("cast"),
        }
    }

    fn intr(&mut self, k: Intr, w: u32, rt: &Ty, a: &[Val]) -> X<Val> {
        if let (Ty::Vec(n, _), false) = (rt, matches!(k, Intr::Memcpy)) {
            // elementwise
            let mut out = vec![];
            for i in 0..*n as usize {
                let mut ai = vec![];
                for x in a {
                    ai.push(match x {
                        Val::Agg(v) => v[i].clone(),
                        v => v.clone(),
                    });
                }
                out.push(self.intr(k, w, &Ty::Int(w), &ai)?);
            }
            return Ok(Val::Agg(Rc::new(out)));
        }
        let p = tp();
        Ok(match k {
            Intr::Memcpy => {
                let n = self.conc(&a[2])? as usize;
                if n > 0 {
                    let d = self.conc(&a[0])?;
                    let s = self.conc(&a[1])?;
                    self.copy(d, s, n)?;
                }
                Val::C(0)
            }
            Intr::Memset => {
                let n = self.conc(&a[2])? as usize;
                if n > 0 {
                    let d = self.conc(&a[0])?;
                    self.memset(d, &a[1], n)?;
                }
                Val::C(0)
            }
            Intr::Nop => Val::C(0),
            Intr::Trap => return Err(Stop::Exit(ST_CRASH)),
            Intr::Ident => a[0].clone(),
            Intr::IsConstant => Val::C(0),
            Intr::Ptrmask => self.bin(BinOp::And, 64, &a[0], &a[1]),
            Intr::UMin | Intr::UMax | Intr::SMin | Intr::SMax => {
                let pr = match k {
                    Intr::UMin => Pred::Ult,
                    Intr::UMax => Pred::Ugt,
                    Intr::SMin => Pred::Slt,
                    _ => Pred::Sgt,
                };
                match self.icmp(pr, w, &a[0], &a[1]) {
                    Val::C(c) => {
                        if c != 0 {
                            a[0].clone()
                        } else {
                            a[1].clone()
                        }
                    }
                    Val::S(c) => self.ite(c, w, &a[0], &a[1]),
                    _ => unreachable!(),
                }
            }
            Intr::Ovf(kind) => {
                let op = [BinOp::Add, BinOp::Sub, BinOp::Mul][(kind % 3) as usize];
                let r = self.bin(op, w, &a[0], &a[1]);
                let signed = kind >= 3;
                let o = if let (Val::C(x), Val::C(y)) = (&a[0], &a[1]) {
                    let ov = if signed {
                        let (x, y) = (sx(*x, w) as i128, sx(*y, w) as i128);
                        let z = match op {
                            BinOp::Add => x + y,
                            BinOp::Sub => x - y,
                            _ => x * y,
                        };
                        z < -(1i128 << (w - 1)) || z >= 1i128 << (w - 1)
                    } else {
                        let (x, y) = (*x as u128, *y as u128);
                        match op {
                            BinOp::Add => x + y > mask(w),
                            BinOp::Sub => x < y,
                            _ => x.checked_mul(y).map(|z| z > mask(w)).unwrap_or(true),
                        }
                    };
                    Val::C(ov as u64)
                } else {
                    let (x, y) = (as_term(&a[0], w), as_term(&a[1], w));
                    let z = as_term(&r, w);
                    let t = if !signed {
                        match op {
                            BinOp::Add => p.bin(Op::Ult, z, x),
                            BinOp::Sub => p.bin(Op::Ult, x, y),
                            _ => {
                                if w * 2 > 128 {
                                    // x * y overflows iff y != 0 and x > max / y
                                    if let Some(k) = p.cval(y) {
                                        if k == 0 {
                                            p.konst(1, 0)
                                        } else {
                                            let lim = p.konst(w, mask(w) / k);
                                            p.bin(Op::Ult, lim, x)
                                        }
                                    } else {
                                        return self.err("wide multiplication overflow");
                                    }
                                } else if let (Some(k), _) | (None, Some(k)) = (p.cval(y), p.cval(x)) {
                                    let v = if p.cval(y).is_some() { x } else { y };
                                    if k == 0 {
                                        p.konst(1, 0)
                                    } else {
                                        let lim = p.konst(w, mask(w) / k);
                                        p.bin(Op::Ult, lim, v)
                                    }
                                } else {
                                    let (xx, yy) = (p.zext(x, w * 2), p.zext(y, w * 2));
                                    let m = p.bin(Op::Mul, xx, yy);
                                    let lim = p.konst(w * 2, mask(w));
                                    p.bin(Op::Ult, lim, m)
                                }
                            }
                        }
                    } else {
                        let z0 = p.konst(w, 0);
                        match op {
                            // overflow iff operands have the same sign and the result differs
                            BinOp::Add => {
                                let a1 = p.bin(Op::Xor, x, z);
                                let a2 = p.bin(Op::Xor, y, z);
                                let m = p.bin(Op::And, a1, a2);
                                p.bin(Op::Slt, m, z0)
                            }
                            BinOp::Sub => {
                                let a1 = p.bin(Op::Xor, x, y);
                                let a2 = p.bin(Op::Xor, x, z);
                                let m = p.bin(Op::And, a1, a2);
                                p.bin(Op::Slt, m, z0)
                            }
                            _ => {
                                if w * 2 > 128 {
                                    return self.err("wide multiplication overflow");
                                }
                                let (xx, yy) = (p.sext(x, w * 2), p.sext(y, w * 2));
                                let m = p.bin(Op::Mul, xx, yy);
                                let e = p.sext(z, w * 2);
                                let q = p.bin(Op::Eq, m, e);
                                p.not1(q)
                            }
                        }
                    };
                    from_term(t)
                };
                Val::Agg(Rc::new(vec![r, o]))
            }
            Intr::Fshl | Intr::Fshr => {
                let s = self.conc(&a[2])? as u32 % w;
                let (hi, lo) = (as_term(&a[0], w), as_term(&a[1], w));
                if s == 0 {
                    return Ok(if k == Intr::Fshl { a[0].clone() } else { a[1].clone() });
                }
                let s = if k == Intr::Fshl { s } else { w - s };
                // result = hi << s | lo >> (w - s)
                let h = p.extract(hi, 0, w - s);
                let l = p.extract(lo, w - s, s);
                from_term(p.concat(h, l))
            }
            Intr::Bswap => {
                let t = as_term(&a[0], w);
                let mut acc = p.extract(t, 0, 8);
                for i in 1..w / 8 {
                    let b = p.extract(t, i * 8, 8);
                    acc = p.concat(acc, b);
                }
                from_term(acc)
            }
            Intr::Bitreverse => {
                let t = as_term(&a[0], w);
                let mut acc = p.extract(t, 0, 1);
                for i in 1..w {
                    let b = p.extract(t, i, 1);
                    acc = p.concat(acc, b);
                }
                from_term(acc)
            }
            Intr::Ucmp | Intr::Scmp => {
                let rw = rt.width();
                let pr = if k == Intr::Ucmp { Pred::Ult } else { Pred::Slt };
                let lt = self.icmp(pr, w, &a[0], &a[1]);
                let eq = self.icmp(Pred::Eq, w, &a[0], &a[1]);
                let (lt, eq) = (as_term(&lt, 1), as_term(&eq, 1));
                let one = p.konst(rw, 1);
                let z = p.konst(rw, 0);
                let m1 = p.konst(rw, u128::MAX);
                let i = p.ite(eq, z, one);
                from_term(p.ite(lt, m1, i))
            }
            Intr::Ctlz | Intr::Cttz | Intr::Ctpop => {
                if let Some(c) = ct(&a[0]) {
                    if w <= 64 {
                        let c = c & m64(w);
                        return Ok(Val::C(match k {
                            Intr::Ctlz => (c.leading_zeros() - (64 - w)) as u64,
                            Intr::Cttz => c.trailing_zeros().min(w) as u64,
                            _ => c.count_ones() as u64,
                        }));
                    }
                }
                let t = as_term(&a[0], w);
                match k {
                    Intr::Ctpop => {
                        let mut acc = p.konst(w, 0);
                        for i in 0..w {
                            let b = p.extract(t, i, 1);
                            let b = p.zext(b, w);
                            acc = p.bin(Op::Add, acc, b);
                        }
                        from_term(acc)
                    }
                    _ => {
                        let mut acc = p.konst(w, w as u128);
                        for j in 0..w {
                            // last assignment wins: iterate from least to most significant choice
                            let i = if k == Intr::Ctlz { j } else { w - 1 - j };
                            let b = p.extract(t, i, 1);
                            let v = p.konst(w, if k == Intr::Ctlz { (w - 1 - i) as u128 } else { i as u128 });
                            acc = p.ite(b, v, acc);
                        }
                        from_term(acc)
                    }
                }
            }
            Intr::USubSat => {
                let r = self.bin(BinOp::Sub, w, &a[0], &a[1]);
                let lt = self.icmp(Pred::Ult, w, &a[0], &a[1]);
                self.ite(as_term(&lt, 1), w, &Val::C(0), &r)
            }
            Intr::UAddSat => {
                let r = self.bin(BinOp::Add, w, &a[0], &a[1]);
                let lt = self.icmp(Pred::Ult, w, &r, &a[0]);
                let mx = from_term(p.konst(w, mask(w)));
                self.ite(as_term(&lt, 1), w, &mx, &r)
            }
            Intr::Abs => {
                let n = self.bin(BinOp::Sub, w, &from_term(p.konst(w, 0)), &a[0]);
                let neg = self.icmp(Pred::Slt, w, &a[0], &from_term(p.konst(w, 0)));
                self.ite(as_term(&neg, 1), w, &n, &a[0])
            }
            Intr::LoadRel => {
                let b = self.conc(&a[0])?;
                let o = self.conc(&a[1])?;
                let v = self.load_int(b.wrapping_add(o), 32, 4)?;
                let v = self.conc(&v)?;
                Val::C(b.wrapping_add(crate::ir::near_or_far(v)))
            }
            Intr::ReduceOr | Intr::ReduceAnd | Intr::ReduceAdd => {
                let op = match k {
                    Intr::ReduceOr => BinOp::Or,
                    Intr::ReduceAnd => BinOp::And,
                    _ => BinOp::Add,
                };
                if let Val::Agg(v) = &a[0] {
                    let mut acc = v[0].clone();
                    for x in &v[1..] {
                        acc = self.bin(op, w, &acc, x);
                    }
                    acc
                } else {
                    return self.err("reduce");
                }
            }
        })
    }
    pub fn memset(&mut self, d: u64, v: &Val, n: usize) -> X<()> {
        let (id, off) = self.obj(d, n)?;
        let o = &mut self.mem[id];
        if o.kind == Kind::Const {
            return self.crash("memset of constant memory");
        }
        match v {
            Val::C(c) => {
                o.data[off..off + n].fill(*c as u8);
                if !o.sym.is_empty() {
                    o.sym[off..off + n].fill(0);
                }
            }
            Val::S(_) => {
                let b = match self.cast(CastOp::Trunc, as_w(v), 8, v) {
                    Val::S(t) => t,
                    Val::C(c) => return self.memset(d, &Val::C(c), n),
                    _ => unreachable!(),
                };
                let o = &mut self.mem[id];
                if o.sym.is_empty() {
                    o.sym = vec![0; o.data.len()];
                }
                o.sym[off..off + n].fill(b);
            }
            _ => return self.err("memset"),
        }
        Ok(())
    }

    // ---------------------------------------------------------------- processes
    pub fn new(
        progs: Vec<Prog>,
        shared: Rc<Shared>,
        out: std::fs::File,
        rlimit: u32,
        scenario: &str,
    ) -> Ex {
        let mut mem = vec![];
        mem.push(Obj { data: vec![], sym: vec![], kind: Kind::Dead }); // null
        mem.push(Obj { data: vec![0; 16 << 20], sym: vec![], kind: Kind::Stack });
        let errno = 2u64 << 32;
        mem.push(Obj { data: vec![0; 16], sym: vec![], kind: Kind::Global });
        let _ = tp();
        Ex {
            progs,
            cur: 0,
            mem,
            first_heap: 3,
            regs: Vec::with_capacity(1 << 16),
            frames: vec![],
            sp: 64,
            stack_id: 1,
            solver: Solver::new(rlimit),
            model: Model::new(vec![]),
            shared,
            vfs: Default::default(),
            fds: vec![],
            statuses: vec![],
            stdout: vec![],
            stderr: vec![],
            errno,
            budget: 0,
            icount: 0,
            out,
            children: vec![],
            scenario: scenario.into(),
            trace: false,
            show_forks: false,
            hash_mode: HashMode::Const,
            hashes: vec![vec![]],
            hash_ids: Default::default(),
            getrandom_seed: 0,
            nruns: 0,
            fault_left: 0,
            fault_calls: 0,
            fault_window: 0,
            fault_until: 0,
            fault_log: vec![],
            branches: 0,
            forks: 0,
            reached: vec![],
            asserts: 0,
            assert_queries: 0,
            path_log: vec![],
            is_child: false,
            sample_every: 1,
            pthread_keys: vec![],
            dirs: vec![],
            max_paths: u64::MAX,
            run_label: String::new(),
            fixed: None,
            pin: Default::default(),
            slow: u128::MAX,
            verbose: false,
            trace_panics: false,
            warm: false,
        }
    }

    /// Runs program `which` as a fresh process. Returns its exit status.
    pub fn process(&mut self, which: usize, argv: &[String], budget: u64) -> X<i64> {
        self.cur = which;
        self.budget = budget;
        self.frames.clear();
        self.regs.clear();
        self.sp = 64;
        {
            let o = &mut self.mem[self.stack_id];
            o.sym = vec![];
        }
        self.fds = vec![None, None, None];
        self.stdout.clear();
        self.stderr.clear();
        self.hashes = vec![vec![]];
        self.hash_ids.clear();
        self.pthread_keys.clear();
        self.dirs.clear();
        // fresh globals
        let muts: Vec<(u32, Vec<u8>)> = self.progs[which].mutable.clone();
        for (id, img) in muts {
            let o = &mut self.mem[id as usize];
            o.data = img;
            o.sym = vec![];
        }
        let main = match self.progs[which].ix.gfns.get("main") {
            Some(m) => *m,
            None => return self.err("no main"),
        };
        // argv
        let mut ptrs = vec![];
        for a in argv {
            // @:FILE is the (symbolic) content of a file
            if let Some(f) = a.strip_prefix("@:") {
                let path = format!("/work/{}", f);
                let n = self.vfs.get(&path).map_or(0, |f| f.data.len());
                let p = self.alloc(n + 1, Kind::Heap);
                let _ = crate::natives::read_at(self, &path, 0, p, n)?;
                ptrs.push(p);
                continue;
            }
            let p = self.alloc(a.len() + 1, Kind::Heap);
            self.write_bytes(p, a.as_bytes())?;
            ptrs.push(p);
        }
        let av = self.alloc((argv.len() + 2) * 8, Kind::Heap);
        for (i, p) in ptrs.iter().enumerate() {
            self.store_int(av + 8 * i as u64, 64, 8, &Val::C(*p))?;
        }
        self.shared.add(Cn::Runs, 1);
        self.nruns += 1;
        let r = self.call_fid(main, &[Val::C(argv.len() as u64), Val::C(av)]);
        let st = match r {
            Ok(v) => Ok(self.conc(&v)? as u32 as i32 as i64),
            Err(Stop::Exit(c)) => Ok(c),
            Err(e) => Err(e),
        };
        self.frames.clear();
        self.regs.clear();
        // drop the process's memory
        let cur = self.cur;
        let _ = cur;
        for o in self.mem[self.first_heap..].iter_mut() {
            if o.kind == Kind::Heap {
                o.kind = Kind::Dead;
                o.data = vec![];
                o.sym = vec![];
            }
        }
        st
    }
}

pub fn as_w(v: &Val) -> u32 {
    match v {
        Val::S(t) => tp().w(*t),
        _ => 64,
    }
}

fn insert(x: Val, v: &Val, idx: &[u32], ty: &Ty) -> Val {
    if idx.is_empty() {
        return v.clone();
    }
    let mut a = match x {
        Val::Agg(a) => a,
        _ => match ty.zero() {
            Val::Agg(a) => a,
            _ => panic!("insertvalue"),
        },
    };
    let i = idx[0] as usize;
    let old = a[i].clone();
    Rc::make_mut(&mut a)[i] = insert(old, v, &idx[1..], ty.elem(i));
    Val::Agg(a)
}

impl Default for Val {
    fn default() -> Val {
        Val::C(0)
    }
}

#[inline]
pub fn bin64(op: BinOp, w: u32, x: u64, y: u64) -> u64 {
    let m = m64(w);
    (match op {
        BinOp::Add => x.wrapping_add(y),
        BinOp::Sub => x.wrapping_sub(y),
        BinOp::Mul => x.wrapping_mul(y),
        BinOp::And => x & y,
        BinOp::Or => x | y,
        BinOp::Xor => x ^ y,
        BinOp::Shl => {
            if y >= w as u64 {
                0
            } else {
                x << y
            }
        }
        BinOp::LShr => {
            if y >= w as u64 {
                0
            } else {
                x >> y
            }
        }
        BinOp::AShr => (sx(x, w) >> y.min(w as u64 - 1)) as u64,
        BinOp::UDiv => x.checked_div(y).unwrap_or(m),
        BinOp::URem => x.checked_rem(y).unwrap_or(x),
        BinOp::SDiv => {
            if y == 0 {
                m
            } else {
                sx(x, w).wrapping_div(sx(y, w)) as u64
            }
        }
        BinOp::SRem => {
            if y == 0 {
                x
            } else {
                sx(x, w).wrapping_rem(sx(y, w)) as u64
            }
        }
    }) & m
}
#[inline]
pub fn cmp64(p: Pred, w: u32, x: u64, y: u64) -> bool {
    match p {
        Pred::Eq => x == y,
        Pred::Ne => x != y,
        Pred::Ugt => x > y,
        Pred::Uge => x >= y,
        Pred::Ult => x < y,
        Pred::Ule => x <= y,
        Pred::Sgt => sx(x, w) > sx(y, w),
        Pred::Sge => sx(x, w) >= sx(y, w),
        Pred::Slt => sx(x, w) < sx(y, w),
        Pred::Sle => sx(x, w) <= sx(y, w),
    }
}
