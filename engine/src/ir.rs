//! Textual LLVM IR: module indexing and lazy compilation of function bodies.
use crate::term::{mask, tp, T};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Val {
    C(u64),
    S(T),
    Agg(Rc<Vec<Val>>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Struct(Rc<Vec<Ty>>, bool),
    Array(u64, Rc<Ty>),
    Vec(u32, Rc<Ty>),
    Other,
}
impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 1,
            Ty::Int(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Struct(f, p) => {
                if *p {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Array(_, t) => t.align(),
            Ty::Vec(..) => self.store_size().next_power_of_two(),
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(w) => (*w as u64 + 7) / 8,
            Ty::Vec(n, t) => match &**t {
                Ty::Int(w) => (*n as u64 * *w as u64 + 7) / 8,
                t => *n as u64 * t.size(),
            },
            _ => self.size(),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(_) => up(self.store_size(), self.align()),
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Struct(f, p) => {
                let mut o = 0;
                for t in f.iter() {
                    if !*p {
                        o = up(o, t.align());
                    }
                    o += t.size();
                }
                if *p {
                    o
                } else {
                    up(o, self.align())
                }
            }
            Ty::Array(n, t) => n * t.size(),
            Ty::Vec(..) => up(self.store_size(), self.align()),
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, p) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !*p {
                        o = up(o, t.align());
                    }
                    if k == i {
                        return o;
                    }
                    o += t.size();
                }
                panic!("field index")
            }
            Ty::Array(_, t) => i as u64 * t.size(),
            Ty::Vec(_, t) => i as u64 * t.size(),
            _ => panic!("field_off"),
        }
    }
    pub fn elem(&self, i: usize) -> &Ty {
        match self {
            Ty::Struct(f, _) => &f[i],
            Ty::Array(_, t) | Ty::Vec(_, t) => t,
            _ => panic!("elem"),
        }
    }
    pub fn width(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => 0,
        }
    }
    pub fn is_scalar(&self) -> bool {
        matches!(self, Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64)
    }
    pub fn count(&self) -> usize {
        match self {
            Ty::Struct(f, _) => f.len(),
            Ty::Array(n, _) => *n as usize,
            Ty::Vec(n, _) => *n as usize,
            _ => 0,
        }
    }
    pub fn zero(&self) -> Val {
        match self {
            Ty::Struct(f, _) => Val::Agg(Rc::new(f.iter().map(|t| t.zero()).collect())),
            Ty::Array(n, t) => Val::Agg(Rc::new((0..*n).map(|_| t.zero()).collect())),
            Ty::Vec(n, t) => Val::Agg(Rc::new((0..*n).map(|_| t.zero()).collect())),
            _ => Val::C(0),
        }
    }
}
pub fn up(v: u64, a: u64) -> u64 {
    (v + a - 1) / a * a
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    C(u64),
    V(Val),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum CastOp {
    Trunc,
    ZExt,
    SExt,
    Bit,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Rmw {
    Xchg,
    Add,
    Sub,
    And,
    Nand,
    Or,
    Xor,
    Max,
    Min,
    UMax,
    UMin,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Intr {
    Memcpy,
    Memset,
    Nop,
    Trap,
    Ovf(u8), // 0 uadd 1 usub 2 umul 3 sadd 4 ssub 5 smul
    UMin,
    UMax,
    SMin,
    SMax,
    Fshl,
    Fshr,
    Bswap,
    Bitreverse,
    Ucmp,
    Scmp,
    Ctlz,
    Cttz,
    Ctpop,
    USubSat,
    UAddSat,
    Abs,
    Ident, // threadlocal.address, expect, launder...
    LoadRel,
    ReduceOr,
    ReduceAnd,
    ReduceAdd,
    IsConstant,
    Ptrmask,
}

#[derive(Debug)]
pub struct Edge {
    pub target: u32, // instruction index
    pub moves: Vec<(u32, Opd)>,
}

#[derive(Debug)]
pub enum Callee {
    Fid(u32),
    Ptr(Opd),
}

#[derive(Debug)]
pub enum Inst {
    Bin(BinOp, u32, u32, Opd, Opd), // op width dst a b
    VBin(BinOp, u32, u32, u32, Opd, Opd),
    ICmp(Pred, u32, u32, Opd, Opd),
    VICmp(Pred, u32, u32, u32, Opd, Opd), // pred width n dst
    Cast(CastOp, u32, u32, u32, Opd),     // op from to dst
    VCast(CastOp, Ty, Ty, u32, Opd),
    Load(Ty, u32, Opd),
    LoadI(u32, u32, u32, Opd), // width bytes dst ptr
    Store(Ty, Opd, Opd),
    StoreI(u32, u32, Opd, Opd), // width bytes val ptr
    Gep(u32, Opd, u64, Vec<(Opd, u32, u64)>),
    Alloca(u32, u64, Opd, u64),
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(Opd, u32, u32, Vec<(u64, u32)>), // opd width default-edge cases
    Ret(Option<Opd>),
    Unreachable,
    Call(Option<u32>, Callee, Vec<Opd>),
    Intr(Intr, Option<u32>, u32, Ty, Vec<Opd>), // kind dst width(first arg) ret-ty args
    Select(Ty, u32, Opd, Opd, Opd),
    ExtractValue(u32, Opd, Vec<u32>),
    InsertValue(Ty, u32, Opd, Opd, Vec<u32>),
    ExtractElement(u32, Opd, Opd),
    InsertElement(u32, Opd, Opd, Opd),
    Shuffle(u32, Opd, Opd, Vec<Option<u32>>),
    Copy(u32, Opd),
    AtomicRmw(Rmw, u32, u32, Opd, Opd),
    CmpXchg(u32, u32, Opd, Opd, Opd),
    Nop,
    Unsupported(String),
}

pub struct Func {
    pub fid: u32,
    pub nregs: u32,
    pub nparams: u32,
    /// prints a number in decimal
    pub prints: bool,
    pub insts: Vec<Inst>,
    pub edges: Vec<Edge>,
}

#[derive(Clone, Copy)]
pub struct FnDef {
    pub module: u32,
    pub name: &'static str,
    /// text of the define (None: declaration only)
    pub text: Option<&'static str>,
}

pub struct GlobDef {
    pub module: u32,
    pub text: &'static str,
    pub internal: bool,
    pub addr: Option<u64>,
}

#[derive(Default)]
pub struct Module {
    pub path: String,
    pub fns: HashMap<&'static str, u32>,
    pub globs: HashMap<&'static str, u32>,
    pub types: HashMap<&'static str, &'static str>,
}

#[derive(Default)]
pub struct Index {
    pub modules: Vec<Module>,
    pub fdefs: Vec<FnDef>,
    pub gdefs: Vec<GlobDef>,
    pub gfns: HashMap<&'static str, u32>,
    pub gglobs: HashMap<&'static str, u32>,
    pub bytes: usize,
}

fn name_end(b: &[u8], mut i: usize) -> usize {
    if i < b.len() && b[i] == b'"' {
        i += 1;
        while b[i] != b'"' {
            i += 1;
        }
        return i + 1;
    }
    while i < b.len()
        && (b[i].is_ascii_alphanumeric() || matches!(b[i], b'$' | b'.' | b'_' | b'-'))
    {
        i += 1;
    }
    i
}
pub fn unq(s: &'static str) -> &'static str {
    s.trim_matches('"')
}

impl Index {
    pub fn load(&mut self, path: &str) {
        let text: &'static str = Box::leak(
            String::from_utf8(std::fs::read(path).unwrap_or_else(|e| panic!("{}: {}", path, e)))
                .unwrap()
                .into_boxed_str(),
        );
        self.bytes += text.len();
        let mid = self.modules.len() as u32;
        let mut m = Module { path: path.to_string(), ..Default::default() };
        let b = text.as_bytes();
        let mut i = 0;
        while i < b.len() {
            let eol = match memchr(b, i, b'\n') {
                Some(e) => e,
                None => b.len(),
            };
            match b[i] {
                b'd' if text[i..eol].starts_with("define ") => {
                    let at = i + text[i..eol].find('@').unwrap() + 1;
                    let e = name_end(b, at);
                    let name = unq(&text[at..e]);
                    let head = &text[i..at];
                    let end = i + text[i..].find("\n}\n").unwrap() + 2;
                    let internal = head.contains(" internal ") || head.contains(" private ");
                    let avail = head.contains(" available_externally ");
                    let fid = self.fdefs.len() as u32;
                    self.fdefs.push(FnDef { module: mid, name, text: Some(&text[i..end]) });
                    m.fns.insert(name, fid);
                    if !internal && !avail {
                        self.gfns.entry(name).or_insert(fid);
                    }
                    i = end;
                    continue;
                }
                b'@' => {
                    let e = name_end(b, i + 1);
                    let name = unq(&text[i + 1..e]);
                    let line = &text[e..eol];
                    let head = &line[..line.len().min(120)];
                    let internal = head.contains(" private ") || head.contains(" internal ");
                    let external = head.starts_with(" = external ")
                        || head.starts_with(" = available_externally")
                        || head.starts_with(" = extern_weak");
                    let gid = self.gdefs.len() as u32;
                    self.gdefs.push(GlobDef { module: mid, text: line, internal, addr: None });
                    m.globs.insert(name, gid);
                    if !internal && !external {
                        self.gglobs.entry(name).or_insert(gid);
                    }
                }
                b'%' => {
                    let e = name_end(b, i + 1);
                    let name = unq(&text[i + 1..e]);
                    if let Some(p) = text[e..eol].find("= type ") {
                        m.types.insert(name, &text[e + p + 7..eol]);
                    }
                }
                _ => {}
            }
            i = eol + 1;
        }
        self.modules.push(m);
    }

    /// Resolves a function name used in `module`; creates a declaration entry when undefined.
    pub fn resolve_fn(&mut self, module: u32, name: &'static str) -> u32 {
        if let Some(f) = self.modules[module as usize].fns.get(name) {
            return *f;
        }
        if let Some(f) = self.gfns.get(name) {
            return *f;
        }
        let fid = self.fdefs.len() as u32;
        self.fdefs.push(FnDef { module, name, text: None });
        self.gfns.insert(name, fid);
        fid
    }
    pub fn resolve_glob(&self, module: u32, name: &str) -> Option<u32> {
        if let Some(g) = self.modules[module as usize].globs.get(name) {
            let d = &self.gdefs[*g as usize];
            if d.text.starts_with(" = external ") || d.text.starts_with(" = available_externally")
            {
                if let Some(g2) = self.gglobs.get(name) {
                    return Some(*g2);
                }
            }
            return Some(*g);
        }
        self.gglobs.get(name).copied()
    }
}

fn memchr(b: &[u8], from: usize, c: u8) -> Option<usize> {
    b[from..].iter().position(|x| *x == c).map(|p| p + from)
}

/// What the parser needs from the executor: addresses of globals and functions.
pub trait Env {
    fn sym_addr(&mut self, module: u32, name: &'static str) -> u64;
    fn fn_id(&mut self, module: u32, name: &'static str) -> u32;
    fn is_fn(&mut self, module: u32, name: &'static str) -> bool;
    fn type_text(&self, module: u32, name: &str) -> Option<&'static str>;
    fn memo_ty(&mut self, module: u32, name: &'static str, ty: Option<Ty>) -> Option<Ty>;
}

pub struct P<'e, E: Env> {
    pub s: &'static str,
    pub i: usize,
    pub module: u32,
    pub env: &'e mut E,
    pub locals: HashMap<&'static str, u32>,
}

type R<X> = Result<X, String>;

const LINKAGE: &[&str] = &[
    "private", "internal", "external", "linkonce_odr", "linkonce", "weak", "weak_odr", "appending",
    "common", "extern_weak", "available_externally", "dso_local", "dso_preemptable", "hidden",
    "protected", "default", "unnamed_addr", "local_unnamed_addr", "thread_local", "externally_initialized",
    "dllimport", "dllexport",
];

impl<'e, E: Env> P<'e, E> {
    pub fn new(s: &'static str, module: u32, env: &'e mut E) -> Self {
        P { s, i: 0, module, env, locals: HashMap::new() }
    }
    fn b(&self) -> u8 {
        *self.s.as_bytes().get(self.i).unwrap_or(&0)
    }
    pub fn ws(&mut self) {
        while matches!(self.b(), b' ' | b'\t' | b'\n') {
            self.i += 1;
        }
    }
    pub fn eat(&mut self, p: &str) -> bool {
        self.ws();
        if self.s[self.i..].starts_with(p) {
            self.i += p.len();
            true
        } else {
            false
        }
    }
    pub fn need(&mut self, p: &str) -> R<()> {
        if self.eat(p) {
            Ok(())
        } else {
            Err(format!("expected `{}` at `{}`", p, self.rest()))
        }
    }
    pub fn rest(&self) -> &str {
        let r = &self.s[self.i..];
        &r[..r.len().min(100)]
    }
    /// peek a word
    pub fn word(&mut self) -> &'static str {
        self.ws();
        let b = self.s.as_bytes();
        let mut j = self.i;
        while j < b.len() && (b[j].is_ascii_alphanumeric() || matches!(b[j], b'_' | b'.' | b'-' | b'+')) {
            j += 1;
        }
        &self.s[self.i..j]
    }
    pub fn kw(&mut self, w: &str) -> bool {
        if self.word() == w {
            self.i += w.len();
            true
        } else {
            false
        }
    }
    fn name(&mut self) -> &'static str {
        let e = name_end(self.s.as_bytes(), self.i);
        let n = unq(&self.s[self.i..e]);
        self.i = e;
        n
    }
    fn balanced(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.b() {
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        self.i += 1;
                        return;
                    }
                }
                0 => return,
                b'"' => {
                    self.i += 1;
                    while self.b() != b'"' {
                        self.i += 1;
                    }
                }
                _ => {}
            }
            self.i += 1;
        }
    }
    pub fn is_type(&mut self) -> bool {
        self.ws();
        let c = self.b();
        if matches!(c, b'{' | b'[' | b'<' | b'%') {
            return true;
        }
        let w = self.word();
        match w {
            "ptr" | "void" | "float" | "double" | "half" | "fp128" | "x86_fp80" | "metadata"
            | "token" | "label" => true,
            _ => {
                w.len() >= 2
                    && w.as_bytes()[0] == b'i'
                    && w[1..].bytes().all(|c| c.is_ascii_digit())
            }
        }
    }
    pub fn ty(&mut self) -> R<Ty> {
        self.ws();
        match self.b() {
            b'{' => {
                self.i += 1;
                let f = self.tys(b'}')?;
                Ok(Ty::Struct(Rc::new(f), false))
            }
            b'[' => {
                self.i += 1;
                let n = self.num()?;
                self.need("x")?;
                let t = self.ty()?;
                self.need("]")?;
                Ok(Ty::Array(n as u64, Rc::new(t)))
            }
            b'<' => {
                self.i += 1;
                self.ws();
                if self.b() == b'{' {
                    self.i += 1;
                    let f = self.tys(b'}')?;
                    self.need(">")?;
                    return Ok(Ty::Struct(Rc::new(f), true));
                }
                let n = self.num()?;
                self.need("x")?;
                let t = self.ty()?;
                self.need(">")?;
                Ok(Ty::Vec(n as u32, Rc::new(t)))
            }
            b'%' => {
                self.i += 1;
                let n = self.name();
                if let Some(t) = self.env.memo_ty(self.module, n, None) {
                    return Ok(t);
                }
                let t = match self.env.type_text(self.module, n) {
                    Some("opaque") => Ty::Other,
                    Some(text) => {
                        let mut p = P::new(text, self.module, self.env);
                        p.ty()?
                    }
                    None => return Err(format!("unknown type %{}", n)),
                };
                self.env.memo_ty(self.module, n, Some(t.clone()));
                Ok(t)
            }
            _ => {
                let w = self.word();
                self.i += w.len();
                Ok(match w {
                    "ptr" => Ty::Ptr,
                    "void" => Ty::Void,
                    "float" => Ty::F32,
                    "double" => Ty::F64,
                    "half" | "fp128" | "x86_fp80" | "metadata" | "token" | "label" => Ty::Other,
                    _ if w.starts_with('i') => {
                        Ty::Int(w[1..].parse().map_err(|_| format!("type {}", w))?)
                    }
                    _ => return Err(format!("type `{}` at `{}`", w, self.rest())),
                })
            }
        }
    }
    fn tys(&mut self, end: u8) -> R<Vec<Ty>> {
        let mut v = vec![];
        self.ws();
        if self.b() == end {
            self.i += 1;
            return Ok(v);
        }
        loop {
            v.push(self.ty()?);
            self.ws();
            if self.b() == b',' {
                self.i += 1;
                continue;
            }
            if self.b() == end {
                self.i += 1;
                return Ok(v);
            }
            return Err(format!("types at `{}`", self.rest()));
        }
    }
    pub fn num(&mut self) -> R<i128> {
        let w = self.word();
        let r = w.parse::<i128>().or_else(|_| {
            // u128 literals above i128::MAX
            w.parse::<u128>().map(|v| v as i128)
        });
        match r {
            Ok(v) => {
                self.i += w.len();
                Ok(v)
            }
            Err(_) => Err(format!("number at `{}`", self.rest())),
        }
    }
    pub fn attrs(&mut self) {
        // parameter/return attributes between a type and its value, or before a type
        loop {
            self.ws();
            if self.b() == b'"' {
                self.i += 1;
                while self.b() != b'"' {
                    self.i += 1;
                }
                self.i += 1;
                if self.b() == b'=' {
                    self.i += 1;
                }
                continue;
            }
            let w = self.word();
            match w {
                "" | "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "splat"
                | "getelementptr" | "inttoptr" | "ptrtoint" | "add" | "sub" | "xor" | "trunc"
                | "zext" | "sext" | "bitcast" | "asm" | "ptrtoaddr" | "c" | "none" => return,
                _ => {}
            }
            if !w.as_bytes()[0].is_ascii_lowercase() {
                return;
            }
            if self.is_type() {
                return;
            }
            self.i += w.len();
            if self.b() == b'(' {
                self.balanced();
            } else if w == "align" {
                let _ = self.num();
            }
        }
    }
    fn kval(&mut self, w: u32, v: u128) -> Val {
        let v = v & mask(w);
        if w <= 64 {
            Val::C(v as u64)
        } else {
            Val::S(tp().konst(w, v))
        }
    }
    /// A value of type `ty` (constant or local).
    pub fn value(&mut self, ty: &Ty) -> R<Opd> {
        self.ws();
        match self.b() {
            b'%' => {
                self.i += 1;
                let n = self.name();
                let next = self.locals.len() as u32;
                return Ok(Opd::R(*self.locals.entry(n).or_insert(next)));
            }
            _ => {}
        }
        let v = self.konst(ty)?;
        Ok(match v {
            Val::C(c) => Opd::C(c),
            v => Opd::V(v),
        })
    }
    pub fn konst(&mut self, ty: &Ty) -> R<Val> {
        self.ws();
        match self.b() {
            b'@' => {
                self.i += 1;
                let n = self.name();
                return Ok(Val::C(self.env.sym_addr(self.module, n)));
            }
            b'{' => {
                self.i += 1;
                return self.kagg(b'}');
            }
            b'[' => {
                self.i += 1;
                return self.kagg(b']');
            }
            b'<' => {
                self.i += 1;
                self.ws();
                if self.b() == b'{' {
                    self.i += 1;
                    let r = self.kagg(b'}')?;
                    self.need(">")?;
                    return Ok(r);
                }
                return self.kagg(b'>');
            }
            b'c' if self.s[self.i..].starts_with("c\"") => {
                self.i += 2;
                let mut out = vec![];
                let b = self.s.as_bytes();
                while b[self.i] != b'"' {
                    if b[self.i] == b'\\' {
                        if b[self.i + 1] == b'\\' {
                            out.push(Val::C(b'\\' as u64));
                            self.i += 2;
                            continue;
                        }
                        let h = u8::from_str_radix(&self.s[self.i + 1..self.i + 3], 16).unwrap();
                        out.push(Val::C(h as u64));
                        self.i += 3;
                    } else {
                        out.push(Val::C(b[self.i] as u64));
                        self.i += 1;
                    }
                }
                self.i += 1;
                return Ok(Val::Agg(Rc::new(out)));
            }
            _ => {}
        }
        let w = self.word();
        match w {
            "true" => {
                self.i += 4;
                return Ok(Val::C(1));
            }
            "false" => {
                self.i += 5;
                return Ok(Val::C(0));
            }
            "null" | "undef" | "poison" | "zeroinitializer" | "none" => {
                self.i += w.len();
                return Ok(match ty {
                    Ty::Int(w) if *w > 64 => Val::S(tp().konst(*w, 0)),
                    _ => ty.zero(),
                });
            }
            "splat" => {
                self.i += 5;
                self.need("(")?;
                let t = self.ty()?;
                let v = self.konst(&t)?;
                self.need(")")?;
                return Ok(Val::Agg(Rc::new(vec![v; ty.count()])));
            }
            "getelementptr" => {
                self.i += w.len();
                while !self.s[self.i..].starts_with('(') {
                    self.i += 1;
                    if self.s[self.i..].starts_with("inrange(") {
                        self.i += 7;
                        self.balanced();
                    }
                }
                self.need("(")?;
                let t = self.ty()?;
                self.need(",")?;
                let bt = self.ty()?;
                let base = match self.konst(&bt)? {
                    Val::C(c) => c,
                    _ => return Err("gep base".into()),
                };
                let mut off = 0u64;
                let mut cur = t;
                let mut first = true;
                while self.eat(",") {
                    let it = self.ty()?;
                    let n = match self.konst(&it)? {
                        Val::C(c) => sx(c, it.width()),
                        _ => return Err("gep idx".into()),
                    };
                    if first {
                        off = off.wrapping_add((n as u64).wrapping_mul(cur.size()));
                        first = false;
                    } else {
                        off = off.wrapping_add(cur.field_off(n as usize));
                        cur = cur.elem(n as usize).clone();
                    }
                }
                self.need(")")?;
                return Ok(Val::C(base.wrapping_add(off)));
            }
            "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "zext" | "ptrtoaddr" => {
                self.i += w.len();
                self.need("(")?;
                let t = self.ty()?;
                let v = self.konst(&t)?;
                self.need("to")?;
                let t2 = self.ty()?;
                self.need(")")?;
                return Ok(match v {
                    // an entry of a relative lookup table: objects are further apart than 32 bits
                    Val::C(c) if w == "trunc" && t2.width() == 32 && c as i64 as i32 as i64 != c as i64 => {
                        Val::C(far_offset(c))
                    }
                    Val::C(c) => Val::C(c & mask(t2.width().min(64)) as u64),
                    v => v,
                });
            }
            "add" | "sub" | "xor" => {
                self.i += w.len();
                while !self.s[self.i..].starts_with('(') {
                    self.i += 1;
                }
                self.need("(")?;
                let t = self.ty()?;
                let a = self.konst(&t)?;
                self.need(",")?;
                let t = self.ty()?;
                let b = self.konst(&t)?;
                self.need(")")?;
                if let (Val::C(a), Val::C(b)) = (a, b) {
                    let m = mask(t.width()) as u64;
                    return Ok(Val::C(
                        m & match w {
                            "add" => a.wrapping_add(b),
                            "sub" => a.wrapping_sub(b),
                            _ => a ^ b,
                        },
                    ));
                }
                return Err("const expr".into());
            }
            _ => {}
        }
        match ty {
            Ty::Int(wd) => {
                let n = self.num()?;
                Ok(self.kval(*wd, n as u128))
            }
            Ty::F32 | Ty::F64 => {
                let w = self.word();
                self.i += w.len();
                let f = if let Some(h) = w.strip_prefix("0x") {
                    f64::from_bits(u64::from_str_radix(h, 16).map_err(|e| e.to_string())?)
                } else {
                    w.parse::<f64>().map_err(|e| e.to_string())?
                };
                Ok(Val::C(if *ty == Ty::F64 { f.to_bits() } else { (f as f32).to_bits() as u64 }))
            }
            _ => Err(format!("value of {:?} at `{}`", ty, self.rest())),
        }
    }
    fn kagg(&mut self, end: u8) -> R<Val> {
        let mut v = vec![];
        self.ws();
        if self.b() == end {
            self.i += 1;
            return Ok(Val::Agg(Rc::new(v)));
        }
        loop {
            let t = self.ty()?;
            v.push(self.konst(&t)?);
            self.ws();
            if self.b() == b',' {
                self.i += 1;
                continue;
            }
            if self.b() == end {
                self.i += 1;
                return Ok(Val::Agg(Rc::new(v)));
            }
            return Err(format!("aggregate at `{}`", self.rest()));
        }
    }
    fn tyval(&mut self) -> R<(Ty, Opd)> {
        let t = self.ty()?;
        self.attrs();
        let v = self.value(&t)?;
        Ok((t, v))
    }
    fn reg(&mut self, n: &'static str) -> u32 {
        let next = self.locals.len() as u32;
        *self.locals.entry(n).or_insert(next)
    }
}

pub fn sx(v: u64, w: u32) -> i64 {
    if w == 0 || w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}

/// Global variable definition: (type, constant?, initialiser value or None, thread-local)
pub struct GlobInit {
    pub ty: Ty,
    pub constant: bool,
    pub init: Option<Val>,
    pub weak_null: bool,
}
pub fn glob_type<E: Env>(text: &'static str, module: u32, env: &mut E) -> R<(Ty, bool, usize, bool, bool)> {
    let mut p = P::new(text, module, env);
    p.need("=")?;
    let mut weak_null = false;
    let mut external = false;
    loop {
        let w = p.word();
        if LINKAGE.contains(&w) {
            if w == "extern_weak" {
                weak_null = true;
            }
            if w == "external" {
                external = true;
            }
            p.i += w.len();
            if p.s[p.i..].starts_with('(') {
                p.balanced();
            }
            continue;
        }
        if w == "addrspace" {
            p.i += w.len();
            p.balanced();
            continue;
        }
        break;
    }
    let constant = if p.kw("constant") {
        true
    } else if p.kw("global") {
        false
    } else if p.kw("alias") {
        return Err("alias".into());
    } else {
        return Err(format!("global at `{}`", p.rest()));
    };
    let ty = p.ty()?;
    Ok((ty, constant, p.i, weak_null, external))
}

fn bin_op(w: &str) -> Option<BinOp> {
    Some(match w {
        "add" => BinOp::Add,
        "sub" => BinOp::Sub,
        "mul" => BinOp::Mul,
        "udiv" => BinOp::UDiv,
        "sdiv" => BinOp::SDiv,
        "urem" => BinOp::URem,
        "srem" => BinOp::SRem,
        "shl" => BinOp::Shl,
        "lshr" => BinOp::LShr,
        "ashr" => BinOp::AShr,
        "and" => BinOp::And,
        "or" => BinOp::Or,
        "xor" => BinOp::Xor,
        _ => return None,
    })
}

thread_local! {
    static FAR: std::cell::RefCell<Vec<u64>> = Default::default();
}
const FAR_BASE: u64 = 0x4000_0000;
/// 32-bit stand-in for an offset between two objects
fn far_offset(d: u64) -> u64 {
    FAR.with(|f| {
        let mut f = f.borrow_mut();
        f.push(d);
        FAR_BASE + f.len() as u64 - 1
    })
}
/// the offset a word of a relative lookup table means
pub fn near_or_far(v: u64) -> u64 {
    FAR.with(|f| match f.borrow().get(v.wrapping_sub(FAR_BASE) as usize) {
        Some(d) => *d,
        None => v as i32 as i64 as u64,
    })
}

fn intrinsic(n: &str) -> Option<Intr> {
    let n = n.strip_prefix("llvm.")?;
    let st = |p: &str| n.starts_with(p);
    Some(if st("memcpy.") || st("memmove.") {
        Intr::Memcpy
    } else if st("memset.") {
        Intr::Memset
    } else if st("lifetime.") || st("assume") || st("experimental.noalias") || st("dbg.") || st("prefetch") || st("x86.sse2.pause") {
        Intr::Nop
    } else if st("trap") || st("ubsantrap") {
        Intr::Trap
    } else if st("uadd.with") {
        Intr::Ovf(0)
    } else if st("usub.with") {
        Intr::Ovf(1)
    } else if st("umul.with") {
        Intr::Ovf(2)
    } else if st("sadd.with") {
        Intr::Ovf(3)
    } else if st("ssub.with") {
        Intr::Ovf(4)
    } else if st("smul.with") {
        Intr::Ovf(5)
    } else if st("umin.") {
        Intr::UMin
    } else if st("umax.") {
        Intr::UMax
    } else if st("smin.") {
        Intr::SMin
    } else if st("smax.") {
        Intr::SMax
    } else if st("fshl.") {
        Intr::Fshl
    } else if st("fshr.") {
        Intr::Fshr
    } else if st("bswap.") {
        Intr::Bswap
    } else if st("bitreverse.") {
        Intr::Bitreverse
    } else if st("ucmp.") {
        Intr::Ucmp
    } else if st("scmp.") {
        Intr::Scmp
    } else if st("ctlz.") {
        Intr::Ctlz
    } else if st("cttz.") {
        Intr::Cttz
    } else if st("ctpop.") {
        Intr::Ctpop
    } else if st("usub.sat") {
        Intr::USubSat
    } else if st("uadd.sat") {
        Intr::UAddSat
    } else if st("abs.") {
        Intr::Abs
    } else if st("threadlocal.address") || st("expect.") || st("launder") || st("strip.inv") || st("ssa.copy") {
        Intr::Ident
    } else if st("load.relative") {
        Intr::LoadRel
    } else if st("vector.reduce.or") {
        Intr::ReduceOr
    } else if st("vector.reduce.and") {
        Intr::ReduceAnd
    } else if st("vector.reduce.add") {
        Intr::ReduceAdd
    } else if st("is.constant") {
        Intr::IsConstant
    } else if st("ptrmask") {
        Intr::Ptrmask
    } else {
        return None;
    })
}

enum Term {
    Br(usize),
    CondBr(Opd, usize, usize),
    Switch(Opd, u32, usize, Vec<(u64, usize)>),
}

pub fn compile<E: Env>(fid: u32, def: FnDef, env: &mut E) -> R<Func> {
    let text = def.text.unwrap();
    let brace = text.find("{\n").ok_or("no body")?;
    let head = &text[..brace];
    // parameters
    let at = head.find('@').unwrap();
    let mut p = P::new(text, def.module, env);
    p.i = name_end(text.as_bytes(), at + 1);
    p.need("(")?;
    let mut nparams = 0u32;
    if !p.eat(")") {
        loop {
            if p.eat("...") {
                p.need(")")?;
                break;
            }
            p.ty()?;
            p.attrs();
            p.ws();
            if p.b() == b'%' {
                p.i += 1;
                let n = p.name();
                let r = p.reg(n);
                debug_assert_eq!(r, nparams);
            } else {
                // unnamed parameter
                let s: &'static str = Box::leak(nparams.to_string().into_boxed_str());
                p.reg(s);
            }
            nparams += 1;
            if p.eat(",") {
                continue;
            }
            p.need(")")?;
            break;
        }
    }
    // logical lines
    let body = &text[brace + 2..text.len() - 1];
    let mut labels: HashMap<&'static str, usize> = HashMap::new();
    let mut blocks: Vec<Vec<&'static str>> = vec![];
    let mut off = 0;
    let base = brace + 2;
    while off < body.len() {
        let eol = body[off..].find('\n').map(|e| e + off).unwrap_or(body.len());
        let line = &body[off..eol];
        if line.is_empty() || line.trim_start().starts_with(';') {
            off = eol + 1;
            continue;
        }
        if !line.starts_with(' ') && !line.starts_with('\t') {
            // label
            let e = name_end(line.as_bytes(), 0);
            if line.as_bytes().get(e) == Some(&b':') {
                labels.insert(unq(&line[..e]), blocks.len());
                blocks.push(vec![]);
                off = eol + 1;
                continue;
            }
        }
        if blocks.is_empty() {
            blocks.push(vec![]);
        }
        let mut end = eol;
        if line.trim_start().starts_with("switch ") && !line.contains(']') {
            end = off + body[off..].find("\n  ]").ok_or("switch")? + 4;
            end = body[end..].find('\n').map(|e| e + end).unwrap_or(body.len());
        }
        blocks.last_mut().unwrap().push(&text[base + off..base + end]);
        off = end + 1;
    }
    let lab = |labels: &HashMap<&'static str, usize>, n: &str| -> usize { *labels.get(n).unwrap_or(&0) };

    let locals = std::mem::take(&mut p.locals);
    let module = def.module;
    let env = p.env;
    let mut cur_locals = locals;
    let mut insts: Vec<Inst> = vec![];
    let mut terms: Vec<(usize, usize, Term)> = vec![]; // (inst idx, block, term)
    let mut starts = vec![0u32; blocks.len()];
    let mut phis: Vec<Vec<(u32, Vec<(Opd, usize)>)>> = vec![vec![]; blocks.len()];
    for (bi, lines) in blocks.iter().enumerate() {
        starts[bi] = insts.len() as u32;
        for line in lines {
            let mut p = P { s: line, i: 0, module, env: &mut *env, locals: std::mem::take(&mut cur_locals) };
            let r = parse_inst(&mut p, &labels, &lab, &mut phis[bi]);
            let nl = std::mem::take(&mut p.locals);
            cur_locals = nl;
            match r {
                Ok(PI::Inst(i)) => insts.push(i),
                Ok(PI::Phi) | Ok(PI::None) => {}
                Ok(PI::Term(t)) => {
                    terms.push((insts.len(), bi, t));
                    insts.push(Inst::Nop);
                }
                Err(e) => {
                    // make sure the destination register exists
                    insts.push(Inst::Unsupported(format!("{} in `{}`", e, line)));
                }
            }
        }
    }
    let mut edges: Vec<Edge> = vec![];
    for (ii, bi, t) in terms {
        let mut mk = |to: usize| -> u32 {
            let moves = phis[to]
                .iter()
                .map(|(d, vs)| {
                    let v = vs.iter().find(|(_, b)| *b == bi);
                    (*d, v.map(|v| v.0.clone()).unwrap_or(Opd::C(0)))
                })
                .collect();
            edges.push(Edge { target: starts[to], moves });
            edges.len() as u32 - 1
        };
        insts[ii] = match t {
            Term::Br(t) => Inst::Br(mk(t)),
            Term::CondBr(c, a, b) => Inst::CondBr(c, mk(a), mk(b)),
            Term::Switch(o, w, d, cs) => {
                let de = mk(d);
                let cs = cs.into_iter().map(|(k, t)| (k, mk(t))).collect();
                Inst::Switch(o, w, de, cs)
            }
        };
    }
    Ok(Func {
        prints: def.name.ends_with("10__fmt_inner"), fid, nregs: cur_locals.len() as u32, nparams, insts, edges })
}

enum PI {
    Inst(Inst),
    Phi,
    Term(Term),
    None,
}

fn parse_inst<E: Env>(
    p: &mut P<E>,
    labels: &HashMap<&'static str, usize>,
    lab: &dyn Fn(&HashMap<&'static str, usize>, &str) -> usize,
    phis: &mut Vec<(u32, Vec<(Opd, usize)>)>,
) -> R<PI> {
    p.ws();
    let mut dst = None;
    if p.b() == b'%' {
        p.i += 1;
        let n = p.name();
        dst = Some(p.reg(n));
        p.need("=")?;
    }
    let mut w = p.word();
    p.i += w.len();
    if matches!(w, "tail" | "notail" | "musttail") {
        w = p.word();
        p.i += w.len();
    }
    let d = dst.unwrap_or(0);
    let label = |p: &mut P<E>| -> R<usize> {
        p.need("label")?;
        p.need("%")?;
        let n = p.name();
        Ok(lab(labels, n))
    };
    if let Some(op) = bin_op(w) {
        while matches!(p.word(), "nuw" | "nsw" | "exact" | "disjoint") {
            let l = p.word().len();
            p.i += l;
        }
        let t = p.ty()?;
        let a = p.value(&t)?;
        p.need(",")?;
        let b = p.value(&t)?;
        return Ok(PI::Inst(match &t {
            Ty::Vec(n, e) => Inst::VBin(op, e.width(), *n, d, a, b),
            _ => Inst::Bin(op, t.width(), d, a, b),
        }));
    }
    Ok(PI::Inst(match w {
        "icmp" => {
            p.kw("samesign");
            let pr = p.word();
            p.i += pr.len();
            let pr = match pr {
                "eq" => Pred::Eq,
                "ne" => Pred::Ne,
                "ugt" => Pred::Ugt,
                "uge" => Pred::Uge,
                "ult" => Pred::Ult,
                "ule" => Pred::Ule,
                "sgt" => Pred::Sgt,
                "sge" => Pred::Sge,
                "slt" => Pred::Slt,
                "sle" => Pred::Sle,
                x => return Err(format!("icmp {}", x)),
            };
            let t = p.ty()?;
            let a = p.value(&t)?;
            p.need(",")?;
            let b = p.value(&t)?;
            match &t {
                Ty::Vec(n, e) => Inst::VICmp(pr, e.width(), *n, d, a, b),
                _ => Inst::ICmp(pr, t.width(), d, a, b),
            }
        }
        "trunc" | "zext" | "sext" | "bitcast" | "inttoptr" | "ptrtoint" | "ptrtoaddr" => {
            while matches!(p.word(), "nuw" | "nsw" | "nneg") {
                let l = p.word().len();
                p.i += l;
            }
            let f = p.ty()?;
            let v = p.value(&f)?;
            p.need("to")?;
            let t = p.ty()?;
            let op = match w {
                "trunc" => CastOp::Trunc,
                "zext" => CastOp::ZExt,
                "sext" => CastOp::SExt,
                _ => CastOp::Bit,
            };
            if f.is_scalar() && t.is_scalar() {
                let op = if op == CastOp::Bit && t.width() < f.width() { CastOp::Trunc } else { op };
                let op = if op == CastOp::Bit && t.width() > f.width() { CastOp::ZExt } else { op };
                Inst::Cast(op, f.width(), t.width(), d, v)
            } else {
                Inst::VCast(op, f, t, d, v)
            }
        }
        "load" => {
            while matches!(p.word(), "atomic" | "volatile") {
                let l = p.word().len();
                p.i += l;
            }
            let t = p.ty()?;
            p.need(",")?;
            let (_, a) = p.tyval()?;
            match t {
                Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => {
                    Inst::LoadI(t.width(), t.store_size() as u32, d, a)
                }
                t => Inst::Load(t, d, a),
            }
        }
        "store" => {
            while matches!(p.word(), "atomic" | "volatile") {
                let l = p.word().len();
                p.i += l;
            }
            let (t, v) = p.tyval()?;
            p.need(",")?;
            let (_, a) = p.tyval()?;
            match t {
                Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => {
                    Inst::StoreI(t.width(), t.store_size() as u32, v, a)
                }
                t => Inst::Store(t, v, a),
            }
        }
        "getelementptr" => {
            while matches!(p.word(), "inbounds" | "nuw" | "nusw") {
                let l = p.word().len();
                p.i += l;
            }
            let t = p.ty()?;
            p.need(",")?;
            let (bt, base) = p.tyval()?;
            if bt != Ty::Ptr {
                return Err("vector gep".into());
            }
            let mut off = 0u64;
            let mut terms = vec![];
            let mut cur = t;
            let mut first = true;
            while p.eat(",") {
                if p.s[p.i..].trim_start().starts_with('!') {
                    break;
                }
                let (it, v) = p.tyval()?;
                let (scale, konst) = if first {
                    (cur.size(), None)
                } else {
                    match &cur {
                        Ty::Struct(..) => {
                            let n = match &v {
                                Opd::C(c) => *c as usize,
                                _ => return Err("struct gep".into()),
                            };
                            let o = cur.field_off(n);
                            cur = cur.elem(n).clone();
                            (0, Some(o))
                        }
                        _ => {
                            cur = cur.elem(0).clone();
                            (cur.size(), None)
                        }
                    }
                };
                first = false;
                if let Some(o) = konst {
                    off = off.wrapping_add(o);
                } else {
                    match v {
                        Opd::C(c) => {
                            off = off.wrapping_add((sx(c, it.width()) as u64).wrapping_mul(scale))
                        }
                        v => terms.push((v, it.width(), scale)),
                    }
                }
            }
            Inst::Gep(d, base, off, terms)
        }
        "alloca" => {
            let t = p.ty()?;
            let mut n = Opd::C(1);
            let mut align = t.align();
            while p.eat(",") {
                if p.kw("align") {
                    align = p.num()? as u64;
                } else if p.is_type() {
                    n = p.tyval()?.1;
                } else {
                    break;
                }
            }
            Inst::Alloca(d, t.size(), n, align)
        }
        "br" => {
            if p.word() == "label" {
                return Ok(PI::Term(Term::Br(label(p)?)));
            }
            let (_, c) = p.tyval()?;
            p.need(",")?;
            let a = label(p)?;
            p.need(",")?;
            let b = label(p)?;
            return Ok(PI::Term(Term::CondBr(c, a, b)));
        }
        "switch" => {
            let (t, v) = p.tyval()?;
            p.need(",")?;
            let de = label(p)?;
            p.need("[")?;
            let mut cs = vec![];
            while !p.eat("]") {
                let ct = p.ty()?;
                let k = match p.konst(&ct)? {
                    Val::C(c) => c,
                    _ => return Err("wide switch".into()),
                };
                p.need(",")?;
                cs.push((k, label(p)?));
            }
            return Ok(PI::Term(Term::Switch(v, t.width(), de, cs)));
        }
        "ret" => {
            if p.word() == "void" {
                Inst::Ret(None)
            } else {
                Inst::Ret(Some(p.tyval()?.1))
            }
        }
        "unreachable" => Inst::Unreachable,
        "phi" => {
            let t = p.ty()?;
            let mut v = vec![];
            loop {
                p.need("[")?;
                let x = p.value(&t)?;
                p.need(",")?;
                p.need("%")?;
                let n = p.name();
                v.push((x, lab(labels, n)));
                p.need("]")?;
                if !p.eat(",") {
                    break;
                }
                p.ws();
                if p.b() != b'[' {
                    break;
                }
            }
            phis.push((d, v));
            return Ok(PI::Phi);
        }
        "select" => {
            let (ct, c) = p.tyval()?;
            p.need(",")?;
            let (t, a) = p.tyval()?;
            p.need(",")?;
            let (_, b) = p.tyval()?;
            if ct != Ty::Int(1) {
                return Err("vector select".into());
            }
            Inst::Select(t, d, c, a, b)
        }
        "extractvalue" => {
            let (_, v) = p.tyval()?;
            let mut idx = vec![];
            while p.eat(",") {
                match p.num() {
                    Ok(n) => idx.push(n as u32),
                    Err(_) => break,
                }
            }
            Inst::ExtractValue(d, v, idx)
        }
        "insertvalue" => {
            let (t, a) = p.tyval()?;
            p.need(",")?;
            let (_, v) = p.tyval()?;
            let mut idx = vec![];
            while p.eat(",") {
                match p.num() {
                    Ok(n) => idx.push(n as u32),
                    Err(_) => break,
                }
            }
            Inst::InsertValue(t, d, a, v, idx)
        }
        "extractelement" => {
            let (_, v) = p.tyval()?;
            p.need(",")?;
            let (_, i) = p.tyval()?;
            Inst::ExtractElement(d, v, i)
        }
        "insertelement" => {
            let (_, v) = p.tyval()?;
            p.need(",")?;
            let (_, x) = p.tyval()?;
            p.need(",")?;
            let (_, i) = p.tyval()?;
            Inst::InsertElement(d, v, x, i)
        }
        "shufflevector" => {
            let (_, a) = p.tyval()?;
            p.need(",")?;
            let (_, b) = p.tyval()?;
            p.need(",")?;
            let (_, m) = p.tyval()?;
            let m = match m {
                Opd::V(Val::Agg(v)) => v
                    .iter()
                    .map(|x| if let Val::C(c) = x { Some(*c as u32) } else { None })
                    .collect(),
                _ => return Err("shuffle mask".into()),
            };
            Inst::Shuffle(d, a, b, m)
        }
        "freeze" => {
            let (_, v) = p.tyval()?;
            Inst::Copy(d, v)
        }
        "fence" => return Ok(PI::None),
        "atomicrmw" => {
            p.kw("volatile");
            let op = p.word();
            p.i += op.len();
            let op = match op {
                "xchg" => Rmw::Xchg,
                "add" => Rmw::Add,
                "sub" => Rmw::Sub,
                "and" => Rmw::And,
                "nand" => Rmw::Nand,
                "or" => Rmw::Or,
                "xor" => Rmw::Xor,
                "max" => Rmw::Max,
                "min" => Rmw::Min,
                "umax" => Rmw::UMax,
                "umin" => Rmw::UMin,
                x => return Err(format!("rmw {}", x)),
            };
            let (_, a) = p.tyval()?;
            p.need(",")?;
            let (t, v) = p.tyval()?;
            Inst::AtomicRmw(op, t.width(), d, a, v)
        }
        "cmpxchg" => {
            p.kw("weak");
            p.kw("volatile");
            let (_, a) = p.tyval()?;
            p.need(",")?;
            let (t, e) = p.tyval()?;
            p.need(",")?;
            let (_, n) = p.tyval()?;
            Inst::CmpXchg(t.width(), d, a, e, n)
        }
        "call" => {
            // flags, calling convention, return attributes
            loop {
                p.attrs();
                if p.is_type() {
                    break;
                }
                let w = p.word();
                if w == "asm" || w.is_empty() {
                    return Err(format!("call at `{}`", p.rest()));
                }
                p.i += w.len();
            }
            let rt = p.ty()?;
            p.ws();
            if p.b() == b'(' {
                p.balanced(); // function type
            }
            p.ws();
            if p.word() == "asm" {
                if p.rest().contains("asm sideeffect \"\",") || p.rest().contains("asm sideeffect inteldialect \"\",") {
                    if dst.is_none() {
                        return Ok(PI::None);
                    }
                }
                return Err("inline asm".into());
            }
            let callee;
            let mut name = "";
            if p.b() == b'@' {
                p.i += 1;
                name = p.name();
                callee = None;
            } else {
                callee = Some(p.value(&Ty::Ptr)?);
            }
            p.need("(")?;
            let mut args = vec![];
            let mut w0 = 0;
            if !p.eat(")") {
                loop {
                    let t = p.ty()?;
                    if args.is_empty() {
                        w0 = if let Ty::Vec(_, e) = &t { e.width() } else { t.width() };
                    }
                    if t == Ty::Other {
                        // metadata argument
                        while !matches!(p.b(), b',' | b')') {
                            p.i += 1;
                        }
                        args.push(Opd::C(0));
                    } else {
                        let at = p.i;
                        p.attrs();
                        if p.s[at..p.i].contains("byval") {
                            return Err("byval".into());
                        }
                        args.push(p.value(&t)?);
                    }
                    if p.eat(",") {
                        continue;
                    }
                    p.need(")")?;
                    break;
                }
            }
            if callee.is_none() && name.starts_with("llvm.") {
                return match intrinsic(name) {
                    Some(Intr::Nop) => Ok(PI::None),
                    Some(k) => Ok(PI::Inst(Inst::Intr(k, dst, w0, rt, args))),
                    None => Err(format!("intrinsic {}", name)),
                };
            }
            let callee = match callee {
                Some(v) => Callee::Ptr(v),
                None => {
                    if p.env.is_fn(p.module, name) {
                        let f = p.env.fn_id(p.module, name);
                        Callee::Fid(f)
                    } else {
                        let f = p.env.fn_id(p.module, name);
                        Callee::Fid(f)
                    }
                }
            };
            Inst::Call(dst, callee, args)
        }
        x => return Err(format!("instruction {}", x)),
    }))
}
