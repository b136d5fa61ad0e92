//! A set of inputs, the reference meaning of linking them, and the comparison with the output.
#![allow(dead_code)]
use crate::ld::*;
use crate::obj::*;
use crate::out::*;
use crate::rt::*;

pub struct World {
    /// the relocatable objects that end up in the link, in link order
    pub objs: Vec<(String, Obj)>,
    pub libs: Vec<(String, Lib)>,
    pub files: Vec<(String, Vec<u8>)>,
    pub dirs: Vec<String>,
    /// complete argument vectors; default: all objects, then all libraries
    pub runs: Vec<String>,
    pub plan: Vec<String>,
    pub opts: String,
    /// the inputs must be refused
    pub bad: bool,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Target {
    At(usize, usize, usize),
    Abs(usize, usize),
    Lib(usize, usize),
    Common(usize, usize),
    Zero,
    /// `_GLOBAL_OFFSET_TABLE_`, which the linker defines
    Got,
    Undefined,
    Duplicate,
}

impl World {
    pub fn new() -> World {
        World {
            objs: vec![],
            libs: vec![],
            files: vec![],
            dirs: vec![],
            runs: vec![],
            plan: vec![],
            opts: String::new(),
            bad: false,
        }
    }
    pub fn obj(&self) -> Obj {
        let mut o = Obj::new();
        o.id = self.objs.len() as u8;
        o
    }
    pub fn add(&mut self, o: Obj) -> usize {
        let n = self.objs.len();
        let name = if n < 26 { format!("{}.o", (b'a' + n as u8) as char) } else { format!("obj{}.o", n) };
        self.objs.push((name, o));
        n
    }
    pub fn lib(&mut self, name: &str, l: Lib) {
        self.libs.push((name.into(), l));
    }
    pub fn run(&mut self, args: &str) {
        self.runs.push(args.into());
    }
    pub fn default_args(&self) -> String {
        let mut s = String::new();
        for o in &self.objs {
            s.push_str(&o.0);
            s.push(' ');
        }
        for l in &self.libs {
            s.push_str(&l.0);
            s.push(' ');
        }
        s
    }
    pub fn write(&self) {
        for d in &self.dirs {
            std::fs::create_dir(d).unwrap();
        }
        for (n, o) in &self.objs {
            if !n.is_empty() {
                o.write(n);
            }
        }
        for (n, l) in &self.libs {
            l.write(n);
        }
        for (n, d) in &self.files {
            std::fs::write(n, d).unwrap();
        }
        let mut p = String::new();
        for l in &self.plan {
            p.push_str(l);
            p.push('\n');
        }
        if self.runs.is_empty() && !self.plan.iter().any(|l| l.starts_with("run")) {
            p.push_str(&format!("run dld {}{} -o out\n", self.default_args(), self.opts));
        }
        for r in &self.runs {
            p.push_str(&format!("run dld {}\n", r));
        }
        std::fs::write("plan", p).unwrap();
    }

    /// the definition a reference to symbol `si` of object `oi` must get
    pub fn target(&self, oi: usize, si: usize) -> Target {
        let s = &self.objs[oi].1.syms[si];
        if s.bind == LOCAL {
            return place(oi, si, s);
        }
        self.global(&s.name)
    }
    pub fn global(&self, name: &str) -> Target {
        let mut strong = None;
        let mut weak = None;
        let mut common: Option<(usize, usize)> = None;
        let mut strong_ref = false;
        let mut referenced = false;
        for (oi, (_, o)) in self.objs.iter().enumerate() {
            for (si, s) in o.syms.iter().enumerate() {
                if s.bind == LOCAL || s.name != name {
                    continue;
                }
                if s.sec == UNDEF {
                    referenced = true;
                    strong_ref |= s.bind == GLOBAL;
                } else if s.sec == COMMON {
                    if common.map_or(true, |(a, b)| self.objs[a].1.syms[b].size < s.size) {
                        common = Some((oi, si));
                    }
                } else if s.bind == GLOBAL {
                    if strong.is_some() {
                        return Target::Duplicate;
                    }
                    strong = Some((oi, si));
                } else if weak.is_none() {
                    weak = Some((oi, si));
                }
            }
        }
        if let Some((a, b)) = strong {
            return place(a, b, &self.objs[a].1.syms[b]);
        }
        if let Some((a, b)) = common {
            return Target::Common(a, b);
        }
        if let Some((a, b)) = weak {
            return place(a, b, &self.objs[a].1.syms[b]);
        }
        for (k, (_, l)) in self.libs.iter().enumerate() {
            for (i, s) in l.syms.iter().enumerate() {
                if s.visible(name) {
                    return Target::Lib(k, i);
                }
            }
        }
        if name == "_GLOBAL_OFFSET_TABLE_" {
            return Target::Got;
        }
        if referenced && !strong_ref {
            Target::Zero
        } else {
            Target::Undefined
        }
    }
    pub fn sym(&self, oi: usize, si: usize) -> &Sym {
        &self.objs[oi].1.syms[si]
    }
}
fn place(oi: usize, si: usize, s: &Sym) -> Target {
    if s.sec == ABS {
        Target::Abs(oi, si)
    } else if s.sec == COMMON {
        Target::Common(oi, si)
    } else {
        Target::At(oi, s.sec as usize - 1, si)
    }
}

pub struct Bases {
    pub at: Vec<Vec<Option<u64>>>,
    /// (object, symbol) -> address of common symbols
    pub common: Vec<((usize, usize), u64)>,
}

/// zero-initialised thread-local data: it takes space in each thread's block, none in memory
pub fn is_tbss(s: &Sec) -> bool {
    s.ty == SHT_NOBITS && s.flags & TLS != 0
}
pub fn is_alloc(s: &Sec) -> bool {
    s.flags & A != 0
}
/// Find where every marked allocated section went; unmarked (NOBITS) sections and common symbols
/// are located through the first 64-bit absolute relocation that refers to them.
pub fn locate(w: &World, p: &Proc) -> Bases {
    let mut b = Bases { at: vec![], common: vec![] };
    for (oi, (_, o)) in w.objs.iter().enumerate() {
        let mut v = vec![];
        for (si, s) in o.secs.iter().enumerate() {
            let m = mark(o.id, si as u8 + 1);
            if is_alloc(s) && s.ty != SHT_NOBITS && s.data.len() >= 8 && find(&s.data, &m) == Some(0) {
                v.push(Some(p.o.locate(&m)));
            } else {
                v.push(None);
            }
        }
        b.at.push(v);
        let _ = oi;
    }
    for (oi, (_, o)) in w.objs.iter().enumerate() {
        for (si, s) in o.secs.iter().enumerate() {
            let base = match b.at[oi][si] {
                Some(x) => x,
                None => continue,
            };
            for r in &s.relas {
                if r.ty != R_64 {
                    continue;
                }
                let word = || p.o.get(base + r.off, 8).wrapping_sub(r.addend as u64);
                match w.target(oi, r.sym) {
                    Target::At(a, t, y) if b.at[a][t].is_none() && is_alloc(&w.objs[a].1.secs[t]) => {
                        let v = w.objs[a].1.syms[y].value;
                        b.at[a][t] = Some(conc(word().wrapping_sub(v)));
                    }
                    Target::Common(a, y) if !b.common.iter().any(|c| c.0 == (a, y)) => {
                        b.common.push(((a, y), conc(word())));
                    }
                    _ => {}
                }
            }
        }
    }
    b
}
/// run-time address of a symbol
pub fn addr(w: &World, b: &Bases, p: &Proc, t: Target) -> Option<u64> {
    Some(match t {
        Target::At(o, s, y) => b.at[o][s]?.wrapping_add(w.objs[o].1.syms[y].value),
        Target::Abs(o, y) => w.objs[o].1.syms[y].value,
        Target::Zero => 0,
        Target::Got => crate::ld::dynamic(&p.o).need(3, "DT_PLTGOT"),
        Target::Common(o, y) => b.common.iter().find(|c| c.0 == (o, y))?.1,
        Target::Lib(k, i) => {
            let s = &w.libs[k].1.syms[i];
            match p.resolve(&s.name, false, false) {
                Some(v) => conc(v),
                None => fail("a symbol of a shared library cannot be found at run time"),
            }
        }
        Target::Undefined | Target::Duplicate => return None,
    })
}
pub fn fits32(v: u64) -> bool {
    v >> 32 == 0
}
pub fn fits32s(v: u64) -> bool {
    v as i64 as i32 as i64 as u64 == v
}
fn sext(v: u64) -> u64 {
    v as u32 as i32 as i64 as u64
}

/// Whether the value of some relocation might not fit into its place, given that programs are
/// small and start at 2 MiB.
pub fn may_overflow(w: &World) -> bool {
    const LO: u64 = 0x20_0000;
    const HI: u64 = 0x100_0000;
    let mut may = false;
    for (oi, (_, o)) in w.objs.iter().enumerate() {
        for s in o.secs.iter().filter(|s| is_alloc(s)) {
            for r in &s.relas {
                let (lo, hi) = match w.target(oi, r.sym) {
                    Target::Zero => (0, 0),
                    Target::Abs(o, y) => (w.objs[o].1.syms[y].value, w.objs[o].1.syms[y].value),
                    _ => (LO, HI),
                };
                let (lo, hi) = (lo.wrapping_add(r.addend as u64), hi.wrapping_add(r.addend as u64));
                may |= match r.ty {
                    R_32 => !(fits32(lo) & fits32(hi)),
                    R_32S => !(fits32s(lo) & fits32s(hi)),
                    R_PC32 | R_PLT32 => !(fits32s(lo.wrapping_sub(HI)) & fits32s(hi.wrapping_sub(LO))),
                    _ => false,
                };
            }
        }
    }
    may
}

/// Every relocated place of every allocated section holds what the psABI prescribes.
pub fn check_relocs(w: &World, p: &Proc, b: &Bases) {
    for (oi, (_, o)) in w.objs.iter().enumerate() {
        for (si, s) in o.secs.iter().enumerate() {
            if !is_alloc(s) {
                continue;
            }
            let base = match b.at[oi][si] {
                Some(x) => x,
                None => continue,
            };
            for r in &s.relas {
                let t = w.target(oi, r.sym);
                let a = r.addend as u64;
                let pl = base.wrapping_add(r.off);
                let sv = match addr(w, b, p, t) {
                    Some(v) => v,
                    None => continue,
                };
                let dynamic = matches!(t, Target::Lib(..));
                // where calls go: past the program's own PLT entry
                let callee = match t {
                    Target::Lib(k, i) => p
                        .resolve(&w.libs[k].1.syms[i].name, false, true)
                        .map_or(0, |v| conc(v)),
                    _ => sv,
                };
                match r.ty {
                    R_64 => check(p.o.get(pl, 8) == sv.wrapping_add(a), "R_X86_64_64 value"),
                    R_PC64 => check(
                        p.o.get(pl, 8) == sv.wrapping_add(a).wrapping_sub(pl),
                        "R_X86_64_PC64 value",
                    ),
                    R_32 => {
                        let v = sv.wrapping_add(a);
                        check(
                            (p.o.get(pl, 4) == v & 0xffff_ffff) & fits32(v),
                            "R_X86_64_32 value",
                        )
                    }
                    R_32S => {
                        let v = sv.wrapping_add(a);
                        check(
                            (p.o.get(pl, 4) == v & 0xffff_ffff) & fits32s(v),
                            "R_X86_64_32S value",
                        )
                    }
                    R_PC32 | R_PLT32 if !dynamic => {
                        let v = sv.wrapping_add(a).wrapping_sub(pl);
                        check(
                            (p.o.get(pl, 4) == v & 0xffff_ffff) & fits32s(v),
                            "R_X86_64_PC32/PLT32 value",
                        )
                    }
                    R_PLT32 => {
                        // through a PLT entry: where does the branch end up?
                        let l = conc(sext(p.o.get(pl, 4)).wrapping_add(pl).wrapping_sub(a));
                        let f = p.follow(l);
                        check(f == callee || l == callee, "R_X86_64_PLT32 reaches the library function");
                    }
                    R_PC32 => {
                        let l = conc(sext(p.o.get(pl, 4)).wrapping_add(pl).wrapping_sub(a));
                        check(l == sv, "R_X86_64_PC32 reaches the library symbol");
                        check(p.follow(l) == callee || l == callee, "R_X86_64_PC32 reaches the library symbol");
                    }
                    R_GOT32 => {
                        let got = crate::ld::dynamic(&p.o).need(3, "DT_PLTGOT");
                        let slot = conc(sext(p.o.get(pl, 4)).wrapping_add(got).wrapping_sub(a));
                        check(p.o.get(slot, 8) == sv, "R_X86_64_GOT32 slot");
                    }
                    R_GOTPCREL => {
                        let k = r.off.min(3);
                        let kept = (1..=k).all(|k| conc(p.o.get(pl - k, 1)) == conc(s.data[(r.off - k) as usize] as u64));
                        if kept {
                            let slot = conc(sext(p.o.get(pl, 4)).wrapping_add(pl).wrapping_sub(a));
                            check(p.o.get(slot, 8) == sv, "R_X86_64_GOTPCREL slot");
                        } else {
                            // (nothing asks for it, but calls and loads could do without the slot)
                            let load = conc(s.data[(r.off - 2) as usize] as u64) == 0x8b;
                            let r = Rela { ty: if load { R_REX_GOTPCRELX } else { R_GOTPCRELX }, ..*r };
                            check_gotpcrelx(p, s, &r, base, sv, callee, dynamic);
                        }
                    }
                    R_GOTPCRELX | R_REX_GOTPCRELX => check_gotpcrelx(p, s, r, base, sv, callee, dynamic),
                    _ => {}
                }
            }
        }
    }
}
/// decode the (possibly rewritten) instruction around a GOTPCRELX relocation
fn check_gotpcrelx(p: &Proc, s: &Sec, r: &Rela, base: u64, sv: u64, callee: u64, dynamic: bool) {
    let rex = r.ty == R_REX_GOTPCRELX;
    let k = if rex { 3 } else { 2 };
    let at = (base + r.off).wrapping_sub(k);
    let end = base + r.off + 4;
    let g = |i: u64| conc(p.o.get(at + i, 1));
    let rel = |o: u64| sext(p.o.get(at + o, 4));
    let orig = &s.data[r.off.saturating_sub(k) as usize..r.off as usize];
    let ob: Vec<u64> = orig.iter().map(|x| conc(*x as u64)).collect();
    let rewritable = ob.len() == k as usize
        && if rex { ob[0] & 0xf8 == 0x48 && ob[1] == 0x8b && ob[2] & 0xc7 == 5 } else { ob[0] == 0xff && (ob[1] == 0x15 || ob[1] == 0x25) };
    if !rewritable {
        // any other instruction goes through the GOT
        for (i, x) in ob.iter().enumerate() {
            check(conc(p.o.get(base + r.off - ob.len() as u64 + i as u64, 1)) == *x, "GOTPCRELX: other instructions are left alone");
        }
        let slot = conc(sext(p.o.get(base + r.off, 4)).wrapping_add(base + r.off).wrapping_sub(r.addend as u64));
        check(p.o.get(slot, 8) == sv, "GOTPCRELX: GOT slot holds the symbol's address");
        return;
    }
    if rex {
        let (or, om) = (conc(orig[0] as u64), conc(orig[2] as u64));
        let (rx, op, m) = (g(0), g(1), g(2));
        let reg = |rex: u64, m: u64| (m >> 3 & 7) | (rex >> 2 & 1) << 3;
        if op == 0x8b && m & 0xc7 == 5 {
            check(rx == or && m == om, "GOTPCRELX: load keeps its register");
            let slot = conc(end.wrapping_add(rel(3)));
            check(p.o.get(slot, 8) == sv, "GOTPCRELX: GOT slot holds the symbol's address");
        } else if op == 0x8d && m & 0xc7 == 5 {
            check(reg(rx, m) == reg(or, om) && rx & 8 == 8, "GOTPCRELX: lea keeps its register");
            check(end.wrapping_add(rel(3)) == sv, "GOTPCRELX: lea yields the symbol's address");
        } else if op == 0xc7 && m & 0xf8 == 0xc0 {
            let r2 = (m & 7) | (rx & 1) << 3;
            check(r2 == reg(or, om) && rx & 8 == 8, "GOTPCRELX: mov keeps its register");
            check(rel(3) == sv, "GOTPCRELX: mov yields the symbol's address");
        } else {
            fail("GOTPCRELX: instruction not recognised");
        }
        return;
    }
    let call = ob[1] == 0x15;
    let b0 = g(0);
    // (the byte after a direct branch's opcode is part of its operand)
    let b1 = if b0 == 0xe8 || b0 == 0xe9 { 0 } else { g(1) };
    let dest;
    let isjmp;
    if b0 == 0xff && (b1 == 0x15 || b1 == 0x25) {
        isjmp = b1 == 0x25;
        let slot = conc(end.wrapping_add(rel(2)));
        dest = p.o.get(slot, 8);
    } else if b0 == 0xe8 || b0 == 0xe9 {
        isjmp = b0 == 0xe9;
        dest = (at + 5).wrapping_add(rel(1));
        check(isjmp || g(5) == 0x90, "GOTPCRELX: call is followed by a nop");
    } else if b0 == 0x67 && b1 == 0xe8 || b0 == 0x90 && (b1 == 0xe8 || b1 == 0xe9) {
        isjmp = b1 == 0xe9;
        dest = end.wrapping_add(rel(2));
    } else {
        fail("GOTPCRELX: branch not recognised");
    }
    check(isjmp != call, "GOTPCRELX: call stays a call and jump a jump");
    check(
        if dynamic { conc(dest) == callee || p.follow(conc(dest)) == callee } else { dest == callee },
        "GOTPCRELX: branch reaches the symbol",
    );
}

/// bytes of allocated sections that no relocation touches are the input's
pub fn check_contents(w: &World, p: &Proc, b: &Bases) {
    for (oi, (_, o)) in w.objs.iter().enumerate() {
        for (si, s) in o.secs.iter().enumerate() {
            let base = match (is_alloc(s) && s.ty != SHT_NOBITS, b.at[oi][si]) {
                (true, Some(x)) => x,
                _ => continue,
            };
            let mut touched = vec![false; s.data.len()];
            for r in &s.relas {
                let (lo, n) = match r.ty {
                    R_64 | R_PC64 => (0, 8),
                    R_GOTPCRELX => (2, 4),
                    R_REX_GOTPCRELX => (3, 4),
                    0 => (0, 0),
                    _ => (0, 4),
                };
                let off = conc(r.off);
                for k in off - lo..off + n {
                    if (k as usize) < touched.len() {
                        touched[k as usize] = true;
                    }
                }
            }
            let m = p.o.mem(base, s.data.len());
            let mut ok = true;
            for k in 0..s.data.len() {
                if !touched[k] {
                    ok &= m[k] == s.data[k];
                }
            }
            check(ok, "section contents are preserved");
        }
    }
}
fn sec_size(s: &Sec) -> u64 {
    if s.ty == SHT_NOBITS {
        s.size
    } else {
        s.data.len() as u64
    }
}
/// located sections do not overlap each other
pub fn check_disjoint(w: &World, b: &Bases) {
    let mut v: Vec<(u64, u64)> = vec![];
    for (oi, (_, o)) in w.objs.iter().enumerate() {
        for (si, s) in o.secs.iter().enumerate() {
            if let (true, Some(x)) = (is_alloc(s) && !is_tbss(s), b.at[oi][si]) {
                v.push((x, sec_size(s)));
            }
        }
    }
    for c in &b.common {
        v.push((c.1, w.objs[c.0 .0].1.syms[c.0 .1].size));
    }
    for i in 0..v.len() {
        for j in 0..i {
            let ((a, n), (c, m)) = (v[i], v[j]);
            check(n == 0 || m == 0 || a + n <= c || c + m <= a, "input sections do not overlap");
        }
    }
}
/// sections lie in segments with exactly the permissions they ask for
pub fn check_perms(w: &World, p: &Proc, b: &Bases) {
    for (oi, (_, o)) in w.objs.iter().enumerate() {
        for (si, s) in o.secs.iter().enumerate() {
            if let (true, Some(x)) = (is_alloc(s) && sec_size(s) > 0 && !is_tbss(s), b.at[oi][si]) {
                let f = p.o.perms(x, sec_size(s));
                check(f & 4 != 0, "section is readable");
                // (where the initial image of thread-local data is doesn't matter)
                check(s.flags & TLS != 0 || (f & 2 != 0) == (s.flags & W != 0), "section is writable iff it asks for it");
                check(s.flags & X == 0 || f & 1 != 0, "code is executable");
                check(s.flags & W == 0 || s.flags & X != 0 || f & 1 == 0, "writable data is not executable");
            }
        }
    }
}
pub fn check_align(w: &World, b: &Bases) {
    for (oi, (_, o)) in w.objs.iter().enumerate() {
        for (si, s) in o.secs.iter().enumerate() {
            if let (true, Some(x)) = (is_alloc(s), b.at[oi][si]) {
                if s.align > 1 {
                    check(x % s.align == 0, "section alignment");
                }
            }
        }
    }
    for c in &b.common {
        let al = w.objs[c.0 .0].1.syms[c.0 .1].value;
        if al > 1 {
            check(c.1 % al == 0, "common symbol alignment");
        }
    }
}
pub fn check_nobits(w: &World, p: &Proc, b: &Bases) {
    let mut v = vec![];
    for (oi, (_, o)) in w.objs.iter().enumerate() {
        for (si, s) in o.secs.iter().enumerate() {
            if let (true, Some(x)) = (s.ty == SHT_NOBITS && !is_tbss(s), b.at[oi][si]) {
                v.push((x, s.size));
            }
        }
    }
    for c in &b.common {
        v.push((c.1, w.objs[c.0 .0].1.syms[c.0 .1].size));
    }
    for (x, n) in v {
        check(p.o.seg(x, n).is_some(), "zero-initialised data is mapped");
        check(p.o.perms(x, n) & 2 != 0, "zero-initialised data is writable");
        let m = p.o.mem(x, n as usize);
        let mut ok = true;
        for k in 0..m.len() {
            ok &= m[k] == 0;
        }
        check(ok, "zero-initialised data is zero");
    }
}
/// what the kernel requires of the program headers
pub fn check_segments(o: &Out) {
    let mut last = 0;
    let mut n = 0;
    for p in &o.ph {
        if p.ty != PT_LOAD {
            continue;
        }
        n += 1;
        check(p.align <= 1 || p.align & (p.align - 1) == 0, "p_align is a power of two");
        check(p.va % 4096 == p.off % 4096, "p_vaddr and p_offset are congruent modulo the page size");
        check(p.align <= 1 || p.va % p.align == p.off % p.align, "p_vaddr and p_offset are congruent modulo p_align");
        check(p.va / 4096 * 4096 >= last, "segments are in ascending order and share no page");
        check(p.va >= 0x10000 && p.va.checked_add(p.memsz).map_or(false, |e| e < 1 << 47), "user space address");
        check(p.flags & 4 != 0, "segments are readable");
        check(p.flags & 3 != 3, "no segment is writable and executable");
        if p.memsz > p.filesz {
            check(p.flags & 2 != 0, "only writable segments have zero-filled space");
        }
        last = up(p.va + p.memsz, 4096);
    }
    check(n > 0, "there is a PT_LOAD");
    let loaded = |p: &Ph| {
        o.ph.iter().any(|l| {
            l.ty == PT_LOAD
                && p.va >= l.va
                && p.va + p.memsz <= l.va + l.memsz
                && p.off >= l.off
                && p.off - l.off == p.va - l.va
        })
    };
    let mut seen_load = false;
    for p in &o.ph {
        match p.ty {
            PT_LOAD => seen_load = true,
            PT_PHDR => {
                check(!seen_load, "PT_PHDR precedes the loadable segments");
                check(loaded(p), "PT_PHDR is part of a loadable segment");
                check(p.off == rd(&o.raw, 32, 8) && p.filesz == o.ph.len() as u64 * 56, "PT_PHDR describes the program headers");
            }
            PT_INTERP => {
                check(!seen_load, "PT_INTERP precedes the loadable segments");
                check(loaded(p), "PT_INTERP is part of a loadable segment");
            }
            PT_DYNAMIC => {
                check(loaded(p), "PT_DYNAMIC is part of a loadable segment");
                let i = o.sh.iter().position(|s| s.ty == SHT_DYNAMIC as u64);
                if let Some(i) = i {
                    check(o.sh[i].addr == p.va && o.sh[i].off == p.off && o.sh[i].size == p.filesz, "PT_DYNAMIC describes .dynamic");
                }
            }
            _ => {}
        }
    }
}
/// section header table and ELF header consistency
pub fn check_headers(o: &Out) {
    check(o.e_type == 2 || o.e_type == 3, "e_type is an executable's");
    if o.sh.is_empty() {
        fail("no section headers");
    }
    let z = &o.sh[0];
    check(z.ty == 0 && z.off == 0 && z.size == 0 && z.addr == 0 && z.flags == 0, "section header 0 is null");
    let phoff = rd(&o.raw, 32, 8);
    let shoff = rd(&o.raw, 40, 8);
    check(shoff + o.sh.len() as u64 * 64 <= o.raw.len() as u64, "section header table lies in the file");
    let mut spans: Vec<(u64, u64)> =
        vec![(0, 64), (phoff, o.ph.len() as u64 * 56), (shoff, o.sh.len() as u64 * 64)];
    for (i, s) in o.sh.iter().enumerate().skip(1) {
        check(s.align <= 1 || s.align & (s.align - 1) == 0, "sh_addralign is a power of two");
        if s.ty != SHT_NOBITS as u64 {
            check(s.off.checked_add(s.size).map_or(false, |e| e <= o.raw.len() as u64), "section lies in the file");
            spans.push((s.off, s.size));
        }
        if s.flags & A != 0 && s.size > 0 && (s.flags & TLS == 0 || s.ty != SHT_NOBITS as u64) {
            check(s.align <= 1 || s.addr % s.align == 0, "sh_addr is a multiple of sh_addralign");
            let ok = o.ph.iter().any(|l| {
                l.ty == PT_LOAD
                    && s.addr >= l.va
                    && s.addr + s.size <= l.va + l.memsz
                    && (s.ty == SHT_NOBITS as u64 && s.addr >= l.va + l.filesz
                        || s.ty != SHT_NOBITS as u64
                            && s.off >= l.off
                            && s.off - l.off == s.addr - l.va
                            && s.addr + s.size <= l.va + l.filesz)
            });
            check(ok, "allocated sections match the loadable segment they are in");
        }
        if s.flags & A == 0 {
            check(s.addr == 0, "sections that are not loaded have no address");
        }
        check((s.link as usize) < o.sh.len() && s.flags & (GROUP | EXCLUDE) == 0, "sections refer to sections of the program");
        let lt = if (s.link as usize) < o.sh.len() { o.sh[s.link as usize].ty } else { u64::MAX };
        match s.ty as u32 {
            SHT_SYMTAB | SHT_DYNSYM => {
                check(lt == SHT_STRTAB as u64, "symbol tables link to their string table");
                check(s.entsize == 24, "symbol table entry size");
                let d = o.sec_data(i);
                let mut local = true;
                for k in 0..d.len() as u64 / 24 {
                    let b = conc(rd(&d, k * 24 + 4, 1) >> 4);
                    if b != 0 {
                        local = false;
                    }
                    check((k < s.info) == local, "sh_info is one past the last local symbol");
                }
            }
            SHT_DYNAMIC => check(lt == SHT_STRTAB as u64 && s.entsize == 16, ".dynamic header"),
            SHT_HASH | SHT_GNU_HASH => check(lt == SHT_DYNSYM as u64, "hash tables link to .dynsym"),
            SHT_GROUP => fail("a program has no section groups"),
            SHT_RELA => check(s.entsize == 24 && (lt == SHT_DYNSYM as u64 || s.flags & A == 0), "relocation table header"),
            _ => {}
        }
    }
    for i in 0..spans.len() {
        for j in 0..i {
            let ((a, n), (c, m)) = (spans[i], spans[j]);
            check(n == 0 || m == 0 || a + n <= c || c + m <= a, "file ranges do not overlap");
        }
    }
    // every name was readable when loading; names of sections inside the table
    check(o.sh[o.shstrndx as usize].ty == SHT_STRTAB as u64, "e_shstrndx names a string table");
}

/// the standard opening of a check: the link must have succeeded
pub fn must_link(i: usize) -> bool {
    let s = status(i);
    check(s == 0, "valid inputs are linked");
    s == 0
}
pub fn start<'a>(w: &'a World, path: &str) -> (Proc<'a>, Bases) {
    let o = Out::load(path);
    let p = Proc::start(o, &w.libs, true);
    let b = locate(w, &p);
    (p, b)
}
pub fn check_all(w: &World, p: &Proc, b: &Bases) {
    check_segments(&p.o);
    check_headers(&p.o);
    check_contents(w, p, b);
    check_disjoint(w, b);
    check_perms(w, p, b);
    check_align(w, b);
    check_nobits(w, p, b);
    check_relocs(w, p, b);
}
