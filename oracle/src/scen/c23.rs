//! C23: thread-local data.
use super::{q, t, Scen};
use crate::ld::Proc;
use crate::obj::*;
use crate::out::*;
use crate::rt::*;
use crate::world::*;

pub fn all() -> Vec<Scen> {
    vec![
        q("c23_layout", layout, chk),
        q("c23_refs", refs, chk),
        q("c23_lib", lib, chk),
        q("c23_libtp", libtp, chk_libtp),
        q("c23_odd", odd, chk),
        q("c23_debug", debug, chk),
        q("c23_common", common, chk),
        q("c23_mixed", mixed, chk),
        t("c23_layout3", layout3, chk),
    ]
}
fn tdata(o: &mut Obj, name: &str, size: usize, align: u64) -> u16 {
    let d = o.blob(size);
    o.sec(name, SHT_PROGBITS, A | W | TLS, align, &d)
}
fn tbss(o: &mut Obj, name: &str, size: u64, align: u64) -> u16 {
    let s = o.sec(name, SHT_NOBITS, A | W | TLS, align, &[]);
    o.secs[s as usize - 1].size = size;
    s
}
/// a section with references to `syms`, of the three kinds used by code
fn code(o: &mut Obj, name: &str, syms: &[usize], kinds: &[u32]) -> u16 {
    let d = o.fill(8 + syms.len() * kinds.len() * 4);
    let s = o.sec(name, SHT_PROGBITS, A | X, 4, &d);
    let mut at = 8;
    for y in syms {
        for k in kinds {
            let a = if *k == R_TPOFF32 { 0 } else { -4 };
            o.rela(s, at, *k, *y, a);
            at += 4;
        }
    }
    s
}
const ALL: [u32; 3] = [R_TPOFF32, R_GOTTPOFF, R_TLSGD];

/// variables of several objects: `opt` says what each object may have, as (size, alignment) of
/// its initialised and its zero-initialised data (size 0: none)
fn vars(opt: &[(&[(usize, u64)], &[(u64, u64)])]) -> World {
    let mut w = World::new();
    let mut names = vec![];
    for (i, (ds, bs)) in opt.iter().enumerate() {
        let mut o = w.obj();
        if i == 0 {
            o.start();
        }
        let d = ds[choose(&format!("data{}", i), ds.len() as u64) as usize];
        let b = bs[choose(&format!("bss{}", i), bs.len() as u64) as usize];
        let before = choose(&format!("first{}", i), 2) == 1;
        let mut mine = vec![];
        if before && b.0 > 0 {
            let s = tbss(&mut o, ".tbss", b.0, b.1);
            mine.push(o.sym(&format!("b{}", i), GLOBAL, STT_TLS, s, 0, b.0));
        }
        if d.0 > 0 {
            let s = tdata(&mut o, ".tdata", d.0, d.1);
            mine.push(o.sym(&format!("d{}", i), GLOBAL, STT_TLS, s, 8, d.0 as u64 - 8));
        }
        if !before && b.0 > 0 {
            let s = tbss(&mut o, ".tbss", b.0, b.1);
            mine.push(o.sym(&format!("b{}", i), GLOBAL, STT_TLS, s, 0, b.0));
        }
        if i == 0 {
            let x = o.fill(11);
            o.data(&x);
            o.bss(5, 1);
        }
        code(&mut o, ".text.a", &mine, &[R_TPOFF32]);
        for m in &mine {
            names.push(o.syms[*m].name.clone());
        }
        w.add(o);
    }
    // one more object, with references only
    let mut o = w.obj();
    let syms: Vec<usize> = names.iter().map(|n| o.sym(n, GLOBAL, STT_TLS, UNDEF, 0, 0)).collect();
    code(&mut o, ".text.z", &syms, &ALL);
    w.add(o);
    w
}
fn layout() -> World {
    vars(&[
        (&[(0, 1), (13, 1), (16, 16)], &[(0, 1), (3, 1), (24, 32)]),
        (&[(0, 1), (9, 4)], &[(0, 1), (7, 1), (8, 64)]),
    ])
}
fn layout3() -> World {
    vars(&[
        (&[(0, 1), (13, 1), (16, 16), (40, 128)], &[(0, 1), (3, 1), (24, 32)]),
        (&[(0, 1), (9, 4)], &[(0, 1), (7, 1), (8, 64)]),
        (&[(0, 1), (17, 8)], &[(0, 1), (5, 4), (8, 4096)]),
    ])
}
/// one reference, with arbitrary values and addends
fn refs() -> World {
    let mut w = World::new();
    let kind = ALL[choose("kind", 3) as usize];
    let value = sym16("value") as u64;
    let addend = sym64("addend") as i64;
    let mut a = w.obj();
    a.start();
    let mut b = w.obj();
    b.id = 1;
    let d0 = tdata(&mut b, ".tdata", 24, 8);
    b.sym("first", LOCAL, STT_TLS, d0, 0, 8);
    let owner = choose("owner", 5);
    let in_bss = choose("bss", 2) == 1;
    let mut def = |o: &mut Obj| if in_bss { tbss(o, ".tbss", 40, 16) } else { tdata(o, ".tdata", 40, 16) };
    let y = match owner {
        0 => {
            let s = def(&mut a);
            a.sym("v", LOCAL, STT_TLS, s, value, 8)
        }
        1 => {
            let s = def(&mut a);
            a.sym("v", GLOBAL, STT_TLS, s, value, 8)
        }
        2 => {
            let s = def(&mut b);
            b.sym("v", GLOBAL, STT_TLS, s, value, 8);
            a.sym("v", GLOBAL, NOTYPE, UNDEF, 0, 0)
        }
        3 => {
            let s = def(&mut b);
            b.sym("v", WEAK, STT_TLS, s, value, 8);
            a.sym("v", WEAK, STT_TLS, UNDEF, 0, 0)
        }
        _ => {
            // a definition that takes the place of a weak one
            let s = def(&mut b);
            b.sym("v", GLOBAL, STT_TLS, s, value, 8);
            let s = tbss(&mut a, ".tbss", 8, 8);
            a.sym("v", WEAK, STT_TLS, s, 0, 8)
        }
    };
    let z = match a.syms[y].sec {
        UNDEF => None,
        s => Some(s),
    };
    let c = code(&mut a, ".text.c", &[y], &[kind]);
    a.secs[c as usize - 1].relas[0].addend = if kind == R_TPOFF32 { addend } else { sym16("distance") as i16 as i64 };
    // the place of the section, from a reference without unknowns
    if in_bss {
        let o = if owner < 2 { &mut a } else { &mut b };
        let s = o.secs.iter().position(|s| s.name == ".tbss" && s.size == 40).unwrap() as u16 + 1;
        let y = o.sym("base", LOCAL, STT_TLS, s, 0, 1);
        let d = o.fill(12);
        let d = o.sec(".data.base", SHT_PROGBITS, A | W, 4, &d);
        o.rela(d, 8, R_TPOFF32, y, 0);
    }
    let _ = z;
    w.add(a);
    w.add(b);
    w
}
/// the thread-local variables of libraries
fn lib() -> World {
    let mut w = World::new();
    let own = choose("own", 2) == 1;
    let n = choose("libs", 2) + 1;
    let mut a = w.obj();
    a.start();
    let mut syms = vec![];
    if own {
        let s = tdata(&mut a, ".tdata", 20, 4);
        syms.push(a.sym("own", GLOBAL, STT_TLS, s, 12, 8));
    }
    let mut kinds: Vec<Vec<u32>> = vec![vec![R_GOTTPOFF, R_TLSGD]; syms.len()];
    for k in 0..n {
        let mut l = Lib::new();
        l.tls(&format!("tv{}", k), 0x10 + 8 * k, 8);
        l.func(&format!("fn{}", k), 0x20);
        l.tls(&format!("tw{}", k), 0x40, 4);
        w.lib(&format!("lib{}.so", k), l);
        for v in ["tv", "tw"] {
            let u = choose(&format!("use{}{}", v, k), 4);
            if u > 0 {
                let ty = if u == 2 { NOTYPE } else { STT_TLS };
                syms.push(a.sym(&format!("{}{}", v, k), GLOBAL, ty, UNDEF, 0, 0));
                kinds.push([vec![], vec![R_GOTTPOFF], vec![R_TLSGD], vec![R_GOTTPOFF, R_TLSGD]][u as usize].clone());
            }
        }
        let f = a.undef(&format!("fn{}", k));
        let t = a.fill(12);
        let t = a.sec(".text.f", SHT_PROGBITS, A | X, 4, &t);
        a.rela(t, 8, R_PLT32, f, -4);
    }
    for (y, k) in syms.iter().zip(kinds) {
        code(&mut a, ".text.t", &[*y], &k);
    }
    w.add(a);
    w
}
/// a reference by a fixed offset cannot reach a library
fn libtp() -> World {
    let mut w = World::new();
    let mut a = w.obj();
    a.start();
    let mut l = Lib::new();
    l.tls("tv", 0x10, 8);
    w.lib("lib.so", l);
    let y = a.sym("tv", GLOBAL, STT_TLS, UNDEF, 0, 0);
    let kinds: &[u32] = [&[R_TPOFF32][..], &[R_GOTTPOFF, R_TPOFF32], &[R_DTPOFF32]][choose("kind", 3) as usize];
    code(&mut a, ".text.t", &[y], kinds);
    w.add(a);
    w
}
fn chk_libtp(_: &World) {
    check(status(0) != 0, "a fixed offset to a thread-local variable of a library is refused");
    reach("refused");
}
/// unusual flags and names, sections of which only some are zero-initialised
fn odd() -> World {
    let mut w = World::new();
    let mut names = vec![];
    for i in 0..2u64 {
        let mut o = w.obj();
        if i == 0 {
            o.start();
        }
        let name = [".tdata", ".tdata.x", "tls"][choose(&format!("name{}", i), 3) as usize];
        let kind = choose(&format!("kind{}", i), 4);
        let s = if kind == 2 {
            tbss(&mut o, name, 12, 8)
        } else {
            let s = tdata(&mut o, name, 20, 8);
            // group member; and no SHF_WRITE
            o.secs[s as usize - 1].flags = [A | W | TLS, A | W | TLS | 0x200, 0, A | TLS][kind as usize];
            s
        };
        let n = format!("v{}", i);
        o.sym(&n, GLOBAL, STT_TLS, s, if kind == 2 { 0 } else { 8 }, 4);
        names.push(n);
        let s = tbss(&mut o, ".tbss", 4, 4);
        o.sym(&format!("z{}", i), GLOBAL, STT_TLS, s, 0, 4);
        names.push(format!("z{}", i));
        w.add(o);
    }
    let mut o = w.obj();
    let syms: Vec<usize> = names.iter().map(|n| o.sym(n, GLOBAL, STT_TLS, UNDEF, 0, 0)).collect();
    code(&mut o, ".text.z", &syms, &ALL);
    let d = o.fill(24);
    o.sec(".zdata", SHT_PROGBITS, A | W, 8, &d);
    w.add(o);
    w
}
/// debuggers find thread-local variables by their offset in the thread-local data
fn debug() -> World {
    let mut w = World::new();
    let value = sym8("value") as u64;
    let addend = sym32("addend") as i32 as i64;
    let ty = [R_DTPOFF32, R_DTPOFF64][choose("type", 2) as usize];
    let mut a = w.obj();
    a.start();
    tdata(&mut a, ".tdata", 18, 2);
    w.add(a);
    let mut a = w.obj();
    let s = if choose("bss", 2) == 1 { tbss(&mut a, ".tbss", 16, 16) } else { tdata(&mut a, ".tdata", 24, 8) };
    let b = a.sym("base", GLOBAL, STT_TLS, s, 0, 1);
    let y = a.sym("v", if choose("local", 2) == 1 { LOCAL } else { GLOBAL }, STT_TLS, s, value, 8);
    code(&mut a, ".text.c", &[b], &[R_TPOFF32]);
    let d = a.fill(8);
    let d = a.sec(".debug_info", SHT_PROGBITS, 0, 1, &[&d[..], &[0; 10][..]].concat());
    a.rela(d, 9, ty, y, addend);
    w.add(a);
    w
}
/// tentative thread-local definitions
fn common() -> World {
    let mut w = World::new();
    let mut a = w.obj();
    a.start();
    if choose("data", 2) == 1 {
        tdata(&mut a, ".tdata", 9, 1);
    }
    let n = choose("n", 3);
    let mut syms = vec![];
    for i in 0..=n {
        let size = [1, 8, 40][choose(&format!("size{}", i), 3) as usize];
        let al = [1, 8, 32][choose(&format!("align{}", i), 3) as usize];
        syms.push(a.sym(&format!("c{}", i), GLOBAL, STT_TLS, COMMON, al, size));
    }
    if choose("plain", 2) == 1 {
        a.sym("plain", GLOBAL, OBJECT, COMMON, 16, 16);
        let s = tbss(&mut a, ".tbss", 4, 4);
        syms.push(a.sym("z", LOCAL, STT_TLS, s, 0, 4));
    }
    code(&mut a, ".text.c", &syms, &[R_TPOFF32, R_GOTTPOFF]);
    w.add(a);
    w
}
/// thread-local data among everything else: pointers in its initial values, ordinary slots of
/// the GOT next to the others, several references to the same variable
fn mixed() -> World {
    let mut w = World::new();
    let mut a = w.obj();
    a.start();
    let order = choose("order", 6);
    let d = a.blob(24);
    let d = a.data(&d);
    let x = a.object("x", d, 8, 8);
    let s = tdata(&mut a, ".tdata", 32, 8);
    a.rela(s, 16, R_64, x, 4);
    let y = a.sym("y", LOCAL, STT_TLS, s, 8, 8);
    let b = tbss(&mut a, ".tbss", 9, 1);
    let z = a.sym("z", GLOBAL, STT_TLS, b, 0, 9);
    code(&mut a, ".text.q", &[z], &[R_TPOFF32]);
    let mut l = Lib::new();
    l.object("lo", 0x20, 8);
    l.func("fn", 0x20);
    l.tls("tv", 0x30, 8);
    w.lib("libx.so", l);
    let lo = a.undef("lo");
    let f = a.undef("fn");
    let tv = a.sym("tv", GLOBAL, STT_TLS, UNDEF, 0, 0);
    let mut rs = vec![
        (R_REX_GOTPCRELX, x),
        (R_GOTTPOFF, y),
        (R_TLSGD, z),
        (R_REX_GOTPCRELX, lo),
        (R_GOTTPOFF, tv),
        (R_REX_GOTPCRELX, f),
        (R_TLSGD, y),
        (R_TPOFF32, z),
        (R_TLSGD, tv),
        (R_GOTTPOFF, z),
    ];
    // some orders, and leaving one of the references out
    match order {
        0 => {}
        1 => rs.reverse(),
        2 => rs.rotate_left(3),
        3 => rs.rotate_left(6),
        4 => rs.swap(1, 6),
        _ => rs.swap(2, 9),
    }
    let out = choose("out", 1 + rs.len() as u64) as usize;
    if out < rs.len() {
        rs.remove(out);
    }
    let n = rs.len();
    let mut d = a.fill(8);
    for _ in 0..n {
        d.extend_from_slice(&[0x90, 0x48, 0x8b, 0x05, 0, 0, 0, 0]);
    }
    let c = a.sec(".text.c", SHT_PROGBITS, A | X, 4, &d);
    for (i, (k, y)) in rs.iter().enumerate() {
        let add = if *k == R_TPOFF32 { 0 } else { -4 };
        a.rela(c, 12 + 8 * i as u64, *k, *y, add);
    }
    w.add(a);
    w
}

pub struct Image {
    pub start: u64,
    filesz: u64,
    memsz: u64,
    align: u64,
    /// what the thread pointer is when the image is the thread's block (glibc's computation)
    tp: u64,
}
pub fn image(o: &Out) -> Option<Image> {
    let v: Vec<&Ph> = o.ph.iter().filter(|p| p.ty == PT_TLS).collect();
    check(v.len() <= 1, "there is one PT_TLS");
    let p = v.first()?;
    check(p.filesz <= p.memsz, "PT_TLS: p_memsz covers p_filesz");
    check(p.align <= 1 || p.align & (p.align - 1) == 0, "PT_TLS: p_align is a power of two");
    let al = p.align.max(1);
    if p.filesz > 0 {
        let ok = o.ph.iter().any(|l| {
            l.ty == PT_LOAD
                && p.va >= l.va
                && p.va + p.filesz <= l.va + l.filesz
                && p.off >= l.off
                && p.off - l.off == p.va - l.va
        });
        check(ok, "PT_TLS is part of a loadable segment");
    }
    let fb = 0u64.wrapping_sub(p.va) & (al - 1);
    let off = up(p.memsz.wrapping_sub(fb), al).wrapping_add(fb);
    Some(Image { start: p.va, filesz: p.filesz, memsz: p.memsz, align: al, tp: p.va.wrapping_add(off) })
}
fn sx(v: u64) -> u64 {
    v as u32 as i32 as i64 as u64
}
/// the position in the image that a reference of the program's own leads to, or the module and
/// offset of a library's variable; minus the addend of the relocation
enum To {
    Own(u64),
    Module(u64, u64),
}
pub fn chk(w: &World) {
    let refused_ok = w.objs.iter().any(|o| {
        o.1.secs.iter().any(|s| s.relas.iter().any(|r| (r.ty == R_TPOFF32 || r.ty == R_DTPOFF32) && r.addend != 0))
    });
    if refused_ok && status(0) != 0 {
        // offsets that fit in 32 bits: the thread-local data of these programs is small
        let mut small = true;
        for (_, o) in &w.objs {
            for r in o.secs.iter().flat_map(|s| &s.relas) {
                if r.ty == R_TPOFF32 || r.ty == R_DTPOFF32 {
                    small &= (r.addend > -0x7ff0_0000) & (r.addend < 0x7ff0_0000);
                }
            }
        }
        check(!small, "an offset that fits is refused");
        reach("refused");
        return;
    }
    if !must_link(0) {
        return;
    }
    let (p, mut b) = start(w, "out");
    let any = w.objs.iter().any(|o| {
        o.1.secs.iter().any(|s| s.flags & TLS != 0 && (s.size > 0))
            || o.1.syms.iter().any(|s| s.sec == COMMON && s.ty == STT_TLS)
    });
    let img = match image(&p.o) {
        Some(i) => i,
        None => {
            check(!any, "thread-local data has a PT_TLS");
            Image { start: 0, filesz: 0, memsz: 0, align: 1, tp: 0 }
        }
    };
    // where the zero-initialised data is: from a first reference
    for (oi, (_, o)) in w.objs.iter().enumerate() {
        for (si, s) in o.secs.iter().enumerate() {
            let base = match b.at[oi][si] {
                Some(x) => x,
                None => continue,
            };
            for r in s.relas.iter().filter(|r| r.ty == R_TPOFF32) {
                let pos = || sx(p.o.get(base + r.off, 4)).wrapping_add(img.tp).wrapping_sub(r.addend as u64);
                match w.target(oi, r.sym) {
                    Target::At(a, t, y) if b.at[a][t].is_none() && is_tbss(&w.objs[a].1.secs[t]) => {
                        // (taken from references without unknowns)
                        if w.objs[a].1.syms[y].name == "v" {
                            continue;
                        }
                        b.at[a][t] = Some(conc(pos().wrapping_sub(w.objs[a].1.syms[y].value)));
                    }
                    Target::Common(a, y) if !b.common.iter().any(|c| c.0 == (a, y)) => {
                        b.common.push(((a, y), conc(pos())));
                    }
                    _ => {}
                }
            }
        }
    }
    let commons = std::mem::take(&mut b.common);
    check_all(w, &p, &b);
    // the pieces of the image
    let mut v: Vec<(u64, u64)> = vec![];
    for (oi, (_, o)) in w.objs.iter().enumerate() {
        for (si, s) in o.secs.iter().enumerate() {
            let x = match b.at[oi][si] {
                Some(x) if s.flags & TLS != 0 => x,
                _ => continue,
            };
            piece(&p, &img, x, s.size, s.align, s.ty == SHT_NOBITS);
            v.push((x, s.size));
        }
    }
    for ((a, y), x) in &commons {
        let s = &w.objs[*a].1.syms[*y];
        if s.ty == STT_TLS {
            piece(&p, &img, *x, s.size, s.value, true);
            v.push((*x, s.size));
        }
    }
    for i in 0..v.len() {
        for j in 0..i {
            let ((a, n), (c, m)) = (v[i], v[j]);
            check(n == 0 || m == 0 || a + n <= c || c + m <= a, "thread-local variables do not overlap");
        }
    }
    b.common = commons;
    // the references
    for (oi, (_, o)) in w.objs.iter().enumerate() {
        for (si, s) in o.secs.iter().enumerate() {
            if !is_alloc(s) {
                debug_refs(w, &p, &b, &img, oi, s);
                continue;
            }
            let base = match b.at[oi][si] {
                Some(x) => x,
                None => continue,
            };
            for r in &s.relas {
                if !ALL.contains(&r.ty) {
                    continue;
                }
                let pl = base.wrapping_add(r.off);
                let word = p.o.get(pl, 4);
                let slot = || conc(sx(word).wrapping_add(pl).wrapping_sub(r.addend as u64));
                let t = w.target(oi, r.sym);
                if r.ty == R_TPOFF32 {
                    let want = match place(w, &b, t) {
                        Some(x) => x.wrapping_add(r.addend as u64).wrapping_sub(img.tp),
                        None => fail("a variable has no place"),
                    };
                    check(word == want & 0xffff_ffff, "R_X86_64_TPOFF32 is the variable's offset from the thread pointer");
                    check(fits32s(want), "R_X86_64_TPOFF32 fits");
                    continue;
                }
                let to = if r.ty == R_GOTTPOFF {
                    let v = p.o.get(slot(), 8);
                    match t {
                        Target::Lib(k, i) => {
                            let (_, off, tp) = lib_var(w, &p, k, i);
                            check(v == tp.wrapping_add(off), "R_X86_64_GOTTPOFF: the slot holds the library variable's offset");
                            continue;
                        }
                        _ => To::Own(v.wrapping_add(img.tp)),
                    }
                } else {
                    let at = slot();
                    let (m, off) = (conc(p.o.get(at, 8)), p.o.get(at + 8, 8));
                    if m == 1 {
                        To::Own(img.start.wrapping_add(off))
                    } else {
                        To::Module(m, off)
                    }
                };
                match (t, to) {
                    (Target::Lib(k, i), To::Module(m, off)) => {
                        let (lm, loff, _) = lib_var(w, &p, k, i);
                        check(m == lm && off == loff, "R_X86_64_TLSGD: the slots name the library's variable");
                    }
                    (Target::Lib(..), To::Own(_)) | (_, To::Module(..)) => fail("R_X86_64_TLSGD: wrong module"),
                    (t, To::Own(x)) => match place(w, &b, t) {
                        Some(want) => check(x == want, "a slot of the GOT leads to the thread-local variable"),
                        None => fail("a variable has no place"),
                    },
                }
            }
        }
    }
    symtab(w, &p, &b, &img);
    reach("linked");
}
fn lib_var(w: &World, p: &Proc, k: usize, i: usize) -> (u64, u64, u64) {
    match p.lib_tls(&w.libs[k].1.syms[i].name) {
        Some(x) => x,
        None => fail("a variable of a library cannot be found at run time"),
    }
}
fn place(w: &World, b: &Bases, t: Target) -> Option<u64> {
    match t {
        Target::At(o, s, y) => Some(b.at[o][s]?.wrapping_add(w.objs[o].1.syms[y].value)),
        Target::Common(o, y) => Some(b.common.iter().find(|c| c.0 == (o, y))?.1),
        _ => None,
    }
}
/// data at `x` of the image
fn piece(p: &Proc, img: &Image, x: u64, n: u64, align: u64, zero: bool) {
    check(x >= img.start && x + n <= img.start + img.memsz, "thread-local data is part of PT_TLS");
    if align > 1 {
        check(img.align % align == 0 && img.tp.wrapping_sub(x) % align == 0, "thread-local data is aligned in every thread");
    }
    if !zero {
        check(x + n <= img.start + img.filesz, "initialised thread-local data is in the initial image");
        return;
    }
    for i in x..x + n {
        if i < img.start + img.filesz {
            check(p.o.get(i, 1) == 0, "zero-initialised thread-local data is zero");
        }
    }
}
fn debug_refs(w: &World, p: &Proc, b: &Bases, img: &Image, oi: usize, s: &Sec) {
    if s.relas.is_empty() {
        return;
    }
    let d = match p.o.sec(&s.name) {
        Some(i) => p.o.sec_data(i),
        None => fail("a section is missing"),
    };
    check(d.len() == s.data.len(), "size of a section that is not loaded");
    for r in &s.relas {
        let x = match place(w, b, w.target(oi, r.sym)) {
            Some(x) => x.wrapping_add(r.addend as u64).wrapping_sub(img.start),
            None => fail("a variable has no place"),
        };
        if r.ty == R_DTPOFF64 {
            check(rd(&d, r.off, 8) == x, "R_X86_64_DTPOFF64 is the variable's offset");
        } else {
            check((rd(&d, r.off, 4) == x & 0xffff_ffff) & fits32s(x), "R_X86_64_DTPOFF32 is the variable's offset");
        }
    }
}
/// the value of a thread-local symbol is its offset
fn symtab(w: &World, p: &Proc, b: &Bases, img: &Image) {
    let syms = p.o.symbols(".symtab");
    for (oi, (_, o)) in w.objs.iter().enumerate() {
        for (si, s) in o.syms.iter().enumerate() {
            if s.ty != STT_TLS {
                continue;
            }
            let t = w.target(oi, si);
            let want = match place(w, b, t) {
                Some(x) => x.wrapping_sub(img.start),
                None => continue,
            };
            let m: Vec<&OSym> = syms.iter().filter(|k| k.name == s.name).collect();
            check(m.len() == 1, "a thread-local variable has one entry in .symtab");
            let k = m[0];
            check(k.info & 15 == STT_TLS as u64, "type of a thread-local symbol");
            check(k.value == want, "the value of a thread-local symbol is its offset");
            let sh = conc(k.shndx) as usize;
            check(sh != 0 && sh < p.o.sh.len() && p.o.sh[sh].flags & TLS != 0, "section of a thread-local symbol");
        }
    }
}
