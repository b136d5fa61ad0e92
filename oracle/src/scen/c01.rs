//! C01: relocated words.
use super::{q, t, Scen};
use crate::obj::*;
use crate::out::*;
use crate::rt::*;
use crate::world::*;

pub fn all() -> Vec<Scen> {
    vec![q("c01_abs64", abs64, chk), q("c01_abs32", abs32, chk), q("c01_pc", pc, chk), q("c01_const", constant, chk), q("c01_empty", empty, chk_empty), q("c01_type", types, chk_types), q("c01_lib", lib, chk_lib)]
}

/// object `a` holds the relocated word; the symbol is a local / section / global / weak symbol of
/// the same object or a global of object `b`, in one of four sections.
fn base(tys: &[u32]) -> World {
    let mut w = World::new();
    let mut a = w.obj();
    a.start();
    // so that no section of interest is the first of its output section
    for (n, f, k) in [(".text.x", A | X, 9), (".data", A | W, 17), (".text", A | X, 13), (".rodata", A, 10), (".data.y", A | W, 22)] {
        let d = a.fill(k);
        a.sec(n, SHT_PROGBITS, f, 1, &d);
    }
    let zero = a.bss(6, 2);
    let kind = choose("kind", 5);
    let place = choose("place", 4);
    let value = sym16("value") as u64;
    let addend = sym64("addend") as i64;
    let off = 8 + choose("off", 2) * 5;
    let in_text = choose("site", 2) == 1;
    let ty = tys[choose("type", tys.len() as u64) as usize];
    let site = {
        let d = a.blob(24);
        if in_text {
            a.sec(".text.x", SHT_PROGBITS, A | X, 4, &d)
        } else {
            a.data(&d)
        }
    };
    let mut b = w.obj();
    b.id = 1;
    let dest = |o: &mut Obj| match place {
        0 => {
            let d = o.blob(16);
            o.text(&d)
        }
        1 => {
            let d = o.blob(16);
            o.rodata(&d)
        }
        2 => {
            let d = o.blob(16);
            o.sec(".data.y", SHT_PROGBITS, A | W, 16, &d)
        }
        _ => o.bss(32, 16),
    };
    let s = match kind {
        0 => {
            let d = dest(&mut a);
            a.sym("loc", LOCAL, NOTYPE, d, value, 0)
        }
        1 => {
            let d = dest(&mut a);
            a.secsym(d)
        }
        2 => {
            let d = dest(&mut a);
            a.sym("sym", GLOBAL, OBJECT, d, value, 4)
        }
        3 => {
            let d = dest(&mut a);
            a.sym("sym", WEAK, FUNC, d, value, 4)
        }
        _ => {
            let d = dest(&mut b);
            b.sym("sym", GLOBAL, FUNC, d, value, 4);
            a.undef("sym")
        }
    };
    a.rela(site, off, ty, s, addend);
    // a second, plain reference tells where sections without contents went
    let p = a.fill(24);
    let p = a.sec(".data.p", SHT_PROGBITS, A | W, 8, &p);
    a.rela(p, 8, R_64, s, 0);
    let zero = a.secsym(zero);
    a.rela(p, 16, R_64, zero, 0);
    w.add(a);
    w.add(b);
    w
}
fn abs64() -> World {
    base(&[R_64])
}
fn abs32() -> World {
    base(&[R_32, R_32S])
}
fn pc() -> World {
    base(&[R_PC32, R_PLT32])
}
pub fn chk(w: &World) {
    if status(0) != 0 {
        // refusing is right only for values that may not fit
        check(may_overflow(w), "a relocation whose value fits is refused");
        reach("refused");
        return;
    }
    let (p, b) = start(w, "out");
    check_relocs(w, &p, &b);
    check_contents(w, &p, &b);
    check_disjoint(w, &b);
    check_nobits(w, &p, &b);
    reach("linked");
}
/// words that refer to absolute symbols, or to nothing
fn constant() -> World {
    let mut w = World::new();
    let mut a = w.obj();
    a.start();
    let kind = choose("kind", 4);
    let value = sym64("value");
    let ty = [R_64, R_32, R_32S, R_PC32][choose("type", 4) as usize];
    let d = a.blob(24);
    let site = a.data(&d);
    let s = match kind {
        0 => a.sym("loc", LOCAL, NOTYPE, ABS, value, 0),
        1 => a.sym("sym", GLOBAL, NOTYPE, ABS, value, 0),
        2 => a.undef("sym"),
        _ => a.sym("sym", WEAK, NOTYPE, UNDEF, 0, 0),
    };
    a.rela(site, 8, ty, s, sym64("addend") as i64);
    w.add(a);
    let mut b = w.obj();
    b.id = 1;
    if kind == 2 {
        b.sym("sym", WEAK, NOTYPE, ABS, value, 0);
    }
    w.add(b);
    w
}
/// symbols of sections without any contents: alone, before, between and after their namesakes
fn empty() -> World {
    let mut w = World::new();
    let at = choose("at", 3) as usize;
    let around = choose("around", 4);
    let (flags, ty) = [(A | W, SHT_PROGBITS), (A, SHT_PROGBITS), (A | X, SHT_PROGBITS), (A | W, SHT_NOBITS)][choose("kind", 4) as usize];
    let al = [1, 8, 64][choose("align", 3) as usize];
    let bind = choose("bind", 3);
    for i in 0..3usize {
        let mut o = w.obj();
        if i == 0 {
            o.start();
        }
        let mut s = None;
        if i == at {
            let d = if ty == SHT_NOBITS {
                let d = o.bss(0, al);
                o.secs[d as usize - 1].name = "table".into();
                d
            } else {
                o.sec("table", ty, flags, al, &[])
            };
            s = Some(match bind {
                0 => o.sym("mark", GLOBAL, NOTYPE, d, 0, 0),
                1 => o.sym("mark", WEAK, NOTYPE, d, 0, 0),
                _ => o.secsym(d),
            });
        } else if around >> (i as u64 % 2) & 1 != 0 && ty != SHT_NOBITS {
            let d = o.blob(9 + i);
            o.sec("table", ty, flags, 1, &d);
        }
        if s.is_none() && bind < 2 {
            s = Some(o.undef("mark"));
        }
        if let Some(s) = s {
            let p = o.fill(28);
            let p = o.sec(".data.p", SHT_PROGBITS, A | W, 8, &p);
            o.rela(p, 8, R_64, s, 0);
            o.rela(p, 16, R_64, s, sym32("addend") as i32 as i64);
            o.rela(p, 24, R_PC32, s, 4);
        }
        w.add(o);
    }
    w
}
fn chk_empty(w: &World) {
    if !must_link(0) {
        return;
    }
    let (p, b) = start(w, "out");
    check_relocs(w, &p, &b);
    check_contents(w, &p, &b);
    let mut before = None;
    let mut after = None;
    let mut here = None;
    let mut al = 1;
    for (oi, (_, o)) in w.objs.iter().enumerate() {
        for (si, s) in o.secs.iter().enumerate() {
            if s.name != "table" {
                continue;
            }
            let x = b.at[oi][si].unwrap();
            if s.data.is_empty() {
                here = Some(x);
                al = s.align;
            } else if here.is_none() {
                before = Some(x + s.data.len() as u64);
            } else if after.is_none() {
                after = Some(x);
            }
        }
    }
    let here = here.unwrap();
    check(here % al == 0, "an empty section is aligned");
    check(before.map_or(true, |e| e <= here), "an empty section follows what precedes it");
    check(after.map_or(true, |s| here <= s), "an empty section precedes what follows it");
    let inside = p.o.ph.iter().any(|l| l.ty == PT_LOAD && l.va <= here && here <= up(l.va + l.memsz, 64));
    check(inside, "an empty section has a place in the program");
    reach("linked");
}

const IFUNC: u8 = 10;

/// symbols of every type; the value of an indirect function is not its address
fn types() -> World {
    let mut w = World::new();
    let mut a = w.obj();
    let t = a.start();
    let ty = [NOTYPE, OBJECT, FUNC, IFUNC][choose("type", 4) as usize];
    let bind = [LOCAL, GLOBAL, WEAK][choose("bind", 3) as usize];
    let d = a.blob(32);
    let r = a.sec(".data.r", SHT_PROGBITS, A | W, 8, &d);
    let own = bind == LOCAL || choose("own", 2) == 1;
    let mut b = w.obj();
    b.id = 7;
    let f = b.fill(24);
    let fs = b.sec(".text.f", SHT_PROGBITS, A | X, 4, &f);
    b.object("other", fs, 0, 4);
    let s = if own {
        a.sym("it", bind, ty, t, (sym8("value") & 15) as u64, 4)
    } else {
        b.sym("it", bind, ty, fs, if choose("zero", 2) == 1 { 0 } else { 12 }, 4);
        a.sym("it", GLOBAL, [NOTYPE, IFUNC][choose("reftype", 2) as usize], UNDEF, 0, 0)
    };
    match choose("reloc", 3) {
        0 => a.rela(r, 8, R_64, s, 3),
        1 => a.rela(r, 8, R_PC32, s, -4),
        _ => a.rela(r, 8, R_PLT32, s, -4),
    }
    w.add(a);
    w.add(b);
    w
}
fn chk_types(w: &World) {
    let indirect = w.objs.iter().any(|o| o.1.syms.iter().any(|s| s.ty == IFUNC && s.sec != UNDEF));
    if indirect {
        // the program would have to ask the function for the address
        check(status(0) != 0, "an indirect function is not taken for the function");
        check(status(0) < 256, "no crash");
        reach("refused");
        return;
    }
    if !must_link(0) {
        return;
    }
    let (p, b) = start(w, "out");
    check_relocs(w, &p, &b);
    reach("linked");
}
/// words that refer to the symbols of a library
fn lib() -> World {
    let mut w = World::new();
    let mut a = w.obj();
    a.start();
    let mut l = Lib::new();
    l.func("f", 0x40);
    l.object("v", 0x40, 8);
    w.lib("libx.so", l);
    let name = ["f", "v"][choose("kind", 2) as usize];
    let ty = [R_64, R_32, R_32S, R_PC32, R_PLT32][choose("type", 5) as usize];
    let d = a.blob(24);
    let site = match choose("site", 3) {
        0 => a.sec(".text.x", SHT_PROGBITS, A | X, 4, &d),
        1 => a.rodata(&d),
        _ => a.data(&d),
    };
    let y = a.undef(name);
    a.rela(site, 8, ty, y, sym64("addend") as i64);
    // and one without unknowns
    let p = a.fill(16);
    let p = a.sec(".data.p", SHT_PROGBITS, A | W, 8, &p);
    a.rela(p, 8, R_64, y, 0);
    w.add(a);
    w
}
fn chk_lib(w: &World) {
    if status(0) != 0 {
        check(may_overflow(w), "a relocation whose value fits is refused");
        reach("refused");
        return;
    }
    let (p, b) = start(w, "out");
    check_relocs(w, &p, &b);
    check_contents(w, &p, &b);
    reach("linked");
}
