//! C10: the symbol table of the output; C11: headers and the entry point.
use super::{q, t, Scen};
use crate::obj::*;
use crate::out::*;
use crate::rt::*;
use crate::world::*;

pub fn all() -> Vec<Scen> {
    vec![
        q("c10_symtab", table2, chk_table),
        q("c10_special", special, chk_table),
        q("c10_common", commons, chk_table),
        t("c10_symtab3", table3, chk_table),
        q("c11_entry", entry, chk_entry),
        q("c11_headers", headers, chk_headers),
        q("c11_groups", groups, chk_groups),
    ]
}
fn table(n: usize) -> World {
    let mut w = World::new();
    for i in 0..n {
        let mut o = w.obj();
        if i == 0 {
            o.start();
        }
        let d = o.fill(16);
        let d = o.data(&d);
        let e = o.fill(16);
        let e = o.rodata(&e);
        let f = o.bss(16, 8);
        let mut k = 0;
        let mut tag = |s: &str| {
            k += 1;
            format!("{}{}{}", s, i, k)
        };
        let p = o.fill(16);
        let p = o.sec(".data.ref", SHT_PROGBITS, A | W, 8, &p);
        let y = o.secsym(f);
        o.rela(p, 8, R_64, y, 0);
        for sec in [d, e, f] {
            let v = sym16(&tag("val")) as u64;
            let size = sym64(&tag("size"));
            let ty = sym8(&tag("type"));
            assume(ty < 3);
            let bind = choose(&tag("bind"), 3) as u8;
            let name = if bind == LOCAL { "local".into() } else { tag("sym") };
            let s = o.sym(&name, bind, ty, sec, v, size);
            let vis = sym8(&tag("vis"));
            assume(vis < 4);
            o.syms[s].other = vis;
        }
        w.add(o);
    }
    w
}
fn table2() -> World {
    table(2)
}
fn table3() -> World {
    table(3)
}
/// absolute symbols, file symbols, weak undefined, replaced weak definitions, libraries
fn special() -> World {
    let mut w = World::new();
    let mut a = w.obj();
    a.start();
    let d = a.fill(16);
    let d = a.data(&d);
    let v = sym64("abs");
    let n = choose("n", 3);
    a.sym("file.c", LOCAL, FILE, ABS, 0, 0);
    for i in 0..n {
        a.sym("loc", LOCAL, OBJECT, d, i, i + 1);
    }
    if choose("unnamed", 2) == 1 {
        a.sym("", LOCAL, NOTYPE, d, 4, 0);
    }
    if choose("abs?", 2) == 1 {
        a.sym("absolute", GLOBAL, NOTYPE, ABS, v, 0);
        a.sym("absloc", LOCAL, NOTYPE, ABS, v ^ 5, 0);
    }
    let wk = choose("weak", 3);
    if wk > 0 {
        a.sym("wk", WEAK, FUNC, d, sym8("wv") as u64, 3);
    }
    a.sym("maybe", WEAK, NOTYPE, UNDEF, 0, 0);
    w.add(a);
    let mut b = w.obj();
    let d = b.fill(24);
    let d = b.sec(".data.b", SHT_PROGBITS, A | W, 32, &d);
    if wk == 2 {
        b.sym("wk", GLOBAL, OBJECT, d, sym8("sv") as u64, 9);
    } else {
        b.undef("wk2");
        b.sym("wk2", LOCAL, NOTYPE, d, 2, 2);
        b.syms.remove(b.syms.len() - 2);
    }
    b.sym("file2.c", LOCAL, FILE, ABS, 0, 0);
    if choose("last", 2) == 1 {
        b.sym("", LOCAL, NOTYPE, d, 3, 1);
    }
    if choose("lib", 2) == 1 {
        let mut l = Lib::new();
        l.func("fn", 0x20);
        l.object("ob", 0x20, 4);
        w.lib("libx.so", l);
        let t = b.fill(16);
        let t = b.sec(".text.b", SHT_PROGBITS, A | X, 1, &t);
        let f = b.undef("fn");
        b.rela(t, 8, R_PLT32, f, -4);
        let f = b.undef("ob");
        b.rela(t, 12, R_PC32, f, -4);
    }
    w.add(b);
    w
}
/// common symbols, with and without a definition elsewhere
fn commons() -> World {
    let mut w = World::new();
    for i in 0..2u64 {
        let mut o = w.obj();
        if i == 0 {
            o.start();
        }
        let d = o.fill(24);
        let d = o.data(&d);
        let size = [4, 8, 40][choose(&format!("size{}", i), 3) as usize];
        let s = match choose(&format!("kind{}", i), 4) {
            0 => o.sym("com", GLOBAL, OBJECT, COMMON, 8 << i, size),
            1 => o.undef("com"),
            2 => o.sym("com", WEAK, OBJECT, d, sym8(&format!("v{}", i)) as u64, size),
            _ => o.sym("com", GLOBAL, if i == 0 { OBJECT } else { NOTYPE }, d, 5 + i, size),
        };
        o.rela(d, 8, R_64, s, 0);
        let t = o.sym("own", LOCAL, OBJECT, d, 16, 8);
        o.rela(d, 16, R_64, t, 0);
        o.bss(3, 1);
        w.add(o);
    }
    assume(!matches!(w.global("com"), Target::Undefined | Target::Duplicate));
    w
}
pub fn chk_table(w: &World) {
    if !must_link(0) {
        return;
    }
    let (p, b) = start(w, "out");
    check_headers(&p.o);
    let syms = p.o.symbols(".symtab");
    let z = &syms[0];
    check(z.name.is_empty() && (z.info == 0) & (z.value == 0) & (z.shndx == 0), "symbol 0 is null");
    let mut used = vec![false; syms.len()];
    used[0] = true;
    for (oi, (_, o)) in w.objs.iter().enumerate() {
        for (si, s) in o.syms.iter().enumerate() {
            if s.ty as u32 == SECTION as u32 {
                continue;
            }
            let t = w.target(oi, si);
            let (d, value) = match t {
                Target::At(a, x, y) => (&w.objs[a].1.syms[y], b.at[a][x].unwrap().wrapping_add(w.objs[a].1.syms[y].value)),
                Target::Abs(a, y) => (&w.objs[a].1.syms[y], w.objs[a].1.syms[y].value),
                Target::Common(a, y) => match b.common.iter().find(|c| c.0 == (a, y)) {
                    Some(c) => (&w.objs[a].1.syms[y], c.1),
                    None => continue,
                },
                _ => {
                    // undefined here: at most one entry, and undefined in the output
                    let v: Vec<&OSym> = syms.iter().filter(|k| k.name == s.name).collect();
                    check(v.len() <= 1, "a name has one entry");
                    for k in v {
                        check(k.shndx == 0, "a symbol nobody defines is undefined in the output");
                    }
                    continue;
                }
            };
            let local = s.bind == LOCAL;
            // the entry: by name; among local namesakes the next unused one
            let mut hit = None;
            let mut n = 0;
            for (i, k) in syms.iter().enumerate() {
                if k.name == s.name && (conc(k.info >> 4) == 0) == local {
                    n += 1;
                    if hit.is_none() && (!local || !used[i]) {
                        hit = Some(i);
                    }
                }
            }
            let i = match hit {
                Some(i) => i,
                None => fail("a defined symbol is missing from .symtab"),
            };
            if local {
                used[i] = true;
            } else {
                check(n == 1, "a global name has one entry");
            }
            let k = &syms[i];
            check(k.value == value, "value of a symbol");
            check(k.size == d.size, "size of a symbol");
            check(k.info == (d.bind << 4 | d.ty) as u64, "binding and type of a symbol");
            check(k.other == d.other as u64, "visibility of a symbol");
            let sh = conc(k.shndx);
            match t {
                Target::Abs(..) => check(sh == 0xfff1, "absolute symbols stay absolute"),
                Target::At(a, x, _) => {
                    let base = b.at[a][x].unwrap();
                    check(
                        sh != 0 && sh < p.o.sh.len() as u64 && {
                            let q = &p.o.sh[sh as usize];
                            q.name == w.objs[a].1.secs[x].name && q.addr <= base && base < q.addr + q.size
                        },
                        "section of a symbol",
                    );
                }
                Target::Common(..) => check(
                    sh != 0 && sh < p.o.sh.len() as u64 && {
                        let q = &p.o.sh[sh as usize];
                        q.ty == SHT_NOBITS as u64 && q.addr <= value && value + d.size <= q.addr + q.size
                    },
                    "section of a common symbol",
                ),
                _ => {}
            }
        }
    }
    // nothing is invented
    for k in syms.iter().skip(1) {
        let known = w.objs.iter().any(|(_, o)| o.syms.iter().any(|s| s.name == k.name));
        check(known, "every symbol of the output stems from an input");
    }
    reach("linked");
}
fn entry() -> World {
    let mut w = World::new();
    let wh = choose("where", 3);
    let v = sym16("value") as u64;
    for i in 0..3u64 {
        let mut o = w.obj();
        let d = o.fill(24);
        let d = match choose(&format!("sec{}", i), 3) {
            0 => o.text(&d),
            1 => o.sec(".text.start", SHT_PROGBITS, A | X, 64, &d),
            _ => o.rodata(&d),
        };
        if i == wh {
            let bind = if choose("weak", 2) == 1 { WEAK } else { GLOBAL };
            o.sym("_start", bind, FUNC, d, v, 4);
        } else if choose(&format!("other{}", i), 2) == 1 {
            o.undef("_start");
        } else {
            o.sym("_start", LOCAL, FUNC, d, 3, 1);
        }
        w.add(o);
    }
    w
}
fn chk_entry(w: &World) {
    if !must_link(0) {
        return;
    }
    let (p, b) = start(w, "out");
    match w.global("_start") {
        Target::At(o, s, y) => {
            let want = b.at[o][s].unwrap().wrapping_add(w.objs[o].1.syms[y].value);
            check(p.o.entry == want, "execution starts at _start");
        }
        _ => unreachable!(),
    }
    reach("linked");
}
/// sections of many kinds, options, libraries: everything that shows in headers
fn headers() -> World {
    let mut w = World::new();
    let mut a = w.obj();
    a.start();
    let k = choose("sections", 8);
    if k & 1 != 0 {
        let d = a.fill(13);
        a.sec(".debug_x", SHT_PROGBITS, 0, 1, &d);
        a.sec(".comment", SHT_PROGBITS, MERGE | STRINGS, 1, b"hello\0");
    }
    if k & 2 != 0 {
        let d = a.fill(16);
        a.sec(".init_array", SHT_INIT_ARRAY, A | W, 8, &d);
        let d = a.fill(8);
        a.sec(".note.y", SHT_NOTE, A, 4, &d);
    }
    if k & 4 != 0 {
        let d = a.fill(21);
        a.sec(".data", SHT_PROGBITS, A | W, 32, &d);
        a.bss(77, 64);
        a.sec(".note.GNU-stack", SHT_PROGBITS, 0, 1, &[]);
        a.sec(".empty", SHT_PROGBITS, A, 16, &[]);
    }
    if choose("local", 2) == 1 {
        let d = a.fill(9);
        let d = a.rodata(&d);
        a.sym("l1", LOCAL, OBJECT, d, 0, 4);
        a.sym("l2", LOCAL, OBJECT, d, 4, 4);
    }
    let lib = choose("lib", 4);
    if lib > 0 {
        let mut l = Lib::new();
        l.func("fn", 0x20);
        l.object("ob", 0x20, 4);
        w.lib("libx.so", l);
        let t = a.fill(32);
        let t = a.sec(".text.b", SHT_PROGBITS, A | X, 1, &t);
        if lib & 1 != 0 {
            let f = a.undef("fn");
            a.rela(t, 8, R_PLT32, f, -4);
        }
        if lib & 2 != 0 {
            let f = a.undef("ob");
            a.rela(t, 12, R_PC32, f, -4);
        }
    }
    w.add(a);
    w.opts = ["--hash-style=gnu", "--hash-style=sysv", "--hash-style=both"][choose("hash", 3) as usize].into();
    if choose("interp", 2) == 1 {
        w.opts += " -dynamic-linker /a/much/longer/path/to/the/program/interpreter.so.9";
    }
    w
}
pub fn chk_headers(w: &World) {
    if !must_link(0) {
        return;
    }
    let (p, _) = start(w, "out");
    check_segments(&p.o);
    check_headers(&p.o);
    // sections that are not loaded keep their contents
    for s in &w.objs[0].1.secs {
        if s.flags & A == 0 && !s.data.is_empty() {
            match p.o.sec(&s.name) {
                Some(i) => check(p.o.sec_data(i) == s.data, "contents of a section that is not loaded"),
                None => fail("a section is missing"),
            }
        }
    }
    reach("linked");
}
/// what says how the sections of an object belong together is not part of the program
fn groups() -> World {
    let mut w = World::new();
    for i in 0..2u8 {
        let mut o = w.obj();
        o.id = 3 * i;
        if i == 0 {
            o.start();
        }
        let k = choose(&format!("kind{}", i), 8);
        let mut members = vec![];
        let f = if k & 1 != 0 {
            let d = o.blob(24);
            let t = o.sec(".text.f", SHT_PROGBITS, A | X, 8, &d);
            let d = o.blob(20);
            let r = o.sec([".rodata.f", ".rodata"][choose("name", 2) as usize], SHT_PROGBITS, A, 4, &d);
            members.push(t);
            members.push(r);
            let l = o.secsym(r);
            o.rela(t, 12, R_PC32, l, 3);
            let f = o.sym("f", WEAK, FUNC, t, 8, 8);
            Some(f)
        } else if i == 1 {
            // (the first object always has another reference)
            None
        } else {
            Some(o.sym("f", WEAK, NOTYPE, UNDEF, 0, 0))
        };
        if let Some(f) = f {
            let d = o.fill(24);
            let d = o.sec(".data.p", SHT_PROGBITS, A | W, 8, &d);
            o.rela(d, 8, R_64, f, 0);
        }
        if k & 2 != 0 {
            // tells where a function is
            let d = o.fill(16);
            let d = o.sec("__list", SHT_PROGBITS, A | W | LINK_ORDER, 8, &d);
            o.secs[d as usize - 1].link = if i == 0 { 1 } else { members.first().copied().unwrap_or(d) };
            if i == 0 {
                let s = o.secsym(1);
                o.rela(d, 8, R_64, s, 8);
            }
            if choose("grouped", 2) == 1 {
                members.push(d);
            }
        }
        if k & 4 != 0 {
            // what other programs leave for the linker
            let d = o.fill(13);
            let x = o.sec(".llvm_addrsig", 0x6fff_4c03, EXCLUDE, 1, &d);
            o.secs[x as usize - 1].link = x;
            let d = o.fill(21);
            let x = o.sec(".gnu.lto_x", SHT_PROGBITS, EXCLUDE, 1, &d);
            if choose("symbol", 2) == 1 {
                o.sym("lto", LOCAL, OBJECT, x, 0, 4);
            }
        }
        if !members.is_empty() {
            let sig = match f {
                Some(f) if k & 1 != 0 => f,
                _ => o.sym("sig", LOCAL, NOTYPE, members[0], 0, 0),
            };
            let g = o.comdat(sig, &members);
            if choose("first", 2) == 1 {
                // (assemblers put groups in front of their members)
                let _ = g;
                o.rela_at = RelaAt::End;
            }
        }
        w.add(o);
    }
    w
}
fn chk_groups(w: &World) {
    if !must_link(0) {
        return;
    }
    let (p, b) = start(w, "out");
    check_all(w, &p, &b);
    for s in &p.o.sh {
        check(s.name != ".llvm_addrsig" && s.name != ".gnu.lto_x", "excluded sections are not part of the program");
    }
    reach("linked");
}
