//! C03: the bytes of the input sections; C04: loadable segments; C05: alignment; C06: zero
//! initialised data.
use super::{q, t, Scen};
use crate::obj::*;
use crate::out::*;
use crate::rt::*;
use crate::world::*;

pub fn all() -> Vec<Scen> {
    vec![
        q("c03_small", small, chk_concat),
        q("c03_concat", concat, chk_concat),
        q("c03_kinds", kinds, chk_contents_only),
        q("c03_around", around, chk_contents_only),
        t("c03_concat4", concat4, chk_concat),
        q("c04_kinds", kinds, chk_segments),
        q("c04_sizes", sizes, chk_segments),
        q("c04_stack", stack, chk_stack),
        q("c05_align", align, chk_align),
        q("c05_pair", pair, chk_align),
        q("c05_common", common, chk_nobits),
        t("c05_three", three, chk_align),
        q("c06_bss", bss, chk_nobits),
        q("c06_common", common, chk_nobits),
    ]
}
/// every symbol-less section is made findable through a pointer to it
fn pointers(o: &mut Obj) {
    let n = o.secs.len();
    let mut todo = vec![];
    for i in 0..n {
        if o.secs[i].ty == SHT_NOBITS || o.secs[i].data.len() < 8 {
            todo.push(i as u16 + 1);
        }
    }
    if todo.is_empty() {
        return;
    }
    let d = o.fill(8 + 8 * todo.len());
    let p = o.sec(".data.ptr", SHT_PROGBITS, A | W, 8, &d);
    for (k, s) in todo.iter().enumerate() {
        let y = o.secsym(*s);
        o.rela(p, 8 + 8 * k as u64, R_64, y, 0);
    }
}
/// sections of the same name from several objects
fn concat_n(n: usize) -> World {
    let mut w = World::new();
    let names = [(".text", A | X), (".data", A | W), (".rodata.x", A), ("custom", A | W)];
    let (name, flags) = names[choose("name", 4) as usize];
    let mut first = w.obj();
    first.start();
    w.add(first);
    for i in 0..n {
        let mut o = w.obj();
        let size = [8, 13, 16][choose(&format!("size{}", i), 3) as usize];
        let align = [1, 4, 16][choose(&format!("align{}", i), 3) as usize];
        let d = o.blob(size);
        o.sec(name, SHT_PROGBITS, flags, align, &d);
        // something else in between
        if i == 1 {
            let d = o.blob(9);
            o.sec(".data", SHT_PROGBITS, A | W, 1, &d);
            let d = o.blob(12);
            o.sec(name, SHT_PROGBITS, flags, 2, &d);
        }
        w.add(o);
    }
    w
}
fn concat() -> World {
    concat_n(2)
}
fn concat4() -> World {
    concat_n(3)
}
/// sections of next to nothing
fn small() -> World {
    let mut w = World::new();
    let names = [(".text", A | X), (".data", A | W), (".rodata.x", A), ("custom", A | W)];
    let (name, flags) = names[choose("name", 4) as usize];
    let front = choose("front", 2) == 1;
    for i in 0..3 {
        let mut o = w.obj();
        if i == 0 {
            o.start();
        }
        if i > 0 || front {
            let size = if i == 0 { 1 } else { [1, 0, 3][choose(&format!("size{}", i), 3) as usize] };
            let align = if i == 0 { 1 } else { [4, 1, 16][choose(&format!("align{}", i), 3) as usize] };
            let mut d = vec![];
            for k in 0..size {
                d.push(sym8(&format!("o{}b{}", i, k)));
            }
            o.sec(name, SHT_PROGBITS, flags, align, &d);
            pointers(&mut o);
        }
        w.add(o);
    }
    let mut o = w.obj();
    let d = o.blob(9);
    o.sec(name, SHT_PROGBITS, flags, [1, 8][choose("last", 2) as usize], &d);
    w.add(o);
    w
}
/// bytes around places that are relocated: two of any kind, next to each other or at the end of
/// the section
fn around() -> World {
    let mut w = World::new();
    let mut a = w.obj();
    a.start();
    let kinds: [(u32, &[u8], usize); 9] = [
        (R_64, &[], 8),
        (R_32, &[], 4),
        (R_32S, &[0x48, 0xc7, 0xc0], 4),
        (R_PC32, &[0x48, 0x8d, 0x05], 4),
        (R_PLT32, &[0xe8], 4),
        (R_GOTPCRELX, &[0xff, 0x15], 4),
        (R_GOTPCRELX, &[0xff, 0x25], 4),
        (R_REX_GOTPCRELX, &[0x48, 0x8b, 0x05], 4),
        (R_REX_GOTPCRELX, &[0x4c, 0x8b, 0x3d], 4),
    ];
    let gap = choose("gap", 3) as usize;
    let tail = choose("tail", 3) as usize;
    let mut d = a.blob(8 + 3);
    let mut at = vec![];
    for i in 0..2 {
        let (ty, code, n) = kinds[choose(&format!("kind{}", i), 9) as usize];
        for c in code {
            d.push(*c);
        }
        at.push((d.len() as u64, ty));
        for k in 0..n {
            d.push(sym8(&format!("in{}_{}", i, k)));
        }
        for k in 0..[gap, tail][i] {
            d.push(sym8(&format!("by{}_{}", i, k)));
        }
    }
    let site = a.sec(".text.x", SHT_PROGBITS, A | X, 1, &d);
    let d = a.blob(16);
    let f = a.sec(".text.f", SHT_PROGBITS, A | X, 16, &d);
    let s = match choose("target", 3) {
        0 => a.sym("sym", GLOBAL, FUNC, f, 8, 4),
        1 => a.sym("sym", LOCAL, FUNC, f, 8, 4),
        _ => {
            let mut l = Lib::new();
            l.func("sym", 0x40);
            w.lib("libx.so", l);
            a.undef("sym")
        }
    };
    for (off, ty) in at {
        a.rela(site, off, ty, s, if ty == R_64 || ty == R_32 || ty == R_32S { 0 } else { -4 });
    }
    // another piece of the same section behind it
    let mut b = w.obj();
    b.id = 1;
    let d = b.blob(12);
    b.sec(".text.x", SHT_PROGBITS, A | X, 1, &d);
    w.add(a);
    w.add(b);
    w
}
/// many sections: each once, in order, in the output section of its name
pub fn chk_many(w: &World) {
    if !must_link(0) {
        return;
    }
    let (p, b) = start(w, "out");
    check_contents(w, &p, &b);
    let mut last: Vec<(&str, u64)> = vec![];
    let mut spans: Vec<(u64, u64)> = vec![];
    for (oi, (_, o)) in w.objs.iter().enumerate() {
        for (si, s) in o.secs.iter().enumerate() {
            let x = b.at[oi][si].unwrap();
            check(s.align <= 1 || x % s.align == 0, "section alignment");
            match last.iter_mut().find(|l| l.0 == s.name) {
                Some(l) => {
                    check(l.1 < x, "sections of the same name are in input order");
                    l.1 = x;
                }
                None => last.push((&s.name, x)),
            }
            spans.push((x, s.data.len() as u64));
        }
    }
    spans.sort();
    for i in 1..spans.len() {
        check(spans[i - 1].0 + spans[i - 1].1 <= spans[i].0, "input sections do not overlap");
    }
    check_segments(&p.o);
    reach("linked");
}
fn chk_concat(w: &World) {
    if !must_link(0) {
        return;
    }
    let (p, b) = start(w, "out");
    check_contents(w, &p, &b);
    check_disjoint(w, &b);
    // same name: one output section, input order
    let mut all: Vec<(&str, u64, u64, u64)> = vec![];
    for (oi, (_, o)) in w.objs.iter().enumerate() {
        for (si, s) in o.secs.iter().enumerate() {
            all.push((&s.name, b.at[oi][si].unwrap(), s.data.len() as u64, s.align));
        }
    }
    for i in 0..all.len() {
        for j in i + 1..all.len() {
            if all[i].0 == all[j].0 {
                check(all[i].1 + all[i].2 <= all[j].1, "sections of the same name are in input order");
            }
        }
        let idx: Vec<usize> = (1..p.o.sh.len()).filter(|k| p.o.sh[*k].name == all[i].0).collect();
        check(idx.len() == 1, "there is one output section of each name");
        let s = &p.o.sh[idx[0]];
        check(
            all[i].1 >= s.addr && all[i].1 + all[i].2 <= s.addr + s.size,
            "input sections are part of the output section of their name",
        );
        let (at, n) = (s.off + (all[i].1 - s.addr), all[i].2);
        let mut ok = at + n <= p.o.raw.len() as u64;
        for k in 0..if ok { n.min(8) } else { 0 } {
            ok &= p.o.raw[(at + k) as usize] == p.o.mem(all[i].1 + k, 1)[0];
        }
        check(ok, "the file has the section where its header says");
    }
    reach("linked");
}
/// two sections out of a list of kinds, in the same or different objects
fn kinds() -> World {
    let list: [(&str, u32, u64, u64); 16] = [
        (".text", SHT_PROGBITS, A | X, 16),
        (".data", SHT_PROGBITS, A | W, 8),
        (".rodata", SHT_PROGBITS, A, 8),
        (".rodata.str1.1", SHT_PROGBITS, A | MERGE | STRINGS, 1),
        (".note.x", SHT_NOTE, A, 4),
        (".eh_frame", 0x7000_0001, A, 8),
        (".init_array", SHT_INIT_ARRAY, A | W, 8),
        (".bss", SHT_NOBITS, A | W, 16),
        (".init", SHT_PROGBITS, A | X, 4),
        (".data.rel.ro", SHT_PROGBITS, A | W, 32),
        (".bss.big", SHT_NOBITS, A | W, 64),
        (".text.grp", SHT_PROGBITS, A | X | 0x200, 1),
        // flags of the processor and of the system
        (".ltext", SHT_PROGBITS, A | X | 0x1000_0000, 16),
        (".lbss", SHT_NOBITS, A | W | 0x1000_0000, 32),
        (".data.retain", SHT_PROGBITS, A | W | 0x20_0000, 8),
        (".text.order", SHT_PROGBITS, A | X | 0x80, 4),
    ];
    let mut w = World::new();
    let mut a = w.obj();
    let last = choose("start", 2) == 1;
    if !last {
        a.start();
    }
    let same = choose("same", 2) == 1;
    let mut k = list[choose("k1", 16) as usize];
    let mut put = |o: &mut Obj, k: (&str, u32, u64, u64)| {
        let n = if k.1 == SHT_INIT_ARRAY { 16 } else { 21 };
        if k.1 == SHT_NOBITS {
            let s = o.sec(k.0, k.1, k.2, k.3, &[]);
            o.secs[s as usize - 1].size = 37;
        } else {
            let d = o.blob(n);
            o.sec(k.0, k.1, k.2, k.3, &d);
        }
    };
    put(&mut a, k);
    k = list[choose("k2", 16) as usize];
    if same {
        put(&mut a, k);
        pointers(&mut a);
        w.add(a);
        let mut b = w.obj();
        if last {
            b.start();
        }
        w.add(b);
    } else {
        pointers(&mut a);
        w.add(a);
        let mut b = w.obj();
        put(&mut b, k);
        pointers(&mut b);
        if last {
            b.start();
        }
        w.add(b);
    }
    w
}
fn chk_contents_only(w: &World) {
    if !must_link(0) {
        return;
    }
    let (p, b) = start(w, "out");
    check_contents(w, &p, &b);
    check_disjoint(w, &b);
    reach("linked");
}
pub fn chk_segments(w: &World) {
    if !must_link(0) {
        return;
    }
    let (p, b) = start(w, "out");
    check_segments(&p.o);
    check_perms(w, &p, &b);
    // nothing of the file but sections and headers is mapped twice, each section exactly once
    for s in p.o.sh.iter().skip(1) {
        if s.flags & A != 0 && s.size > 0 {
            let n = p.o.segs.iter().filter(|g| s.addr < g.va + g.data.len() as u64 && s.addr + s.size > g.va).count();
            check(n == 1, "a section is in exactly one segment");
        }
    }
    reach("linked");
}
const PT_GNU_STACK: u64 = 0x6474_e551;

/// `.note.GNU-stack`: 0 absent, 1 present, 2 asks for an executable stack
fn stack() -> World {
    let mut w = World::new();
    let note = |o: &mut Obj, n: u64, first: bool| {
        if n > 0 {
            // some assemblers leave bytes in it
            let d = if first { vec![] } else { vec![0; 4] };
            o.sec(".note.GNU-stack", SHT_PROGBITS, if n == 2 { X } else { 0 }, 1, &d);
        }
    };
    let mut a = w.obj();
    let n = choose("a", 3);
    let first = choose("place", 2) == 1;
    if first {
        note(&mut a, n, true);
    }
    a.start();
    let d = a.fill(12);
    a.data(&d);
    let f = a.undef("f21");
    let p = a.fill(16);
    let p = a.sec(".data.q", SHT_PROGBITS, A | W, 8, &p);
    a.rela(p, 8, R_64, f, 0);
    if !first {
        note(&mut a, n, true);
    }
    let mut b = w.obj();
    b.id = 4;
    let n = choose("b", 3);
    let d = b.fill(20);
    b.rodata(&d);
    note(&mut b, n, false);
    let mut m = w.obj();
    m.id = 5;
    note(&mut m, choose("m", 3), false);
    let d = m.fill(20);
    let s = m.sec(".text.f", SHT_PROGBITS, A | X, 1, &d);
    m.func("f21", s, 0, 20);
    w.add(a);
    w.add(b);
    w.files.push(("libm.a".into(), archive(&[("m.o", m.build(), vec!["f21"])])));
    w.objs.push((String::new(), m));
    w.run("a.o b.o libm.a -o out");
    w
}
fn chk_stack(w: &World) {
    if !must_link(0) {
        return;
    }
    let (p, b) = start(w, "out");
    let (mut exec, mut plain) = (false, true);
    for (_, o) in &w.objs {
        let mut notes = o.secs.iter().filter(|s| s.name == ".note.GNU-stack");
        match notes.next() {
            None => plain = false,
            Some(s) if s.flags & X != 0 => {
                exec = true;
                plain = false
            }
            _ => {}
        }
    }
    let st: Vec<_> = p.o.ph.iter().filter(|h| h.ty == PT_GNU_STACK).collect();
    check(st.len() == 1, "the stack is described once");
    for h in st {
        check(h.flags & 6 == 6, "the stack can be read and written");
        check(!exec || h.flags & 1 == 1, "the stack is executable if an object needs it");
        check(!plain || h.flags & 1 == 0, "the stack is not executable if every object says so");
    }
    check_segments(&p.o);
    check_perms(w, &p, &b);
    check_contents(w, &p, &b);
    reach("linked");
}
/// sizes around page boundaries, empty sections
fn sizes() -> World {
    let list = [0usize, 8, 4079, 4096, 4104, 0x11008];
    let mut w = World::new();
    let mut a = w.obj();
    a.start();
    let n = list[choose("rodata", 6) as usize];
    let d = if n == 0 { vec![] } else { a.fill(n) };
    a.rodata(&d);
    let n = list[choose("data", 6) as usize];
    let d = if n == 0 { vec![] } else { a.fill(n) };
    a.data(&d);
    let n = [0, 1, 4096, 9000, 0x23_4567][choose("bss", 5) as usize];
    a.bss(n, 32);
    let n = list[choose("text", 3) as usize];
    let d = if n == 0 { vec![] } else { a.fill(n) };
    a.sec(".text.x", SHT_PROGBITS, A | X, 1, &d);
    pointers(&mut a);
    w.add(a);
    w
}
fn align() -> World {
    let als = [0u64, 1, 2, 8, 16, 256, 4096, 8192];
    let mut w = World::new();
    let mut a = w.obj();
    a.start();
    let d = a.fill(11);
    a.sec(".data.a", SHT_PROGBITS, A | W, 1, &d);
    let al = als[choose("align", 8) as usize];
    let kind = choose("kind", 5);
    let put = |o: &mut Obj, al: u64| {
        let d = o.fill(19);
        match kind {
            0 => o.sec(".text", SHT_PROGBITS, A | X, al, &d),
            1 => o.sec(".data", SHT_PROGBITS, A | W, al, &d),
            2 => o.sec(".rodata", SHT_PROGBITS, A, al, &d),
            3 => o.sec("other", SHT_PROGBITS, A | W, al, &d),
            _ => {
                let s = o.sec(".bss", SHT_NOBITS, A | W, al, &[]);
                o.secs[s as usize - 1].size = 19;
                s
            }
        }
    };
    put(&mut a, 1);
    pointers(&mut a);
    w.add(a);
    let mut b = w.obj();
    put(&mut b, al);
    pointers(&mut b);
    w.add(b);
    let mut c = w.obj();
    put(&mut c, als[choose("align2", 8) as usize]);
    pointers(&mut c);
    w.add(c);
    w
}
/// alignments of different sections of one segment
fn pair() -> World {
    let als = [1u64, 4, 128, 4096, 16384];
    let mut w = World::new();
    let mut a = w.obj();
    a.start();
    let flags = [A | W, A, A | X][choose("flags", 3) as usize];
    for (i, n) in ["s1", "s2", "s3"].iter().enumerate() {
        let al = als[choose(&format!("align{}", i), 5) as usize];
        let d = a.fill(13 + i);
        a.sec(n, SHT_PROGBITS, flags, al, &d);
    }
    w.add(a);
    w
}
fn three() -> World {
    let als = [1u64, 8, 64, 512, 4096, 16384];
    let mut w = World::new();
    for i in 0..3 {
        let mut a = w.obj();
        if i == 2 {
            a.start();
        }
        let al = als[choose(&format!("align{}", i), 6) as usize];
        let d = a.fill(13 + i);
        match choose(&format!("kind{}", i), 3) {
            0 => a.sec(".data", SHT_PROGBITS, A | W, al, &d),
            1 => a.sec(".text", SHT_PROGBITS, A | X, al, &d),
            _ => a.bss(13, al),
        };
        pointers(&mut a);
        w.add(a);
    }
    w
}
fn chk_align(w: &World) {
    if !must_link(0) {
        return;
    }
    let (p, b) = start(w, "out");
    check_align(w, &b);
    check_disjoint(w, &b);
    check_contents(w, &p, &b);
    reach("linked");
}
/// zero-initialised sections of two objects mixed with initialised ones
fn bss() -> World {
    let mut w = World::new();
    for i in 0..2 {
        let mut a = w.obj();
        if i == 0 {
            a.start();
        }
        let n = [1u64, 40, 5000][choose(&format!("size{}", i), 3) as usize];
        match choose(&format!("kind{}", i), 4) {
            0 => {
                a.bss(n, 8);
            }
            1 => {
                let d = a.fill(24);
                a.data(&d);
                a.bss(n, 32);
            }
            2 => {
                // same name as initialised data of the other object
                let s = a.sec(".data", SHT_NOBITS, A | W, 8, &[]);
                a.secs[s as usize - 1].size = n;
            }
            _ => {
                a.bss(n, 1);
                let d = a.fill(24);
                a.data(&d);
            }
        }
        pointers(&mut a);
        w.add(a);
    }
    if choose("lib", 2) == 1 {
        let mut l = Lib::new();
        l.object("v", 0x40, 24);
        w.lib("libx.so", l);
        let mut c = w.obj();
        let d = c.fill(16);
        let d = c.data(&d);
        let v = c.undef("v");
        c.rela(d, 8, R_64, v, 0);
        w.add(c);
    }
    w
}
/// common symbols
fn common() -> World {
    let mut w = World::new();
    let sizes = [1u64, 24, 100];
    for i in 0..2 {
        let mut a = w.obj();
        if i == 0 {
            a.start();
            a.bss(7, 1);
        }
        let d = a.fill(32);
        let d = a.data(&d);
        let n = sizes[choose(&format!("size{}", i), 3) as usize];
        let al = [1u64, 8, 64, 8192][choose(&format!("align{}", i), 4) as usize];
        let x = a.sym("x", GLOBAL, OBJECT, COMMON, al, n);
        a.rela(d, 8, R_64, x, 0);
        let name = if choose(&format!("other{}", i), 2) == 1 { "y" } else { "z" };
        let y = a.sym(name, GLOBAL, OBJECT, COMMON, 16, 40);
        a.rela(d, 16, R_64, y, 0);
        pointers(&mut a);
        w.add(a);
    }
    w
}
fn chk_nobits(w: &World) {
    if !must_link(0) {
        return;
    }
    let (p, b) = start(w, "out");
    check_nobits(w, &p, &b);
    check_disjoint(w, &b);
    check_align(w, &b);
    check_contents(w, &p, &b);
    check_relocs(w, &p, &b);
    // a common symbol is big and aligned enough for every object
    for c in &b.common {
        for (_, o) in &w.objs {
            for s in &o.syms {
                if s.sec == COMMON && s.name == w.objs[c.0 .0].1.syms[c.0 .1].name {
                    check(s.value == 0 || c.1 % s.value == 0, "common symbol alignment");
                }
            }
        }
    }
    reach("linked");
}
