//! C13: the procedure linkage table; C14: COPY relocations; C15: the dynamic section;
//! C16: symbol hash tables; C17: initialisation and termination.
use super::c18::{define, Cand};
use super::{q, t, Scen};
use crate::ld::*;
use crate::obj::*;
use crate::out::*;
use crate::rt::*;
use crate::world::*;

pub fn all() -> Vec<Scen> {
    vec![
        q("c13_lazy", plt, chk_plt),
        q("c13_two", plt_two, chk_plt),
        q("c13_base", base, chk_plt),
        t("c13_four", plt4, chk_plt),
        q("c14_copy", copy, chk_copy),
        q("c14_uses", copy_uses, chk_copy),
        q("c15_needed", needed_libs, chk_needed),
        q("c15_repeat", repeat, chk_repeat),
        q("c15_tags", tags, chk_tags),
        q("c16_names", hash6, chk_hash),
        q("c16_many", hash_many, chk_hash),
        q("c16_chars", hash_chars, chk_hash),
        t("c16_chars2", hash_chars2, chk_hash),
        t("c16_ten", hash10, chk_hash),
        q("c17_arrays", arrays, chk_arrays),
        q("c17_bounds", bounds, chk_arrays),
        q("c17_priority", priority, chk_arrays),
        q("c17_names", array_names, chk_arrays),
        q("c17_preinit", preinit, chk_arrays),
        t("c17_priority4", priority4, chk_arrays),
    ]
}

pub fn refer(o: &mut Obj, name: &str, how: u64, tag: u64) {
    let s = match o.syms.iter().position(|s| s.name == name && s.bind != LOCAL) {
        Some(s) => s,
        None => o.undef(name),
    };
    match how {
        0 => {
            let d = o.blob(16);
            let t = o.sec(".text.c", SHT_PROGBITS, A | X, 4, &d);
            o.rela(t, 9, R_PLT32, s, -4);
        }
        1 => {
            let d = o.fill(16);
            let t = o.sec(".data.p", SHT_PROGBITS, A | W, 8, &d);
            o.rela(t, 8, R_64, s, 0);
        }
        2 => {
            let mut d = o.fill(16);
            d[9..12].copy_from_slice(&[0x48, 0x8d, 0x05]);
            let t = o.sec(".text.l", SHT_PROGBITS, A | X, 4, &d);
            o.rela(t, 12, R_PC32, s, -4);
        }
        3 => {
            let mut d = o.fill(16);
            d[8..10].copy_from_slice(&[0xff, 0x15]);
            let t = o.sec(".text.g", SHT_PROGBITS, A | X, 4, &d);
            o.rela(t, 10, R_GOTPCRELX, s, -4);
        }
        4 => {
            let mut d = o.fill(16);
            d[8..11].copy_from_slice(&[0x48, 0x8b, 0x3d]);
            let t = o.sec(".text.r", SHT_PROGBITS, A | X, 4, &d);
            o.rela(t, 11, R_REX_GOTPCRELX, s, -4);
        }
        _ => {
            let d = o.fill(16);
            let t = o.sec(".text.s", SHT_PROGBITS, A | X, 4, &d);
            o.rela(t, 8, R_32S, s, sym8(&format!("sadd{}", tag)) as i64);
        }
    }
}
fn plt_n(n: u64) -> World {
    let mut w = World::new();
    let mut l = Lib::new();
    let mut a = w.obj();
    a.start();
    for i in 0..n {
        l.func(&format!("fn{}", i), 0x20 * (i + 1));
        let how = choose(&format!("how{}", i), 7);
        if how < 6 {
            refer(&mut a, &format!("fn{}", i), how, i);
        }
    }
    w.lib("libx.so", l);
    w.add(a);
    w
}
fn plt() -> World {
    plt_n(3)
}
fn plt4() -> World {
    plt_n(4)
}
/// the same functions from two objects
fn plt_two() -> World {
    let mut w = World::new();
    let mut l = Lib::new();
    l.func("fa", 0x20);
    l.func("fb", 0x40);
    w.lib("libx.so", l);
    let mut m = Lib::new();
    m.func("fb", 0x80);
    m.func("fc", 0x40);
    w.lib("liby.so", m);
    for i in 0..2 {
        let mut a = w.obj();
        if i == 1 {
            a.start();
        }
        for (k, n) in ["fa", "fb", "fc"].iter().enumerate() {
            let how = choose(&format!("how{}{}", i, k), 3);
            if how < 2 {
                let h = if how == 0 { 0 } else { 1 + (k as u64 + i) % 4 };
                refer(&mut a, n, h, i * 3 + k as u64);
            }
        }
        w.add(a);
    }
    w
}
pub fn chk_plt(w: &World) {
    if !must_link(0) {
        return;
    }
    let (p, b) = start(w, "out");
    check_relocs(w, &p, &b);
    lazy(&Out::load("out"));
    reach("linked");
}
/// references to the table itself, by its name
fn base() -> World {
    let mut w = World::new();
    let mut l = Lib::new();
    l.func("fa", 0x20);
    l.object("va", 0x20, 8);
    w.lib("libx.so", l);
    for i in 0..2 {
        let mut a = w.obj();
        if i == 1 {
            a.start();
        }
        let g = if choose(&format!("name{}", i), 2) == 1 { Some(a.undef("_GLOBAL_OFFSET_TABLE_")) } else { None };
        let d = a.blob(24);
        let d = a.data(&d);
        let f = a.undef("fa");
        let v = a.undef("va");
        match choose(&format!("use{}", i), 4) {
            0 => a.rela(d, 8, R_64, f, 0),
            1 => a.rela(d, 8, R_64, v, 0),
            2 => refer(&mut a, "fa", 3, i),
            _ => refer(&mut a, "fa", 0, i),
        }
        if let Some(g) = g {
            let d = a.blob(32);
            let t = a.sec(".text.b", SHT_PROGBITS, A | X, 1, &d);
            a.rela(t, 8, R_PC32, g, sym8("addend") as i8 as i64);
            a.rela(t, 12, R_64, g, 8);
            a.rela(t, 20, R_PC32, g, -4);
        }
        w.add(a);
    }
    w
}
/// before ld.so has bound anything, every slot leads to the resolver with the right arguments
fn lazy(o: &Out) {
    let d = dynamic(o);
    let got = d.need(DT_PLTGOT, "no DT_PLTGOT");
    let (t, n) = match d.get(DT_JMPREL) {
        Some(t) => (t, d.need(DT_PLTRELSZ, "no DT_PLTRELSZ") / 24),
        None => return,
    };
    if n == 0 {
        return;
    }
    check(d.get(DT_PLTREL) == Some(7), "DT_PLTREL is DT_RELA");
    check(o.perms(got, 24) & 2 != 0, "the reserved words of .got.plt are writable");
    let mut slots = vec![];
    let rel = |va: u64| conc(o.get(va, 4)) as u32 as i32 as i64 as u64;
    for i in 0..n {
        let slot = conc(o.get(t + i * 24, 8));
        check(conc(o.get(t + i * 24 + 8, 8)) & 0xffff_ffff == R_JUMP_SLOT as u64, "DT_JMPREL holds JUMP_SLOT relocations");
        check(slot >= got + 24 && slot % 8 == 0, "slots follow the reserved words");
        check(!slots.contains(&slot), "every JUMP_SLOT has its own slot");
        slots.push(slot);
        let push = conc(o.get(slot, 8));
        check(o.perms(push, 10) & 1 != 0, "the slot leads to code");
        check(conc(o.get(push, 1)) == 0x68 && conc(o.get(push + 1, 4)) == i, "the PLT entry pushes its relocation's index");
        check(conc(o.get(push + 5, 1)) == 0xe9, "the PLT entry goes on to PLT0");
        let plt0 = (push + 10).wrapping_add(rel(push + 6));
        check(conc(o.get(plt0, 2)) == 0x35ff, "PLT0 pushes");
        check((plt0 + 6).wrapping_add(rel(plt0 + 2)) == got + 8, "PLT0 pushes the link map");
        check(conc(o.get(plt0 + 6, 2)) == 0x25ff, "PLT0 jumps");
        check((plt0 + 12).wrapping_add(rel(plt0 + 8)) == got + 16, "PLT0 jumps to the resolver");
        let e = push - 6;
        check(conc(o.get(e, 2)) == 0x25ff && (e + 6).wrapping_add(rel(e + 2)) == slot, "the PLT entry jumps through its slot");
    }
}

fn copy() -> World {
    let mut w = World::new();
    let sizes = [1u64, 4, 8, 40, 64, 100, 2048];
    let mut l = Lib::new();
    let mut a = w.obj();
    a.start();
    a.bss(choose("bss", 2) * 30 + 1, 1);
    for i in 0..3 {
        let n = sizes[choose(&format!("size{}", i), if i == 2 { 7 } else { 6 }) as usize];
        l.object(&format!("ob{}", i), 0x40 * (1 + 2 * i), n);
        refer(&mut a, &format!("ob{}", i), [1, 2, 5][i as usize], i);
    }
    let d = a.fill(16);
    let d2 = a.sec(".data.b", SHT_PROGBITS, A | W, 8, &d);
    let y = a.secsym(2);
    a.rela(d2, 8, R_64, y, 0);
    w.lib("libx.so", l);
    w.add(a);
    w
}
/// every way of using objects, from two objects and two libraries
fn copy_uses() -> World {
    let mut w = World::new();
    let mut l = Lib::new();
    l.object("oa", 0x40, 24);
    l.func("fa", 0x40);
    let mut m = Lib::new();
    m.object("ob", 0x80, 12);
    m.object("oa", 0xc0, 8);
    w.lib("libx.so", l);
    w.lib("liby.so", m);
    for i in 0..2 {
        let mut a = w.obj();
        if i == 0 {
            a.start();
        }
        for (k, n) in ["oa", "ob", "fa"].iter().enumerate() {
            let how = choose(&format!("how{}{}", i, k), if k == 2 { 2 } else { 6 });
            if how > 0 {
                refer(&mut a, n, how, i * 3 + k as u64);
            }
        }
        w.add(a);
    }
    w
}
pub fn chk_copy(w: &World) {
    if !must_link(0) {
        return;
    }
    let (p, b) = start(w, "out");
    check_relocs(w, &p, &b);
    check_contents(w, &p, &b);
    check_segments(&p.o);
    let mut spans: Vec<(u64, u64)> = vec![];
    for (at, ty, name, _) in &p.rels {
        if *ty != R_COPY as u64 {
            continue;
        }
        let (l, s) = match p.libs.iter().find_map(|l| l.lib.syms.iter().find(|s| s.defined && s.name == *name).map(|s| (l, s))) {
            Some(x) => x,
            None => fail("a COPY relocation copies something that does not exist"),
        };
        let i = match lookup(&p.o, &p.d, name) {
            Some(i) => i,
            None => fail("a copied object cannot be found"),
        };
        let e = dsym(&p.o, &p.d, i);
        check(e.size == s.size, "a copied object keeps its size");
        check((e.value == *at) & (e.shndx != 0), "the program's definition of a copied object is its copy");
        let al = 1u64 << (l.base + s.value).trailing_zeros().min(6);
        check(at % al == 0, "a copied object is as aligned as the original");
        check(p.o.perms(*at, s.size) & 2 != 0, "a copied object is writable");
        spans.push((*at, s.size));
    }
    for (k, sh) in p.o.sh.iter().enumerate() {
        if sh.flags & A != 0 && sh.size > 0 && !spans.iter().any(|s| s.0 >= sh.addr && s.0 + s.1 <= sh.addr + sh.size) {
            spans.push((sh.addr, sh.size));
        }
        let _ = k;
    }
    for (oi, (_, o)) in w.objs.iter().enumerate() {
        for (si, s) in o.secs.iter().enumerate() {
            if s.ty == SHT_NOBITS {
                if let Some(x) = b.at[oi][si] {
                    spans.push((x, s.size));
                }
            }
        }
    }
    let n = p.rels.iter().filter(|r| r.1 == R_COPY as u64).count();
    for i in 0..n {
        for j in 0..spans.len() {
            if i != j {
                let ((a, n), (c, m)) = (spans[i], spans[j]);
                check(a + n <= c || c + m <= a, "copied objects have their own space");
            }
        }
    }
    reach("linked");
}

/// which libraries the program asks for
fn needed_libs() -> World {
    let mut w = World::new();
    let mut a = w.obj();
    a.start();
    let mut args = String::from("a.o ");
    for i in 0..3u64 {
        let mut l = Lib::new();
        l.func(&format!("fn{}", i), 0x20);
        l.object(&format!("ob{}", i), 0x20, 8);
        // a symbol that this library only uses
        l.undef(&format!("fn{}", (i + 1) % 3));
        if choose(&format!("soname{}", i), 2) == 1 {
            l.soname = Some(format!("libreal{}.so.1", i));
        }
        match choose(&format!("used{}", i), 3) {
            0 => {}
            1 => refer(&mut a, &format!("fn{}", i), 0, i),
            _ => refer(&mut a, &format!("ob{}", i), 1, i),
        }
        if choose(&format!("as{}", i), 2) == 1 {
            args.push_str("--as-needed ");
        } else {
            args.push_str("--no-as-needed ");
        }
        args.push_str(&format!("lib{}.so ", i));
        w.lib(&format!("lib{}.so", i), l);
    }
    w.add(a);
    w.run(&(args + "-o out"));
    w
}
pub fn chk_needed(w: &World) {
    if !must_link(0) {
        return;
    }
    let (p, b) = start(w, "out");
    let got = needed(&p.o, &p.d);
    let mut want = vec![];
    for (i, (f, l)) in w.libs.iter().enumerate() {
        let used = w.objs[0].1.syms.iter().any(|s| l.syms.iter().any(|k| k.defined && k.name == s.name));
        let as_needed = w.runs[0].contains(&format!("--as-needed lib{}", i)) && !w.runs[0].contains(&format!("--no-as-needed lib{}", i));
        if used || !as_needed {
            want.push(l.soname.clone().unwrap_or(f.clone()));
        }
    }
    check(got == want, "DT_NEEDED lists the libraries the program needs, in order");
    check_relocs(w, &p, &b);
    reach("linked");
}
/// libraries named twice, or needed only by a member of an archive
fn repeat() -> World {
    let mut w = World::new();
    let mut a = w.obj();
    a.start();
    refer(&mut a, "viam", 0, 0);
    let mut m = Cand { ar: 0, member: "m.o".into(), o: Obj::new(), defs: vec![] };
    m.o.id = 1;
    define(&mut m, "viam", GLOBAL);
    for (i, n) in ["libx.so", "liby.so"].iter().enumerate() {
        let mut l = Lib::new();
        l.func(&format!("fn{}", i), 0x20);
        l.object(&format!("ob{}", i), 0x20, 8);
        if choose(&format!("soname{}", i), 2) == 1 {
            l.soname = Some(format!("real{}", n));
        }
        w.lib(n, l);
        match choose(&format!("used{}", i), 4) {
            0 => {}
            1 => refer(&mut a, &format!("fn{}", i), 0, 1 + i as u64),
            2 => refer(&mut m.o, &format!("fn{}", i), 0, 3 + i as u64),
            _ => refer(&mut m.o, &format!("ob{}", i), 1, 3 + i as u64),
        }
    }
    w.add(a);
    let mode = ["--as-needed", "--no-as-needed"];
    let list = [
        "a.o lib0.a libx.so liby.so",
        "a.o lib0.a libx.so liby.so libx.so",
        "a.o libx.so libx.so lib0.a libx.so liby.so liby.so",
        "lib0.a liby.so a.o --no-as-needed libx.so --as-needed libx.so",
    ];
    w.files.push(("lib0.a".into(), archive(&[("m.o", m.o.build(), vec!["viam"])])));
    w.run(&format!("{} {} -o out", mode[choose("mode", 2) as usize], list[choose("line", 4) as usize]));
    w.objs.push((String::new(), m.o));
    w
}
fn chk_repeat(w: &World) {
    if !must_link(0) {
        return;
    }
    let (p, b) = start(w, "out");
    let mut want: Vec<String> = vec![];
    let mut always = false;
    for x in w.runs[0].split(' ') {
        if x.ends_with("as-needed") {
            always = x == "--no-as-needed";
        }
        for (f, l) in &w.libs {
            if f == x {
                let used = w.objs.iter().any(|o| o.1.syms.iter().any(|s| l.syms.iter().any(|k| k.defined && k.name == s.name)));
                let n = l.soname.clone().unwrap_or(f.clone());
                if (used || always) && !want.contains(&n) {
                    want.push(n);
                }
            }
        }
    }
    check(needed(&p.o, &p.d) == want, "DT_NEEDED lists the libraries the program needs, in order");
    check_relocs(w, &p, &b);
    reach("linked");
}
/// the tags describe the tables
fn tags() -> World {
    let mut w = World::new();
    let mut a = w.obj();
    a.start();
    let mut l = Lib::new();
    for i in 0..3u64 {
        l.func(&format!("fn{}", i), 0x20 * i + 0x20);
        l.object(&format!("ob{}", i), 0x20 * i + 0x20, 8);
        let how = choose(&format!("how{}", i), 4);
        match how {
            0 => {}
            1 => refer(&mut a, &format!("fn{}", i), 0, i),
            2 => refer(&mut a, &format!("ob{}", i), 2, i),
            _ => refer(&mut a, &format!("fn{}", i), 4, i),
        }
    }
    if choose("init", 2) == 1 {
        let d = a.fill(16);
        a.sec(".init", SHT_PROGBITS, A | X, 4, &d);
        let d = a.fill(12);
        a.sec(".fini", SHT_PROGBITS, A | X, 4, &d);
    }
    let arrays = choose("arrays", 4);
    if arrays & 1 != 0 {
        let d = a.fill(16);
        a.sec(".init_array", SHT_INIT_ARRAY, A | W, 8, &d);
    }
    if arrays & 2 != 0 {
        let d = a.fill(24);
        a.sec(".fini_array", SHT_FINI_ARRAY, A | W, 8, &d);
    }
    w.lib("libx.so", l);
    w.add(a);
    w.opts = ["--hash-style=gnu", "--hash-style=sysv", "--hash-style=both"][choose("style", 3) as usize].into();
    w
}
pub fn chk_tags(w: &World) {
    if !must_link(0) {
        return;
    }
    let (p, b) = start(w, "out");
    let (o, d) = (&p.o, &p.d);
    for (i, t) in d.tags.iter().enumerate() {
        check(t.0 == DT_NEEDED || !d.tags[..i].iter().any(|u| u.0 == t.0), "a dynamic tag occurs once");
    }
    check(d.get(DT_SYMENT) == Some(24), "DT_SYMENT");
    check(d.get(DT_STRSZ).is_some() && d.get(DT_SYMTAB).is_some(), "the dynamic symbol table is described");
    let sec = |ty: u32, name: &str| o.sh.iter().position(|s| s.ty == ty as u64 && (name.is_empty() || s.name == name));
    let at = |tag: u64, size: u64, i: Option<usize>, what: &str| {
        match (d.get(tag), i) {
            (Some(v), Some(i)) => {
                check(v == o.sh[i].addr, what);
                if size != 0 {
                    check(d.get(size) == Some(o.sh[i].size), what);
                }
            }
            (None, Some(i)) => check(o.sh[i].size == 0, what),
            (Some(_), None) => check(size != 0 && d.get(size) == Some(0), what),
            (None, None) => {}
        }
    };
    let ds = sec(SHT_DYNSYM, "");
    at(DT_SYMTAB, 0, ds, "DT_SYMTAB");
    at(DT_STRTAB, DT_STRSZ, ds.map(|i| o.sh[i].link as usize), "DT_STRTAB and DT_STRSZ");
    at(DT_RELA, DT_RELASZ, sec(SHT_RELA, ".rela.dyn"), "DT_RELA and DT_RELASZ");
    at(DT_JMPREL, DT_PLTRELSZ, sec(SHT_RELA, ".rela.plt"), "DT_JMPREL and DT_PLTRELSZ");
    at(DT_HASH, 0, sec(SHT_HASH, ""), "DT_HASH");
    at(DT_GNU_HASH, 0, sec(SHT_GNU_HASH, ""), "DT_GNU_HASH");
    at(DT_INIT_ARRAY, DT_INIT_ARRAYSZ, sec(SHT_INIT_ARRAY, ""), "DT_INIT_ARRAY and DT_INIT_ARRAYSZ");
    at(DT_FINI_ARRAY, DT_FINI_ARRAYSZ, sec(SHT_FINI_ARRAY, ""), "DT_FINI_ARRAY and DT_FINI_ARRAYSZ");
    check_segments(o);
    check_headers(o);
    check(d.get(DT_RELA).is_none() || d.get(DT_RELAENT) == Some(24), "DT_RELAENT");
    check(d.get(DT_JMPREL).is_none() || d.get(DT_PLTREL) == Some(7), "DT_PLTREL");
    let style = &w.opts;
    check(d.get(DT_HASH).is_some() == !style.ends_with("gnu"), "--hash-style selects DT_HASH");
    check(d.get(DT_GNU_HASH).is_some() == !style.ends_with("sysv"), "--hash-style selects DT_GNU_HASH");
    for (n, tag) in [(".init", DT_INIT), (".fini", DT_FINI)] {
        let i = w.objs[0].1.secs.iter().position(|s| s.name == n);
        check(d.get(tag) == i.map(|i| b.at[0][i].unwrap()), "DT_INIT and DT_FINI");
    }
    // every symbol the program takes from libraries is in the table, with its type
    for s in &w.objs[0].1.syms {
        if s.sec != UNDEF {
            continue;
        }
        let n = o.sh[ds.unwrap()].size / 24;
        let all: Vec<DSym> = (1..n).map(|i| dsym(o, d, i)).filter(|e| e.name == s.name).collect();
        check(all.len() == 1, "a symbol from a library has one entry in .dynsym");
        let ty = if s.name.starts_with("fn") { FUNC } else { OBJECT };
        check(all[0].info == (GLOBAL << 4 | ty) as u64, "type and binding in .dynsym");
    }
    let z = dsym(o, d, 0);
    check(z.name.is_empty() && (z.info == 0) & (z.value == 0) & (z.size == 0), "dynamic symbol 0 is null");
    reach("linked");
}

const NAMES: [&str; 12] = [
    "printf", "exit", "f", "g", "__libc_start_main", "a_rather_long_symbol_name_that_overflows", "foo", "fop",
    "zzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzz", "syscall", "B", "_ZNSt6vectorIiSaIiEE9push_backEOi",
];
fn hash_n(n: usize) -> World {
    let mut w = World::new();
    let mut l = Lib::new();
    let mut a = w.obj();
    a.start();
    for (i, name) in NAMES[..n].iter().enumerate() {
        l.func(name, 0x10 * i as u64);
        if choose(&format!("use{}", i), 2) == 1 {
            refer(&mut a, name, 0, 0);
        }
    }
    w.lib("libx.so", l);
    w.add(a);
    w.opts = ["--hash-style=gnu", "--hash-style=sysv", "--hash-style=both"][choose("style", 3) as usize].into();
    w
}
fn hash6() -> World {
    hash_n(8)
}
fn hash10() -> World {
    hash_n(12)
}
/// names with arbitrary characters, next to fixed ones
fn hash_chars() -> World {
    chars(false)
}
fn hash_chars2() -> World {
    chars(true)
}
fn chars(deep: bool) -> World {
    let mut w = World::new();
    let mut l = Lib::new();
    let mut a = w.obj();
    a.start();
    // the position of the arbitrary character
    let (pre, post) = [("", ""), ("abcdefg", ""), ("abcdef", "g"), ("_ZN4core3", "fmtE")][choose("place", 4) as usize];
    let c = sym8("c");
    assume((c != 0) & (c < 0x80));
    let mut v = pre.as_bytes().to_vec();
    v.push(c);
    if deep {
        let e = sym8("e");
        assume((e != 0) & (e < 0x80));
        v.push(e);
    }
    v.extend_from_slice(post.as_bytes());
    let name = String::from_utf8(v).unwrap();
    let used = choose("used", 2) == 1;
    for (i, n) in ["fixed_name", &name, "another_one"].iter().enumerate() {
        l.func(n, 0x10 * (i as u64 + 1));
        if i != 1 || used {
            a.undef(n);
        }
    }
    w.lib("libx.so", l);
    w.add(a);
    w.plan.push("hash const".into());
    w.plan.push("run dld a.o libx.so --hash-style=both -o out".into());
    w
}
/// many symbols: several buckets and bloom words; names from a counter and a chosen letter
fn hash_many() -> World {
    let mut w = World::new();
    let mut l = Lib::new();
    let mut a = w.obj();
    a.start();
    let n = [9u64, 15, 16, 17, 24, 33, 48][choose("count", 7) as usize];
    let c = b"aAz_09mX"[choose("letter", 8) as usize] as char;
    for i in 0..n {
        let name = format!("s{}{}{}", c, i * 7 % 31, i);
        l.func(&name, 0x10 * i);
        let s = a.undef(&name);
        let _ = s;
    }
    w.lib("libx.so", l);
    w.add(a);
    w
}
pub fn chk_hash(w: &World) {
    if !must_link(0) {
        return;
    }
    let o = Out::load("out");
    let d = dynamic(&o);
    let n = match o.sh.iter().find(|s| s.ty == SHT_DYNSYM as u64) {
        Some(s) => s.size / 24,
        None => fail("no .dynsym"),
    };
    let mut names = vec![];
    for i in 1..n {
        names.push(dsym(&o, &d, i).name);
    }
    for s in &w.objs[0].1.syms {
        if s.sec == UNDEF {
            check(names.contains(&s.name), "a symbol from a library is in .dynsym");
        }
    }
    let absent: Vec<String> = w.libs[0].1.syms.iter().map(|s| s.name.clone()).filter(|s| !names.contains(s)).collect();
    if d.get(DT_HASH).is_some() {
        let t = d.get(DT_HASH).unwrap();
        check(conc(o.get(t + 4, 4)) == n, "nchain is the number of dynamic symbols");
        for (i, s) in names.iter().enumerate() {
            check(lookup_sysv(&o, &d, s) == Some(i as u64 + 1), "DT_HASH finds every dynamic symbol");
        }
        for s in &absent {
            check(lookup_sysv(&o, &d, s).is_none(), "DT_HASH finds nothing else");
        }
    }
    if d.get(DT_GNU_HASH).is_some() {
        for (i, s) in names.iter().enumerate() {
            check(lookup_gnu(&o, &d, s) == Some(i as u64 + 1), "DT_GNU_HASH finds every dynamic symbol");
        }
        for s in &absent {
            check(lookup_gnu(&o, &d, s).is_none(), "DT_GNU_HASH finds nothing else");
        }
    }
    reach("linked");
}

/// .init_array and .fini_array pieces of several objects
fn arrays() -> World {
    let mut w = World::new();
    for i in 0..3u64 {
        let mut o = w.obj();
        if i == 0 {
            o.start();
        }
        let d = o.blob(16);
        let f = o.sec(".text.f", SHT_PROGBITS, A | X, 1, &d);
        let s = o.sym("f", LOCAL, FUNC, f, sym8(&format!("val{}", i)) as u64 & 15, 1);
        for (n, ty) in [(".init_array", SHT_INIT_ARRAY), (".fini_array", SHT_FINI_ARRAY)] {
            let k = choose(&format!("{}{}", &n[1..5], i), 3);
            if k > 0 {
                let y = o.sec(n, ty, A | W, 8, &vec![0; 8 * k as usize]);
                for j in 0..k {
                    o.rela(y, 8 * j, R_64, s, j as i64);
                }
            }
        }
        w.add(o);
    }
    w
}
fn bounds() -> World {
    let mut w = World::new();
    let mut o = w.obj();
    o.start();
    let names = ["__init_array_start", "__init_array_end", "__fini_array_start", "__fini_array_end"];
    let d = o.fill(40);
    let d = o.sec(".data.q", SHT_PROGBITS, A | W, 8, &d);
    for (k, n) in names.iter().enumerate() {
        let s = match choose(&format!("ref{}", k), 3) {
            0 => continue,
            1 => o.undef(n),
            _ => o.sym(n, WEAK, NOTYPE, UNDEF, 0, 0),
        };
        o.rela(d, 8 + 8 * k as u64, R_64, s, 0);
    }
    w.add(o);
    for i in 0..2u64 {
        let mut o = w.obj();
        for (n, ty) in [(".init_array", SHT_INIT_ARRAY), (".fini_array", SHT_FINI_ARRAY)] {
            let k = choose(&format!("{}{}", &n[1..5], i), 3);
            if k > 0 {
                let d = o.fill(8 * k as usize);
                o.sec(n, ty, A | W, 8, &d);
            }
        }
        w.add(o);
    }
    w
}
/// one array per object, some with priorities
fn priority_world(n: u64, kinds: &[&str]) -> World {
    let mut w = World::new();
    for i in 0..n {
        let mut o = w.obj();
        if i == 0 {
            o.start();
        }
        let d = o.blob(16);
        let f = o.sec(".text.f", SHT_PROGBITS, A | X, 1, &d);
        let s = o.sym("f", LOCAL, FUNC, f, sym8(&format!("val{}", i)) as u64 & 15, 1);
        let mine = choose(&format!("o{}", i), 1 + kinds.len() as u64) as usize;
        if mine > 0 {
            let k = kinds[mine - 1];
            let fini = i == 1;
            let (n, ty) = if fini { (format!(".fini_array{}", k), SHT_FINI_ARRAY) } else { (format!(".init_array{}", k), SHT_INIT_ARRAY) };
            let y = o.sec(&n, ty, A | W, 8, &[0; 16]);
            o.rela(y, 0, R_64, s, 0);
            o.rela(y, 8, R_64, s, 1);
            // and something in both
            for (n, ty) in [(".init_array", SHT_INIT_ARRAY), (".fini_array.00300", SHT_FINI_ARRAY)] {
                let y = o.sec(n, ty, A | W, 8, &[0; 8]);
                o.rela(y, 0, R_64, s, 2);
            }
        }
        w.add(o);
    }
    w
}
fn priority() -> World {
    priority_world(3, &["", ".00101", ".00200", ".65535", ".1000", ".200"])
}
fn priority4() -> World {
    priority_world(4, &["", ".00101", ".00200", ".65535", ".1000", ".200"])
}
/// sections of other types, and of names that only look like these
fn array_names() -> World {
    let mut w = World::new();
    for i in 0..2u64 {
        let mut o = w.obj();
        if i == 0 {
            o.start();
        }
        let d = o.blob(16);
        let f = o.sec(".text.f", SHT_PROGBITS, A | X, 1, &d);
        let s = o.sym("f", LOCAL, FUNC, f, sym8(&format!("val{}", i)) as u64 & 15, 1);
        let n = [".init_array", ".init_array.00007", ".init_arrays", ".init_array_x", "init_array", ".fini_array"][choose(&format!("name{}", i), 6) as usize];
        let own = n.starts_with(".init_array") && !n.contains("ys") && !n.contains("_x");
        let own = own || n == ".fini_array";
        let ty = if own && choose(&format!("type{}", i), 2) == 0 {
            if n == ".fini_array" {
                SHT_FINI_ARRAY
            } else {
                SHT_INIT_ARRAY
            }
        } else {
            SHT_PROGBITS
        };
        let y = o.sec(n, ty, A | W, 8, &[0; 16]);
        o.rela(y, 0, R_64, s, 0);
        o.rela(y, 8, R_64, s, 3);
        w.add(o);
    }
    w
}
fn preinit() -> World {
    let mut w = World::new();
    let mut o = w.obj();
    o.start();
    let d = o.fill(24);
    let d = o.sec(".data.q", SHT_PROGBITS, A | W, 8, &d);
    for (k, n) in ["__preinit_array_start", "__preinit_array_end"].iter().enumerate() {
        let s = match choose(&format!("ref{}", k), 3) {
            0 => continue,
            1 => o.undef(n),
            _ => o.sym(n, WEAK, NOTYPE, UNDEF, 0, 0),
        };
        o.rela(d, 8 + 8 * k as u64, R_64, s, 0);
    }
    w.add(o);
    for i in 0..2u64 {
        let mut o = w.obj();
        let d = o.blob(16);
        let f = o.sec(".text.f", SHT_PROGBITS, A | X, 1, &d);
        let s = o.sym("f", LOCAL, FUNC, f, 8, 1);
        for (n, ty) in [(".preinit_array", SHT_PREINIT_ARRAY), (".init_array", SHT_INIT_ARRAY)] {
            let k = choose(&format!("{}{}", &n[1..5], i), 3);
            if k > 0 {
                let y = o.sec(n, ty, A | W, 8, &vec![0; 8 * k as usize]);
                for j in 0..k {
                    o.rela(y, 8 * j, R_64, s, j as i64);
                }
            }
        }
        w.add(o);
    }
    w
}
/// when the functions of a section are called, if it is a part of the array
fn array_order(array: &str, section: &str) -> Option<u32> {
    let rest = section.strip_prefix(array)?;
    if rest.is_empty() {
        return Some(u32::MAX);
    }
    rest.strip_prefix('.').map(|n| n.parse().unwrap())
}
pub fn chk_arrays(w: &World) {
    if !must_link(0) {
        return;
    }
    let o = Out::load("out");
    let p = Proc::start(o, &w.libs, true);
    let b = locate(w, &p);
    for (name, tag, size, refs) in [
        (".preinit_array", DT_PREINIT_ARRAY, DT_PREINIT_ARRAYSZ, ["__preinit_array_start", "__preinit_array_end"]),
        (".init_array", DT_INIT_ARRAY, DT_INIT_ARRAYSZ, ["__init_array_start", "__init_array_end"]),
        (".fini_array", DT_FINI_ARRAY, DT_FINI_ARRAYSZ, ["__fini_array_start", "__fini_array_end"]),
    ] {
        let mut parts: Vec<(u32, Vec<u64>)> = vec![];
        for (oi, (_, ob)) in w.objs.iter().enumerate() {
            for s in &ob.secs {
                if let Some(order) = array_order(name, &s.name) {
                    let mut part = vec![];
                    for j in 0..s.data.len() / 8 {
                        match s.relas.get(j) {
                            Some(r) => part.push(addr(w, &b, &p, w.target(oi, r.sym)).unwrap() + r.addend as u64),
                            None => part.push(u64::from_le_bytes(s.data[8 * j..8 * j + 8].try_into().unwrap())),
                        }
                    }
                    parts.push((order, part));
                }
            }
        }
        parts.sort_by_key(|p| p.0);
        let want: Vec<u64> = parts.into_iter().flat_map(|p| p.1).collect();
        for t in [tag, size] {
            check(p.d.tags.iter().filter(|x| x.0 == t).count() < 2, "the array is described once");
        }
        let (at, n) = (p.d.get(tag).unwrap_or(0), p.d.get(size).unwrap_or(0));
        check(n == 8 * want.len() as u64, "the array has an entry for every function");
        for (j, v) in want.iter().enumerate() {
            check(p.o.get(at + 8 * j as u64, 8) == *v, "the functions are in the order of their priority and of the input");
        }
        // the symbols the C library uses
        let q = w.objs[0].1.secs.iter().position(|s| s.name == ".data.q");
        if let Some(q) = q {
            let s = &w.objs[0].1.secs[q];
            let mut ends = [None, None];
            for r in &s.relas {
                let n = &w.objs[0].1.syms[r.sym].name;
                for k in 0..2 {
                    if n == refs[k] {
                        ends[k] = Some(conc(p.o.get(b.at[0][q].unwrap() + r.off, 8)));
                    }
                }
            }
            if n > 0 {
                check(ends[0].map_or(true, |v| v == at), "the start symbol is the array's address");
                check(ends[1].map_or(true, |v| v == at + n), "the end symbol is the array's end");
            } else if let [Some(x), Some(y)] = ends {
                check(x == y, "the bounds of an empty array are equal");
            }
        }
    }
    reach("linked");
}
