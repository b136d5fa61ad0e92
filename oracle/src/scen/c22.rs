//! C22: malformed and unsupported inputs are refused.
use super::c07::no_output;
use super::{q, t, Scen};
use crate::obj::*;
use crate::out::*;
use crate::rt::*;
use crate::world::*;

pub fn all() -> Vec<Scen> {
    vec![
        q("c22_header", header, chk),
        q("c22_sections", sections, chk),
        q("c22_symbols", symbols, chk),
        q("c22_relocs", relocs, chk),
        q("c22_types", types, chk_types),
        q("c22_names", names, chk_names),
        q("c22_truncated", truncated, chk),
        q("c22_lib", libfields, chk),
        q("c22_ar", arbytes, chk),
        q("c22_artrunc", artrunc, chk),
        t("c22_sections2", sections2, chk),
    ]
}
fn patch(v: &mut [u8], off: usize, n: usize, x: u64) {
    for i in 0..n {
        v[off + i] = (x >> (8 * i)) as u8;
    }
}
fn get(v: &[u8], off: usize, n: usize) -> u64 {
    (0..n).fold(0, |a, i| a | (v[off + i] as u64) << (8 * i))
}
/// `a` within `0..=end` for `n` more bytes, without wrapping
fn fits(a: u64, n: u64, end: u64) -> bool {
    (a <= end) & (n <= end.wrapping_sub(a))
}
const SHNUM: u64 = 9;
/// an object that refers to a second one, whose bytes are also returned
fn base() -> (World, Vec<u8>) {
    let mut w = World::new();
    let mut a = w.obj();
    a.start();
    let t = a.fill(16);
    let t = a.sec(".text.a", SHT_PROGBITS, A | X, 4, &t);
    let f = a.undef("fb");
    a.rela(t, 8, R_PC32, f, 0);
    w.add(a);
    let mut b = w.obj();
    let d = b.fill(16);
    let t = b.text(&d);
    b.func("fb", t, 8, 8);
    let d = b.fill(24);
    let d = b.data(&d);
    let s = b.bss(16, 8);
    let ss = b.secsym(s);
    b.sym("lo", LOCAL, OBJECT, d, 8, 8);
    let u = b.undef("_start");
    b.rela(t, 8, R_PC32, u, -4);
    b.rela(d, 8, R_64, ss, 4);
    let v = b.build();
    w.add(b);
    (w, v)
}
fn with(mut w: World, v: Vec<u8>, bad: bool) -> World {
    w.files.push(("b.o".into(), v));
    w.bad = bad;
    w
}
fn chk(w: &World) {
    let s = status(0);
    check(s != 134 && s != 1001, "the linker does not crash");
    check(s != 1002, "the linker does not hang");
    if w.bad {
        check(s != 0, "a malformed input is refused");
        no_output("out");
        reach("refused");
    } else {
        reach(if s == 0 { "linked" } else { "refused anyway" });
    }
}
fn header() -> World {
    let (w, mut v) = base();
    let len = v.len() as u64;
    let shoff = get(&v, 40, 8);
    let fields = [(0, 4), (4, 1), (5, 1), (6, 1), (7, 1), (16, 2), (18, 2), (20, 4), (24, 8), (32, 8), (40, 8), (48, 4), (52, 2), (54, 2), (56, 2), (58, 2), (60, 2), (62, 2)];
    let k = choose("field", fields.len() as u64) as usize;
    let (off, n) = fields[k];
    let x = sym("value", 8 * n as u32);
    let o = get(&v, off, n);
    let bad = match off {
        // marker, class, byte order, type, machine, size of a section header
        0 | 4 | 5 | 16 | 18 | 58 => x != o,
        40 => !fits(x, SHNUM * 64, len),
        60 => (x != o) & (x != 0),
        62 => (x >= SHNUM) & (x != 0xffff),
        _ => false,
    };
    if off == 40 {
        // within the file: one position out of 64
        assume((x >= len) | (x % 64 == shoff % 64));
    }
    patch(&mut v, off, n, x);
    with(w, v, bad)
}
/// section numbers in `base`
const TEXT: u64 = 1;
const RTEXT: u64 = 2;
const DATA: u64 = 3;
const RDATA: u64 = 4;
const BSS: u64 = 5;
const SYMTAB: u64 = 6;
const STRTAB: u64 = 7;
const SHSTR: u64 = 8;
fn section_field(v: &mut Vec<u8>, i: u64, f: usize) -> bool {
    let len = v.len() as u64;
    let h = (get(v, 40, 8) + 64 * i) as usize;
    let fields = [(0, 4), (4, 4), (8, 8), (16, 8), (24, 8), (32, 8), (40, 4), (44, 4), (48, 8), (56, 8)];
    let (off, n) = fields[f];
    let x = if off == 48 {
        // dividing by a symbolic alignment is out of the solver's reach
        let k = choose(&format!("align{}", i), 16);
        if k < 14 {
            1 << k
        } else if k == 14 {
            1 << 63
        } else {
            let x = sym(&format!("value{}_{}", i, f), 64);
            assume(x & x.wrapping_sub(1) != 0);
            x
        }
    } else if i == SYMTAB && (off == 32 || off == 56) {
        // so is dividing by 24 or by the size of an entry
        if off == 56 {
            let k = choose(&format!("entsize{}", i), 64 + 6);
            if k < 64 { k } else { [64, 128, 1 << 16, 1 << 32, 1 << 63, u64::MAX][k as usize - 64] }
        } else {
            sym(&format!("value{}_{}", i, f), 12) << [0, 12, 24, 52][choose(&format!("shift{}", i), 4) as usize]
        }
    } else {
        sym(&format!("value{}_{}", i, f), 8 * n as u32)
    };
    let (so, ss) = (get(v, h + 24, 8), get(v, h + 32, 8));
    let shstr = get(v, (get(v, 40, 8) + 64 * SHSTR) as usize + 32, 8);
    let bad = match off {
        0 => (x >= shstr) & (i != STRTAB) & (i != SHSTR) & (i != SYMTAB) & (i != RTEXT) & (i != RDATA),
        24 if i != BSS => !fits(x, ss, len),
        32 if i != BSS => !fits(so, x, len),
        40 if i == SYMTAB || i == RTEXT || i == RDATA => x >= SHNUM,
        44 if i == RTEXT || i == RDATA => x >= SHNUM,
        48 if i == TEXT || i == DATA || i == BSS => x & x.wrapping_sub(1) != 0,
        56 if i == SYMTAB => x != 24,
        _ => false,
    };
    if (off == 24 || off == 32) && i != BSS {
        // sizes and positions within the file: around the right ones
        let o = get(v, h + off, n);
        assume(bad | (x.wrapping_sub(o).wrapping_add(4) <= 8));
    }
    patch(v, h + off, n, x);
    bad
}
fn sections() -> World {
    let (w, mut v) = base();
    let i = choose("section", SHNUM - 1) + 1;
    let f = choose("field", 10) as usize;
    let bad = section_field(&mut v, i, f);
    with(w, v, bad)
}
fn sections2() -> World {
    let (w, mut v) = base();
    let i = choose("section", SHNUM - 1) + 1;
    let f = choose("field", 10) as usize;
    let j = choose("section2", SHNUM - 1) + 1;
    let g = choose("field2", 10) as usize;
    assume((i, f) < (j, g));
    section_field(&mut v, i, f);
    section_field(&mut v, j, g);
    with(w, v, false)
}
fn symbols() -> World {
    let (w, mut v) = base();
    let h = |i: u64, o: u64| (get(&v, 40, 8) + 64 * i + o) as usize;
    let tab = get(&v, h(SYMTAB, 24), 8) as usize;
    let n = get(&v, h(SYMTAB, 32), 8) / 24;
    let strs = get(&v, h(STRTAB, 32), 8);
    let i = choose("symbol", n - 1) + 1;
    let fields = [(0, 4), (4, 1), (5, 1), (6, 2), (8, 8), (16, 8)];
    let (off, k) = fields[choose("field", 6) as usize];
    let x = sym("value", 8 * k as u32);
    let bad = match off {
        0 => x >= strs,
        6 => (x >= SHNUM) & (x != ABS as u64) & (x != COMMON as u64),
        _ => false,
    };
    patch(&mut v, tab + 24 * i as usize + off, k, x);
    with(w, v, bad)
}
fn relocs() -> World {
    let (w, mut v) = base();
    let h = |i: u64, o: u64| (get(&v, 40, 8) + 64 * i + o) as usize;
    let nsym = get(&v, h(SYMTAB, 32), 8) / 24;
    let text = choose("which", 2) == 0;
    let (r, s, w8) = if text { (RTEXT, TEXT, 4) } else { (RDATA, DATA, 8) };
    let rel = get(&v, h(r, 24), 8) as usize;
    let size = get(&v, h(s, 32), 8);
    let bad = match choose("field", 3) {
        0 => {
            let x = sym("value", 64);
            patch(&mut v, rel, 8, x);
            !fits(x, w8, size)
        }
        1 => {
            let x = sym("value", 32);
            patch(&mut v, rel + 12, 4, x);
            x >= nsym
        }
        _ => {
            let x = sym("value", 64);
            patch(&mut v, rel + 16, 8, x);
            // the place is within 2 GiB of the program's symbols, and the symbol below 4 GiB
            (text as u64 & ((x.wrapping_add(0x1_0000_0000) > 0x2_0000_0000) as u64)) != 0
        }
    };
    with(w, v, bad)
}
/// every type a relocation can have
fn types() -> World {
    let (w, mut v) = base();
    let h = |i: u64, o: u64| (get(&v, 40, 8) + 64 * i + o) as usize;
    let text = choose("which", 2) == 0;
    let rel = get(&v, h(if text { RTEXT } else { RDATA }, 24), 8) as usize;
    let x = sym("value", 32);
    patch(&mut v, rel + 8, 4, x);
    // the types that are implemented, but for those which need a thread-local symbol
    let known = (x <= 4) | (x == 9) | (x == 10) | (x == 11) | (x == 24) | (x == 41) | (x == 42);
    with(w, v, !known)
}
fn chk_types(w: &World) {
    chk(w);
    if status(0) == 0 {
        let mut w = World { objs: w.objs.clone(), ..World::new() };
        let text = choose("which", 2) == 0;
        let b = &mut w.objs[1].1;
        let i = if text { 0 } else { 1 };
        let x = conc(sym("value", 32)) as u32;
        if x == 0 {
            b.secs[i].relas.clear();
        } else {
            b.secs[i].relas[0].ty = x;
        }
        let (p, bs) = start(&w, "out");
        check_all(&w, &p, &bs);
        reach("supported");
    }
}
/// sections which the linker makes itself
const OWN: [&str; 17] = [
    "", ".shstrtab", ".strtab", ".dynstr", ".interp", ".got", ".got.plt", ".plt", ".symtab", ".dynsym", ".dynamic",
    ".rela.dyn", ".rela.plt", ".copyrel", ".hash", ".gnu.hash", ".fresh",
];
fn names() -> World {
    let (w, mut v) = base();
    let h = |i: u64, o: u64| (get(&v, 40, 8) + 64 * i + o) as usize;
    let i = [TEXT, DATA, BSS][choose("section", 3) as usize];
    let at = v.len();
    let (h, shoff, n) = (h(i, 0), h(SHSTR, 24), get(&v, h(SHSTR, 32), 8) as usize);
    // the names move to the end of the file
    let old = get(&v, shoff, 8) as usize;
    let t = v[old..old + n].to_vec();
    v.extend_from_slice(&t);
    patch(&mut v, h, 4, n as u64);
    v.extend_from_slice(OWN[choose("name", OWN.len() as u64) as usize].as_bytes());
    v.push(0);
    let end = v.len();
    patch(&mut v, shoff, 8, at as u64);
    patch(&mut v, shoff + 8, 8, (end - at) as u64);
    with(w, v, false)
}
fn chk_names(w: &World) {
    chk(w);
    if status(0) == 0 {
        let mut w = World { objs: w.objs.clone(), ..World::new() };
        let i = [0, 1, 2][choose("section", 3) as usize];
        w.objs[1].1.secs[i].name = OWN[choose("name", OWN.len() as u64) as usize].into();
        let (p, bs) = start(&w, "out");
        check_all(&w, &p, &bs);
        reach("right");
    }
}
/// the section header table follows the ELF header
fn front(v: &[u8]) -> Vec<u8> {
    let shoff = get(v, 40, 8) as usize;
    let n = v.len() - shoff;
    let mut o = v[..64].to_vec();
    o.extend_from_slice(&v[shoff..]);
    o.extend_from_slice(&v[64..shoff]);
    patch(&mut o, 40, 8, 64);
    for i in 1..n / 64 {
        let p = 64 + 64 * i + 24;
        let x = get(&o, p, 8);
        patch(&mut o, p, 8, x + n as u64);
    }
    o
}
fn truncated() -> World {
    let (w, v) = base();
    let mut v = if choose("layout", 2) == 0 { v } else { front(&v) };
    // the last byte that belongs to something
    let n = choose("length", v.len() as u64 + 1);
    let used = {
        let mut m = get(&v, 40, 8) + 64 * SHNUM;
        for i in 1..SHNUM {
            let h = (get(&v, 40, 8) + 64 * i) as usize;
            if i != BSS {
                m = m.max(get(&v, h + 24, 8) + get(&v, h + 32, 8));
            }
        }
        m
    };
    v.truncate(n as usize);
    with(w, v, n < used)
}
fn lib_world() -> (World, Vec<u8>) {
    let mut w = World::new();
    let mut a = w.obj();
    a.start();
    let t = a.fill(16);
    let t = a.sec(".text.a", SHT_PROGBITS, A | X, 4, &t);
    let f = a.undef("lf");
    a.rela(t, 8, R_PLT32, f, 0);
    w.add(a);
    let mut l = Lib::new();
    l.soname = Some("libs.so".into());
    l.func("lf", 0x10);
    l.object("ld", 0x10, 8);
    let v = l.build();
    w.lib("liby.so", l);
    (w, v)
}
/// beyond the end, or close to the right value
fn around(x: u64, o: u64, len: u64) -> bool {
    (x >= len) | (x.wrapping_sub(o).wrapping_add(4) <= 8)
}
fn libfields() -> World {
    let (mut w, mut v) = lib_world();
    let len = v.len() as u64;
    // everything before the text: headers, dynamic symbols, hash table, dynamic section, strings
    let ph = 64 + 56 * 3;
    let dynoff = get(&v, ph + 8, 8);
    let dynn = get(&v, ph + 32, 8);
    let hash = 64 + 56 * 4 + 24 * 3;
    let n_dyn = dynn / 16;
    let bad;
    match choose("part", 5) {
        0 => {
            let fields = [(0, 4), (4, 1), (5, 1), (16, 2), (18, 2), (32, 8), (40, 8), (54, 2), (56, 2), (58, 2), (60, 2), (62, 2)];
            let (off, n) = fields[choose("field", fields.len() as u64) as usize];
            let x = match off {
                62 => [0, 1, 2, 3, 7, 64, 0x1000, 0xff00, 0xffff][choose("index", 9) as usize],
                _ => sym("value", 8 * n as u32),
            };
            let o = get(&v, off, n);
            bad = match off {
                0 | 4 | 5 | 18 => x != o,
                _ => false,
            };
            match off {
                32 | 40 => assume(around(x, o, len)),
                56 => assume((x < 8) | (x >= 0xfff8)),
                _ => {}
            }
            patch(&mut v, off, n, x);
        }
        1 => {
            // the program header of the dynamic section
            let fields = [(0, 4), (4, 4), (8, 8), (16, 8), (32, 8), (40, 8)];
            let (off, n) = fields[choose("field", fields.len() as u64) as usize];
            let x = sym("value", 8 * n as u32);
            bad = match off {
                8 => !fits(x, dynn, len),
                32 => !fits(dynoff, x, len),
                _ => false,
            };
            if off == 8 || off == 32 {
                assume(around(x, get(&v, ph + off, n), len));
            }
            patch(&mut v, ph + off, n, x);
        }
        2 => {
            let i = choose("entry", n_dyn);
            let x = sym("value", 64);
            let tag = get(&v, (dynoff + 16 * i) as usize, 8);
            let hi = choose("tag", 2) == 0;
            // hash, string table, symbol table, soname
            bad = !hi && (tag == 5 || tag == 6) && x >= len;
            if !hi {
                assume(around(x, get(&v, (dynoff + 16 * i) as usize + 8, 8), len));
            }
            patch(&mut v, (dynoff + 16 * i) as usize + if hi { 0 } else { 8 }, 8, x);
        }
        3 => {
            let i = choose("word", 6) as usize;
            let x = sym("value", 32);
            bad = false;
            patch(&mut v, hash + 4 * i, 4, x);
        }
        _ => {
            let fields = [(0, 4), (4, 1), (6, 2), (8, 8), (16, 8)];
            let (off, n) = fields[choose("field", fields.len() as u64) as usize];
            let x = sym("value", 8 * n as u32);
            bad = false;
            patch(&mut v, 64 + 56 * 4 + 24 + off, n, x);
        }
    }
    w.files.push(("liby.so".into(), v));
    w.bad = bad;
    w
}
fn ar_world() -> (World, Vec<u8>, usize) {
    let mut w = World::new();
    let mut a = w.obj();
    a.start();
    let t = a.fill(16);
    let t = a.sec(".text.a", SHT_PROGBITS, A | X, 4, &t);
    let f = a.undef("mf");
    a.rela(t, 8, R_PC32, f, 0);
    w.add(a);
    let mut m = Obj::new();
    m.id = 1;
    let d = m.fill(12);
    let t = m.text(&d);
    m.func("mf", t, 8, 4);
    let b = m.build();
    let n = b.len();
    let v = archive(&[("m.o", b, vec!["mf"])]);
    w.runs.push("a.o libz.a -o out".into());
    (w, v, n)
}
/// one byte of the archive's own structures is arbitrary
fn arbytes() -> World {
    let (mut w, mut v, n) = ar_world();
    let k = choose("at", (v.len() - n) as u64) as usize;
    v[k] = sym8("value");
    let bad = (k < 8) & (v[k] != b"!<arch>\n"[k % 8]);
    w.files.push(("libz.a".into(), v));
    w.bad = bad;
    w
}
fn artrunc() -> World {
    let (mut w, mut v, _) = ar_world();
    let n = choose("length", v.len() as u64);
    v.truncate(n as usize);
    w.files.push(("libz.a".into(), v));
    w.bad = true;
    w
}
