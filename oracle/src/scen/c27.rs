//! C27: `--eh-frame-hdr` gives a table that leads from every function to its frame description.
use super::{q, t, Scen};
use crate::obj::*;
use crate::out::*;
use crate::rt::*;
use crate::world::*;

const PT_GNU_EH_FRAME: u64 = 0x6474_e550;

pub fn all() -> Vec<Scen> {
    vec![
        q("c27_table", table, chk),
        q("c27_kinds", kinds, chk),
        q("c27_archive", archived, chk),
        q("c27_none", none, chk),
        q("c27_odd", odd, chk),
        q("c27_raw", raw, chk_raw),
        t("c27_table6", table6, chk),
    ]
}
/// how the addresses of functions are stored
#[derive(Clone, Copy)]
struct Enc {
    enc: u8,
    ty: u32,
    size: usize,
}
const ENCS: [Enc; 6] = [
    Enc { enc: 0x1b, ty: R_PC32, size: 4 },
    Enc { enc: 0x00, ty: R_64, size: 8 },
    Enc { enc: 0x03, ty: R_32, size: 4 },
    Enc { enc: 0x0b, ty: R_32S, size: 4 },
    Enc { enc: 0x0c, ty: R_64, size: 8 },
    Enc { enc: 0x04, ty: R_64, size: 8 },
];
fn finish(d: &mut Vec<u8>, at: usize, pad: usize) {
    while (d.len() - at) % pad != 0 {
        d.push(0);
    }
    let n = (d.len() - at - 4) as u32;
    d[at..at + 4].copy_from_slice(&n.to_le_bytes());
}
fn cie(d: &mut Vec<u8>, version: u8, aug: &str, enc: u8, wide: bool) -> usize {
    let at = d.len();
    d.extend_from_slice(&[0; 8]);
    d.push(version);
    d.extend_from_slice(aug.as_bytes());
    d.push(0);
    // the alignment factors may take more than one byte
    d.extend_from_slice(if wide { &[0x81, 0] } else { &[1] });
    d.extend_from_slice(if wide { &[0xf8, 0x7f] } else { &[0x78] });
    d.extend_from_slice(if wide && version == 3 { &[0x90, 0] } else { &[0x10] });
    let mut extra = vec![];
    for c in aug.bytes() {
        match c {
            b'P' => extra.extend_from_slice(&[0x03, 0x1b, 0x9b, 0x00, 0x1c]),
            b'p' => extra.extend_from_slice(&[0x04, 1, 2, 3, 4, 5, 6, 7, 8]),
            b'L' => extra.push(0x1b),
            b'R' => extra.push(enc),
            _ => {}
        }
    }
    if aug.starts_with('z') {
        d.push(extra.len() as u8);
    }
    d.extend_from_slice(&extra);
    d.extend_from_slice(&[0x0c, 7, 8, 0x90, 1]);
    finish(d, at, 8);
    at
}
/// one more description; returns where its function's address is
fn fde(d: &mut Vec<u8>, cie: usize, enc: Enc, aug: bool, tag: u64) -> usize {
    let at = d.len();
    d.extend_from_slice(&[0; 4]);
    let id = (d.len() - cie) as u32;
    d.extend_from_slice(&id.to_le_bytes());
    let pc = d.len();
    d.extend_from_slice(&vec![0; enc.size]);
    d.extend_from_slice(&fixed(&[16], enc.size));
    if aug {
        d.push(0);
    }
    d.push(0x40 + sym8(&format!("cfa{}", tag)) % 0x40);
    finish(d, at, [4, 8][tag as usize % 2]);
    pc
}
/// adds descriptions of `n` functions to an object
fn frames(o: &mut Obj, n: u64, enc: Enc, version: u8, aug: &str, wide: bool, base: u64, end: bool) {
    let mut d = vec![];
    let mut c = cie(&mut d, version, aug, enc.enc, wide);
    let mut relas = vec![];
    for i in 0..n {
        if i == 2 {
            // a second common entry
            c = cie(&mut d, 1, aug, enc.enc, false);
        }
        relas.push(fde(&mut d, c, enc, aug.starts_with('z'), base + i));
    }
    if end {
        d.extend_from_slice(&[0; 4]);
    }
    // (assemblers do not agree on the type)
    let ty = if (base % 2 == 1) == end { 0x7000_0001 } else { SHT_PROGBITS };
    let s = o.sec(".eh_frame", ty, A, 8, &d);
    let t = o.fill(40);
    let t = o.sec([".text", ".text.x"][(base as usize / 2) % 2], SHT_PROGBITS, A | X, 16, &t);
    for (i, pc) in relas.iter().enumerate() {
        let k = base + i as u64;
        let f = match i % 2 {
            0 => o.func(&format!("f{}", k), t, sym8(&format!("at{}", k)) as u64, 8),
            _ => o.secsym(t),
        };
        o.rela(s, *pc as u64, enc.ty, f, if i % 2 == 0 { 0 } else { sym8(&format!("at{}", k)) as i64 });
    }
    // tells where the section is
    let p = o.fill(16);
    let p = o.sec(".data.p", SHT_PROGBITS, A | W, 8, &p);
    let y = o.secsym(s);
    o.rela(p, 8, R_64, y, 0);
}
/// descriptions of `n` functions, as compilers make them
pub fn simple(o: &mut Obj, n: u64, base: u64) {
    frames(o, n, ENCS[0], 1, "zR", false, base, false)
}
fn some(max: u64) -> World {
    let mut w = World::new();
    w.opts = "--eh-frame-hdr".into();
    let mut a = w.obj();
    a.start();
    frames(&mut a, choose("na", max + 1), ENCS[0], 1, "zR", false, 10, choose("end", 2) == 1);
    w.add(a);
    let mut b = w.obj();
    b.id = 1;
    frames(&mut b, choose("nb", 3), ENCS[0], 1, "zR", false, 21, false);
    w.add(b);
    w
}
fn table() -> World {
    some(2)
}
fn table6() -> World {
    some(4)
}
fn kinds() -> World {
    let mut w = World::new();
    // (the compiler driver and the user may both ask for it)
    w.opts = ["--eh-frame-hdr", "--eh-frame-hdr --eh-frame-hdr"][choose("times", 2) as usize].into();
    let mut a = w.obj();
    a.start();
    let enc = ENCS[choose("enc", 6) as usize];
    let mut augs = vec!["zR", "zPLR", "zRS", "zPR", "zLR", "zRB"];
    if enc.enc == 0 {
        augs.extend(["", "z", "zL"]);
    }
    let aug = augs[choose("aug", augs.len() as u64) as usize];
    frames(&mut a, 1, enc, [1, 3][choose("version", 2) as usize], aug, choose("wide", 2) == 1, 10, false);
    w.add(a);
    let mut b = w.obj();
    b.id = 1;
    frames(&mut b, 1, ENCS[0], 1, "zR", false, 21, choose("end", 2) == 1);
    w.add(b);
    w
}
/// descriptions that come with a member of an archive, after the end of the program's own
fn archived() -> World {
    let mut w = World::new();
    let mut a = w.obj();
    a.start();
    frames(&mut a, 1, ENCS[0], 1, "zR", false, 10, true);
    let f = a.undef("f21");
    let p = a.fill(16);
    let p = a.sec(".data.q", SHT_PROGBITS, A | W, 8, &p);
    a.rela(p, 8, R_64, f, 0);
    let mut m = w.obj();
    m.id = 5;
    frames(&mut m, choose("n", 3) + 1, ENCS[0], 1, "zR", false, 21, false);
    w.files.push(("libm.a".into(), crate::obj::archive(&[("m.o", m.build(), vec!["f21"])])));
    w.add(a);
    w.objs.push((String::new(), m));
    w.run(["a.o libm.a --eh-frame-hdr -o out", "--eh-frame-hdr libm.a a.o -o out"][choose("line", 2) as usize]);
    w
}
/// without the option, or without anything to describe
fn none() -> World {
    let mut w = World::new();
    let opt = choose("option", 2) == 1;
    if opt {
        w.opts = "--eh-frame-hdr".into();
    }
    let mut a = w.obj();
    a.start();
    match choose("frames", 4) {
        0 => {}
        1 => {
            let s = a.sec(".eh_frame", SHT_PROGBITS, A, 8, &[]);
            let _ = s;
        }
        2 => {
            let s = a.sec(".eh_frame", SHT_PROGBITS, A, 4, &[0; 4]);
            let _ = s;
        }
        _ => frames(&mut a, 1, ENCS[0], 1, "zR", false, 10, false),
    }
    if choose("more", 2) == 1 {
        let d = a.fill(40);
        a.rodata(&d);
    }
    w.add(a);
    w
}
/// what not every reader knows
fn odd() -> World {
    let mut w = World::new();
    w.opts = "--eh-frame-hdr".into();
    let mut a = w.obj();
    a.start();
    match choose("odd", 4) {
        0 => frames(&mut a, 1, ENCS[0], 4, "zR", false, 10, false),
        1 => frames(&mut a, 1, ENCS[0], 1, "zRq", false, 10, false),
        2 => frames(&mut a, 1, ENCS[1], 1, "eh", false, 10, false),
        _ => frames(&mut a, 1, Enc { enc: 0x9b, ty: R_PC32, size: 4 }, 1, "zR", false, 10, false),
    }
    w.add(a);
    let mut b = w.obj();
    b.id = 1;
    frames(&mut b, 1, ENCS[0], 1, "zR", false, 21, false);
    w.add(b);
    w
}
/// sections that contain anything
fn raw() -> World {
    let mut w = World::new();
    w.opts = "--eh-frame-hdr".into();
    let mut a = w.obj();
    a.start();
    let mut d = vec![];
    let kind = choose("kind", 4);
    match kind {
        0 => {
            // lengths of any size
            for i in 0..8 {
                d.push(sym8(&format!("b{}", i)));
            }
            d.extend_from_slice(&[0; 8]);
        }
        1 => {
            // the contents of a common entry
            let c = cie(&mut d, 1, "zR", 0x1b, false);
            for i in 8..15 {
                d[c + i] = sym8(&format!("b{}", i));
            }
            fde(&mut d, c, ENCS[0], true, 0);
        }
        2 => {
            // the end of a section within an entry
            let c = cie(&mut d, 1, "zPLR", 0x1b, false);
            fde(&mut d, c, ENCS[0], true, 0);
            let n = d.len();
            d.truncate(n - choose("cut", n as u64) as usize);
        }
        _ => {
            // a description that refers to anything
            let c = cie(&mut d, 1, "zR", 0x1b, false);
            let at = d.len();
            fde(&mut d, c, ENCS[0], true, 0);
            d[at + 4] = sym8("id");
            d[at] = sym8("length");
        }
    }
    a.sec(".eh_frame", SHT_PROGBITS, A, 8, &d);
    w.add(a);
    w
}

/// the start of every description of the inputs, and where it describes
fn expected(w: &World, p: &crate::ld::Proc, b: &Bases) -> Vec<(u64, u64)> {
    let mut v = vec![];
    for (oi, (_, o)) in w.objs.iter().enumerate() {
        for (si, s) in o.secs.iter().enumerate().filter(|s| s.1.name == ".eh_frame") {
            for r in &s.relas {
                let base = match b.at[oi][si] {
                    Some(x) => x,
                    None => fail("a section has no address"),
                };
                let f = match addr(w, b, p, w.target(oi, r.sym)) {
                    Some(v) => v,
                    None => fail("a symbol has no address"),
                };
                v.push((base + r.off - 8, f.wrapping_add(r.addend as u64)));
            }
        }
    }
    v
}
/// the table of the output, if there is one
fn read(o: &Out) -> Option<Option<Vec<(u64, u64)>>> {
    let hs: Vec<&Ph> = o.ph.iter().filter(|p| p.ty == PT_GNU_EH_FRAME).collect();
    check(hs.len() < 2, "at most one PT_GNU_EH_FRAME");
    let h = match hs.first() {
        Some(h) => *h,
        None => return None,
    };
    check(h.filesz == h.memsz && h.va % 4 == 0, "PT_GNU_EH_FRAME describes data");
    let inside = o.ph.iter().any(|l| {
        l.ty == PT_LOAD && l.va <= h.va && h.va + h.memsz <= l.va + l.filesz && h.off.wrapping_sub(l.off) == h.va - l.va
    });
    check(inside, "PT_GNU_EH_FRAME is part of a loadable segment");
    check(h.memsz >= 8, "the frame table has a header");
    let at = h.va;
    let byte = |i: u64| conc(o.get(at + i, 1));
    let word = |i: u64| o.get(at + i, 4) as u32 as i32 as i64 as u64;
    check(byte(0) == 1, "version of the frame table");
    check(byte(1) == 0x1b, "encoding of the address of .eh_frame");
    let eh = o.sh.iter().find(|s| s.name == ".eh_frame");
    match eh {
        Some(s) => check(word(4).wrapping_add(at + 4) == s.addr, "the frame table says where .eh_frame is"),
        None => fail("a frame table without .eh_frame"),
    }
    if byte(2) == 0xff || byte(3) == 0xff {
        return Some(None);
    }
    check(byte(2) == 3 && byte(3) == 0x3b, "encodings of the frame table");
    let n = conc(word(8));
    check(h.memsz >= 12 + 8 * n, "the frame table is as long as it says");
    let mut v = vec![];
    for i in 0..n {
        v.push((word(12 + 8 * i).wrapping_add(at), word(16 + 8 * i).wrapping_add(at)));
    }
    Some(Some(v))
}
pub fn chk(w: &World) {
    if !must_link(0) {
        return;
    }
    let (p, b) = start(w, "out");
    check_segments(&p.o);
    check_headers(&p.o);
    check_relocs(w, &p, &b);
    check_disjoint(w, &b);
    let want = expected(w, &p, &b);
    let asked = w.opts.contains("--eh-frame-hdr") || w.runs.iter().any(|r| r.contains("--eh-frame-hdr"));
    let odd = w.objs[0].1.secs.iter().any(|s| s.name == ".eh_frame" && s.data.len() > 20 && unusual(s));
    match read(&p.o) {
        Some(Some(table)) => {
            check(table.len() == want.len() || odd, "every frame description is in the table");
            for x in table.windows(2) {
                check(x[0].0 as i64 <= x[1].0 as i64, "the frame table is sorted");
            }
            for (fde, pc) in want {
                let mut found = false;
                for (x, y) in &table {
                    found |= (*x == pc) & (*y == fde);
                }
                check(found, "the frame table leads to every description");
            }
            reach("table");
        }
        Some(None) => {
            check(odd, "ordinary frame descriptions are in a table");
            reach("omitted");
        }
        None => {
            check(!asked || want.is_empty(), "there is a table of the frame descriptions");
            reach("none");
        }
    }
}
fn unusual(s: &Sec) -> bool {
    let aug: Vec<u8> = s.data[9..].iter().copied().take_while(|c| *c != 0).collect();
    let r = s.data.windows(2).any(|x| x == [0x9b, 0x0c]);
    s.data[8] == 4 || aug == b"zRq" || aug == b"eh" || r
}
fn chk_raw(w: &World) {
    if status(0) != 0 {
        check(status(0) == 1 || status(0) == 101, "malformed frame descriptions don't crash the linker");
        reach("refused");
        return;
    }
    let (p, _) = start(w, "out");
    check_segments(&p.o);
    check_headers(&p.o);
    if let Some(Some(table)) = read(&p.o) {
        for x in table.windows(2) {
            check(x[0].0 as i64 <= x[1].0 as i64, "the frame table is sorted");
        }
    }
    reach("linked");
}
