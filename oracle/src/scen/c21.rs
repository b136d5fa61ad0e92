//! C21: the output does not depend on the seeds of the hash tables.
use super::{q, t, Scen};
use crate::obj::*;
use crate::out::*;
use crate::rt::*;
use crate::world::*;

pub fn all() -> Vec<Scen> {
    vec![
        q("c21_objects", objects, chk),
        q("c21_dynamic", dynamic, chk),
        q("c21_archives", archives, chk),
        q("c21_existing", existing, chk_existing),
        t("c21_objects3", objects3, chk),
        t("c21_dynamic3", dynamic3, chk),
        t("c21_archives3", archives3, chk),
    ]
}
/// links several times: all hashes equal; `count` keys from the n-th on with any hash below `n`;
/// and with real hashes of some seeds
fn runs(w: &mut World, args: &str, total: u64, count: u64, n: u64) {
    let step = if count == 1 { 1 } else { count - 1 };
    let k = choose("window", (total + step - 1) / step);
    w.plan.push("hash const".into());
    w.plan.push(format!("run dld {} -o out", args));
    w.plan.push(format!("hash sym {} {} {}", n, k * step, count));
    w.plan.push(format!("run dld {} -o out2", args));
    if k % 4 == 0 {
        w.plan.push(format!("hash sip {}", k * 7919 + 3));
        w.plan.push(format!("run dld {} -o out3", args));
    }
}
fn chk(w: &World) {
    let (a, b) = (status(0), status(1));
    let x = std::fs::read("out").unwrap_or_default();
    let y = std::fs::read("out2").unwrap_or_default();
    check(a == b, "the outcome is always the same");
    check(x == y, "the output is always the same");
    if let Ok(z) = std::fs::read("out3") {
        check(status(2) == a, "the outcome is always the same");
        check(z == x, "the output is always the same");
    }
    check(a == 0, "valid inputs are linked");
    reach("linked");
}
/// several objects: locals, globals, weak and common symbols, sections of many names, relocations
fn objs() -> World {
    let mut w = World::new();
    for i in 0..3u64 {
        let mut o = w.obj();
        if i == 0 {
            o.start();
        }
        let mut ss = vec![];
        for n in [".data", ".data.rel", ".rodata", ".text.x"] {
            let d = o.fill(24);
            let fl = match n {
                ".rodata" => A,
                ".text.x" => A | X,
                _ => A | W,
            };
            ss.push(o.sec(n, SHT_PROGBITS, fl, 8, &d));
        }
        ss.push(o.bss(32, 16));
        for k in 0..3u64 {
            let s = ss[(k + i) as usize % 4];
            o.object(&format!("g{}{}", i, k), s, 8 + k, 4);
            o.sym(&format!("l{}", k), LOCAL, OBJECT, s, 16 - k, 2);
        }
        o.sym("weak", WEAK, FUNC, ss[3], i, 1);
        o.sym(&format!("comm{}", i % 2), GLOBAL, OBJECT, COMMON, 8, 8 + 8 * i);
        o.sym(&format!("maybe{}", i), WEAK, NOTYPE, UNDEF, 0, 0);
        for k in 0..3u64 {
            let u = o.undef(&format!("g{}{}", (i + 1) % 3, k));
            o.rela(ss[1], 8 + 4 * k, [R_32, R_32S, R_PC32][k as usize], u, 0);
        }
        let y = o.secsym(ss[4]);
        o.rela(ss[0], 8, R_64, y, 4);
        let g = o.undef(&format!("g{}0", (i + 2) % 3));
        o.rela(ss[3], 12, R_PC32, g, -4);
        w.add(o);
    }
    w
}
/// many library functions and objects, referenced in all ways
fn dynp() -> (World, String) {
    let mut w = World::new();
    let mut ls = vec![Lib::new(), Lib::new(), Lib::new()];
    for i in 0..2u64 {
        let mut o = w.obj();
        if i == 0 {
            o.start();
        }
        for k in 0..4u64 {
            let l = &mut ls[(k % 3) as usize];
            let (f, d) = (format!("fn{}", k), format!("ob{}", k));
            if i == 0 {
                l.func(&f, 0x20 * (k + 1));
                l.object(&d, 0x20 * (k + 1), 8 << k);
            }
            let s = o.fill(16);
            let s = o.sec(".text.c", SHT_PROGBITS, A | X, 4, &s);
            let y = o.undef(&f);
            o.rela(s, 8, R_PLT32, y, -4);
            let z = o.undef(&d);
            if (k + i) % 2 == 0 {
                o.rela(s, 12, R_PC32, z, -4);
            } else {
                let p = o.fill(24);
                let p = o.sec(".data.p", SHT_PROGBITS, A | W, 8, &p);
                o.rela(p, 8, R_64, z, 0);
                o.rela(p, 16, R_64, y, 0);
            }
        }
        w.add(o);
    }
    for (i, mut l) in ls.into_iter().enumerate() {
        l.func(&format!("unused{}", i), 0x500);
        w.lib(&format!("lib{}.so", i), l);
    }
    let a = w.default_args() + "--hash-style=both";
    (w, a)
}
/// members that define several symbols, two archives that could both satisfy a reference
fn arp() -> (World, String) {
    let mut w = World::new();
    let mut a = w.obj();
    a.start();
    for n in ["f0", "f1", "f2", "f3", "f4"] {
        let d = a.fill(12);
        let s = a.sec(".text.u", SHT_PROGBITS, A | X, 4, &d);
        let y = a.undef(n);
        a.rela(s, 8, R_PLT32, y, -4);
    }
    w.add(a);
    for (k, groups) in [[["f0", "h0"], ["f1", "h1"], ["f2", "h2"]], [["f2", "x2"], ["f3", "f4"], ["h1", "h3"]]].iter().enumerate() {
        let mut ms: Vec<(String, Vec<u8>, Vec<&str>)> = vec![];
        for (i, g) in groups.iter().enumerate() {
            let mut m = Obj::new();
            m.id = 10 + 5 * k as u8 + i as u8;
            for n in g {
                let d = m.fill(12);
                let s = m.sec(".text.m", SHT_PROGBITS, A | X, 4, &d);
                m.func(n, s, 8, 4);
            }
            if k == 1 && i == 1 {
                let d = m.fill(12);
                let s = m.sec(".text.m", SHT_PROGBITS, A | X, 4, &d);
                let y = m.undef("x9");
                m.rela(s, 8, R_PLT32, y, -4);
            }
            ms.push((format!("m{}.o", m.id), m.build(), g.to_vec()));
        }
        let v: Vec<(&str, Vec<u8>, Vec<&str>)> = ms.iter().map(|m| (m.0.as_str(), m.1.clone(), m.2.clone())).collect();
        w.files.push((format!("lib{}.a", k), archive(&v)));
    }
    let mut l = Lib::new();
    l.func("x9", 0x10);
    l.func("x8", 0x20);
    w.lib("libx.so", l);
    let a = w.default_args() + "lib0.a lib1.a";
    (w, a)
}
fn objects() -> World {
    let mut w = objs();
    let a = w.default_args();
    runs(&mut w, &a, 150, 2, 5);
    w
}
fn dynamic() -> World {
    let (mut w, a) = dynp();
    runs(&mut w, &a, 150, 2, 5);
    w
}
fn archives() -> World {
    let (mut w, a) = arp();
    runs(&mut w, &a, 150, 2, 5);
    w
}
fn objects3() -> World {
    let mut w = objs();
    let a = w.default_args();
    runs(&mut w, &a, 150, 3, 9);
    w
}
fn dynamic3() -> World {
    let (mut w, a) = dynp();
    runs(&mut w, &a, 150, 3, 9);
    w
}
fn archives3() -> World {
    let (mut w, a) = arp();
    runs(&mut w, &a, 150, 3, 9);
    w
}
/// over files that exist already
fn existing() -> World {
    let (mut w, a) = match choose("inputs", 3) {
        0 => {
            let w = objs();
            let a = w.default_args();
            (w, a)
        }
        1 => dynp(),
        _ => arp(),
    };
    let n = [0, 1, 64, 5000, 40000][choose("length", 5) as usize];
    let mut d = vec![0xeeu8; n];
    for k in [0, 7, 31, 63, 4095, 4999, 16000, 39999] {
        if k < n {
            d[k] = sym8(&format!("old{}", k));
        }
    }
    w.files.push(("out2".into(), d));
    w.run(&format!("{} -o out", a));
    w.run(&format!("{} -o out2", a));
    w
}
fn chk_existing(_w: &World) {
    check(status(0) == 0 && status(1) == 0, "valid inputs are linked");
    let x = std::fs::read("out").unwrap_or_default();
    let y = std::fs::read("out2").unwrap_or_default();
    check(x == y, "the output replaces what was there");
    reach("linked");
}
