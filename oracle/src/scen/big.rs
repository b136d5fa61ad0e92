//! The same properties with many symbols, sections, members and entries: the counts are around
//! the limits of narrow fields and of growing tables.
use super::c07::chk as chk_resolve;
use super::c10::chk_table;
use super::c13::{chk_arrays, chk_copy, chk_hash, chk_needed, chk_plt};
use super::c18::chk_pulled;
use super::{q, t, Scen};
use crate::obj::*;
use crate::rt::*;
use crate::world::*;

pub fn all() -> Vec<Scen> {
    vec![
        q("c02_many", got_many, super::c02::chk),
        q("c03_many", sections, super::c03::chk_many),
        q("c07_many", objects, chk_resolve),
        q("c10_many", symbols, chk_table),
        q("c13_many", plt_many, chk_plt),
        q("c14_many", copies, chk_copy),
        q("c15_many", libraries, chk_needed),
        q("c16_more", names, chk_hash),
        q("c17_many", arrays, chk_arrays),
        q("c18_chain", chain, chk_pulled),
        q("c01_far", far, super::c01::chk),
        q("c02_far", far, super::c02::chk),
        q("c10_far", far, chk_table),
        q("c23_far", far_tls, super::c23::chk),
        q("c24_far", far_debug, super::c24::chk),
        q("c16_far", long_names, chk_hash),
        q("c18_far", long_member, chk_pulled),
    ]
}
/// `n` library functions and own symbols, referenced from one section in all the ways of `hows`
fn many(n: u64, hows: &[u32]) -> World {
    let mut w = World::new();
    let mut ls: Vec<Lib> = (0..n / 60 + 1).map(|_| Lib::new()).collect();
    let mut a = w.obj();
    a.start();
    let mut d = a.fill(8 + 8 * n as usize);
    for i in 0..n as usize {
        let o = 8 + 8 * i;
        match hows[i % hows.len()] {
            R_REX_GOTPCRELX => d[o..o + 3].copy_from_slice(&[0x48, 0x8b, 0x05]),
            R_GOTPCRELX => d[o + 1..o + 3].copy_from_slice(&[0xff, 0x15]),
            R_PLT32 => d[o + 2] = 0xe8,
            _ => {}
        }
    }
    let site = a.sec(".text.x", SHT_PROGBITS, A | X, 4, &d);
    for i in 0..n {
        let name = format!("fn{}", i);
        ls[i as usize / 60].func(&name, 0x8 * i);
        let s = a.undef(&name);
        a.rela(site, 8 + 8 * i + 3, hows[i as usize % hows.len()], s, -4);
    }
    for (i, l) in ls.into_iter().enumerate() {
        w.lib(&format!("lib{}.so", i), l);
    }
    w.add(a);
    w
}
fn got_many() -> World {
    let n = [17, 130, 260][choose("count", 3) as usize];
    many(n, [&[R_REX_GOTPCRELX][..], &[R_REX_GOTPCRELX, R_GOTPCRELX]][choose("how", 2) as usize])
}
fn plt_many() -> World {
    let n = [17, 129, 257][choose("count", 3) as usize];
    many(n, [&[R_PLT32][..], &[R_PLT32, R_REX_GOTPCRELX]][choose("how", 2) as usize])
}
/// more than 256 sections in the output; the second half of the objects brings them again
fn sections() -> World {
    let mut w = World::new();
    let n = [20u64, 90][choose("count", 2) as usize];
    let flags = [A, A | W, A | X];
    let k = choose("flags", 3);
    for i in 0..6u64 {
        let mut o = w.obj();
        if i == 0 {
            o.start();
        }
        for j in 0..n {
            let d = o.fill(9 + (i + j) as usize % 3);
            let f = flags[((j + k) % 3) as usize];
            o.sec(&format!(".s{}.{}", i % 3, j), SHT_PROGBITS, f, 1 << (j % 4), &d);
        }
        w.add(o);
    }
    w
}
/// forty objects with local namesakes, and a global one somewhere
fn objects() -> World {
    let mut w = World::new();
    let at = [0u64, 1, 20, 38, 39][choose("at", 5) as usize];
    let weak = choose("weak", 2) == 1;
    for i in 0..40u64 {
        let mut o = w.obj();
        if i == 3 {
            o.start();
        }
        let d = o.fill(16 + i as usize % 5);
        let d = o.data(&d);
        let s = if i == at {
            o.object("sym", d, i, 4)
        } else if i % 3 == 0 {
            o.sym("sym", LOCAL, OBJECT, d, i, 4)
        } else if weak && i % 3 == 1 {
            o.sym("sym", WEAK, OBJECT, d, i, 4)
        } else {
            o.undef("sym")
        };
        let p = o.fill(16);
        let p = o.sec(".data.ref", SHT_PROGBITS, A | W, 8, &p);
        o.rela(p, 8, R_64, s, 3);
        w.add(o);
    }
    w
}
fn symbols() -> World {
    let mut w = World::new();
    let n = [40u64, 130][choose("count", 2) as usize];
    let long = choose("long", 3);
    for i in 0..2u64 {
        let mut o = w.obj();
        if i == 0 {
            o.start();
        }
        let d = o.fill(9);
        let d = o.data(&d);
        for k in 0..n {
            o.sym(&format!("l{}", k % 7), LOCAL, OBJECT, d, k, k + 1);
            let mut name = format!("g{}_{}", i, k);
            if k % 50 == 3 {
                name += &"x".repeat([1, 300, 5000][long as usize]);
            }
            o.sym(&name, if k % 5 == 0 { WEAK } else { GLOBAL }, (k % 3) as u8, d, k, 0x1_0000_0000 + k);
        }
        w.add(o);
    }
    w
}
fn copies() -> World {
    let mut w = World::new();
    let mut l = Lib::new();
    let mut a = w.obj();
    a.start();
    let n = [9u64, 40, 70][choose("count", 3) as usize];
    let d = a.fill(8 + 8 * n as usize);
    let site = a.data(&d);
    for i in 0..n {
        let name = format!("ob{}", i);
        l.object(&name, 0x10 * i, 1 + i * 5 % 90);
        let s = a.undef(&name);
        a.rela(site, 8 + 8 * i, R_64, s, 0);
    }
    w.lib("libx.so", l);
    w.add(a);
    w
}
fn libraries() -> World {
    let mut w = World::new();
    let mut a = w.obj();
    a.start();
    let n = [12u64, 40][choose("count", 2) as usize];
    let k = choose("step", 3) + 1;
    let mut args = String::from("a.o ");
    for i in 0..n {
        let mut l = Lib::new();
        let name = format!("fn{}", i);
        l.func(&name, 0x20);
        if i % 2 == 0 {
            l.soname = Some(format!("libr{}.so.{}", i, k));
        }
        if i % k == 0 {
            a.undef(&name);
        }
        if i == n / 2 {
            args.push_str("--as-needed ");
        }
        args.push_str(&format!("{}lib{}.so ", if i < n / 2 { "--no-as-needed " } else { "--as-needed " }, i));
        w.lib(&format!("lib{}.so", i), l);
    }
    w.add(a);
    w.run(&(args + "-o out"));
    w
}
fn names() -> World {
    let mut w = World::new();
    let mut ls: Vec<Lib> = (0..9).map(|_| Lib::new()).collect();
    let mut a = w.obj();
    a.start();
    let n = [100u64, 260][choose("count", 2) as usize];
    let c = ["z", "é", "_Z4name"][choose("prefix", 3) as usize];
    for i in 0..n {
        let name = format!("{}{}{}", c, i * i % 97, i);
        ls[i as usize % 9].func(&name, 0x8 * i);
        a.undef(&name);
    }
    for (i, l) in ls.into_iter().enumerate() {
        w.lib(&format!("lib{}.so", i), l);
    }
    w.add(a);
    w.opts = "--hash-style=both".into();
    w
}
fn arrays() -> World {
    let mut w = World::new();
    let n = [31u64, 32, 200][choose("count", 3) as usize];
    for i in 0..3u64 {
        let mut o = w.obj();
        if i == 0 {
            o.start();
        }
        let d = o.fill(16);
        let f = o.sec(".text.f", SHT_PROGBITS, A | X, 1, &d);
        let s = o.sym("f", LOCAL, FUNC, f, 8, 1);
        for (name, ty, k) in [(".init_array", SHT_INIT_ARRAY, n), (".fini_array", SHT_FINI_ARRAY, n - i)] {
            let y = o.sec(name, ty, A | W, 8, &vec![0; 8 * k as usize]);
            for j in 0..k {
                o.rela(y, 8 * j, R_64, s, j as i64);
            }
        }
        w.add(o);
    }
    w
}
/// every member needs the next one
fn chain() -> World {
    let n = [10usize, 33][choose("count", 2) as usize];
    let mut w = World::new();
    let mut a = w.obj();
    a.start();
    super::c18::refer(&mut a, "f0", GLOBAL);
    w.add(a);
    let stop = [0, n / 2, n][choose("stop", 3) as usize];
    let mut c = vec![];
    for i in 0..n {
        let mut m = super::c18::cand(i as u8 + 1, 0);
        super::c18::define(&mut m, &format!("f{}", i), GLOBAL);
        if i + 1 != stop && i + 1 < n {
            super::c18::refer(&mut m.o, &format!("f{}", i + 1), GLOBAL);
        }
        c.push(m);
    }
    let order: Vec<usize> = match choose("order", 3) {
        0 => (0..n).collect(),
        1 => (0..n).rev().collect(),
        _ => (0..n).map(|i| i * 7 % n).collect(),
    };
    super::c18::finish(&mut w, c, &order, 1, false);
    w
}
/// more than 64 KiB of everything, with references between the ends
fn far() -> World {
    let mut w = World::new();
    let size = [66_001usize, 140_003][choose("size", 2) as usize];
    let kind = choose("kind", 4);
    let cold = choose("cold", 2) == 1;
    let long = "l".repeat(9000);
    for i in 0..3u64 {
        let mut o = w.obj();
        if i == 0 {
            o.start();
        }
        let mut d = o.fill(size);
        d[size - 8..size - 5].copy_from_slice(&[0x48, 0x8b, 0x15]);
        let t = o.sec(".text.far", SHT_PROGBITS, A | X, 16, &d);
        let d = o.fill(size + 5);
        let x = o.sec(".data.far", SHT_PROGBITS, A | W, 32, &d);
        let d = o.fill(size + 1);
        let r = o.sec(".rodata.far", SHT_PROGBITS, A, 4, &d);
        let b = o.bss(size as u64 * 9, 16);
        let place = [t, x, r, b][((kind + i) % 4) as usize];
        let v = size as u64 - 40 + sym8(&format!("value{}", i)) as u64 % 32;
        let y = o.object(&format!("g{}{}", i, long), place, v, 0x2_0000 + i);
        let z = o.sym("near", LOCAL, OBJECT, place, v + 1, 7);
        let n = o.undef(&format!("g{}{}", (i + 1) % 3, long));
        let e = size as u64;
        if cold {
            // many relocations in between
            for k in 0..40 {
                o.rela(x, 8 + k * 16, R_64, if k % 2 == 0 { z } else { n }, k as i64);
            }
        }
        o.rela(t, e - 5, R_REX_GOTPCRELX, n, -4);
        o.rela(t, e - 20, R_PLT32, n, -4);
        o.rela(x, e - 12, R_64, n, 0x1_2345);
        o.rela(x, e - 24, R_64, y, 0);
        o.rela(x, e - 4, R_32, z, 1);
        o.rela(x, e - 40, R_32S, n, -70_000);
        let bs = o.secsym(b);
        o.rela(x, e - 60, R_64, bs, 0);
        o.rela(r, e - 12, R_PC32, z, 70_000);
        o.rela(r, e - 24, R_PC32, n, 3);
        w.add(o);
    }
    w
}
fn far_tls() -> World {
    let mut w = World::new();
    let size = [66_001usize, 140_003][choose("size", 2) as usize];
    let zero = choose("zero", 2) == 1;
    let mut names = vec![];
    for i in 0..2u64 {
        let mut o = w.obj();
        if i == 0 {
            o.start();
        }
        let (s, v) = if zero && i == 1 {
            let s = o.sec(".tbss", SHT_NOBITS, A | W | TLS, 16, &[]);
            o.secs[s as usize - 1].size = size as u64;
            (s, size as u64 - 8)
        } else {
            let d = o.fill(size);
            (o.sec(".tdata", SHT_PROGBITS, A | W | TLS, 16, &d), size as u64 - 8)
        };
        let n = format!("t{}", i);
        let y = o.sym(&n, GLOBAL, STT_TLS, s, v, 8);
        let d = o.fill(12);
        let c = o.sec(".text.t", SHT_PROGBITS, A | X, 4, &d);
        o.rela(c, 8, R_TPOFF32, y, 0);
        names.push(n);
        w.add(o);
    }
    let mut o = w.obj();
    for n in &names {
        let y = o.sym(n, GLOBAL, STT_TLS, UNDEF, 0, 0);
        let d = o.fill(20);
        let c = o.sec(".text.u", SHT_PROGBITS, A | X, 4, &d);
        o.rela(c, 8, R_TPOFF32, y, -70_000);
        o.rela(c, 12, R_GOTTPOFF, y, -4);
        o.rela(c, 16, R_TLSGD, y, -4);
    }
    w.add(o);
    w
}
fn far_debug() -> World {
    let mut w = World::new();
    let size = [66_001usize, 140_003][choose("size", 2) as usize];
    for i in 0..2u64 {
        let mut o = w.obj();
        let t = if i == 0 {
            o.start()
        } else {
            let d = o.fill(size);
            o.text(&d)
        };
        let d = o.fill(size);
        let info = o.sec(".debug_info", SHT_PROGBITS, 0, 1, &d);
        let d = o.fill(size + 3);
        let strs = o.sec(".debug_str", SHT_PROGBITS, 0x30, 1, &d);
        let (ts, is, ss) = (o.secsym(t), o.secsym(info), o.secsym(strs));
        let e = size as u64;
        o.rela(info, e - 12, R_64, ts, e as i64 - 70_000 + 70_000 * i as i64);
        o.rela(info, e - 4, R_32, ss, e as i64 - 3);
        o.rela(info, e - 20, R_32, is, e as i64 - 5);
        o.rela(info, e - 40, R_64, ss, sym16("add") as i64);
        w.add(o);
    }
    w
}
/// a string table of more than 64 KiB
fn long_names() -> World {
    let mut w = World::new();
    let n = [3u64, 8][choose("count", 2) as usize];
    let mut l = Lib::new();
    let mut a = w.obj();
    a.start();
    for i in 0..n {
        for tail in ["", "x"] {
            let name = format!("{}{}{}", i, "long_".repeat(2000), tail);
            l.func(&name, 0x1_0000 * i + 0x10);
            if choose("both", 2) == 1 || tail == "x" {
                a.undef(&name);
            }
        }
    }
    w.lib("libx.so", l);
    w.add(a);
    w.opts = ["--hash-style=gnu", "--hash-style=sysv"][choose("style", 2) as usize].into();
    w
}
/// archives with members and indexes of more than 64 KiB
fn long_member() -> World {
    let mut w = World::new();
    let mut a = w.obj();
    a.start();
    let big = choose("big", 3) as usize;
    let last = choose("last", 3);
    super::c18::refer(&mut a, &format!("f{}", last), GLOBAL);
    w.add(a);
    let mut c = vec![];
    for i in 0..3usize {
        let mut m = super::c18::cand(i as u8 + 1, 0);
        if i == big {
            let d = m.o.fill(70_001);
            m.o.sec(".rodata.big", SHT_PROGBITS, A, 1, &d);
        }
        let name = if choose("names", 2) == 1 { "n".repeat(30_000) } else { "n".into() };
        super::c18::define(&mut m, &format!("{}{}", name, i), GLOBAL);
        super::c18::define(&mut m, &format!("f{}", i), GLOBAL);
        c.push(m);
    }
    super::c18::finish(&mut w, c, &[0, 1, 2], 1, false);
    w
}
