//! C02: code that loads an address from, or branches through, the global offset table.
use super::{q, t, Scen};
use crate::obj::*;
use crate::rt::*;
use crate::world::*;

pub fn all() -> Vec<Scen> {
    vec![
        q("c02_load", load, chk),
        q("c02_branch", branch, chk),
        q("c02_other", other, chk_other),
        q("c02_plain", plain, chk),
        q("c02_slots", slots, chk),
        t("c02_slots5", slots5, chk),
    ]
}
/// what the reference is to: 0 own global, 1 other object's global, 2 local, 3 weak nowhere,
/// 4 library function, 5 library object, 6 absolute symbol
fn target(w: &mut World, a: &mut Obj, kind: u64) -> usize {
    let value = sym16("value") as u64;
    match kind {
        0 => {
            let d = a.blob(16);
            let d = match choose("place", 2) {
                0 => a.rodata(&d),
                _ => a.sec(".data.z", SHT_PROGBITS, A | W, 16, &d),
            };
            a.sym("sym", GLOBAL, NOTYPE, d, value, 4)
        }
        2 => {
            let d = a.blob(16);
            let d = a.sec(".text.y", SHT_PROGBITS, A | X, 16, &d);
            a.sym("sym", LOCAL, NOTYPE, d, value, 4)
        }
        1 => a.undef("sym"),
        3 => a.sym("sym", WEAK, NOTYPE, UNDEF, 0, 0),
        6 => {
            let v = sym64("abs");
            a.sym("sym", GLOBAL, NOTYPE, ABS, v, 0)
        }
        _ => {
            let mut l = Lib::new();
            l.func("other", 0x10);
            if kind == 4 {
                l.func("sym", 0x40);
            } else {
                l.object("sym", 0x40, 8);
            }
            w.lib("libx.so", l);
            a.undef("sym")
        }
    }
}
fn finish(mut w: World, a: Obj, kind: u64) -> World {
    w.add(a);
    if kind == 1 {
        let mut b = w.obj();
        let d = b.blob(16);
        let d = b.data(&d);
        let v = sym16("value") as u64;
        b.sym("sym", WEAK, OBJECT, d, v, 4);
        w.add(b);
    }
    w
}
fn load() -> World {
    let mut w = World::new();
    let mut a = w.obj();
    a.start();
    let kind = choose("kind", 7);
    let reg = choose("reg", 16);
    let mut d = a.blob(24);
    let at = 9;
    d[at] = if reg & 8 != 0 { 0x4c } else { 0x48 };
    d[at + 1] = 0x8b;
    d[at + 2] = 5 | (reg as u8 & 7) << 3;
    let site = a.sec(".text.x", SHT_PROGBITS, A | X, 4, &d);
    let s = target(&mut w, &mut a, kind);
    a.rela(site, at as u64 + 3, R_REX_GOTPCRELX, s, -4);
    finish(w, a, kind)
}
fn branch() -> World {
    let mut w = World::new();
    let mut a = w.obj();
    a.start();
    let kind = choose("kind", 7);
    let jmp = choose("jmp", 2);
    let mut d = a.blob(24);
    let at = 8 + choose("at", 3) as usize;
    d[at] = 0xff;
    d[at + 1] = if jmp == 1 { 0x25 } else { 0x15 };
    let site = a.sec(".text.x", SHT_PROGBITS, A | X, 4, &d);
    let s = target(&mut w, &mut a, kind);
    a.rela(site, at as u64 + 2, R_GOTPCRELX, s, -4);
    finish(w, a, kind)
}
pub fn chk(w: &World) {
    if !must_link(0) {
        return;
    }
    let (p, b) = start(w, "out");
    check_relocs(w, &p, &b);
    check_contents(w, &p, &b);
    reach("linked");
}
/// other instructions that carry the same relocations keep going through the table
fn other() -> World {
    let mut w = World::new();
    let mut a = w.obj();
    a.start();
    let kind = choose("kind", 7);
    let n = choose("op", 10) as usize;
    let op = [0x03u8, 0x0b, 0x23, 0x2b, 0x33, 0x3b, 0x85, 0x8b, 0xff, 0x8b][n];
    let rex = n == 9 || op != 0x8b && op != 0xff;
    let mut d = a.blob(24);
    let k = if rex { 3 } else { 2 };
    let at = 12;
    if rex {
        // (loads of a whole register are rewritten)
        d[at - 3] = 0x40 | sym8("rex") & 15;
        assume((op != 0x8b) | ((d[at - 3] != 0x48) & (d[at - 3] != 0x4c)));
    }
    d[at - 2] = op;
    // (push and other instructions, but neither call nor jmp)
    d[at - 1] = 5 | if op == 0xff { [6, 0, 1][choose("ext", 3) as usize] } else { sym8("reg") & 7 } << 3;
    let _ = k;
    let site = a.sec(".text.x", SHT_PROGBITS, A | X, 4, &d);
    let s = target(&mut w, &mut a, kind);
    a.rela(site, at as u64, if rex { R_REX_GOTPCRELX } else { R_GOTPCRELX }, s, sym8("addend") as i8 as i64);
    finish(w, a, kind)
}
/// references that say nothing of the instruction around them, as older assemblers make them
fn plain() -> World {
    let mut w = World::new();
    let mut a = w.obj();
    a.start();
    let kind = choose("kind", 7);
    let at = [8, 9, 11, 12][choose("at", 4) as usize];
    let mut d = a.blob(24);
    let op: [u8; 3] =
        [[0x48, 0x8b, 0x05], [0x4c, 0x8b, 0x3d], [0x90, 0xff, 0x15], [0x90, 0xff, 0x25], [0x48, 0x3b, 0x0d], [0x90, 0x8b, 0x0d], [0, 0, 0]][choose("op", 7) as usize];
    for k in 0..(at - 8).min(3) {
        d[at - 1 - k] = op[2 - k];
    }
    let site = a.sec([".text.x", ".data.x"][choose("data", 2) as usize], SHT_PROGBITS, A | if choose("data", 2) == 1 { W } else { X }, 4, &d);
    let s = target(&mut w, &mut a, kind);
    let addend = if choose("imm", 2) == 1 { sym8("addend") as i8 as i64 } else { -4 };
    a.rela(site, at as u64, R_GOTPCREL, s, addend);
    finish(w, a, kind)
}
fn chk_other(w: &World) {
    if !must_link(0) {
        return;
    }
    let (p, b) = start(w, "out");
    let (si, s) = w.objs[0].1.secs.iter().enumerate().find(|s| s.1.name == ".text.x").unwrap();
    let base = b.at[0][si].unwrap();
    let r = &s.relas[0];
    for k in 1..4 {
        let o = r.off - k;
        check(p.o.get(base + o, 1) == s.data[o as usize] as u64, "the instruction is kept");
    }
    let sv = addr(w, &b, &p, w.target(0, r.sym)).unwrap();
    let slot = conc((p.o.get(base + r.off, 4) as u32 as i32 as i64 as u64).wrapping_add(base + r.off).wrapping_sub(r.addend as u64));
    check(p.o.get(slot, 8) == sv, "the GOT slot holds the symbol's address");
    reach("linked");
}
/// several references to several symbols, of all kinds that use the tables
fn many(n: usize) -> World {
    let mut w = World::new();
    let mut a = w.obj();
    a.start();
    let mut l = Lib::new();
    l.func("f", 0x40);
    l.func("g", 0x80);
    l.object("v", 0x40, 8);
    w.lib("libx.so", l);
    let own = a.blob(16);
    let own = a.sec(".text.y", SHT_PROGBITS, A | X, 16, &own);
    let val = sym8("value") as u64;
    let ids = [a.undef("f"), a.undef("g"), a.undef("v"), a.func("own", own, val, 4)];
    let mut d = a.blob(8 + 8 * n);
    let kinds = [R_REX_GOTPCRELX, R_GOTPCRELX, R_PLT32, R_GOTPCRELX, R_REX_GOTPCRELX];
    for i in 0..n {
        let o = 8 + 8 * i;
        match kinds[i] {
            R_REX_GOTPCRELX => d[o..o + 3].copy_from_slice(&[0x48, 0x8b, 0x05]),
            R_GOTPCRELX => d[o + 1..o + 3].copy_from_slice(&[0xff, 0x15]),
            _ => d[o + 2] = 0xe8,
        }
    }
    let site = a.sec(".text.x", SHT_PROGBITS, A | X, 4, &d);
    for i in 0..n {
        let mut s = choose(&format!("sym{}", i), 4) as usize;
        if kinds[i] != R_REX_GOTPCRELX && s == 2 {
            s = 3;
        }
        a.rela(site, 8 + 8 * i as u64 + 3, kinds[i], ids[s], -4);
    }
    w.add(a);
    w
}
fn slots() -> World {
    many(4)
}
fn slots5() -> World {
    many(5)
}
