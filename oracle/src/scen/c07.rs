//! C07: symbol resolution; C08: undefined and duplicate symbols; C09: local symbols.
use super::{q, t, Scen};
use crate::obj::*;
use crate::out::*;
use crate::rt::*;
use crate::world::*;

pub fn all() -> Vec<Scen> {
    vec![
        q("c07_roles", roles3, chk),
        q("c07_lib", lib, chk),
        q("c07_order", order, chk),
        q("c07_unique", unique, chk),
        t("c07_roles4", roles4, chk),
        q("c08_undef", undef, chk_refuse),
        q("c08_dup", dup, chk_refuse),
        q("c08_stale", stale, chk_stale),
        q("c09_names", locals, chk),
        q("c09_sections", locals_sec, chk),
        q("c09_archive", locals_archive, chk),
    ]
}
/// object `i` uses and/or defines `name` in one of several roles
fn role(o: &mut Obj, name: &str, r: u64, tag: &str) {
    let v = (sym8(&format!("val{}", tag)) & 0x7f) as u64;
    let d = o.blob(24);
    let d = match r % 2 {
        0 => o.sec(".data.d", SHT_PROGBITS, A | W, 8, &d),
        _ => o.sec(".rodata.d", SHT_PROGBITS, A, 8, &d),
    };
    let s = match r {
        0 => return,
        1 => o.undef(name),
        2 => o.sym(name, WEAK, NOTYPE, UNDEF, 0, 0),
        3 => o.object(name, d, v, 4),
        4 => o.sym(name, WEAK, OBJECT, d, v, 4),
        5 => o.sym(name, GLOBAL, OBJECT, COMMON, 8, 4 + 16 * (o.id as u64 % 2)),
        6 => o.sym(name, LOCAL, OBJECT, d, v, 4),
        8 => o.sym(name, UNIQUE, OBJECT, d, v, 4),
        _ => {
            let abs = sym16(&format!("abs{}", tag)) as u64;
            o.sym(name, GLOBAL, NOTYPE, ABS, abs, 0)
        }
    };
    let p = o.fill(16);
    let p = o.sec(".data.ref", SHT_PROGBITS, A | W, 8, &p);
    o.rela(p, 8, R_64, s, sym64(&format!("add{}", tag)) as i64 & 0xfff);
}
fn roles(n: usize) -> World {
    let mut w = World::new();
    for i in 0..n {
        let mut o = w.obj();
        if i == 0 {
            o.start();
        }
        let r = choose(&format!("role{}", i), 8);
        role(&mut o, "sym", r, &i.to_string());
        w.add(o);
    }
    w
}
/// definitions of which a program may have many, in and outside of groups
fn unique() -> World {
    let mut w = World::new();
    for i in 0..3 {
        let mut o = w.obj();
        if i == 1 {
            o.start();
        }
        let r = [0, 1, 2, 8, 8][choose(&format!("role{}", i), 5) as usize];
        role(&mut o, "sym", r, &i.to_string());
        if r == 8 && choose(&format!("grouped{}", i), 2) == 1 {
            let s = o.syms.iter().position(|s| s.name == "sym").unwrap();
            let d = o.syms[s].sec;
            o.comdat(s, &[d]);
        }
        w.add(o);
    }
    let mut l = Lib::new();
    match choose("lib", 3) {
        0 => {}
        1 => l.func("sym", 0x20),
        _ => l.object("sym", 0x20, 8),
    }
    if let Some(s) = l.syms.last_mut() {
        s.bind = [UNIQUE, WEAK][choose("weak", 2) as usize];
    }
    l.func("lx", 0x60);
    w.lib("libx.so", l);
    w
}
fn roles3() -> World {
    roles(3)
}
fn roles4() -> World {
    roles(4)
}
/// the same with a library that defines the symbol too
fn lib() -> World {
    let mut w = roles(2);
    let mut l = Lib::new();
    let kind = choose("kind", 4);
    if kind % 2 == 0 {
        l.func("sym", 0x20);
    } else {
        l.object("sym", 0x20, 8);
    }
    if kind > 1 {
        // of no concern to others
        l.syms.last_mut().unwrap().bind = LOCAL;
        l.func("lx", 0x60);
    }
    w.lib("libx.so", l);
    // the first library on the command line counts
    let second = choose("second", 3);
    if second > 0 {
        let mut l = Lib::new();
        l.func("more", 0x80);
        if second == 1 {
            l.func("sym", 0x40);
        } else {
            l.object("sym", 0x40, 24);
        }
        w.lib("liby.so", l);
    }
    w
}
/// two symbols; their definitions and uses spread over objects in all ways
fn order() -> World {
    let mut w = World::new();
    let k = choose("first", 3);
    for i in 0..3 {
        let mut o = w.obj();
        if i == 1 {
            o.start();
        }
        let pos = (i + k) % 3;
        let r1 = [1, 3, 1][pos as usize];
        role(&mut o, "alpha", r1, &format!("a{}", i));
        let r2 = choose(&format!("beta{}", i), 5);
        role(&mut o, "beta", r2, &format!("b{}", i));
        w.add(o);
    }
    w
}
fn verdict(w: &World) -> bool {
    // every global name used by some object must be resolvable
    let mut bad = false;
    for (oi, (_, o)) in w.objs.iter().enumerate() {
        for si in 0..o.syms.len() {
            if matches!(w.target(oi, si), Target::Undefined | Target::Duplicate) {
                bad = true;
            }
        }
    }
    bad
}
pub fn chk(w: &World) {
    if verdict(w) {
        check(status(0) != 0, "a link with an undefined or multiply defined symbol fails");
        reach("refused");
        return;
    }
    if !must_link(0) {
        return;
    }
    let (p, b) = start(w, "out");
    check_relocs(w, &p, &b);
    check_contents(w, &p, &b);
    reach("linked");
}
pub fn no_output(path: &str) {
    if let Ok(d) = std::fs::read(path) {
        check(d.len() < 64 || d[..4] != [0x7f, b'E', b'L', b'F'], "a failed link leaves no executable behind");
    }
}
/// undefined symbols, hidden among defined ones
fn undef() -> World {
    let mut w = World::new();
    let n = 2;
    for i in 0..2 {
        let mut o = w.obj();
        if i == 0 {
            o.start();
        }
        let d = o.fill(8 + 8 * n);
        let d = o.data(&d);
        for k in 0..n {
            let name = format!("s{}", k);
            if i == 0 {
                let s = match choose(&format!("ref{}", k), 3) {
                    0 => continue,
                    1 => o.undef(&name),
                    _ => o.sym(&name, WEAK, NOTYPE, UNDEF, 0, 0),
                };
                if choose(&format!("used{}", k), 2) == 1 {
                    o.rela(d, 8 + 8 * k as u64, R_64, s, 0);
                }
            } else {
                match choose(&format!("def{}", k), 3) {
                    0 => {}
                    1 => {
                        o.object(&name, d, 8, 8);
                    }
                    _ => {
                        o.sym(&name, LOCAL, OBJECT, d, 8, 8);
                    }
                };
            }
        }
        w.add(o);
    }
    let mut l = Lib::new();
    l.func("f", 0x20);
    match choose("lib", 3) {
        0 => {}
        1 => l.func("s0", 0x30),
        _ => l.undef("s0"),
    }
    w.lib("libx.so", l);
    w
}
fn dup() -> World {
    let mut w = World::new();
    for i in 0..3 {
        let mut o = w.obj();
        if i == 0 {
            o.start();
        }
        let d = o.fill(24);
        let d = o.text(&d);
        for k in 0..2 {
            let name = format!("s{}", k);
            if i == 2 && k == 1 {
                continue;
            }
            match choose(&format!("def{}{}", i, k), 4) {
                0 => {
                    o.sym(&name, WEAK, FUNC, d, 8, 8);
                }
                1 => {
                    o.func(&name, d, 16, 8);
                }
                2 => {
                    o.sym(&name, GLOBAL, NOTYPE, ABS, 16, 0);
                }
                _ => {}
            }
        }
        w.add(o);
    }
    w
}
fn chk_refuse(w: &World) {
    if verdict(w) {
        check(status(0) != 0, "a link with an undefined or multiply defined symbol fails");
        no_output("out");
        reach("refused");
    } else if must_link(0) {
        let _ = Out::load("out");
        reach("linked");
    }
}
/// a good link, then a bad one to the same output
fn stale() -> World {
    let mut w = World::new();
    let mut a = w.obj();
    a.start();
    let t = a.fill(16);
    let t = a.sec(".text.q", SHT_PROGBITS, A | X, 1, &t);
    a.func("dup", t, 8, 1);
    w.add(a);
    let mut b = w.obj();
    let d = b.fill(24);
    let d = b.data(&d);
    match choose("bad", 4) {
        0 => {
            let s = b.undef("nowhere");
            b.rela(d, 8, R_64, s, 0);
        }
        1 => {
            b.object("dup", d, 8, 8);
        }
        2 => {
            let s = b.secsym(d);
            b.rela(d, 8, R_32, s, sym32("add") as i64 + 0x1_0000_0000);
        }
        _ => {
            b.machine = 3;
        }
    }
    w.add(b);
    w.run("a.o -o out");
    w.run("a.o b.o -o out");
    w
}
fn chk_stale(_w: &World) {
    if must_link(0) {
        check(status(1) != 0, "a bad link fails");
        no_output("out");
        reach("refused");
    }
}
/// local symbols called alike, next to globals of that name
fn locals() -> World {
    let mut w = World::new();
    for i in 0..3 {
        let mut o = w.obj();
        if i == 0 {
            o.start();
        }
        let kind = choose(&format!("kind{}", i), 3);
        let d = o.blob(24);
        let d = if kind == 1 { o.rodata(&d) } else { o.data(&d) };
        let v1 = sym8(&format!("v{}", i)) as u64;
        let v2 = sym8(&format!("w{}", i)) as u64;
        let mut ids = vec![];
        if kind < 2 {
            ids.push(o.sym("name", LOCAL, OBJECT, d, v1, 4));
            ids.push(o.sym("name", LOCAL, FUNC, d, v2, 4));
        } else if i == 1 {
            ids.push(o.object("name", d, v1, 4));
        } else {
            ids.push(o.sym("name", WEAK, OBJECT, d, v1, 4));
            ids.push(o.sym("file.c", LOCAL, FILE, ABS, 0, 0));
        }
        let p = o.fill(8 + 8 * ids.len());
        let p = o.sec(".data.ref", SHT_PROGBITS, A | W, 8, &p);
        for (k, s) in ids.iter().enumerate() {
            o.rela(p, 8 + 8 * k as u64, R_64, *s, 0);
        }
        w.add(o);
    }
    w
}
/// references through section symbols
fn locals_sec() -> World {
    let mut w = World::new();
    for i in 0..3u64 {
        let mut o = w.obj();
        if i == 0 {
            o.start();
        }
        o.rela_at = [RelaAt::After, RelaAt::End, RelaAt::Before][choose(&format!("order{}", i), 3) as usize];
        let d = o.blob(9 + i as usize);
        let d = o.sec(".data", SHT_PROGBITS, A | W, 1, &d);
        let e = o.blob(16);
        let e = if choose(&format!("two{}", i), 2) == 0 { o.rodata(&e) } else { o.sec(".data", SHT_PROGBITS, A | W, 2, &e) };
        let b = o.bss(16, 8);
        let add = sym16(&format!("add{}", i)) as i64;
        let p = o.fill(32);
        let p = o.sec(".data.ref", SHT_PROGBITS, A | W, 8, &p);
        for (k, s) in [e, d, b].iter().enumerate() {
            let y = o.secsym(*s);
            o.rela(p, 8 + 8 * k as u64, R_64, y, add);
        }
        w.add(o);
    }
    w
}
/// the same for members of archives: of one archive, or called alike in two
fn locals_archive() -> World {
    let mut w = World::new();
    let mut a = w.obj();
    a.start();
    for n in ["m0", "m1", "m2"] {
        a.undef(n);
    }
    w.add(a);
    let mut ar: Vec<Vec<(&str, Vec<u8>, Vec<&str>)>> = vec![vec![], vec![]];
    let split = choose("archives", 3);
    for i in 0..3u64 {
        let mut o = w.obj();
        let d = o.blob(9 + i as usize);
        let d = o.sec(".data", SHT_PROGBITS, A | W, 1 << i, &d);
        let e = o.blob(16);
        let e = if choose(&format!("two{}", i), 2) == 0 { o.rodata(&e) } else { o.sec(".data", SHT_PROGBITS, A | W, 2, &e) };
        let b = o.bss(16, 8);
        o.object(["m0", "m1", "m2"][i as usize], d, 1, 1);
        let own = o.sym("name", LOCAL, OBJECT, e, sym8(&format!("v{}", i)) as u64, 4);
        let add = sym16(&format!("add{}", i)) as i64;
        let p = o.fill(40);
        let p = o.sec(".data.ref", SHT_PROGBITS, A | W, 8, &p);
        for (k, s) in [e, d, b].iter().enumerate() {
            let y = o.secsym(*s);
            o.rela(p, 8 + 8 * k as u64, R_64, y, add);
        }
        o.rela(p, 32, R_64, own, add);
        let k = (split + i) / 2 % 2;
        let n = if split == 2 { "m.o" } else { ["x.o", "y.o", "z.o"][i as usize] };
        let n = if ar[k as usize].is_empty() { n } else { ["p.o", "q.o", "r.o"][i as usize] };
        ar[k as usize].push((n, o.build(), vec![["m0", "m1", "m2"][i as usize]]));
        w.objs.push((String::new(), o));
    }
    let mut args = String::from("a.o");
    for (i, m) in ar.iter().enumerate() {
        if !m.is_empty() {
            w.files.push((format!("lib{}.a", i), archive(m)));
            args += &format!(" lib{}.a", i);
        }
    }
    w.run(&(args + " -o out"));
    w
}
