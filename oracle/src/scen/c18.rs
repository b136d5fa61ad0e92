//! C18: archives.
use super::{q, t, Scen};
use crate::obj::*;
use crate::out::*;
use crate::rt::*;
use crate::world::*;

pub fn all() -> Vec<Scen> {
    vec![
        q("c18_graph", graph, chk_pulled),
        q("c18_two", two, chk_pulled),
        q("c18_kinds", kinds, chk_pulled),
        q("c18_lib", lib, chk_pulled),
        q("c18_names", names, chk_pulled),
        q("c18_odd", odd, chk_pulled),
        t("c18_graph4", graph4, chk_pulled),
    ]
}

/// a candidate member: what it defines and refers to
pub struct Cand {
    pub ar: usize,
    pub member: String,
    pub o: Obj,
    pub defs: Vec<String>,
}
/// Which candidates the link takes, in the order of `c`, by the fixed point the statement names.
/// When several candidates could satisfy a reference the first archive, then the first member
/// in the archive's index wins; scenarios avoid definitions that would make order matter beyond.
fn taken(roots: &[&Obj], libs: &[(String, Lib)], c: &[Cand], order: &[usize]) -> Vec<bool> {
    let mut t = vec![false; c.len()];
    loop {
        let mut objs: Vec<&Obj> = roots.to_vec();
        for (i, k) in c.iter().enumerate() {
            if t[i] {
                objs.push(&k.o);
            }
        }
        let mut next = None;
        'o: for o in &objs {
            for s in &o.syms {
                if s.bind != GLOBAL || s.sec != UNDEF {
                    continue;
                }
                let def = objs.iter().any(|p| p.syms.iter().any(|d| d.bind != LOCAL && d.sec != UNDEF && d.name == s.name));
                let lib = libs.iter().any(|l| l.1.syms.iter().any(|d| d.defined && d.name == s.name));
                if def || lib {
                    continue;
                }
                if let Some(i) = order.iter().find(|i| !t[**i] && c[**i].defs.contains(&s.name)) {
                    next = Some(*i);
                    break 'o;
                }
            }
        }
        match next {
            Some(i) => t[i] = true,
            None => return t,
        }
    }
}
/// writes the archives (members in `order`), and tells the world which members are linked
pub fn finish(w: &mut World, mut c: Vec<Cand>, order: &[usize], nar: usize, twice: bool) {
    // members come after all plain objects, so ids do not collide
    let t = {
        let roots: Vec<&Obj> = w.objs.iter().map(|o| &o.1).collect();
        taken(&roots, &w.libs, &c, order)
    };
    for a in 0..nar {
        let mut m: Vec<(&str, Vec<u8>, Vec<&str>)> = vec![];
        for i in order {
            if c[*i].ar == a {
                m.push((&c[*i].member, c[*i].o.build(), c[*i].defs.iter().map(|s| s.as_str()).collect()));
            }
        }
        w.files.push((format!("lib{}.a", a), archive(&m)));
    }
    let mut args = String::new();
    let front = choose("front", 2) == 1;
    for k in 0..2 {
        if (k == 0) == front {
            for a in 0..nar {
                args += &format!("lib{}.a ", a);
                if twice {
                    args += &format!("lib{}.a ", a);
                }
            }
        } else {
            args += &w.default_args();
        }
    }
    w.run(&(args + "-o out"));
    for (i, k) in c.drain(..).enumerate() {
        if t[i] {
            w.objs.push((String::new(), k.o));
        } else {
            w.files.push((format!("absent{}", k.o.id), vec![]));
        }
    }
}
pub fn cand(id: u8, ar: usize) -> Cand {
    let mut o = Obj::new();
    o.id = id;
    Cand { ar, member: format!("m{}.o", id), o, defs: vec![] }
}
pub fn define(c: &mut Cand, name: &str, bind: u8) {
    let d = c.o.blob(12);
    let s = c.o.sec(".text.m", SHT_PROGBITS, A | X, 4, &d);
    c.o.sym(name, bind, FUNC, s, 8, 4);
    c.defs.push(name.into());
}
pub fn refer(o: &mut Obj, name: &str, bind: u8) {
    let y = o.sym(name, bind, NOTYPE, UNDEF, 0, 0);
    let d = o.fill(16);
    let s = o.sec(".data.m", SHT_PROGBITS, A | W, 8, &d);
    o.rela(s, 8, R_64, y, 0);
}
fn perm(n: usize, k: u64) -> Vec<usize> {
    let mut rest: Vec<usize> = (0..n).collect();
    let mut k = k as usize;
    let mut v = vec![];
    while !rest.is_empty() {
        let i = k % rest.len();
        k /= rest.len();
        v.push(rest.remove(i));
    }
    v
}
/// every graph of references between an object and n members that define one symbol each
fn graph_n(n: usize, edges: bool) -> World {
    let mut w = World::new();
    let mut a = w.obj();
    a.start();
    for i in 0..n {
        match choose(&format!("ref{}", i), 3) {
            0 => {}
            1 => refer(&mut a, &format!("f{}", i), GLOBAL),
            _ => refer(&mut a, &format!("f{}", i), WEAK),
        }
    }
    w.add(a);
    let mut c = vec![];
    for i in 0..n {
        let mut m = cand(i as u8 + 1, 0);
        define(&mut m, &format!("f{}", i), GLOBAL);
        for j in 0..n {
            if i != j && (edges || j == (i + 1) % n || j == 0) && choose(&format!("e{}{}", i, j), 2) == 1 {
                refer(&mut m.o, &format!("f{}", j), GLOBAL);
            }
        }
        c.push(m);
    }
    let order = perm(n, choose("order", if n == 3 { 6 } else { 24 }));
    finish(&mut w, c, &order, 1, false);
    w
}
fn graph() -> World {
    graph_n(3, false)
}
fn graph4() -> World {
    graph_n(4, false)
}
/// two archives that need each other; a symbol both define
fn two() -> World {
    let mut w = World::new();
    let mut a = w.obj();
    a.start();
    for (i, n) in ["f1", "f2", "both"].iter().enumerate() {
        if choose(&format!("ref{}", i), 2) == 1 {
            refer(&mut a, n, GLOBAL);
        }
    }
    w.add(a);
    let mut c = vec![];
    for i in 0..4usize {
        let mut m = cand(i as u8 + 1, i % 2);
        if i < 2 {
            define(&mut m, &format!("f{}", i + 1), GLOBAL);
            // into the other archive
            match choose(&format!("n{}", i), 3) {
                0 => {}
                1 => refer(&mut m.o, &format!("f{}", 2 - i), GLOBAL),
                _ => refer(&mut m.o, "both", GLOBAL),
            }
        } else {
            define(&mut m, "both", GLOBAL);
        }
        c.push(m);
    }
    let twice = choose("twice", 2) == 1;
    let order = [0usize, 2, 1, 3];
    finish(&mut w, c, &order, 2, twice);
    w
}
/// members with several symbols, weak and common definitions, definitions in the objects
fn kinds() -> World {
    let mut w = World::new();
    for i in 0..2 {
        let mut a = w.obj();
        if i == 0 {
            a.start();
        }
        match choose(&format!("x{}", i), 5) {
            0 => {}
            1 => refer(&mut a, "x", GLOBAL),
            2 => refer(&mut a, "x", WEAK),
            3 => {
                let d = a.fill(16);
                let d = a.data(&d);
                a.sym("x", if i == 0 { GLOBAL } else { WEAK }, OBJECT, d, 8, 8);
            }
            _ => {
                let s = a.sym("x", GLOBAL, OBJECT, COMMON, 8, 16);
                let d = a.fill(16);
                let d = a.sec(".data.m", SHT_PROGBITS, A | W, 8, &d);
                a.rela(d, 8, R_64, s, 0);
            }
        }
        if choose(&format!("y{}", i), 2) == 1 {
            refer(&mut a, "y", GLOBAL);
        }
        w.add(a);
    }
    let mut m = cand(5, 0);
    define(&mut m, "x", if choose("mx", 2) == 1 { WEAK } else { GLOBAL });
    define(&mut m, "z", GLOBAL);
    let mut n = cand(6, 0);
    define(&mut n, "y", GLOBAL);
    match choose("ny", 3) {
        0 => {}
        1 => refer(&mut n.o, "z", GLOBAL),
        _ => refer(&mut n.o, "x", WEAK),
    }
    let order = perm(2, choose("order", 2));
    finish(&mut w, vec![m, n], &order, 1, false);
    w
}
/// a library that defines some of the symbols, used by objects and members
fn lib() -> World {
    let mut w = World::new();
    let mut a = w.obj();
    a.start();
    let mut l = Lib::new();
    for i in 0..3u64 {
        let n = format!("f{}", i);
        if choose(&format!("ref{}", i), 2) == 1 {
            refer(&mut a, &n, GLOBAL);
        }
        match choose(&format!("lib{}", i), 3) {
            0 => {}
            1 => l.func(&n, 0x20 * (i + 1)),
            _ => l.undef(&n),
        }
    }
    w.add(a);
    let mut c = vec![];
    for i in 0..3 {
        let mut m = cand(i as u8 + 1, 0);
        define(&mut m, &format!("f{}", i), GLOBAL);
        if i < 2 && choose(&format!("next{}", i), 2) == 1 {
            refer(&mut m.o, &format!("f{}", i + 1), GLOBAL);
        }
        c.push(m);
    }
    w.lib("libx.so", l);
    finish(&mut w, c, &[0, 1, 2], 1, false);
    w
}
/// member names of all lengths around the limits of the format; odd member sizes; an unused index
fn names() -> World {
    let mut w = World::new();
    let mut a = w.obj();
    a.start();
    let mut c = vec![];
    let used = choose("used", 3) as usize;
    for i in 0..3usize {
        let mut m = cand(i as u8 + 1, 0);
        let len = [1usize, 14, 15, 16, 17, 40][choose(&format!("len{}", i), 6) as usize];
        m.member = format!("{}{}", (b'p' + i as u8) as char, "n".repeat(len - 1));
        define(&mut m, &format!("f{}", i), GLOBAL);
        if i >= used {
            refer(&mut a, &format!("f{}", i), GLOBAL);
        }
        c.push(m);
    }
    w.add(a);
    finish(&mut w, c, &[0, 1, 2], 1, false);
    w
}
/// archives without members, without an index, with members that are no objects
fn odd() -> World {
    let mut w = World::new();
    let mut a = w.obj();
    a.start();
    let used = choose("used", 2) == 1;
    if used {
        refer(&mut a, "f", GLOBAL);
    }
    w.add(a);
    let mut m = cand(1, 0);
    define(&mut m, "f", GLOBAL);
    let mut text = vec![];
    for i in 0..6 {
        text.push(sym8(&format!("t{}", i)));
    }
    let mut plain = Obj::new();
    plain.id = 2;
    let d = plain.fill(16);
    plain.data(&d);
    let o = match choose("kind", 6) {
        0 => archive(&[]),
        1 => b"!<arch>\n".to_vec(),
        2 => archive(&[("readme.txt", text, vec![])]),
        3 => archive(&[("readme.txt", b"abc".to_vec(), vec![]), ("plain.o", plain.build(), vec![])]),
        4 => archive(&[("plain.o", plain.build(), vec![]), ("m1.o", m.o.build(), vec!["f"])]),
        _ => archive(&[("readme.txt", text[..3].to_vec(), vec![]), ("m1.o", m.o.build(), vec!["f"])]),
    };
    w.files.push(("libodd.a".into(), o));
    w.files.push(("lib1.a".into(), archive(&[("m1.o", m.o.build(), vec!["f"])])));
    w.files.push(("absent2".into(), vec![]));
    w.run(["a.o lib1.a libodd.a -o out", "libodd.a a.o lib1.a -o out", "a.o -L . -lodd lib1.a -o out"][choose("line", 3) as usize]);
    if used {
        w.objs.push((String::new(), m.o));
    } else {
        w.files.push(("absent1".into(), vec![]));
    }
    w
}
pub fn chk_pulled(w: &World) {
    let mut bad = false;
    for (oi, (_, o)) in w.objs.iter().enumerate() {
        for si in 0..o.syms.len() {
            bad |= matches!(w.target(oi, si), Target::Undefined | Target::Duplicate);
        }
    }
    if bad {
        check(status(0) != 0, "a link with an undefined or multiply defined symbol fails");
        reach("refused");
        return;
    }
    if !must_link(0) {
        return;
    }
    let (p, b) = start(w, "out");
    check_relocs(w, &p, &b);
    check_contents(w, &p, &b);
    // every marker is there once: `locate` has seen the taken members; the others are absent
    for (n, _) in &w.files {
        if let Some(id) = n.strip_prefix("absent") {
            let id: u8 = id.parse().unwrap();
            check(find(&p.o.raw, &mark(id, 1)).is_none(), "a member that is not needed is not linked");
        }
    }
    for (_, o) in &w.objs {
        let m = mark(o.id, 1);
        if let Some(i) = find(&p.o.raw, &m) {
            check(crate::rt::find_from(&p.o.raw, &m, i + 1).is_none(), "a member is linked once");
        }
    }
    reach("linked");
    if w.objs.iter().any(|o| o.0.is_empty()) {
        reach("member linked");
    }
}
