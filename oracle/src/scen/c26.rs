//! C26: the program and its libraries agree on what every name stands for.
use super::{c13::refer, c23, q, t, Scen};
use crate::ld::*;
use crate::obj::*;
use crate::out::*;
use crate::rt::*;
use crate::world::*;

pub fn all() -> Vec<Scen> {
    vec![
        q("c26_export", export, chk),
        q("c26_many", many, chk),
        q("c26_alias", alias, chk),
        q("c26_alias2", alias2, chk),
        q("c26_archive", archive, chk),
        q("c26_tls", tls, chk),
        t("c26_export3", export3, chk),
    ]
}
fn style(w: &mut World) {
    w.opts = ["", "--hash-style=gnu", "--hash-style=sysv"][choose("hash", 3) as usize].into();
}
/// what a library may do with a name
fn lib_sym(l: &mut Lib, name: &str, how: u64, off: u64) {
    match how {
        0 => {}
        1 => l.undef(name),
        2 => {
            l.undef(name);
            l.syms.last_mut().unwrap().bind = WEAK;
        }
        3 => l.func(name, off),
        _ => l.object(name, off, 8),
    }
}
/// what the program may do with it
fn own(a: &mut Obj, name: &str, kind: u64, value: u64) {
    let (bind, vis) = match kind {
        2 => (WEAK, 0),
        4 => (GLOBAL, 2),
        5 => (GLOBAL, 3),
        6 => (LOCAL, 0),
        _ => (GLOBAL, 0),
    };
    let s = match kind {
        0 => return,
        7 => {
            // bss, at a place known from a reference
            let b = a.bss(24, 8);
            let s = a.sym(name, GLOBAL, OBJECT, b, 8, 8);
            refer(a, name, 1, 70);
            s
        }
        8 => {
            let s = a.sym(name, GLOBAL, OBJECT, COMMON, 16, 24);
            refer(a, name, 1, 71);
            s
        }
        9 => a.sym(name, GLOBAL, NOTYPE, ABS, value, 0),
        10 => {
            refer(a, name, 1, 72);
            return;
        }
        _ => {
            let d = a.fill(24);
            let d = a.sec(".data.own", SHT_PROGBITS, A | W, 8, &d);
            a.sym(name, bind, if kind == 1 { FUNC } else { OBJECT }, d, value, 4)
        }
    };
    a.syms[s].other = vis;
}
fn export_world(libs: u64) -> World {
    let mut w = World::new();
    style(&mut w);
    let value = sym16("value") as u64;
    let mut a = w.obj();
    a.start();
    let kind = choose("own", 11);
    own(&mut a, "name", kind, value);
    let mut b = w.obj();
    b.id = 7;
    if choose("second", 2) == 1 {
        // another object that refers to it
        refer(&mut b, "name", 1, 80);
    }
    for k in 0..libs {
        let mut l = Lib::new();
        l.func(&format!("fn{}", k), 0x30);
        lib_sym(&mut l, "name", choose(&format!("lib{}", k), 5), 0x40 + 0x10 * k);
        w.lib(&format!("lib{}.so", k), l);
        refer(&mut a, &format!("fn{}", k), 0, k);
    }
    w.add(a);
    w.add(b);
    w
}
fn export() -> World {
    export_world(1)
}
fn export3() -> World {
    export_world(3)
}
/// several names, some of them the program's, some used by libraries
fn many() -> World {
    let mut w = World::new();
    style(&mut w);
    let mut a = w.obj();
    a.start();
    let mut l = Lib::new();
    let mut m = Lib::new();
    l.func("fn0", 0x20);
    m.func("fn1", 0x20);
    refer(&mut a, "fn0", 0, 0);
    refer(&mut a, "fn1", 1, 1);
    for k in 0..6u64 {
        let n = format!("name{}", k);
        let how = choose(&format!("how{}", k), 3);
        own(&mut a, &n, [1, 3, 7, 8, 2, 9][k as usize] * (how > 0) as u64, 8 + k);
        if how == 2 {
            lib_sym(&mut l, &n, [1, 4, 2, 1, 3, 1][k as usize], 0x40 + 0x10 * k);
            lib_sym(&mut m, &n, [0, 1, 4, 4, 0, 1][k as usize], 0x40 + 0x10 * k);
        }
    }
    w.lib("libx.so", l);
    w.lib("liby.so", m);
    w.add(a);
    w
}
/// an object of a library with several names, of which the program uses some
fn alias() -> World {
    let mut w = World::new();
    style(&mut w);
    let mut l = Lib::new();
    let mut a = w.obj();
    a.start();
    l.object("before", 0x20, 4);
    let n = 3;
    let weak = [0u64, 3, 4][choose("weak", 3) as usize];
    for i in 0..n {
        l.object(&format!("al{}", i), 0x40, 8);
        let s = l.syms.last_mut().unwrap();
        s.bind = if weak >> i & 1 == 1 { WEAK } else { GLOBAL };
    }
    l.object("after", 0x48, 8);
    l.func("code", 0x40);
    for i in 0..n {
        let how = [0, 1, 2, 4][choose(&format!("how{}", i), 4) as usize];
        if how > 0 {
            refer(&mut a, &format!("al{}", i), how, i);
        }
    }
    refer(&mut a, ["before", "after", "code"][choose("other", 3) as usize], 1, 9);
    w.lib("libx.so", l);
    w.add(a);
    w
}
/// names that the program itself defines, or another library
fn alias2() -> World {
    let mut w = World::new();
    let mut l = Lib::new();
    let mut m = Lib::new();
    let mut a = w.obj();
    a.start();
    m.object("al2", 0x80, 8);
    m.object("mine", 0x80, 8);
    for i in 0..3 {
        l.object(&format!("al{}", i), 0x40, 8);
    }
    l.object("own", 0x40, 8);
    if choose("own", 2) == 1 {
        let d = a.fill(16);
        let d = a.sec(".data.own", SHT_PROGBITS, A | W, 8, &d);
        a.object("own", d, 8, 8);
    }
    for (i, n) in ["al0", "al1", "al2", "mine", "own"].iter().enumerate() {
        if choose(&format!("use{}", i), 2) == 1 {
            refer(&mut a, n, if i == 1 { 2 } else { 1 }, i as u64);
        }
    }
    if choose("order", 2) == 1 {
        w.lib("liby.so", m);
        w.lib("libx.so", l);
    } else {
        w.lib("libx.so", l);
        w.lib("liby.so", m);
    }
    w.add(a);
    w
}
/// definitions that come with a member of an archive
fn archive() -> World {
    let mut w = World::new();
    let mut a = w.obj();
    a.start();
    let mut l = Lib::new();
    l.func("fn0", 0x20);
    lib_sym(&mut l, "name", choose("lib", 5), 0x40);
    lib_sym(&mut l, "other", choose("other", 5), 0x60);
    // the reference that pulls the member in
    refer(&mut a, "pull", 0, 0);
    refer(&mut a, "fn0", 0, 1);
    if choose("early", 2) == 1 {
        refer(&mut a, "other", 1, 2);
    }
    let mut m = w.obj();
    m.id = 5;
    let d = m.fill(24);
    let t = m.sec(".text.m", SHT_PROGBITS, A | X, 4, &d);
    m.func("pull", t, 8, 1);
    m.func("name", t, 9, 1);
    if choose("both", 2) == 1 {
        m.func("other", t, 10, 1);
    } else {
        refer(&mut m, "name", 1, 3);
    }
    let both = m.syms.iter().any(|s| s.name == "other");
    let idx: Vec<&str> = if both { vec!["pull", "name", "other"] } else { vec!["pull", "name"] };
    w.files.push(("libm.a".into(), crate::obj::archive(&[("m.o", m.build(), idx)])));
    if !both && a.syms.iter().any(|s| s.name == "other") && !l.syms.iter().any(|s| s.defined && s.name == "other") {
        // (somebody has to define it)
        l.object("other", 0x60, 8);
    }
    w.lib("libx.so", l);
    w.add(a);
    w.objs.push((String::new(), m));
    w.run(["a.o libm.a libx.so -o out", "libx.so a.o libm.a -o out"][choose("line", 2) as usize]);
    w
}
/// a thread-local variable of the program that a library uses
fn tls() -> World {
    let mut w = World::new();
    style(&mut w);
    let mut a = w.obj();
    a.start();
    let pad = [8, 24][choose("pad", 2) as usize];
    let d = a.blob(pad);
    a.sec(".tdata", SHT_PROGBITS, A | W | TLS, 8, &d);
    let d = a.blob(32);
    let s = a.sec(".tdata.v", SHT_PROGBITS, A | W | TLS, [1, 16][choose("align", 2) as usize], &d);
    let n = ["tv", "hid"][choose("hidden", 2) as usize];
    let y = a.sym(n, GLOBAL, STT_TLS, s, sym8("value") as u64, 8);
    if n == "hid" {
        a.syms[y].other = 2;
    }
    let mut l = Lib::new();
    l.func("fn0", 0x20);
    l.undef("tv");
    l.tls("lt", 0x10, 8);
    refer(&mut a, "fn0", 0, 1);
    w.lib("libx.so", l);
    w.add(a);
    w
}

/// the program's definition of a name that libraries can see
fn visible(w: &World, name: &str) -> Option<(Target, u8, u8, u64)> {
    let t = w.global(name);
    let s = match t {
        Target::At(o, _, y) | Target::Abs(o, y) | Target::Common(o, y) => w.sym(o, y),
        _ => return None,
    };
    if s.other & 3 == 1 || s.other & 3 == 2 {
        return None;
    }
    Some((t, s.bind, s.ty, s.size))
}
pub fn chk(w: &World) {
    // symbols whose meaning is undefined are refused
    for (oi, (_, o)) in w.objs.iter().enumerate() {
        for si in 0..o.syms.len() {
            if o.syms[si].bind != LOCAL && w.target(oi, si) == Target::Undefined {
                check(status(0) != 0, "an undefined symbol is refused");
                reach("refused");
                return;
            }
        }
    }
    if !must_link(0) {
        return;
    }
    let (p, b) = start(w, "out");
    check_segments(&p.o);
    check_headers(&p.o);
    check_relocs(w, &p, &b);
    let img = c23::image(&p.o);
    let mut names: Vec<&str> = vec![];
    for (_, l) in &w.libs {
        for s in &l.syms {
            if !names.contains(&s.name.as_str()) {
                names.push(&s.name);
            }
        }
    }
    for name in &names {
        let i = lookup(&p.o, &p.d, name);
        let (t, bind, ty, size) = match visible(w, name) {
            Some(v) => v,
            None => {
                // the program has no definition for anybody else, save for copied objects
                if let Some(i) = i {
                    let s = dsym(&p.o, &p.d, i);
                    let copied = w.libs.iter().any(|l| l.1.syms.iter().any(|k| k.defined && k.ty == OBJECT && k.name == *name));
                    check(s.shndx == 0 || copied, "the program exports what it doesn't define");
                }
                continue;
            }
        };
        let i = match i {
            Some(i) => i,
            None => fail("a library does not see the program's definition"),
        };
        let s = dsym(&p.o, &p.d, i);
        let want = match addr(w, &b, &p, t) {
            Some(v) => v,
            None => fail("a symbol has no address"),
        };
        let want = if ty == STT_TLS {
            match &img {
                Some(i) => want.wrapping_sub(i.start),
                None => fail("thread-local data has a PT_TLS"),
            }
        } else {
            want
        };
        check(s.shndx != 0, "a library sees the program's definition");
        check(s.value == want, "a library gets the program's definition");
        check(s.info == (bind << 4 | ty) as u64 && s.size == size, "a library sees type, binding and size of the program's definition");
        if s.shndx < 0xff00 {
            let q = &p.o.sh[s.shndx as usize];
            check(!matches!(t, Target::Abs(..)) && (ty == STT_TLS) == (q.flags & TLS != 0), "section of an exported symbol");
        } else {
            check(matches!(t, Target::Abs(..)), "section of an exported symbol");
        }
    }
    // all names of an object stand for the same object
    for l in &p.libs {
        let first = |n: &str| {
            let mut f = p.libs.iter().filter(|k| k.lib.syms.iter().any(|s| s.defined && s.name == n));
            f.next().map_or(false, |k| k.file == l.file)
        };
        let objs: Vec<&LibSym> =
            l.lib.syms.iter().filter(|s| s.defined && s.ty == OBJECT && visible(w, &s.name).is_none() && first(&s.name)).collect();
        for x in &objs {
            for y in &objs {
                let (vx, vy) = (p.resolve(&x.name, false, false), p.resolve(&y.name, false, false));
                if x.value == y.value {
                    check(vx == vy, "all the names of an object of a library stand for the same object");
                } else {
                    check(vx != vy, "different objects stay different");
                }
            }
        }
    }
    reach("linked");
}
