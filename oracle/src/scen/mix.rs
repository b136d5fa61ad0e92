//! Everything at once: programs that use any selection of what the linker offers, checked for one
//! property after the other. Tables are sized and placed before their contents are known, so
//! what one part of the program needs can be at the expense of another.
use super::c13::{chk_arrays, chk_copy, chk_hash, chk_plt, chk_tags, refer};
use super::{q, t, Scen};
use crate::obj::*;
use crate::rt::*;
use crate::world::*;

pub fn all() -> Vec<Scen> {
    vec![
        q("c04_mix", || mix(&[], &["tls", "init", "fini", "copy", "call", "frames", "stack"]), super::c03::chk_segments),
        q("c10_mix", || mix(&[], &["common", "debug", "copy", "call", "member", "frames"]), super::c10::chk_table),
        q("c11_mix", || mix(&["debug"], &["tls", "init", "pre", "copy", "call", "frames", "stack"]), super::c10::chk_headers),
        q("c13_mix", || mix(&["call"], &["tls", "init", "copy", "load", "common", "member"]), chk_plt),
        q("c14_mix", || mix(&["copy"], &["tls", "tbss", "common", "call", "fini", "frames"]), chk_copy),
        q("c15_mix", || mix(&["hash"], &["tls", "init", "fini", "copy", "call", "frames"]), chk_tags),
        q("c16_mix", || mix(&["hash"], &["tls", "libtls", "copy", "call", "load", "seen"]), chk_hash),
        q("c17_mix", || mix(&["init"], &["tls", "fini", "pre", "call", "frames", "member"]), chk_arrays),
        q("c23_mix", || mix(&["tls"], &["tbss", "libtls", "init", "copy", "call", "load"]), super::c23::chk),
        q("c26_mix", || mix(&["seen"], &["tls", "libtls", "copy", "call", "common", "load"]), super::c26::chk),
        q("c27_mix", || mix(&["frames"], &["tls", "init", "copy", "call", "member", "stack"]), super::c27::chk),
        t("c04_mix9", || mix(&[], &["tls", "tbss", "init", "fini", "pre", "copy", "call", "frames", "stack"]), super::c03::chk_segments),
        t("c23_mix9", || mix(&["tls"], &["tbss", "libtls", "init", "copy", "call", "load", "frames", "common", "seen"]), super::c23::chk),
        t("c13_mix9", || mix(&["call"], &["tls", "libtls", "init", "pre", "copy", "load", "common", "member", "hash"]), chk_plt),
    ]
}
/// a program with the parts `on`, and with or without each of the parts `free`
fn mix(on: &[&str], free: &[&str]) -> World {
    let has: Vec<&str> =
        on.iter().chain(free.iter().filter(|f| choose(&format!("has-{}", f), 2) == 1)).copied().collect();
    let has = |f: &str| has.contains(&f);
    let mut w = World::new();
    let mut l = Lib::new();
    let mut k = Lib::new();
    let mut a = w.obj();
    let mut m = w.obj();
    m.id = 3;
    a.start();
    // functions and objects of libraries
    l.func("fn0", 0x40);
    l.func("fn1", 0x60);
    k.func("fn1", 0x20);
    k.func("fn2", 0x80);
    l.object("ob0", 0x40, 24);
    k.object("ob1", 0x88, 8);
    if has("call") {
        refer(&mut a, "fn0", 0, 0);
        refer(&mut a, "fn2", 2, 1);
    }
    if has("load") {
        refer(&mut a, "fn0", 3, 0);
        refer(&mut a, "fn1", 4, 1);
    }
    if has("copy") {
        refer(&mut a, "ob0", 1, 0);
        refer(&mut a, "ob1", 2, 1);
    }
    let d = a.fill(13);
    let da = a.data(&d);
    a.object("own", da, 8, 5);
    if has("seen") {
        // a library uses and overrides what the program has
        l.undef("own");
        k.undef("own2");
        k.object("own2", 0x100, 4);
        a.sym("own2", WEAK, OBJECT, da, 9, 4);
    }
    if has("common") {
        let c = m.sym("com", GLOBAL, OBJECT, COMMON, 32, 50);
        let d = m.fill(16);
        let d = m.sec(".data.c", SHT_PROGBITS, A | W, 8, &d);
        m.rela(d, 8, R_64, c, 0);
    }
    if has("tls") {
        let d = a.blob(20);
        let s = a.sec(".tdata", SHT_PROGBITS, A | W | TLS, 16, &d);
        let y = a.sym("tv", LOCAL, STT_TLS, s, 8, 4);
        let c = a.fill(16);
        let c = a.sec(".text.t", SHT_PROGBITS, A | X, 4, &c);
        a.rela(c, 8, R_TPOFF32, y, 0);
        a.rela(c, 12, R_GOTTPOFF, y, -4);
    }
    if has("tbss") {
        let s = m.sec(".tbss", SHT_NOBITS, A | W | TLS, 32, &[]);
        m.secs[s as usize - 1].size = 40;
        let y = m.sym("tz", GLOBAL, STT_TLS, s, 16, 8);
        let c = m.fill(16);
        let c = m.sec(".text.t", SHT_PROGBITS, A | X, 4, &c);
        m.rela(c, 8, R_TPOFF32, y, 0);
        m.rela(c, 12, R_TLSGD, y, -4);
    }
    if has("libtls") {
        k.tls("tx", 8, 4);
        let y = a.sym("tx", GLOBAL, STT_TLS, UNDEF, 0, 0);
        let c = a.fill(16);
        let c = a.sec(".text.x", SHT_PROGBITS, A | X, 4, &c);
        a.rela(c, 8, R_GOTTPOFF, y, -4);
        a.rela(c, 12, R_TLSGD, y, -4);
    }
    for (n, name, ty) in [
        ("init", ".init_array", SHT_INIT_ARRAY),
        ("fini", ".fini_array", SHT_FINI_ARRAY),
        ("pre", ".preinit_array", SHT_PREINIT_ARRAY),
    ] {
        if !has(n) {
            continue;
        }
        for o in [&mut a, &mut m] {
            let s = o.sec(name, ty, A | W, 8, &[0; 16]);
            let f = o.fill(20);
            let f = o.sec(".text.f", SHT_PROGBITS, A | X, 4, &f);
            let f = o.secsym(f);
            o.rela(s, 0, R_64, f, 4);
            o.rela(s, 8, R_64, f, 8);
        }
    }
    if has("frames") {
        super::c27::simple(&mut a, 2, 10);
        super::c27::simple(&mut m, 1, 21);
        w.opts = "--eh-frame-hdr".into();
    }
    if has("debug") {
        let d = a.fill(21);
        a.sec(".debug_x", SHT_PROGBITS, 0, 1, &d);
        a.sec(".comment", SHT_PROGBITS, 0x30, 1, b"some compiler\0");
    }
    if has("stack") {
        for o in [&mut a, &mut m] {
            o.sec(".note.GNU-stack", SHT_PROGBITS, 0, 1, &[]);
        }
    }
    let d = m.fill(30);
    let d = m.rodata(&d);
    m.object("there", d, 8, 8);
    if has("hash") {
        w.opts += [" --hash-style=gnu", " --hash-style=sysv", " --hash-style=both"][choose("style", 3) as usize];
    }
    w.lib("libx.so", l);
    w.lib("liby.so", k);
    if has("member") {
        let y = a.undef("there");
        let d = a.fill(16);
        let d = a.sec(".data.m", SHT_PROGBITS, A | W, 8, &d);
        a.rela(d, 8, R_64, y, 0);
        w.files.push(("libm.a".into(), archive(&[("m.o", m.build(), vec!["there"])])));
        w.add(a);
        w.objs.push((String::new(), m));
        let args = format!("a.o libm.a libx.so liby.so {} -o out", w.opts);
        w.run(&args);
    } else {
        w.add(a);
        w.add(m);
    }
    w
}
