//! C25: what happens when system calls fail, are interrupted or transfer less than asked, and
//! when the linker is killed.
use super::{q, t, Scen};
use crate::obj::*;
use crate::rt::*;
use crate::world::*;
use std::os::unix::fs::PermissionsExt;

pub fn all() -> Vec<Scen> {
    vec![
        q("c25_once", once, chk),
        q("c25_over", over, chk),
        q("c25_again", again, chk),
        t("c25_twice", twice, chk),
        t("c25_over2", over2, chk),
    ]
}
const INTR: i64 = 1;
const FAIL: i64 = 2;
const KILL: i64 = 3;

/// objects; with a library, an archive, a script
fn inputs(kinds: u64) -> (World, String) {
    let mut w = World::new();
    let mut a = w.obj();
    a.start();
    let d = a.blob(21);
    let d = a.data(&d);
    let s = a.undef("there");
    a.rela(d, 8, R_64, s, 4);
    a.bss(5, 1);
    let kind = choose("inputs", kinds);
    let mut o = w.obj();
    o.id = 1;
    let d = o.blob(24);
    let d = o.sec(".data", SHT_PROGBITS, A | W, 16, &d);
    if kind != 1 {
        o.object("there", d, 8, 4);
    }
    w.add(a);
    let args = match kind {
        0 => {
            w.add(o);
            "a.o b.o"
        }
        1 => {
            let mut l = Lib::new();
            l.func("there", 0x20);
            w.lib("libx.so", l);
            "a.o libx.so"
        }
        2 => {
            w.files.push(("liby.a".into(), archive(&[("m.o", o.build(), vec!["there"])])));
            "a.o liby.a"
        }
        _ => {
            w.add(o);
            w.files.push(("script".into(), b"GROUP ( b.o )".to_vec()));
            "a.o script"
        }
    };
    (w, args.into())
}
/// a link without faults to `ref`; then one with faults as the plan's `fault` line says (number, window) to `out`
fn faulty(mut w: World, args: &str, n: &str) -> World {
    w.plan.push(format!("run dld {} -o ref", args));
    w.plan.push(format!("fault {}", n));
    w.plan.push(format!("run dld {} -o out", args));
    w
}
fn once() -> World {
    let (w, a) = inputs(4);
    faulty(w, &a, "1")
}
fn twice() -> World {
    let (w, a) = inputs(2);
    faulty(w, &a, "2 3")
}
/// the output path already holds another, executable program
fn existing(mut w: World, a: &str, n: &str) -> World {
    let mut o = Obj::new();
    o.id = 7;
    o.start();
    w.files.push(("old.o".into(), o.build()));
    let mut w = faulty(w, a, n);
    w.plan.insert(1, "run dld old.o -o out".into());
    w.plan.insert(1, "run dld old.o -o old".into());
    w
}
fn over() -> World {
    let (w, a) = inputs(2);
    existing(w, &a, "1")
}
fn over2() -> World {
    let (w, a) = inputs(1);
    existing(w, &a, "2 3")
}
/// after a link that failed or was killed, the next one is as good as any
fn again() -> World {
    let (w, a) = inputs(2);
    let mut w = faulty(w, &a, "1");
    w.plan.push("fault 0".into());
    w.plan.push(format!("run dld {} -o out", a));
    w
}
fn chk(w: &World) {
    let runs = w.plan.iter().filter(|l| l.starts_with("run")).count();
    check(status(0) == 0, "valid inputs are linked");
    let good = std::fs::read("ref").unwrap_or_default();
    for (n, o) in &w.objs {
        check(std::fs::read(n).unwrap() == o.build(), "the inputs are left alone");
    }
    for (n, l) in &w.libs {
        check(std::fs::read(n).unwrap() == l.build(), "the inputs are left alone");
    }
    for (n, d) in &w.files {
        check(std::fs::read(n).unwrap() == *d, "the inputs are left alone");
    }
    let out = std::fs::read("out");
    let same = match &out {
        Ok(d) => d.len() == good.len() && *d == good,
        Err(_) => false,
    };
    let exec = std::fs::metadata("out").map_or(false, |m| m.permissions().mode() & 0o111 != 0);
    // the run the faults happened to: the last, or the one before a good one
    let last = w.plan.last().unwrap().starts_with("run") && w.plan.iter().any(|l| l == "fault 0");
    if last {
        check(status(runs - 1) == 0, "a link after a failed one succeeds");
        check(same, "a link after a failed one gives the right output");
        check(exec, "the output is executable");
        reach("again");
        return;
    }
    let st = status(runs - 1);
    let faults = status(1000 + runs - 1);
    let (failed, killed) = (faults >> FAIL & 1 != 0, faults >> KILL & 1 != 0);
    check(st != 1002, "the linker ends");
    check(st != 1001 || killed, "the linker does not crash");
    if !failed && !killed {
        check(st == 0, "an interrupted or short transfer does not make the link fail");
        reach(if faults == 0 { "undisturbed" } else if faults >> INTR & 1 != 0 { "interrupted" } else { "short" });
    }
    if st == 0 {
        check(same, "a link that succeeds gives the right output");
        check(exec, "the output is executable");
    } else {
        let elf = out.as_ref().map_or(false, |d| d.len() >= 64 && d[..4] == [0x7f, b'E', b'L', b'F']);
        // (what failed before the output was touched left the old program as it was)
        let old = elf && std::fs::read("old").map_or(false, |d| d == *out.as_ref().unwrap());
        check(same || !exec || !elf || old, "a link that did not succeed leaves no incomplete executable");
        reach(if killed { "killed" } else { "failed" });
    }
}
