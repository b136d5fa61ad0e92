//! C19: linker scripts.
use super::c07::no_output;
use super::{q, t, Scen};
use crate::obj::*;
use crate::out::*;
use crate::rt::*;
use crate::world::*;

pub fn all() -> Vec<Scen> {
    vec![
        q("c19_layout", layout, chk_same),
        q("c19_lists", lists2, chk_same),
        q("c19_place", place, chk_same),
        q("c19_byte", byte, chk_same),
        q("c19_insert", insert, chk_same),
        q("c19_bad", bad, chk_same),
        q("c19_nest", nest, chk_same),
        q("c19_leak", leak, chk_same),
        t("c19_layout3", layout3, chk_same),
        t("c19_lists3", lists3, chk_same),
        t("c19_bytes", bytes2, chk_same),
    ]
}
/// objects a.o (with _start) b.o c.o, archive libm.a, libraries liby.so libz.so
fn base() -> World {
    let mut w = World::new();
    for i in 0..3u64 {
        let mut o = w.obj();
        if i == 0 {
            o.start();
            for n in ["fy", "fm"] {
                let d = o.fill(12);
                let s = o.sec(".text.r", SHT_PROGBITS, A | X, 4, &d);
                let y = o.sym(n, if n == "fm" { GLOBAL } else { WEAK }, NOTYPE, UNDEF, 0, 0);
                o.rela(s, 8, R_PLT32, y, -4);
            }
        }
        let d = o.fill(16 + i as usize);
        let d = o.data(&d);
        o.object(&format!("d{}", i), d, 8, 4);
        w.add(o);
    }
    for n in ["y", "z"] {
        let mut l = Lib::new();
        l.func(&format!("f{}", n), 0x20);
        w.lib(&format!("lib{}.so", n), l);
    }
    // the last input of every link has what libm.a, if it is one of them, has before
    for (i, n) in ["libm.a", "libq.a"].iter().enumerate() {
        let mut m = Obj::new();
        m.id = 9 + i as u8;
        let d = m.fill(12 + 4 * i);
        let s = m.text(&d);
        m.func("fm", s, 8, 4);
        let a = archive(&[("m.o", m.build(), vec!["fm"])]);
        w.files.push((n.to_string(), a));
    }
    w
}
fn run(w: &mut World, args: &str, out: &str) {
    w.run(&format!("-L . {}libq.a -o {}", args, out));
}
const NAMES: [&str; 8] = ["a.o", "b.o", "c.o", "libm.a", "liby.so", "libz.so", "-ly", "-lm"];

/// What a script means, after the documented grammar: None if it is not one.
/// as-needed inputs are in parentheses of their own.
fn parse(s: &[u8]) -> Option<Vec<(String, bool)>> {
    let mut out = vec![];
    let mut i = 0;
    let is = |b: u8, v: &[u8]| v.iter().any(|c| *c == b);
    let ws = |i: &mut usize| {
        while *i < s.len() && conc((is(s[*i], b" \t\n\r\x0b\x0c")) as u64) == 1 {
            *i += 1;
        }
    };
    let word = |i: &mut usize| {
        let mut w = String::new();
        while *i < s.len() {
            let c = s[*i];
            let ok = (c >= b'a') & (c <= b'z') | (c >= b'A') & (c <= b'Z') | (c >= b'0') & (c <= b'9') | is(c, b"-._+/");
            if conc(ok as u64) == 0 {
                break;
            }
            w.push(conc(c as u64) as u8 as char);
            *i += 1;
        }
        w
    };
    let one = |i: &mut usize, c: u8| {
        if *i < s.len() && conc((s[*i] == c) as u64) == 1 {
            *i += 1;
            true
        } else {
            false
        }
    };
    loop {
        ws(&mut i);
        if i >= s.len() {
            return Some(out);
        }
        if one(&mut i, b'/') {
            // a comment
            if !one(&mut i, b'*') {
                return None;
            }
            loop {
                if i >= s.len() {
                    return None;
                }
                if conc((s[i] == b'*') as u64) == 1 && i + 1 < s.len() && conc((s[i + 1] == b'/') as u64) == 1 {
                    i += 2;
                    break;
                }
                i += 1;
            }
            continue;
        }
        let kw = word(&mut i);
        ws(&mut i);
        if !one(&mut i, b'(') {
            return None;
        }
        if kw == "OUTPUT_FORMAT" {
            ws(&mut i);
            if word(&mut i).is_empty() {
                return None;
            }
            ws(&mut i);
            if !one(&mut i, b')') {
                return None;
            }
            continue;
        }
        if kw != "GROUP" {
            return None;
        }
        let mut inner = false;
        loop {
            ws(&mut i);
            if one(&mut i, b')') {
                if !inner {
                    break;
                }
                inner = false;
                continue;
            }
            let w = word(&mut i);
            if w.is_empty() {
                return None;
            }
            if w == "AS_NEEDED" && !inner {
                ws(&mut i);
                if !one(&mut i, b'(') {
                    return None;
                }
                inner = true;
                continue;
            }
            out.push((w, inner));
        }
    }
}
fn direct(l: &[(String, bool)]) -> String {
    let mut s = String::new();
    let mut on = false;
    for (n, a) in l {
        if *a != on {
            s += if *a { "--as-needed " } else { "--no-as-needed " };
            on = *a;
        }
        s += n;
        s.push(' ');
    }
    if on {
        s += "--no-as-needed ";
    }
    s
}
/// two links: with the script, and with what it stands for
fn two(w: &mut World, script: &[u8], before: &str, after: &str) {
    let known = |n: &str| NAMES.contains(&n) || n == "./b.o" || n == "s2" || n == "d/b.o";
    let list = parse(script).map(|l| l.into_iter().filter(|x| x.0 != "s").collect::<Vec<_>>());
    match list {
        Some(l) if l.iter().all(|x| known(&x.0)) => {
            run(w, &format!("{}s {}", before, after), "out");
            run(w, &format!("{}{}{}", before, direct(&l), after), "out2");
        }
        Some(_) => {
            w.opts = "missing".into();
            run(w, &format!("{}s {}", before, after), "out");
        }
        None => {
            w.opts = "malformed".into();
            run(w, &format!("{}s {}", before, after), "out");
        }
    }
    w.files.push(("s".into(), script.to_vec()));
}
fn chk_same(w: &World) {
    if w.opts == "skip" {
        reach("skipped");
        return;
    }
    if w.runs.len() == 1 {
        check(status(0) != 0, "a script that is not understood or names a missing file makes the link fail");
        no_output("out");
        reach(&w.opts);
        return;
    }
    let (a, b) = (status(0), status(1));
    check(a < 1000 && b < 1000, "the linker ends");
    check((a == 0) == (b == 0), "a script links if its inputs link");
    if a == 0 {
        let (x, y) = (std::fs::read("out").unwrap(), std::fs::read("out2").unwrap());
        check(x == y, "a script gives the same program as its inputs");
        reach("same");
    } else {
        reach("both refused");
    }
}
fn blank(n: &str, k: u64) -> Vec<u8> {
    match choose(n, k) {
        0 => vec![],
        1 => {
            let c = sym8(&format!("{}c", n));
            assume((c == b' ') | (c == b'\t') | (c == b'\n') | (c == b'\r'));
            vec![c]
        }
        2 => b" \n ".to_vec(),
        _ => {
            let mut v = b"/*".to_vec();
            for i in 0..2 {
                let c = sym8(&format!("{}k{}", n, i));
                assume((c < 0x80) & (c != b'*'));
                v.push(c);
            }
            v.extend_from_slice(b"*/");
            v
        }
    }
}
fn layout() -> World {
    layout_n(2)
}
fn layout3() -> World {
    layout_n(3)
}
fn layout_n(k: u64) -> World {
    let mut w = base();
    let mut s = blank("f0", 4);
    if choose("fmt", 2) == 1 {
        s.extend_from_slice(b"OUTPUT_FORMAT");
        s.extend(blank("g0", 2));
        s.extend_from_slice(b"(elf64-x86-64");
        s.extend(blank("g1", 2));
        s.push(b')');
        s.extend(blank("g2", 4));
    }
    s.extend_from_slice(b"GROUP");
    s.extend(blank("f1", k));
    s.push(b'(');
    s.extend(blank("f2", k));
    s.extend_from_slice(b"b.o libm.a");
    s.extend(blank("f3", k));
    s.push(b')');
    s.extend(blank("f4", 4));
    two(&mut w, &s, "a.o ", "");
    w
}
fn lists(n: usize) -> World {
    let mut w = base();
    let mut s = String::from("GROUP ( ");
    for i in 0..n {
        let k = choose(&format!("i{}", i), 8) as usize;
        s += NAMES[k];
        s += " ";
    }
    if choose("as", 2) == 1 {
        s += "AS_NEEDED ( ";
        for i in 0..2 {
            match choose(&format!("n{}", i), 3) {
                0 => {}
                1 => s += "liby.so ",
                _ => s += "-lz ",
            }
        }
        s += ") ";
    }
    s += ")\n";
    let s = s.replace("-lz", "libz.so");
    let before = ["a.o ", "liby.so a.o ", ""][choose("before", 3) as usize];
    two(&mut w, s.as_bytes(), before, "");
    w
}
fn lists2() -> World {
    lists(2)
}
fn lists3() -> World {
    lists(3)
}
/// the script anywhere among other inputs, under any --as-needed setting
fn place() -> World {
    let mut w = base();
    let args = ["a.o ", "libz.so ", "c.o "];
    let at = choose("at", 4) as usize;
    let mut before = String::new();
    let mut after = String::new();
    for i in 0..=3 {
        let d = if i < at || i == at { &mut before } else { &mut after };
        match choose(&format!("as{}", i), 3) {
            0 => {}
            1 => *d += "--as-needed ",
            _ => *d += "--no-as-needed ",
        }
        if i == at && i < 3 {
            after += args[i];
        } else if i < 3 {
            *d += args[i];
        }
    }
    let list = ["liby.so libm.a", "b.o libz.so", "libm.a b.o liby.so"][choose("list", 3) as usize];
    let s = format!("GROUP({})", list);
    two(&mut w, s.as_bytes(), &before, &after);
    w
}
const TEXT: &[u8] = b"/* c */\nOUTPUT_FORMAT(elf64)\nGROUP ( b.o AS_NEEDED ( liby.so ) )\n";
/// one byte of a script replaced by any other
fn byte() -> World {
    let mut w = base();
    let mut s = TEXT.to_vec();
    let i = choose("at", TEXT.len() as u64) as usize;
    let c = sym8("byte");
    assume(c < 0x80);
    s[i] = c;
    two(&mut w, &s, "a.o libm.a ", "");
    w
}
/// one byte inserted
fn insert() -> World {
    let mut w = base();
    let mut s = TEXT.to_vec();
    let i = choose("at", TEXT.len() as u64 + 1) as usize;
    let c = sym8("byte");
    assume(c < 0x80);
    s.insert(i, c);
    two(&mut w, &s, "a.o libm.a ", "");
    w
}
fn bytes2() -> World {
    let mut w = base();
    let mut s = TEXT.to_vec();
    let i = choose("at", TEXT.len() as u64 - 1) as usize;
    for k in 0..2 {
        let c = sym8(&format!("byte{}", k));
        assume(c < 0x80);
        s[i + k] = c;
    }
    two(&mut w, &s, "a.o libm.a ", "");
    w
}
fn bad() -> World {
    let mut w = base();
    let list = [
        "INPUT ( b.o )\n",
        "GROUP ( b.o\n",
        "GROUP b.o )\n",
        "GROUP ( b.o ) )\n",
        "GROUP ( nothere.o )\n",
        "GROUP ( -lnothere )\n",
        "GROUP ( b.o AS_NEEDED ( libq.so ) )\n",
        "GROUP ( b.o ) SEARCH_DIR ( . )\n",
        "hello, this is not a linker script\n",
        "SECTIONS { .text : { *(.text) } }\n",
        "/* never closed GROUP ( b.o )\n",
        "GROUP ( b.o ) /* never closed\n",
        "OUTPUT_FORMAT ( )\nGROUP ( b.o )",
        "GROUP ( b.o AS_NEEDED ( liby.so )\n",
        "AS_NEEDED ( liby.so )\n",
        "GROUP\n",
        "group ( b.o )\n",
        "OUTPUT_FORMAT(elf64-x86-64)\nGROUP ( b.o )\nEXTERN ( foo )\n",
    ];
    let s = list[choose("text", list.len() as u64) as usize];
    let after = ["", "c.o "][choose("after", 2) as usize];
    two(&mut w, s.as_bytes(), "a.o libm.a ", after);
    w
}
/// scripts in scripts, and in circles
fn nest() -> World {
    let mut w = base();
    let which = choose("which", 6);
    let (s, t, args) = match which {
        0 => ("GROUP ( b.o s2 c.o )", "GROUP ( liby.so libz.so )", "b.o liby.so libz.so c.o "),
        1 => ("GROUP ( s2 b.o )", "GROUP ( c.o libm.a )", "c.o libm.a b.o "),
        2 => ("GROUP ( b.o s )", "", "b.o "),
        3 => ("GROUP ( s2 b.o )", "GROUP ( s c.o )", "c.o b.o "),
        4 => ("GROUP ( b.o ) GROUP ( s2 ) GROUP ( c.o )", "GROUP ( libm.a ) GROUP ( -ly )", "b.o libm.a -ly c.o "),
        _ => ("GROUP ( s2 AS_NEEDED ( liby.so ) )", "GROUP ( AS_NEEDED ( libz.so ) )", "--as-needed libz.so liby.so "),
    };
    w.files.push(("s".into(), s.as_bytes().to_vec()));
    w.files.push(("s2".into(), t.as_bytes().to_vec()));
    let m = ["libm.a ", ""][choose("m", 2) as usize];
    run(&mut w, &format!("a.o {}s ", m), "out");
    run(&mut w, &format!("a.o {}{}", m, args), "out2");
    w
}
/// inputs after an AS_NEEDED block are not as-needed
fn leak() -> World {
    let mut w = base();
    let l = ["AS_NEEDED ( liby.so ) libz.so", "libz.so AS_NEEDED ( liby.so ) b.o", "AS_NEEDED ( libz.so ) AS_NEEDED ( liby.so )"];
    let s = format!("GROUP ( {} )", l[choose("list", 3) as usize]);
    two(&mut w, s.as_bytes(), "a.o libm.a ", "");
    w
}
