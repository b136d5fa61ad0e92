//! C20: the command line.
use super::c07::no_output;
use super::{q, t, Scen};
use crate::ld::*;
use crate::obj::*;
use crate::out::*;
use crate::rt::*;
use crate::world::*;

pub fn all() -> Vec<Scen> {
    vec![
        q("c20_search", search, chk_same),
        q("c20_two", two_libs, chk_same),
        q("c20_plain", plain, chk_same),
        q("c20_options", options, chk_opts),
        q("c20_ignored", ignored, chk_same),
        q("c20_bad", bad, chk_bad),
        q("c20_style", style, chk_style),
        q("c20_unknown", unknown, chk_bad),
        q("c20_output", output, chk_output),
        t("c20_search4", search4, chk_same),
    ]
}
fn user(w: &mut World, names: &[&str]) {
    let mut a = w.obj();
    a.start();
    for n in names {
        let y = a.undef(n);
        let d = a.fill(12);
        let s = a.sec(".text.u", SHT_PROGBITS, A | X, 4, &d);
        a.rela(s, 8, R_PLT32, y, -4);
    }
    w.add(a);
}
fn so(value: u64, names: &[&str]) -> Vec<u8> {
    let mut l = Lib::new();
    for n in names {
        l.func(n, value);
    }
    // tells the copies of the library apart
    l.soname = Some(format!("lib{:x}.so", value));
    l.build()
}
fn ar(id: u8, names: &[&str]) -> Vec<u8> {
    let mut m = Obj::new();
    m.id = id;
    let d = m.fill(16 + id as usize);
    let s = m.text(&d);
    for n in names {
        m.func(n, s, 8, 4);
    }
    archive(&[("m.o", m.build(), names.to_vec())])
}
/// directories 0..n that have a shared library q, an archive q, both or neither
fn search_n(n: usize) -> World {
    let mut w = World::new();
    user(&mut w, &["f"]);
    let mut shared = None;
    let mut stat = None;
    let order: Vec<usize> = if choose("rev", 2) == 0 { (0..n).collect() } else { (0..n).rev().collect() };
    let mut has = vec![];
    for i in 0..n {
        let h = choose(&format!("has{}", i), 4);
        has.push(h);
        w.dirs.push(format!("d{}", i));
        if h & 1 == 1 {
            w.files.push((format!("d{}/libq.so", i), so(0x10 * (i as u64 + 1), &["f"])));
        }
        if h & 2 == 2 {
            w.files.push((format!("d{}/libq.a", i), ar(10 + i as u8, &["f"])));
        }
    }
    // decoys
    w.files.push(("libq.so".into(), so(0x90, &["f"])));
    w.files.push(("q".into(), ar(30, &["f"])));
    for i in &order {
        if has[*i] & 1 == 1 && shared.is_none() {
            shared = Some(format!("d{}/libq.so", i));
        }
        if has[*i] & 2 == 2 && stat.is_none() {
            stat = Some(format!("d{}/libq.a", i));
        }
    }
    let form = choose("form", 4);
    let dirs: Vec<String> = order.iter().map(|i| if form & 1 == 0 { format!("-Ld{} ", i) } else { format!("-L d{} ", i) }).collect();
    let l = if form & 2 == 0 { "-lq " } else { "-l q " };
    let at = choose("at", n as u64 + 1) as usize;
    // (what is found does not depend on whether it has to be used)
    let needed = if form == 1 || form == 2 { "--as-needed " } else { "" };
    let mut args = format!("{}a.o ", needed);
    for (i, d) in dirs.iter().enumerate() {
        if i == at {
            args += l;
        }
        args += d;
    }
    if at == n {
        args += l;
    }
    w.run(&(args + "-o out"));
    if let Some(f) = shared.or(stat) {
        w.run(&format!("{}a.o {} -o out2", needed, f));
    }
    w
}
fn search() -> World {
    search_n(3)
}
fn search4() -> World {
    search_n(4)
}
/// names that are prefixes of each other, empty directories, missing directories
fn two_libs() -> World {
    let mut w = World::new();
    user(&mut w, &["f", "g"]);
    w.dirs.push("d".into());
    w.dirs.push("d/libr.so".into());
    w.dirs.push("e".into());
    let a = choose("a", 3);
    let b = choose("b", 3);
    let mut want = String::from("a.o ");
    let mut ok = true;
    for (n, f, k, v) in [("r", "f", a, 0x10), ("rr", "g", b, 0x30)] {
        let name = match k {
            0 => format!("e/lib{}.so", n),
            1 => format!("d/lib{}.a", n),
            _ => {
                ok = false;
                continue;
            }
        };
        w.files.push((name.clone(), if k == 0 { so(v, &[f]) } else { ar(v as u8, &[f]) }));
        want += &name;
        want += " ";
    }
    let order = choose("order", 3);
    let dirs = ["-Lnodir -Ld -Le ", "-Ld/ -Lnodir/x -L e/ ", "-L ./d -L./e -L. "][choose("dirs", 3) as usize];
    let args = match order {
        0 => format!("{}a.o -lr -lrr -o out", dirs),
        1 => format!("-l r -lrr a.o {}-o out", dirs),
        _ => format!("-lr a.o -l rr -o out {}", dirs),
    };
    w.run(args.trim_end());
    if ok {
        w.run(&(want + "-o out2"));
    }
    w
}
/// inputs given by path: from the working directory first, then from the directories
fn plain() -> World {
    let mut w = World::new();
    user(&mut w, &["f"]);
    w.dirs.push("d".into());
    w.dirs.push("e".into());
    let name = ["x.so", "libq.a", "q", "-lq"][choose("name", 4) as usize];
    let mut want = None;
    for (i, p) in ["", "d/", "e/"].iter().enumerate() {
        let h = choose(&format!("at{}", i), 2) == 1;
        if h {
            let f = format!("{}{}", p, if name == "-lq" { "libq.so" } else { name });
            let c = if name.ends_with(".a") { ar(10 + i as u8, &["f"]) } else { so(0x10 * (i as u64 + 1), &["f"]) };
            w.files.push((f.clone(), c));
            if want.is_none() && (name != "-lq" || i > 0) {
                want = Some(f);
            }
        }
    }
    if name == "q" {
        w.files.push(("d/libq.so".into(), so(0x50, &["f"])));
    }
    w.run(&format!("a.o {} -Ld -Le -o out", name));
    if let Some(f) = want {
        w.run(&format!("a.o {} -o out2", f));
    }
    w
}
fn chk_same(w: &World) {
    if w.runs.len() == 1 {
        check(status(0) != 0 && status(0) < 1000, "a link without one of its inputs fails");
        no_output("out");
        reach("missing");
        return;
    }
    check(status(0) == 0 && status(1) == 0, "valid inputs are linked");
    if status(0) == 0 && status(1) == 0 {
        let out = if w.opts.is_empty() { "out" } else { &w.opts };
        let (x, y) = (std::fs::read(out).unwrap_or_default(), std::fs::read("out2").unwrap());
        check(x == y, "the same program as with the input's path");
        reach("same");
    }
}
/// options in all positions
fn options() -> World {
    let mut w = World::new();
    user(&mut w, &["f"]);
    w.files.push(("libq.so".into(), so(0x10, &["f"])));
    let mut args: Vec<String> = vec!["a.o".into(), "libq.so".into()];
    let interp = ["", "/lib/ld.so", "/a/rather/long/path/to/ld-x.so.3", "ld"][choose("interp", 4) as usize];
    let style = ["", "gnu", "sysv", "both"][choose("style", 4) as usize];
    let mut opts = vec!["-o result".to_string()];
    if !interp.is_empty() {
        opts.push(format!("-dynamic-linker {}", interp));
    }
    if !style.is_empty() {
        opts.push(format!("--hash-style{}{}", ["=", " "][choose("joined", 2) as usize], style));
    }
    for (i, o) in opts.iter().enumerate() {
        let at = choose(&format!("at{}", i), args.len() as u64 + 1) as usize;
        args.insert(at, o.clone());
    }
    // the last one of several counts
    match choose("again", 4) {
        0 => {}
        1 => args.insert(0, "-o first".into()),
        2 if !interp.is_empty() => args.insert(0, "-dynamic-linker /lib/first".into()),
        3 if !style.is_empty() => args.insert(0, format!("--hash-style={}", if style == "gnu" { "sysv" } else { "gnu" })),
        _ => {}
    }
    w.run(&args.join(" "));
    w.opts = format!("{},{}", interp, style);
    w
}
fn chk_opts(w: &World) {
    if !must_link(0) {
        return;
    }
    let o = Out::load("result");
    let d = dynamic(&o);
    let (interp, style) = w.opts.split_once(',').unwrap();
    let interp = if interp.is_empty() { "/lib64/ld-linux-x86-64.so.2" } else { interp };
    let p = match o.ph.iter().find(|p| p.ty == PT_INTERP) {
        Some(p) => p.clone(),
        None => fail("no PT_INTERP"),
    };
    check(cstr(&o.raw, p.off) == interp, "-dynamic-linker sets the interpreter");
    check(p.filesz == interp.len() as u64 + 1, "PT_INTERP covers the path");
    check(d.get(DT_HASH).is_some() == (style != "gnu"), "--hash-style selects DT_HASH");
    check(d.get(DT_GNU_HASH).is_some() == (style != "sysv"), "--hash-style selects DT_GNU_HASH");
    check(std::fs::read("out").is_err(), "-o names the output");
    check_segments(&o);
    check_headers(&o);
    reach("linked");
}
/// options that do nothing do nothing
fn ignored() -> World {
    let mut w = World::new();
    user(&mut w, &["f"]);
    w.files.push(("libq.so".into(), so(0x10, &["f"])));
    w.files.push(("libm.a".into(), ar(7, &["m"])));
    let mut args: Vec<String> = ["a.o", "libq.so", "libm.a", "-o out"].iter().map(|s| s.to_string()).collect();
    let mut opts = vec![];
    let list = ["--start-group", "--end-group", "-z now", "-z relro", "-m elf_x86_64"];
    for (i, o) in list.iter().enumerate() {
        if choose(&format!("opt{}", i), 2) == 1 {
            opts.push(o.to_string());
        }
    }
    let k = choose("at", 4) as usize;
    for (i, o) in opts.iter().enumerate() {
        args.insert((k + i * 2) % (args.len() + 1), o.clone());
    }
    let id = choose("id", 5);
    let mut hdr = false;
    // options may be repeated
    match if id == 0 { choose("again", 8) as usize } else { 0 } {
        0 => {}
        6 => args.insert(0, "--as-needed --no-as-needed --no-as-needed".into()),
        7 => {
            hdr = true;
            args.insert(0, "--eh-frame-hdr".into());
            args.push("--eh-frame-hdr".into());
        }
        i => args.insert(0, list[i - 1].to_string()),
    }
    // a build id may be followed by its style, everything else is the next argument
    match id {
        0 => {}
        1 => args.push("--build-id".into()),
        2 => args.push("--build-id sha1".into()),
        _ => {
            let dashes: Vec<usize> = (0..args.len()).filter(|i| args[*i].starts_with('-')).collect();
            let at = dashes[choose("before", dashes.len() as u64) as usize];
            args.insert(at, "--build-id".into());
        }
    }
    w.run(&args.join(" "));
    w.run(if hdr { "a.o libq.so --eh-frame-hdr libm.a -o out2" } else { "a.o libq.so libm.a -o out2" });
    w
}
/// a good command line with a bad piece somewhere in it
fn bad() -> World {
    let mut w = World::new();
    user(&mut w, &["f"]);
    w.files.push(("libq.so".into(), so(0x10, &["f"])));
    let mut args: Vec<String> = ["-o out", "a.o", "libq.so"].iter().map(|s| s.to_string()).collect();
    let list = ["-m", "-o", "-l", "-L", "-z", "-dynamic-linker", "--hash-style"];
    let any = [
        "-m elf_i386", "-m ", "--hash-style=md5", "--hash-style=", "nothere.o", "-lnothere", "-l nothere", "--build-id foo",
        "--nonsense", "-nonsense", "-m elf_x86_6", "-m elf_x86_64_", "--hash-style=GNU", "d", "-ld",
        "--hash-style GNU", "--hash-style-gnu",
    ];
    w.dirs.push("d".into());
    let k = choose("what", (list.len() + any.len()) as u64) as usize;
    if k < list.len() {
        args.push(list[k].into());
    } else {
        let at = choose("at", 4) as usize;
        args.insert(at, any[k - list.len()].trim().into());
    }
    w.run(&args.join(" "));
    w
}
fn chk_bad(_w: &World) {
    check(status(0) != 0 && status(0) < 1000, "a command line that is not understood makes the link fail");
    no_output("out");
    reach("refused");
}
/// every --hash-style of up to five letters
fn style() -> World {
    let mut w = World::new();
    user(&mut w, &["f"]);
    w.files.push(("libq.so".into(), so(0x10, &["f"])));
    let n = choose("len", 6) as usize;
    let mut v = b"--hash-style=".to_vec();
    for i in 0..n {
        let c = sym8(&format!("c{}", i));
        assume((c != 0) & (c < 0x80));
        v.push(c);
    }
    let is = |s: &[u8]| {
        let mut ok = v.len() == 13 + s.len();
        for i in 0..s.len() {
            if ok {
                ok = conc((v[13 + i] == s[i]) as u64) == 1;
            }
        }
        ok
    };
    w.opts = if is(b"gnu") {
        "gnu".into()
    } else if is(b"sysv") {
        "sysv".into()
    } else if is(b"both") {
        "both".into()
    } else {
        "bad".into()
    };
    w.files.push(("arg".into(), v));
    w.run("a.o @:arg libq.so -o out");
    w
}
fn chk_style(w: &World) {
    if w.opts == "bad" {
        check(status(0) != 0 && status(0) < 1000, "an unknown hash style makes the link fail");
        no_output("out");
        reach("refused");
    } else if must_link(0) {
        let o = Out::load("out");
        let d = dynamic(&o);
        check(d.get(DT_HASH).is_some() == (w.opts != "gnu"), "--hash-style selects DT_HASH");
        check(d.get(DT_GNU_HASH).is_some() == (w.opts != "sysv"), "--hash-style selects DT_GNU_HASH");
        reach("linked");
    }
}
/// an argument of arbitrary characters, none of which is a file or an option
fn unknown() -> World {
    let mut w = World::new();
    user(&mut w, &["f"]);
    w.files.push(("libq.so".into(), so(0x10, &["f"])));
    let n = 1 + choose("len", 3) as usize;
    let mut v = vec![];
    for i in 0..n {
        if i + 1 < n {
            // (only the last character is arbitrary: file names are made concrete)
            v.push([b'-', b'x'][choose(&format!("p{}", i), 2) as usize]);
            continue;
        }
        let c = sym8(&format!("c{}", i));
        assume((c > b' ') & (c < 0x7f) & (c != b'/') & (c != b'.'));
        v.push(c);
    }
    // not a valid option or file
    if n >= 2 {
        assume(!((v[0] == b'-') & (v[1] == b'L')));
    }
    if n == 2 {
        let o = v[1];
        assume(!((v[0] == b'-') & ((o == b'h') | (o == b'o') | (o == b'z') | (o == b'm') | (o == b'l'))));
    }
    w.files.push(("arg".into(), v));
    w.run("a.o libq.so -o out @:arg");
    w
}
/// where the output goes
fn output() -> World {
    let mut w = World::new();
    user(&mut w, &[]);
    w.dirs.push("d".into());
    let k = choose("k", 6);
    let (args, out) = match k {
        0 => ("a.o", "out"),
        1 => ("a.o -o d/prog", "d/prog"),
        2 => ("-o x a.o -o y", "y"),
        3 => ("a.o -o ./d/../z", "z"),
        4 => ("a.o -o nodir/prog", ""),
        _ => ("a.o -o d", ""),
    };
    w.run(args);
    w.run("a.o -o out2");
    w.opts = out.into();
    if choose("old", 2) == 1 && !out.is_empty() {
        w.files.push((out.into(), vec![0x55; 9000]));
    }
    w
}
fn chk_output(w: &World) {
    if w.opts.is_empty() {
        check(status(0) != 0 && status(0) < 1000, "an output that cannot be created makes the link fail");
        reach("refused");
    } else {
        chk_same(w);
        let _ = Out::load(&w.opts);
    }
}
