//! C24: sections that are not loaded.
use super::{q, t, Scen};
use crate::obj::*;
use crate::out::*;
use crate::rt::*;
use crate::world::*;

pub fn all() -> Vec<Scen> {
    vec![
        q("c24_values", values, chk_values),
        q("c24_concat", concat, chk),
        q("c24_compressed", compressed, chk_compressed),
        t("c24_concat2", concat2, chk),
    ]
}
fn debug(o: &mut Obj, name: &str, align: u64, d: &[u8]) -> u16 {
    o.sec(name, SHT_PROGBITS, if name == ".debug_str" { 0x30 } else { 0 }, align, d)
}
fn values() -> World {
    let mut w = World::new();
    let kind = choose("kind", 9);
    let addend = sym64("addend") as i64;
    let value = sym16("value") as u64;
    let ty = [R_64, R_32][choose("type", 2) as usize];
    let off = 8 + choose("off", 2) * 3;
    let second = choose("second", 2) == 1;
    // somewhat different sizes in front, when the relocation is in the second object
    let mut a = w.obj();
    a.start();
    if second {
        let d = a.blob(10);
        debug(&mut a, ".debug_info", 1, &d);
        let d = a.blob(7);
        debug(&mut a, ".debug_str", 1, &d);
        w.add(a);
        a = w.obj();
    }
    let d = a.blob(16);
    let text = a.sec(".text.y", SHT_PROGBITS, A | X, 4, &d);
    let d = a.blob(21);
    let info = debug(&mut a, ".debug_info", 1, &d);
    let d = a.blob(9);
    let strs = debug(&mut a, ".debug_str", 1, &d);
    let mut b = w.obj();
    b.id = 3;
    let s = match kind {
        0 => a.secsym(text),
        1 => a.sym("lo", LOCAL, FUNC, text, value, 0),
        2 => {
            let d = b.blob(16);
            let x = b.data(&d);
            b.sym("gl", GLOBAL, OBJECT, x, value, 8);
            a.undef("gl")
        }
        3 => a.secsym(strs),
        4 => a.secsym(info),
        5 => a.sym("name", LOCAL, NOTYPE, strs, value, 0),
        6 => a.sym("unit", LOCAL, NOTYPE, info, value, 0),
        7 => a.sym("abs", LOCAL, NOTYPE, ABS, value, 0),
        _ => a.sym("weak", WEAK, NOTYPE, UNDEF, 0, 0),
    };
    a.rela(info, off, ty, s, addend);
    let d = b.blob(5);
    debug(&mut b, ".debug_str", 1, &d);
    w.add(a);
    w.add(b);
    w
}
fn chk_values(w: &World) {
    let addend = sym64("addend") as i64;
    if status(0) != 0 {
        // below 4 GiB, and not negative: program symbols and sections are
        let small = (addend >= 0) & (addend <= 0x10_0000);
        check(!small, "a relocation whose value fits is refused");
        reach("refused");
        return;
    }
    chk(w);
}
/// a section that isn't loaded is compressed: concatenated and relocated as it is, it is broken
fn compressed() -> World {
    let mut w = World::new();
    let n = choose("n", 2) + 1;
    let at = choose("at", n);
    for i in 0..n {
        let mut a = w.obj();
        if i == 0 {
            a.start();
        }
        let d = a.blob(8);
        let text = a.sec(".text.y", SHT_PROGBITS, A | X, 4, &d);
        let ts = a.secsym(text);
        let d = a.blob(40);
        let name = [".debug_info", ".debug_str", ".other"][choose("name", 3) as usize];
        let more = if i == at { 0x800 | [0, 0x30][choose("merge", 2) as usize] } else { 0 };
        let s = a.sec(name, SHT_PROGBITS, more, [1, 8][choose("align", 2) as usize], &d);
        if choose("rela", 2) == 1 {
            a.rela(s, 28, R_64, ts, 4);
        }
        w.add(a);
    }
    w
}
fn chk_compressed(_: &World) {
    check(status(0) != 0, "compressed sections are refused");
    check(status(0) < 1000, "the linker ends");
    super::c07::no_output("out");
    reach("refused");
}
const NAMES: [&str; 3] = [".debug_info", ".debug_str", ".debug_line"];
fn debug_world(n: u64, sizes: &[u64]) -> World {
    let mut w = World::new();
    let n = choose("n", n) + 1;
    for i in 0..n {
        let mut a = w.obj();
        if i == 0 {
            a.start();
        }
        let d = a.blob(8);
        let text = a.sec(".text.y", SHT_PROGBITS, A | X, 4, &d);
        let ts = a.secsym(text);
        let size = sizes[choose(&format!("size{}", i), sizes.len() as u64) as usize];
        let align = [1, 4, 8][choose(&format!("align{}", i), 3) as usize];
        let d = a.blob(size as usize);
        let info = debug(&mut a, ".debug_info", align, &d);
        let d = a.blob(3 + i as usize);
        let strs = debug(&mut a, ".debug_str", 1, &d);
        let is = a.secsym(info);
        let ss = a.secsym(strs);
        if size >= 12 {
            a.rela(info, 0, R_32, ss, 1);
            a.rela(info, size - 8, R_64, ts, 4);
        }
        let d = a.blob(8);
        let line = debug(&mut a, ".debug_line", 1, &d);
        a.rela(line, 0, R_32, is, size as i64);
        a.rela(line, 4, R_32, ss, 2);
        w.add(a);
    }
    w
}
fn concat() -> World {
    debug_world(2, &[0, 1, 12, 13])
}
fn concat2() -> World {
    debug_world(3, &[0, 1, 12, 13, 31])
}
/// offset of every section that isn't loaded within the output section of its name
fn offsets(w: &World) -> (Vec<Vec<u64>>, Vec<u64>) {
    let mut at: Vec<Vec<u64>> = w.objs.iter().map(|o| vec![0; o.1.secs.len()]).collect();
    let mut total = vec![];
    for n in NAMES {
        let mut end = 0;
        for (i, (_, o)) in w.objs.iter().enumerate() {
            for (j, s) in o.secs.iter().enumerate() {
                if s.name == n {
                    end = up(end, s.align);
                    at[i][j] = end;
                    end += s.data.len() as u64;
                }
            }
        }
        total.push(end);
    }
    (at, total)
}
pub fn chk(w: &World) {
    if !must_link(0) {
        return;
    }
    let (p, b) = start(w, "out");
    check_all(w, &p, &b);
    let (at, total) = offsets(w);
    for (n, total) in NAMES.iter().zip(total) {
        let found: Vec<usize> = (0..p.o.sh.len()).filter(|i| p.o.sh[*i].name == *n).collect();
        if !w.objs.iter().any(|o| o.1.secs.iter().any(|s| s.name == *n)) {
            continue;
        }
        check(found.len() == 1, "there is one output section of the name");
        let i = found[0];
        check(p.o.sh[i].flags & A == 0 && p.o.sh[i].addr == 0, "it is not loaded");
        let d = p.o.sec_data(i);
        check(d.len() as u64 == total, "it holds the inputs and nothing else");
        let mut free = vec![None; d.len()];
        for (i, (_, o)) in w.objs.iter().enumerate() {
            for (j, s) in o.secs.iter().enumerate().filter(|s| s.1.name == *n) {
                for (k, x) in s.data.iter().enumerate() {
                    free[at[i][j] as usize + k] = Some(*x);
                }
                for r in &s.relas {
                    let size = if r.ty == R_64 { 8 } else { 4 };
                    let pl = at[i][j] + conc(r.off);
                    for k in 0..size {
                        free[(pl + k) as usize] = None;
                    }
                    let t = w.target(i, r.sym);
                    let s = match t {
                        Target::At(o, x, y) if !is_alloc(&w.objs[o].1.secs[x]) => {
                            at[o][x].wrapping_add(w.objs[o].1.syms[y].value)
                        }
                        _ => match addr(w, &b, &p, t) {
                            Some(v) => v,
                            None => fail("no address"),
                        },
                    };
                    let v = s.wrapping_add(r.addend as u64);
                    if r.ty == R_64 {
                        check(rd(&d, pl, 8) == v, "the address of a symbol, in a section that isn't loaded");
                    } else {
                        check((rd(&d, pl, 4) == v & 0xffff_ffff) & fits32(v), "an offset, in a section that isn't loaded");
                    }
                }
            }
        }
        let mut ok = true;
        for k in 0..d.len() {
            if let Some(x) = free[k] {
                ok &= d[k] == x;
            }
        }
        check(ok, "the contents are the inputs'");
    }
    reach("linked");
}
