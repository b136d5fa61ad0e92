//! What the dynamic loader does with the output: find the dynamic section through PT_DYNAMIC,
//! load the needed libraries, look symbols up through the hash tables and apply relocations.
#![allow(dead_code)]
use crate::obj::*;
use crate::out::*;
use crate::rt::*;

pub struct DSym {
    pub name: String,
    pub info: u64,
    pub shndx: u64,
    pub value: u64,
    pub size: u64,
}
pub struct Dyn {
    pub tags: Vec<(u64, u64)>,
}
impl Dyn {
    pub fn get(&self, t: u64) -> Option<u64> {
        self.tags.iter().find(|x| x.0 == t).map(|x| x.1)
    }
    pub fn need(&self, t: u64, what: &str) -> u64 {
        match self.get(t) {
            Some(v) => v,
            None => fail(what),
        }
    }
}
pub const DT_NEEDED: u64 = 1;
pub const DT_PLTRELSZ: u64 = 2;
pub const DT_PLTGOT: u64 = 3;
pub const DT_HASH: u64 = 4;
pub const DT_STRTAB: u64 = 5;
pub const DT_SYMTAB: u64 = 6;
pub const DT_RELA: u64 = 7;
pub const DT_RELASZ: u64 = 8;
pub const DT_RELAENT: u64 = 9;
pub const DT_STRSZ: u64 = 10;
pub const DT_SYMENT: u64 = 11;
pub const DT_INIT: u64 = 12;
pub const DT_FINI: u64 = 13;
pub const DT_PLTREL: u64 = 20;
pub const DT_JMPREL: u64 = 23;
pub const DT_PREINIT_ARRAY: u64 = 32;
pub const DT_PREINIT_ARRAYSZ: u64 = 33;
pub const DT_INIT_ARRAY: u64 = 25;
pub const DT_FINI_ARRAY: u64 = 26;
pub const DT_INIT_ARRAYSZ: u64 = 27;
pub const DT_FINI_ARRAYSZ: u64 = 28;
pub const DT_GNU_HASH: u64 = 0x6fff_fef5;

pub const LIB_BASE: u64 = 0x7f00_0000_0000;
pub fn lib_base(i: usize) -> u64 {
    LIB_BASE + i as u64 * 0x100_0000
}

pub fn dynamic(o: &Out) -> Dyn {
    let p = match o.ph.iter().find(|p| p.ty == PT_DYNAMIC) {
        Some(p) => p.clone(),
        None => fail("no PT_DYNAMIC"),
    };
    let mut tags = vec![];
    let mut i = 0;
    loop {
        if (i + 1) * 16 > p.memsz {
            fail("the dynamic section is not terminated by DT_NULL");
        }
        let t = conc(o.get(p.va + i * 16, 8));
        let v = conc(o.get(p.va + i * 16 + 8, 8));
        if t == 0 {
            break;
        }
        tags.push((t, v));
        i += 1;
    }
    Dyn { tags }
}
pub fn dstr(o: &Out, d: &Dyn, off: u64) -> String {
    let st = d.need(DT_STRTAB, "no DT_STRTAB");
    let sz = d.need(DT_STRSZ, "no DT_STRSZ");
    check(off < sz, "a dynamic string lies outside DT_STRTAB");
    cstr(o.mem(st, sz as usize), off)
}
pub fn dsym(o: &Out, d: &Dyn, i: u64) -> DSym {
    let t = d.need(DT_SYMTAB, "no DT_SYMTAB") + i * 24;
    let n = conc(o.get(t, 4));
    DSym {
        name: dstr(o, d, n),
        info: o.get(t + 4, 1),
        shndx: conc(o.get(t + 6, 2)),
        value: o.get(t + 8, 8),
        size: o.get(t + 16, 8),
    }
}
pub fn needed(o: &Out, d: &Dyn) -> Vec<String> {
    d.tags.iter().filter(|t| t.0 == DT_NEEDED).map(|t| dstr(o, d, t.1)).collect()
}
pub fn sysv_hash(n: &str) -> u64 {
    let mut h: u32 = 0;
    for c in n.bytes() {
        h = (h << 4).wrapping_add(c as u32);
        let g = h & 0xf000_0000;
        h = (h ^ g >> 24) & !g;
    }
    h as u64
}
pub fn gnu_hash(n: &str) -> u64 {
    let mut h: u32 = 5381;
    for c in n.bytes() {
        h = h.wrapping_mul(33).wrapping_add(c as u32);
    }
    h as u64
}
/// ld.so's lookup in DT_HASH: index of the symbol called `name`
pub fn lookup_sysv(o: &Out, d: &Dyn, name: &str) -> Option<u64> {
    let t = d.need(DT_HASH, "no DT_HASH");
    let nb = conc(o.get(t, 4));
    let nc = conc(o.get(t + 4, 4));
    if nb == 0 {
        fail("DT_HASH has no buckets");
    }
    let mut i = conc(o.get(t + 8 + 4 * (sysv_hash(name) % nb), 4));
    let mut steps = 0;
    while i != 0 {
        check(i < nc, "DT_HASH chain index in range");
        if dsym(o, d, i).name == name {
            return Some(i);
        }
        i = conc(o.get(t + 8 + 4 * nb + 4 * i, 4));
        steps += 1;
        if steps > nc {
            fail("DT_HASH chain loops");
        }
    }
    None
}
/// ld.so's lookup in DT_GNU_HASH
pub fn lookup_gnu(o: &Out, d: &Dyn, name: &str) -> Option<u64> {
    let t = d.need(DT_GNU_HASH, "no DT_GNU_HASH");
    let nb = conc(o.get(t, 4));
    let symoff = conc(o.get(t + 4, 4));
    let bs = conc(o.get(t + 8, 4));
    let shift = conc(o.get(t + 12, 4));
    if nb == 0 || bs == 0 || bs & (bs - 1) != 0 {
        fail("DT_GNU_HASH header");
    }
    let h = gnu_hash(name);
    let word = o.get(t + 16 + 8 * ((h / 64) & (bs - 1)), 8);
    let (a, b) = (h % 64, (h >> shift) % 64);
    if word >> a & word >> b & 1 == 0 {
        return None;
    }
    let buckets = t + 16 + 8 * bs;
    let chains = buckets + 4 * nb;
    let mut i = conc(o.get(buckets + 4 * (h % nb), 4));
    if i == 0 {
        return None;
    }
    check(i >= symoff, "DT_GNU_HASH bucket below symoffset");
    let mut steps = 0;
    loop {
        let c = o.get(chains + 4 * (i - symoff), 4);
        if (c ^ h) >> 1 == 0 && dsym(o, d, i).name == name {
            return Some(i);
        }
        if c & 1 == 1 {
            return None;
        }
        i += 1;
        steps += 1;
        if steps > 100_000 {
            fail("DT_GNU_HASH chain does not end");
        }
    }
}
/// the lookup ld.so performs (GNU hash preferred)
pub fn lookup(o: &Out, d: &Dyn, name: &str) -> Option<u64> {
    if d.get(DT_GNU_HASH).is_some() {
        lookup_gnu(o, d, name)
    } else if d.get(DT_HASH).is_some() {
        lookup_sysv(o, d, name)
    } else {
        None
    }
}

/// a library as loaded
pub struct Loaded<'a> {
    pub file: String,
    pub lib: &'a Lib,
    pub base: u64,
}
pub struct Proc<'a> {
    pub o: Out,
    pub d: Dyn,
    pub libs: Vec<Loaded<'a>>,
    /// (place, type, symbol name) of every dynamic relocation
    pub rels: Vec<(u64, u64, String, bool)>,
}
pub fn lib_byte(lib: usize, off: u64) -> u8 {
    (lib as u64 * 37 + off * 7 + 1) as u8
}

impl<'a> Proc<'a> {
    /// value of `name` as seen by ld.so from the program (`skip_exe` for copy relocations)
    /// (an undefined symbol with a value is the program's canonical address of a function: it
    /// satisfies every reference except the one of its own JUMP_SLOT relocation)
    pub fn resolve(&self, name: &str, skip_exe: bool, plt: bool) -> Option<u64> {
        if !skip_exe {
            if let Some(i) = lookup(&self.o, &self.d, name) {
                let s = dsym(&self.o, &self.d, i);
                if s.shndx != 0 || !plt && conc(s.value) != 0 {
                    return Some(s.value);
                }
            }
        }
        for l in &self.libs {
            for s in &l.lib.syms {
                if s.visible(name) {
                    return Some(l.base + s.value);
                }
            }
        }
        None
    }
    /// the module and the offset in it of a thread-local variable of a library, and the thread
    /// pointer offset of the module's data (the program itself is module 1)
    pub fn lib_tls(&self, name: &str) -> Option<(u64, u64, u64)> {
        for (k, l) in self.libs.iter().enumerate() {
            for s in &l.lib.syms {
                if s.visible(name) {
                    check(s.ty == STT_TLS, "ld.so: a thread-local relocation names a symbol that isn't");
                    return Some((k as u64 + 2, s.value, 0u64.wrapping_sub(0x10000 * (k as u64 + 1))));
                }
            }
        }
        None
    }
    /// Load `out`, apply its relocations eagerly (LD_BIND_NOW). `libs`: file name -> library.
    pub fn start(o: Out, libs: &'a [(String, Lib)], bind_plt: bool) -> Proc<'a> {
        let d = dynamic(&o);
        let mut p = Proc { o, d, libs: vec![], rels: vec![] };
        let mut queue = needed(&p.o, &p.d);
        let mut i = 0;
        while i < queue.len() {
            let n = queue[i].clone();
            i += 1;
            if p.libs.iter().any(|l| l.file == n) {
                continue;
            }
            for (k, (f, l)) in libs.iter().enumerate() {
                let base = f.rsplit('/').next().unwrap();
                let id = l.soname.clone().unwrap_or(base.to_string());
                if id == n || base == n {
                    p.libs.push(Loaded { file: n.clone(), lib: l, base: lib_base(k) });
                    queue.extend(l.needed.iter().cloned());
                    break;
                }
            }
        }
        let mut copies = vec![];
        for (tab, size, plt) in [(DT_RELA, DT_RELASZ, false), (DT_JMPREL, DT_PLTRELSZ, true)] {
            let t = match p.d.get(tab) {
                Some(t) => t,
                None => continue,
            };
            let n = p.d.need(size, "a relocation table has no size") / 24;
            for i in 0..n {
                let at = conc(p.o.get(t + i * 24, 8));
                let info = conc(p.o.get(t + i * 24 + 8, 8));
                let add = p.o.get(t + i * 24 + 16, 8);
                let (ty, si) = (info & 0xffff_ffff, info >> 32);
                let s = dsym(&p.o, &p.d, si);
                p.rels.push((at, ty, s.name.clone(), plt));
                let weak = conc(s.info) >> 4 == 2;
                if si == 0 && ty != R_RELATIVE as u64 {
                    fail("a dynamic relocation names no symbol");
                }
                let tls = [R_TPOFF64, R_DTPMOD64, R_DTPOFF64].contains(&(ty as u32));
                let v = if ty == R_RELATIVE as u64 {
                    0
                } else if tls {
                    match (p.lib_tls(&s.name), ty as u32) {
                        (Some((_, v, tp)), R_TPOFF64) => tp.wrapping_add(v),
                        (Some((m, _, _)), R_DTPMOD64) => m,
                        (Some((_, v, _)), _) => v,
                        (None, _) if weak => 0,
                        (None, _) => fail("ld.so: undefined symbol"),
                    }
                } else {
                    match p.resolve(&s.name, ty == R_COPY as u64, ty == R_JUMP_SLOT as u64) {
                        Some(v) => v,
                        None if weak => 0,
                        None => fail("ld.so: undefined symbol"),
                    }
                };
                let n = if ty == R_COPY as u64 { conc(s.size) } else { 8 };
                check(p.o.perms(at, n) & 2 != 0, "dynamic relocation in a read-only segment");
                match ty as u32 {
                    R_GLOB_DAT => p.o.put(at, v),
                    R_JUMP_SLOT => {
                        check(plt, "JUMP_SLOT relocations belong to DT_JMPREL");
                        if bind_plt {
                            p.o.put(at, v)
                        }
                    }
                    R_64 | R_TPOFF64 | R_DTPOFF64 => p.o.put(at, v.wrapping_add(add)),
                    R_DTPMOD64 => p.o.put(at, v),
                    R_RELATIVE => p.o.put(at, add),
                    R_COPY => copies.push((at, s.name.clone(), s.size, v)),
                    _ => fail("unknown dynamic relocation"),
                }
            }
        }
        for (at, name, size, _) in copies {
            // contents of the library's object
            for (k, l) in p.libs.iter().enumerate() {
                if let Some(s) = l.lib.syms.iter().find(|s| s.visible(&name)) {
                    let _ = k;
                    let n = conc(s.size.min(size));
                    let b: Vec<u8> = (0..n).map(|j| copy_byte(&name, j)).collect();
                    p.o.put_bytes(at, &b);
                    break;
                }
            }
        }
        p
    }
    /// where does a call/jump/load sequence at `va` end up?  follows PLT stubs.
    pub fn follow(&self, mut va: u64) -> u64 {
        for _ in 0..4 {
            if self.o.seg(va, 6).is_none() {
                return va;
            }
            let b0 = self.o.get(va, 1);
            let b1 = self.o.get(va + 1, 1);
            if conc(((b0 == 0xff) & (b1 == 0x25)) as u64) == 1 {
                let rel = self.o.get(va + 2, 4) as u32 as i32 as i64;
                let slot = conc(va.wrapping_add(6).wrapping_add(rel as u64));
                va = conc(self.o.get(slot, 8));
            } else {
                return va;
            }
        }
        va
    }
}
pub fn copy_byte(name: &str, j: u64) -> u8 {
    (gnu_hash(name) % 200 + j % 50 + 1) as u8
}
