//! The linker's output as the kernel and tools see it.
#![allow(dead_code)]
use crate::obj::*;
use crate::rt::*;

pub const PT_LOAD: u64 = 1;
pub const PT_DYNAMIC: u64 = 2;
pub const PT_INTERP: u64 = 3;
pub const PT_PHDR: u64 = 6;
pub const PT_TLS: u64 = 7;

#[derive(Clone, Debug)]
pub struct Ph {
    pub ty: u64,
    pub flags: u64,
    pub off: u64,
    pub va: u64,
    pub filesz: u64,
    pub memsz: u64,
    pub align: u64,
}
#[derive(Clone, Debug)]
pub struct Sh {
    pub name: String,
    pub ty: u64,
    pub flags: u64,
    pub addr: u64,
    pub off: u64,
    pub size: u64,
    pub link: u64,
    pub info: u64,
    pub align: u64,
    pub entsize: u64,
}
#[derive(Clone)]
pub struct Seg {
    pub va: u64,
    pub flags: u64,
    pub data: Vec<u8>,
}
#[derive(Clone)]
pub struct OSym {
    pub name: String,
    pub info: u64,
    pub other: u64,
    pub shndx: u64,
    pub value: u64,
    pub size: u64,
}
pub struct Out {
    pub raw: Vec<u8>,
    pub e_type: u64,
    pub entry: u64,
    pub ph: Vec<Ph>,
    pub sh: Vec<Sh>,
    pub segs: Vec<Seg>,
    pub shstrndx: u64,
}

pub fn rd(b: &[u8], o: u64, n: usize) -> u64 {
    let o = o as usize;
    if o.checked_add(n).map_or(true, |e| e > b.len()) {
        fail("the output refers to data outside of it");
    }
    match n {
        1 => b[o] as u64,
        2 => u16::from_le_bytes([b[o], b[o + 1]]) as u64,
        4 => u32::from_le_bytes([b[o], b[o + 1], b[o + 2], b[o + 3]]) as u64,
        _ => u64::from_le_bytes([
            b[o],
            b[o + 1],
            b[o + 2],
            b[o + 3],
            b[o + 4],
            b[o + 5],
            b[o + 6],
            b[o + 7],
        ]),
    }
}
pub fn cstr(b: &[u8], o: u64) -> String {
    let mut s = vec![];
    let mut i = o as usize;
    loop {
        if i >= b.len() {
            fail("a string in the output is not terminated inside its table");
        }
        let c = b[i];
        if conc((c == 0) as u64) == 1 {
            return match String::from_utf8(s) {
                Ok(s) => s,
                Err(_) => fail("a name in the output is none of the inputs' names"),
            };
        }
        s.push(c);
        i += 1;
    }
}
pub fn up(v: u64, a: u64) -> u64 {
    if a == 0 {
        v
    } else {
        (v + a - 1) / a * a
    }
}

impl Out {
    /// Parse and map the output file; anything the kernel would refuse is a failure.
    pub fn load(path: &str) -> Out {
        let raw = match std::fs::read(path) {
            Ok(b) => b,
            Err(_) => fail("the link succeeded but there is no output file"),
        };
        if raw.len() < 64 {
            fail("the output is not an ELF file");
        }
        check(raw[..7] == [0x7f, b'E', b'L', b'F', 2, 1, 1], "output ELF identification");
        let c = |v: u64| conc(v);
        let e_type = c(rd(&raw, 16, 2));
        check(c(rd(&raw, 18, 2)) == 62, "output machine");
        check(c(rd(&raw, 20, 4)) == 1, "output version");
        let phoff = c(rd(&raw, 32, 8));
        let shoff = c(rd(&raw, 40, 8));
        check(c(rd(&raw, 52, 2)) == 64, "e_ehsize");
        check(c(rd(&raw, 54, 2)) == 56, "e_phentsize");
        let phnum = c(rd(&raw, 56, 2));
        check(c(rd(&raw, 58, 2)) == 64, "e_shentsize");
        let shnum = c(rd(&raw, 60, 2));
        let shstrndx = c(rd(&raw, 62, 2));
        let mut o = Out {
            e_type,
            entry: rd(&raw, 24, 8),
            ph: vec![],
            sh: vec![],
            segs: vec![],
            shstrndx,
            raw,
        };
        check(phoff < o.raw.len() as u64 && shoff < o.raw.len() as u64, "header tables lie in the file");
        for i in 0..phnum {
            let b = phoff + i * 56;
            let r = |k: u64, n: usize| c(rd(&o.raw, b + k, n));
            o.ph.push(Ph {
                ty: r(0, 4),
                flags: r(4, 4),
                off: r(8, 8),
                va: r(16, 8),
                filesz: r(32, 8),
                memsz: r(40, 8),
                align: r(48, 8),
            });
        }
        for i in 0..shnum {
            let b = shoff + i * 64;
            let r = |k: u64, n: usize| c(rd(&o.raw, b + k, n));
            o.sh.push(Sh {
                name: r(0, 4).to_string(),
                ty: r(4, 4),
                flags: r(8, 8),
                addr: r(16, 8),
                off: r(24, 8),
                size: r(32, 8),
                link: r(40, 4),
                info: r(44, 4),
                align: r(48, 8),
                entsize: r(56, 8),
            });
        }
        check(shstrndx < shnum, "e_shstrndx names a section");
        let st = o.sec_data(shstrndx as usize);
        for i in 0..o.sh.len() {
            let n: u64 = o.sh[i].name.parse().unwrap();
            o.sh[i].name = cstr(&st, n);
        }
        for p in &o.ph {
            if p.ty == PT_LOAD {
                check(p.memsz >= p.filesz, "p_memsz covers p_filesz");
                check(
                    p.off.checked_add(p.filesz).map_or(false, |e| e <= o.raw.len() as u64),
                    "segment contents lie in the file",
                );
                check(p.memsz < 1 << 24, "segment size is sane");
                let mut d = o.raw[p.off as usize..(p.off + p.filesz) as usize].to_vec();
                d.resize(p.memsz as usize, 0);
                o.segs.push(Seg { va: p.va, flags: p.flags, data: d });
            }
        }
        o
    }
    pub fn sec_data(&self, i: usize) -> Vec<u8> {
        let s = &self.sh[i];
        if s.ty == SHT_NOBITS as u64 {
            return vec![];
        }
        match s.off.checked_add(s.size) {
            Some(e) if e <= self.raw.len() as u64 => self.raw[s.off as usize..e as usize].to_vec(),
            _ => fail("a section's contents lie outside of the file"),
        }
    }
    pub fn sec(&self, name: &str) -> Option<usize> {
        self.sh.iter().position(|s| s.name == name)
    }
    /// the segment that holds [va, va+n)
    pub fn seg(&self, va: u64, n: u64) -> Option<&Seg> {
        self.segs.iter().find(|s| {
            va >= s.va && va - s.va <= s.data.len() as u64 && s.data.len() as u64 - (va - s.va) >= n
        })
    }
    pub fn mem(&self, va: u64, n: usize) -> &[u8] {
        match self.seg(va, n as u64) {
            Some(s) => &s.data[(va - s.va) as usize..(va - s.va) as usize + n],
            None => fail("an address in the output is not mapped"),
        }
    }
    pub fn get(&self, va: u64, n: usize) -> u64 {
        rd(self.mem(va, n), 0, n)
    }
    pub fn put(&mut self, va: u64, v: u64) {
        for s in self.segs.iter_mut() {
            if va >= s.va && va - s.va + 8 <= s.data.len() as u64 {
                let o = (va - s.va) as usize;
                s.data[o..o + 8].copy_from_slice(&v.to_le_bytes());
                return;
            }
        }
        fail("a dynamic relocation is applied outside of the mapped image");
    }
    pub fn put_bytes(&mut self, va: u64, b: &[u8]) {
        for s in self.segs.iter_mut() {
            if va >= s.va && va - s.va + b.len() as u64 <= s.data.len() as u64 {
                let o = (va - s.va) as usize;
                s.data[o..o + b.len()].copy_from_slice(b);
                return;
            }
        }
        fail("a dynamic relocation is applied outside of the mapped image");
    }
    pub fn perms(&self, va: u64, n: u64) -> u64 {
        match self.seg(va, n) {
            Some(s) => s.flags,
            None => fail("an address in the output is not mapped"),
        }
    }
    /// all addresses at which `pat` occurs in the mapped image
    pub fn occurrences(&self, pat: &[u8]) -> Vec<u64> {
        let mut v = vec![];
        for s in &self.segs {
            let mut from = 0;
            while let Some(i) = find_from(&s.data, pat, from) {
                v.push(s.va + i as u64);
                from = i + 1;
            }
        }
        v
    }
    pub fn locate(&self, pat: &[u8]) -> u64 {
        let v = self.occurrences(pat);
        if v.is_empty() {
            fail("the contents of an input section are missing from the loaded image");
        }
        check(v.len() == 1, "the contents of an input section appear more than once");
        v[0]
    }
    pub fn symbols(&self, name: &str) -> Vec<OSym> {
        let i = match self.sec(name) {
            Some(i) => i,
            None => fail("a symbol table is missing"),
        };
        let d = self.sec_data(i);
        if self.sh[i].link as usize >= self.sh.len() {
            fail("sh_link of a symbol table names no section");
        }
        let st = self.sec_data(self.sh[i].link as usize);
        check(d.len() % 24 == 0, "symbol table size is a multiple of its entry size");
        let mut v = vec![];
        for k in 0..d.len() as u64 / 24 {
            let b = k * 24;
            let n = conc(rd(&d, b, 4));
            v.push(OSym {
                name: cstr(&st, n),
                info: rd(&d, b + 4, 1),
                other: rd(&d, b + 5, 1),
                shndx: rd(&d, b + 6, 2),
                value: rd(&d, b + 8, 8),
                size: rd(&d, b + 16, 8),
            });
        }
        v
    }
}
