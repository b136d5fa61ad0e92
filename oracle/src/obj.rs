//! Builder for relocatable x86-64 ELF objects and shared libraries (the inputs).
#![allow(dead_code)]

pub const SHT_NULL: u32 = 0;
pub const SHT_PROGBITS: u32 = 1;
pub const SHT_SYMTAB: u32 = 2;
pub const SHT_STRTAB: u32 = 3;
pub const SHT_RELA: u32 = 4;
pub const SHT_HASH: u32 = 5;
pub const SHT_DYNAMIC: u32 = 6;
pub const SHT_NOTE: u32 = 7;
pub const SHT_NOBITS: u32 = 8;
pub const SHT_REL: u32 = 9;
pub const SHT_DYNSYM: u32 = 11;
pub const SHT_INIT_ARRAY: u32 = 14;
pub const SHT_FINI_ARRAY: u32 = 15;
pub const SHT_PREINIT_ARRAY: u32 = 16;
pub const SHT_GNU_HASH: u32 = 0x6fff_fff6;

pub const W: u64 = 1;
pub const A: u64 = 2;
pub const X: u64 = 4;
pub const MERGE: u64 = 0x10;
pub const STRINGS: u64 = 0x20;
pub const GROUP: u64 = 0x200;
pub const LINK_ORDER: u64 = 0x80;
pub const EXCLUDE: u64 = 0x8000_0000;
pub const SHT_GROUP: u32 = 17;
pub const TLS: u64 = 0x400;

pub const LOCAL: u8 = 0;
pub const GLOBAL: u8 = 1;
pub const WEAK: u8 = 2;
/// one of many equal definitions, as C++ compilers make them (STB_GNU_UNIQUE)
pub const UNIQUE: u8 = 10;
pub const NOTYPE: u8 = 0;
pub const OBJECT: u8 = 1;
pub const FUNC: u8 = 2;
pub const SECTION: u8 = 3;
pub const FILE: u8 = 4;
pub const STT_TLS: u8 = 6;

pub const UNDEF: u16 = 0;
pub const ABS: u16 = 0xfff1;
pub const COMMON: u16 = 0xfff2;

pub const R_64: u32 = 1;
pub const R_PC32: u32 = 2;
pub const R_GOT32: u32 = 3;
pub const R_PLT32: u32 = 4;
pub const R_COPY: u32 = 5;
pub const R_GLOB_DAT: u32 = 6;
pub const R_JUMP_SLOT: u32 = 7;
pub const R_RELATIVE: u32 = 8;
pub const R_GOTPCREL: u32 = 9;
pub const R_32: u32 = 10;
pub const R_32S: u32 = 11;
pub const R_DTPMOD64: u32 = 16;
pub const R_DTPOFF64: u32 = 17;
pub const R_TPOFF64: u32 = 18;
pub const R_TLSGD: u32 = 19;
pub const R_DTPOFF32: u32 = 21;
pub const R_GOTTPOFF: u32 = 22;
pub const R_TPOFF32: u32 = 23;
pub const R_PC64: u32 = 24;
pub const R_GOTPCRELX: u32 = 41;
pub const R_REX_GOTPCRELX: u32 = 42;

pub fn put16(v: &mut Vec<u8>, x: u16) {
    v.extend_from_slice(&x.to_le_bytes());
}
pub fn put32(v: &mut Vec<u8>, x: u32) {
    v.extend_from_slice(&x.to_le_bytes());
}
pub fn put64(v: &mut Vec<u8>, x: u64) {
    v.extend_from_slice(&x.to_le_bytes());
}
pub fn pad(v: &mut Vec<u8>, a: usize) {
    while v.len() % a != 0 {
        v.push(0);
    }
}

#[derive(Clone)]
pub struct Rela {
    pub off: u64,
    pub ty: u32,
    pub sym: usize,
    pub addend: i64,
}
#[derive(Clone)]
pub struct Sec {
    pub name: String,
    pub ty: u32,
    pub flags: u64,
    pub align: u64,
    pub data: Vec<u8>,
    pub size: u64,
    pub entsize: u64,
    pub relas: Vec<Rela>,
    /// the signature (a symbol) and the members of a group
    pub group: Option<(usize, Vec<u16>)>,
    /// the section that `sh_link` refers to (as in `Sym::sec`)
    pub link: u16,
}
#[derive(Clone)]
pub struct Sym {
    pub name: String,
    pub bind: u8,
    pub ty: u8,
    pub other: u8,
    /// 0 undefined, 0xfff1.. special, otherwise 1 + index into `secs`
    pub sec: u16,
    pub value: u64,
    pub size: u64,
}
/// where the relocation sections go in the section header table
#[derive(Clone, Copy, PartialEq)]
pub enum RelaAt {
    After,
    End,
    Before,
}
#[derive(Clone)]
pub struct Obj {
    /// identifies the object in the markers of its sections
    pub id: u8,
    pub secs: Vec<Sec>,
    pub syms: Vec<Sym>,
    pub rela_at: RelaAt,
    pub e_type: u16,
    pub machine: u16,
    pub class: u8,
    pub endian: u8,
    pub flags: u32,
}

pub fn mark(obj: u8, sec: u8) -> [u8; 8] {
    [0xa5, 0x4d, obj.wrapping_add(0x31), 0x5a, sec.wrapping_add(0x61), 0xc3, 0x7e, 0x99]
}
pub fn fixed(s: &[u8], n: usize) -> Vec<u8> {
    let mut v = s.to_vec();
    v.resize(n, 0);
    v
}

impl Obj {
    pub fn new() -> Obj {
        Obj {
            id: 0,
            secs: vec![],
            syms: vec![],
            rela_at: RelaAt::After,
            e_type: 1,
            machine: 62,
            class: 2,
            endian: 1,
            flags: 0,
        }
    }
    /// adds a section; returns the value to use for `Sym::sec`
    pub fn sec(&mut self, name: &str, ty: u32, flags: u64, align: u64, data: &[u8]) -> u16 {
        self.secs.push(Sec {
            name: name.into(),
            ty,
            flags,
            align,
            data: data.to_vec(),
            size: data.len() as u64,
            entsize: 0,
            relas: vec![],
            group: None,
            link: 0,
        });
        self.secs.len() as u16
    }
    /// a group of sections of which a program needs one copy
    pub fn comdat(&mut self, sig: usize, members: &[u16]) -> u16 {
        let s = self.sec(".group", SHT_GROUP, 0, 4, &[]);
        self.secs[s as usize - 1].group = Some((sig, members.to_vec()));
        for m in members {
            self.secs[*m as usize - 1].flags |= GROUP;
        }
        s
    }
    pub fn text(&mut self, data: &[u8]) -> u16 {
        self.sec(".text", SHT_PROGBITS, A | X, 16, data)
    }
    pub fn data(&mut self, data: &[u8]) -> u16 {
        self.sec(".data", SHT_PROGBITS, A | W, 8, data)
    }
    pub fn rodata(&mut self, data: &[u8]) -> u16 {
        self.sec(".rodata", SHT_PROGBITS, A, 8, data)
    }
    pub fn bss(&mut self, size: u64, align: u64) -> u16 {
        let s = self.sec(".bss", SHT_NOBITS, A | W, align, &[]);
        self.secs[s as usize - 1].size = size;
        s
    }
    pub fn sym(&mut self, name: &str, bind: u8, ty: u8, sec: u16, value: u64, size: u64) -> usize {
        self.syms.push(Sym { name: name.into(), bind, ty, other: 0, sec, value, size });
        self.syms.len() - 1
    }
    pub fn func(&mut self, name: &str, sec: u16, value: u64, size: u64) -> usize {
        self.sym(name, GLOBAL, FUNC, sec, value, size)
    }
    pub fn object(&mut self, name: &str, sec: u16, value: u64, size: u64) -> usize {
        self.sym(name, GLOBAL, OBJECT, sec, value, size)
    }
    pub fn undef(&mut self, name: &str) -> usize {
        self.sym(name, GLOBAL, NOTYPE, UNDEF, 0, 0)
    }
    pub fn secsym(&mut self, sec: u16) -> usize {
        self.sym("", LOCAL, SECTION, sec, 0, 0)
    }
    pub fn rela(&mut self, sec: u16, off: u64, ty: u32, sym: usize, addend: i64) {
        self.secs[sec as usize - 1].relas.push(Rela { off, ty, sym, addend });
    }
    /// contents for the next section: an 8-byte marker followed by `len - 8` arbitrary bytes
    pub fn blob(&self, len: usize) -> Vec<u8> {
        let si = self.secs.len() as u8 + 1;
        let mut v = mark(self.id, si).to_vec();
        for j in 8..len {
            v.push(crate::rt::sym8(&format!("o{}s{}b{}", self.id, si, j)));
        }
        v
    }
    /// like `blob` with a fixed filler, for contents that do not matter
    pub fn fill(&self, len: usize) -> Vec<u8> {
        let si = self.secs.len() as u8 + 1;
        let mut v = mark(self.id, si).to_vec();
        for j in 8..len {
            v.push(0x40 + (j % 64) as u8);
        }
        v
    }
    /// a trivial `_start` with its own text
    pub fn start(&mut self) -> u16 {
        let mut d = self.fill(8);
        d.extend_from_slice(START);
        let t = self.text(&d);
        self.func("_start", t, 8, START.len() as u64);
        t
    }

    pub fn build(&self) -> Vec<u8> {
        // section order
        #[derive(Clone, Copy)]
        enum K {
            S(usize),
            R(usize),
        }
        let mut order: Vec<K> = vec![];
        for i in 0..self.secs.len() {
            let has = !self.secs[i].relas.is_empty();
            if has && self.rela_at == RelaAt::Before {
                order.push(K::R(i));
            }
            order.push(K::S(i));
            if has && self.rela_at == RelaAt::After {
                order.push(K::R(i));
            }
        }
        if self.rela_at == RelaAt::End {
            for i in 0..self.secs.len() {
                if !self.secs[i].relas.is_empty() {
                    order.push(K::R(i));
                }
            }
        }
        let mut shidx = vec![0u16; self.secs.len()];
        for (i, k) in order.iter().enumerate() {
            if let K::S(s) = k {
                shidx[*s] = i as u16 + 1;
            }
        }
        // symbols: locals first
        let mut perm = vec![0u32; self.syms.len()];
        let mut sorted: Vec<usize> = vec![];
        for (i, s) in self.syms.iter().enumerate() {
            if s.bind == LOCAL {
                sorted.push(i);
            }
        }
        let nlocal = sorted.len() as u32 + 1;
        for (i, s) in self.syms.iter().enumerate() {
            if s.bind != LOCAL {
                sorted.push(i);
            }
        }
        for (i, s) in sorted.iter().enumerate() {
            perm[*s] = i as u32 + 1;
        }
        let mut strtab = vec![0u8];
        let mut symtab = vec![0u8; 24];
        for i in &sorted {
            let s = &self.syms[*i];
            let n = if s.name.is_empty() {
                0
            } else {
                let n = strtab.len() as u32;
                strtab.extend_from_slice(s.name.as_bytes());
                strtab.push(0);
                n
            };
            put32(&mut symtab, n);
            symtab.push(s.bind << 4 | s.ty);
            symtab.push(s.other);
            let sh = if s.sec == 0 || s.sec >= 0xff00 { s.sec } else { shidx[s.sec as usize - 1] };
            put16(&mut symtab, sh);
            put64(&mut symtab, s.value);
            put64(&mut symtab, s.size);
        }
        let nsec = order.len() as u16 + 4;
        let (i_sym, i_str, i_shstr) = (nsec - 3, nsec - 2, nsec - 1);
        let mut shstr = vec![0u8];
        let mut name = |v: &str| {
            let n = shstr.len() as u32;
            shstr.extend_from_slice(v.as_bytes());
            shstr.push(0);
            n
        };
        let mut out = vec![0u8; 64];
        let mut hdr: Vec<u8> = vec![0u8; 64];
        let mut sh = |hdr: &mut Vec<u8>, n: u32, ty: u32, fl: u64, off: u64, size: u64, link: u32, info: u32, al: u64, es: u64| {
            put32(hdr, n);
            put32(hdr, ty);
            put64(hdr, fl);
            put64(hdr, 0);
            put64(hdr, off);
            put64(hdr, size);
            put32(hdr, link);
            put32(hdr, info);
            put64(hdr, al);
            put64(hdr, es);
        };
        for k in &order {
            match *k {
                K::S(i) => {
                    let s = &self.secs[i];
                    pad(&mut out, if s.align > 16 || s.align == 0 { 16 } else { s.align as usize });
                    let n = name(&s.name);
                    let off = out.len() as u64;
                    if let Some((sig, members)) = &s.group {
                        put32(&mut out, 1);
                        for m in members {
                            put32(&mut out, shidx[*m as usize - 1] as u32);
                        }
                        let size = 4 + 4 * members.len() as u64;
                        sh(&mut hdr, n, s.ty, s.flags, off, size, i_sym as u32, perm[*sig], 4, 4);
                        continue;
                    }
                    out.extend_from_slice(&s.data);
                    let link = if s.link == 0 { 0 } else { shidx[s.link as usize - 1] };
                    sh(&mut hdr, n, s.ty, s.flags, off, s.size, link as u32, 0, s.align, s.entsize);
                }
                K::R(i) => {
                    let s = &self.secs[i];
                    pad(&mut out, 8);
                    let n = name(&format!(".rela{}", s.name));
                    let off = out.len() as u64;
                    for r in &s.relas {
                        put64(&mut out, r.off);
                        put32(&mut out, r.ty);
                        put32(&mut out, perm[r.sym]);
                        put64(&mut out, r.addend as u64);
                    }
                    let size = out.len() as u64 - off;
                    sh(&mut hdr, n, SHT_RELA, 0x40, off, size, i_sym as u32, shidx[i] as u32, 8, 24);
                }
            }
        }
        pad(&mut out, 8);
        let n = name(".symtab");
        sh(&mut hdr, n, SHT_SYMTAB, 0, out.len() as u64, symtab.len() as u64, i_str as u32, nlocal, 8, 24);
        out.extend_from_slice(&symtab);
        let n = name(".strtab");
        sh(&mut hdr, n, SHT_STRTAB, 0, out.len() as u64, strtab.len() as u64, 0, 0, 1, 0);
        out.extend_from_slice(&strtab);
        let n = name(".shstrtab");
        sh(&mut hdr, n, SHT_STRTAB, 0, out.len() as u64, shstr.len() as u64, 0, 0, 1, 0);
        out.extend_from_slice(&shstr);
        pad(&mut out, 8);
        let shoff = out.len() as u64;
        out.extend_from_slice(&hdr);
        let mut e: Vec<u8> = vec![0x7f, b'E', b'L', b'F', self.class, self.endian, 1, 0];
        e.resize(16, 0);
        put16(&mut e, self.e_type);
        put16(&mut e, self.machine);
        put32(&mut e, 1);
        put64(&mut e, 0);
        put64(&mut e, 0);
        put64(&mut e, shoff);
        put32(&mut e, self.flags);
        put16(&mut e, 64);
        put16(&mut e, 0);
        put16(&mut e, 0);
        put16(&mut e, 64);
        put16(&mut e, nsec);
        put16(&mut e, i_shstr);
        out[..64].copy_from_slice(&e);
        out
    }
    pub fn write(&self, path: &str) {
        std::fs::write(path, self.build()).unwrap();
    }
}

/// exit(0) on x86-64 Linux
pub const START: &[u8] = &[0xb8, 60, 0, 0, 0, 0x31, 0xff, 0x0f, 0x05, 0x90, 0x90, 0x90];

/// a shared library: defined dynamic symbols (functions and data) and its own undefined ones
#[derive(Clone)]
pub struct LibSym {
    pub name: String,
    pub bind: u8,
    pub ty: u8,
    pub defined: bool,
    pub value: u64,
    pub size: u64,
}
#[derive(Clone)]
pub struct Lib {
    pub syms: Vec<LibSym>,
    pub soname: Option<String>,
    pub needed: Vec<String>,
}
pub const LIB_TEXT: u64 = 0x1000;
pub const LIB_DATA: u64 = 0x2000;
impl LibSym {
    /// whether a reference from elsewhere to `name` can mean this
    pub fn visible(&self, name: &str) -> bool {
        self.defined && self.bind != LOCAL && self.name == name
    }
}
impl Lib {
    pub fn new() -> Lib {
        Lib { syms: vec![], soname: None, needed: vec![] }
    }
    pub fn func(&mut self, name: &str, value: u64) {
        self.syms.push(LibSym { name: name.into(), bind: GLOBAL, ty: FUNC, defined: true, value: LIB_TEXT + value, size: 16 });
    }
    pub fn object(&mut self, name: &str, value: u64, size: u64) {
        self.syms.push(LibSym { name: name.into(), bind: GLOBAL, ty: OBJECT, defined: true, value: LIB_DATA + value, size });
    }
    /// a thread-local variable: `value` is its offset in the library's thread-local data
    pub fn tls(&mut self, name: &str, value: u64, size: u64) {
        self.syms.push(LibSym { name: name.into(), bind: GLOBAL, ty: STT_TLS, defined: true, value, size });
    }
    pub fn undef(&mut self, name: &str) {
        self.syms.push(LibSym { name: name.into(), bind: GLOBAL, ty: NOTYPE, defined: false, value: 0, size: 0 });
    }
    /// one page each of headers+dynamic tables, text and data
    pub fn build(&self) -> Vec<u8> {
        let mut dynstr = vec![0u8];
        let mut strs = |s: &str| {
            let n = dynstr.len();
            dynstr.extend_from_slice(s.as_bytes());
            dynstr.push(0);
            n as u64
        };
        let mut dynsym = vec![0u8; 24];
        for s in &self.syms {
            put32(&mut dynsym, strs(&s.name) as u32);
            dynsym.push(s.bind << 4 | s.ty);
            dynsym.push(0);
            // sections: 1 .dynsym 2 .dynstr 3 .hash 4 .dynamic 5 .text 6 .data 7 .shstrtab
            put16(&mut dynsym, if !s.defined { 0 } else if s.ty == FUNC { 5 } else { 6 });
            put64(&mut dynsym, s.value);
            put64(&mut dynsym, s.size);
        }
        let mut dynamic: Vec<(u64, u64)> = vec![];
        for n in &self.needed {
            dynamic.push((1, strs(n)));
        }
        if let Some(n) = &self.soname {
            dynamic.push((14, strs(n)));
        }
        let nsym = self.syms.len() + 1;
        let mut hash = vec![];
        put32(&mut hash, 1);
        put32(&mut hash, nsym as u32);
        put32(&mut hash, if nsym > 1 { 1 } else { 0 });
        put32(&mut hash, 0);
        for i in 1..nsym {
            put32(&mut hash, if i + 1 < nsym { i as u32 + 1 } else { 0 });
        }
        let off_sym = 64 + 56 * 4;
        let off_hash = off_sym + dynsym.len();
        let off_dyn = (off_hash + hash.len() + 7) / 8 * 8;
        let ndyn = dynamic.len() + 6;
        let off_str = off_dyn + ndyn * 16;
        dynamic.push((4, off_hash as u64));
        dynamic.push((5, off_str as u64));
        dynamic.push((6, off_sym as u64));
        dynamic.push((10, dynstr.len() as u64));
        dynamic.push((11, 24));
        dynamic.push((0, 0));
        let mut out = vec![0u8; off_sym];
        out.extend_from_slice(&dynsym);
        out.extend_from_slice(&hash);
        out.resize(off_dyn, 0);
        for (t, v) in &dynamic {
            put64(&mut out, *t);
            put64(&mut out, *v);
        }
        out.extend_from_slice(&dynstr);
        let end0 = out.len();
        pad(&mut out, 0x1000);
        let text = out.len() as u64;
        let data = text + 0x1000;
        out.resize(data as usize, 0xcc);
        out.resize(data as usize + 0x100, 0x77);
        let mut shstr = vec![0u8];
        let names = [".dynsym", ".dynstr", ".hash", ".dynamic", ".text", ".data", ".shstrtab"];
        let mut offs = vec![];
        for n in names {
            offs.push(shstr.len() as u32);
            shstr.extend_from_slice(n.as_bytes());
            shstr.push(0);
        }
        let off_shstr = out.len();
        out.extend_from_slice(&shstr);
        pad(&mut out, 8);
        let shoff = out.len();
        let mut hdr = vec![0u8; 64];
        let rows: [(u32, u64, u64, u64, u64, u32, u32, u64, u64); 7] = [
            (SHT_DYNSYM, A, off_sym as u64, off_sym as u64, dynsym.len() as u64, 2, 1, 8, 24),
            (SHT_STRTAB, A, off_str as u64, off_str as u64, dynstr.len() as u64, 0, 0, 1, 0),
            (SHT_HASH, A, off_hash as u64, off_hash as u64, hash.len() as u64, 1, 0, 8, 4),
            (SHT_DYNAMIC, A | W, off_dyn as u64, off_dyn as u64, ndyn as u64 * 16, 2, 0, 8, 16),
            (SHT_PROGBITS, A | X, text, text, 0x1000, 0, 0, 16, 0),
            (SHT_PROGBITS, A | W, data, data, 0x100, 0, 0, 64, 0),
            (SHT_STRTAB, 0, 0, off_shstr as u64, shstr.len() as u64, 0, 0, 1, 0),
        ];
        for (i, r) in rows.iter().enumerate() {
            put32(&mut hdr, offs[i]);
            put32(&mut hdr, r.0);
            put64(&mut hdr, r.1);
            put64(&mut hdr, r.2);
            put64(&mut hdr, r.3);
            put64(&mut hdr, r.4);
            put32(&mut hdr, r.5);
            put32(&mut hdr, r.6);
            put64(&mut hdr, r.7);
            put64(&mut hdr, r.8);
        }
        out.extend_from_slice(&hdr);
        let mut e: Vec<u8> = vec![0x7f, b'E', b'L', b'F', 2, 1, 1, 0];
        e.resize(16, 0);
        put16(&mut e, 3);
        put16(&mut e, 62);
        put32(&mut e, 1);
        put64(&mut e, 0);
        put64(&mut e, 64);
        put64(&mut e, shoff as u64);
        put32(&mut e, 0);
        put16(&mut e, 64);
        put16(&mut e, 56);
        put16(&mut e, 4);
        put16(&mut e, 64);
        put16(&mut e, 8);
        put16(&mut e, 7);
        let phs: [(u32, u32, u64, u64, u64); 4] = [
            (1, 4, 0, end0 as u64, 0x1000),
            (1, 5, text, 0x1000, 0x1000),
            (1, 6, data, 0x100, 0x1000),
            (2, 6, off_dyn as u64, ndyn as u64 * 16, 8),
        ];
        for p in phs {
            put32(&mut e, p.0);
            put32(&mut e, p.1);
            put64(&mut e, p.2);
            put64(&mut e, p.2);
            put64(&mut e, p.2);
            put64(&mut e, p.3);
            put64(&mut e, p.3);
            put64(&mut e, p.4);
        }
        out[..e.len()].copy_from_slice(&e);
        out
    }
    pub fn write(&self, path: &str) {
        std::fs::write(path, self.build()).unwrap();
    }
}

/// a System V / GNU `ar` archive with a symbol index
pub fn archive(members: &[(&str, Vec<u8>, Vec<&str>)]) -> Vec<u8> {
    fn head(out: &mut Vec<u8>, name: &str, size: usize) {
        let mut f = |s: &str, n: usize| {
            out.extend_from_slice(s.as_bytes());
            for _ in s.len()..n {
                out.push(b' ');
            }
        };
        f(name, 16);
        f("0", 12);
        f("0", 6);
        f("0", 6);
        f("644", 8);
        f(&size.to_string(), 10);
        out.extend_from_slice(b"`\n");
    }
    let mut names = vec![];
    let mut nsym = 0;
    for m in members {
        for s in &m.2 {
            nsym += 1;
            names.extend_from_slice(s.as_bytes());
            names.push(0);
        }
    }
    let idx = 4 + 4 * nsym + names.len();
    let mut long = vec![];
    let mut longat = vec![];
    for m in members {
        longat.push(long.len());
        if m.0.len() > 15 {
            long.extend_from_slice(m.0.as_bytes());
            long.extend_from_slice(b"/\n");
        }
    }
    let mut pos = 8 + 60 + (idx + 1) / 2 * 2;
    if !long.is_empty() {
        pos += 60 + (long.len() + 1) / 2 * 2;
    }
    let mut offs: Vec<u32> = vec![];
    for m in members {
        offs.push(pos as u32);
        pos += 60 + (m.1.len() + 1) / 2 * 2;
    }
    let mut out = b"!<arch>\n".to_vec();
    head(&mut out, "/", idx);
    out.extend_from_slice(&(nsym as u32).to_be_bytes());
    for (i, m) in members.iter().enumerate() {
        for _ in &m.2 {
            out.extend_from_slice(&offs[i].to_be_bytes());
        }
    }
    out.extend_from_slice(&names);
    if out.len() % 2 == 1 {
        out.push(b'\n');
    }
    if !long.is_empty() {
        head(&mut out, "//", long.len());
        out.extend_from_slice(&long);
        if out.len() % 2 == 1 {
            out.push(b'\n');
        }
    }
    for (i, m) in members.iter().enumerate() {
        if m.0.len() > 15 {
            head(&mut out, &format!("/{}", longat[i]), m.1.len());
        } else {
            head(&mut out, &format!("{}/", m.0), m.1.len());
        }
        out.extend_from_slice(&m.1);
        if out.len() % 2 == 1 {
            out.push(b'\n');
        }
    }
    out
}
