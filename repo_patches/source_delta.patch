From fc137ef89f752c215c82c3191a58b8b51efe3969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:35:31 +0000
Subject: [PATCH 01/47] fix: align merged input sections and give NOBITS inputs
 their own space

---
 src/elf.rs         | 23 +++++++++++++++++------
 src/elf/chunk.rs   | 13 ++++++++++++-
 src/elf/section.rs |  7 ++-----
 3 files changed, 31 insertions(+), 12 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 0f4416c..b2bffbe 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -406,13 +406,12 @@ impl<'d> Writer<'d> {
         } else {
             let section_ptr = Arc::clone(&self.sections[entry.index]);
             let mut section = self.sections[entry.index].write();
-            section.sh_size += sh.sh_size;
+            // every input section starts at its own alignment within the output section
+            let offset = round_to(section.sh_size, sh.sh_addralign);
+            section.sh_size = offset + sh.sh_size;
             section.sh_addralign = std::cmp::max(section.sh_addralign, sh.sh_addralign);
-            let chunk = if let Some(data) = data {
-                section.add_chunk(Chunk::from(data))
-            } else {
-                section.last_chunk_index()
-            };
+            let chunk =
+                section.add_chunk(Chunk::from(data.unwrap_or_default()).with_offset(offset));
             (section_ptr, chunk)
         };
         SectionRef { section, chunk }
@@ -979,8 +978,20 @@ impl<'d> Writer<'d> {
                     .name(section.sh_name as usize)
             );
             section.finalize();
+            let mut written = 0;
             for chunk in section.chunks() {
+                // add the necessary padding between aligned chunks
+                if written < chunk.offset() && !chunk.is_empty() {
+                    let padding = vec![0; (chunk.offset() - written) as usize];
+                    self.out.write_all(&padding).unwrap();
+                    written = chunk.offset();
+                }
                 self.out.write_all(chunk).unwrap();
+                written += chunk.len() as u64;
+            }
+            if written < section.size_on_disk() {
+                let padding = vec![0; (section.size_on_disk() - written) as usize];
+                self.out.write_all(&padding).unwrap();
             }
             offset += section.size_on_disk() as usize;
         }
diff --git a/src/elf/chunk.rs b/src/elf/chunk.rs
index c0ab8c0..d79ba2b 100644
--- a/src/elf/chunk.rs
+++ b/src/elf/chunk.rs
@@ -10,6 +10,8 @@ use crate::elf::{plt_entry_addr, SymbolRef, SymbolTable};
 /// A part of a section.
 pub struct Chunk {
     address: Option<u64>,
+    /// Where the chunk starts, relative to its section.
+    offset: u64,
     data: Vec<u8>,
     symbols: HashSet<SymbolRef>,
     relocations: Vec<(Rela, SymbolRef)>,
@@ -17,7 +19,16 @@ pub struct Chunk {
 
 impl Chunk {
     pub fn new(data: Vec<u8>) -> Self {
-        Self { address: None, data, symbols: Default::default(), relocations: vec![] }
+        Self { address: None, offset: 0, data, symbols: Default::default(), relocations: vec![] }
+    }
+
+    pub fn with_offset(mut self, offset: u64) -> Self {
+        self.offset = offset;
+        self
+    }
+
+    pub fn offset(&self) -> u64 {
+        self.offset
     }
 
     pub fn add_symbol(&mut self, sym_ref: SymbolRef) {
diff --git a/src/elf/section.rs b/src/elf/section.rs
index 87e0655..fff8a67 100644
--- a/src/elf/section.rs
+++ b/src/elf/section.rs
@@ -193,17 +193,15 @@ impl<'p> Section<'p> {
 
     pub fn set_address(&mut self, sh_addr: u64) {
         self.sh_addr = sh_addr;
-        let mut base_addr = self.sh_addr;
         for chunk in &mut self.chunks {
-            chunk.set_address(base_addr);
-            base_addr += chunk.len() as u64;
+            chunk.set_address(sh_addr + chunk.offset());
         }
     }
 
     pub fn patch_symbol_values(&mut self, table: &mut crate::elf::SymbolTable) {
-        let mut base_addr = self.sh_addr;
         let sh_index = self.index as u16;
         for chunk in &self.chunks {
+            let base_addr = self.sh.sh_addr + chunk.offset();
             for symbol_ref in chunk.symbols().iter() {
                 if let Some(symbol) = table.get_mut(*symbol_ref) {
                     symbol.st_shndx = sh_index;
@@ -214,7 +212,6 @@ impl<'p> Section<'p> {
                     }
                 }
             }
-            base_addr += chunk.len() as u64;
         }
     }
 
-- 
2.43.0


From 91f609de461b04df675577d4b5d6b7099ff1e4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:39:44 +0000
Subject: [PATCH 02/47] fix: honour section alignment in the layout and place
 NOBITS sections last

---
 src/elf.rs | 70 +++++++++++++++++++++++++++---------------------------
 1 file changed, 35 insertions(+), 35 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index b2bffbe..7ef4010 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -7,8 +7,8 @@ use goblin::elf64::{
     reloc::{r_type, Rela, *},
     section_header::{
         SectionHeader, SHF_ALLOC, SHF_EXECINSTR, SHF_WRITE, SHN_ABS, SHN_UNDEF, SHT_DYNAMIC,
-        SHT_DYNSYM, SHT_FINI_ARRAY, SHT_GNU_HASH, SHT_HASH, SHT_INIT_ARRAY, SHT_PROGBITS, SHT_RELA,
-        SHT_STRTAB,
+        SHT_DYNSYM, SHT_FINI_ARRAY, SHT_GNU_HASH, SHT_HASH, SHT_INIT_ARRAY, SHT_NOBITS,
+        SHT_PROGBITS, SHT_RELA, SHT_STRTAB,
     },
     sym::Sym,
 };
@@ -410,6 +410,12 @@ impl<'d> Writer<'d> {
             let offset = round_to(section.sh_size, sh.sh_addralign);
             section.sh_size = offset + sh.sh_size;
             section.sh_addralign = std::cmp::max(section.sh_addralign, sh.sh_addralign);
+            // the output section needs the permissions of all its inputs, and space in the file
+            // if any of them has contents
+            section.sh_flags |= sh.sh_flags;
+            if section.sh_type == SHT_NOBITS {
+                section.sh_type = sh.sh_type;
+            }
             let chunk =
                 section.add_chunk(Chunk::from(data.unwrap_or_default()).with_offset(offset));
             (section_ptr, chunk)
@@ -1033,7 +1039,6 @@ impl<'d> Writer<'d> {
         let mut flags = 0;
         let mut program_header = None;
         for sh in self.sections.iter_mut().skip(1) {
-            let old_p_vaddr = self.p_vaddr;
             let mut sh = sh.write();
             if sh.sh_flags != flags {
                 // push old program header
@@ -1041,27 +1046,29 @@ impl<'d> Writer<'d> {
                     self.program_headers.push(ph);
                 }
 
-                // this function deals with sh_offset for us. if we don't
-                // get a header, then we have to deal with it
                 program_header = get_load_program_header(
-                    &mut *sh,
+                    &sh,
                     &mut self.file_offset,
                     &mut self.p_vaddr,
                     &mut first_load_data,
                 );
-                if program_header.is_none() {
-                    sh.sh_offset = post_inc(&mut self.file_offset, sh.size_on_disk());
-                }
                 flags = sh.sh_flags;
-            } else {
-                sh.sh_offset = post_inc(&mut self.file_offset, sh.size_on_disk());
-                if let Some(ph) = program_header.as_mut() {
-                    ph.p_filesz += sh.size_on_disk();
-                    ph.p_memsz += sh.sh_size;
-                    sh.set_address(self.p_vaddr);
-                    self.p_vaddr += sh.sh_size;
+            }
+            if let Some(ph) = program_header.as_mut() {
+                let padding = round_to(self.p_vaddr, sh.sh_addralign) - self.p_vaddr;
+                self.p_vaddr += padding;
+                ph.p_memsz += padding + sh.sh_size;
+                // sections without contents come last, nothing has to be stored in front of them
+                if sh.sh_type != SHT_NOBITS {
+                    self.file_offset += padding;
+                    ph.p_filesz += padding + sh.size_on_disk();
                 }
+                let sh_addr = post_inc(&mut self.p_vaddr, sh.sh_size);
+                sh.set_address(sh_addr);
+            } else {
+                self.file_offset = round_to(self.file_offset, sh.sh_addralign);
             }
+            sh.sh_offset = post_inc(&mut self.file_offset, sh.size_on_disk());
             let sh = WGuard::downgrade(sh);
             if let Some(p_type) =
                 p_type(self.shstr_section.read().inner::<StringTable>().unwrap(), &*sh)
@@ -1075,8 +1082,8 @@ impl<'d> Writer<'d> {
                         p_flags: PF_R | write,
                         p_align: sh.sh_addralign,
                         p_offset: sh.sh_offset,
-                        p_vaddr: old_p_vaddr,
-                        p_paddr: old_p_vaddr,
+                        p_vaddr: sh.sh_addr,
+                        p_paddr: sh.sh_addr,
                         p_filesz: sh.size_on_disk(),
                         p_memsz: sh.sh_size,
                     },
@@ -1125,37 +1132,27 @@ const fn round_to(val: u64, multiple: u64) -> u64 {
 const PAGE_ALIGNMENT: u64 = 0x1000;
 
 fn get_load_program_header(
-    sh: &mut Section,
+    sh: &SectionHeader,
     file_offset: &mut u64,
     p_vaddr: &mut u64,
     extra_data: &mut Option<u64>,
 ) -> Option<ProgramHeader> {
     if sh.sh_flags as u32 & SHF_ALLOC == SHF_ALLOC {
-        let first_load = extra_data.is_some();
         let extra_data = extra_data.take().unwrap_or_default();
         let write = if sh.sh_flags as u32 & SHF_WRITE == SHF_WRITE { PF_W } else { 0 };
         let exec = if sh.sh_flags as u32 & SHF_EXECINSTR == SHF_EXECINSTR { PF_X } else { 0 };
         *p_vaddr = round_to(*p_vaddr, PAGE_ALIGNMENT);
-        sh.set_address(*p_vaddr + extra_data);
         *file_offset = round_to(*file_offset, PAGE_ALIGNMENT);
-        let sh_size_on_disk = sh.size_on_disk() + extra_data;
-        sh.sh_offset = post_inc(file_offset, sh_size_on_disk);
-        let p_offset = if first_load {
-            sh.sh_offset += extra_data;
-            0
-        } else {
-            sh.sh_offset
-        };
-        let sh_size = sh.sh_size + extra_data;
         Some(ProgramHeader {
             p_type: PT_LOAD,
             p_flags: PF_R | write | exec,
             p_align: PAGE_ALIGNMENT,
-            p_offset,
+            p_offset: post_inc(file_offset, extra_data),
             p_vaddr: *p_vaddr,
-            p_paddr: post_inc(p_vaddr, sh_size),
-            p_filesz: sh_size_on_disk,
-            p_memsz: sh_size,
+            p_paddr: post_inc(p_vaddr, extra_data),
+            // grows with every section that is added to the segment
+            p_filesz: extra_data,
+            p_memsz: extra_data,
         })
     } else {
         None
@@ -1232,7 +1229,10 @@ fn section_cmp(s1: &SectionPtr, s2: &SectionPtr) -> Ordering {
     let s1 = s1.read();
     let s2 = s2.read();
     match s1.sh_flags.cmp(&s2.sh_flags) {
-        Ordering::Equal => s1.sh_addralign.cmp(&s2.sh_addralign).reverse(),
+        // sections which take no space in the file come last in their segment
+        Ordering::Equal => (s1.sh_type == SHT_NOBITS)
+            .cmp(&(s2.sh_type == SHT_NOBITS))
+            .then(s1.sh_addralign.cmp(&s2.sh_addralign).reverse()),
         // no flags should come last
         o => {
             if s1.sh_flags == 0 {
-- 
2.43.0


From 993ca861a4f57c3eda7ac0756d768be6c019f796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:39:59 +0000
Subject: [PATCH 03/47] fix: keep local symbols of different objects apart

---
 src/elf.rs              |  4 +++-
 src/elf/symbol_table.rs | 34 ++++++++++++++++++++--------------
 src/lib.rs              | 38 +++++++-------------------------------
 3 files changed, 30 insertions(+), 46 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 7ef4010..b149710 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -936,7 +936,9 @@ impl<'d> Writer<'d> {
             self.sym_str_section.read().inner::<StringTable>().unwrap().get("_start")
         {
             let symbols = as_sym_tab(&self.sym_section);
-            self.eh.e_entry = symbols[SymbolRef::Named(entry.offset as u32)].st_value;
+            if let Some(start) = symbols.get(SymbolRef::Named(entry.offset as u32)) {
+                self.eh.e_entry = start.st_value;
+            }
         }
         self.eh.e_shnum = self.sections.len() as u16;
         self.eh.e_phnum = self.program_headers.len() as u16;
diff --git a/src/elf/symbol_table.rs b/src/elf/symbol_table.rs
index 9cee311..6e6f469 100644
--- a/src/elf/symbol_table.rs
+++ b/src/elf/symbol_table.rs
@@ -22,6 +22,8 @@ use super::section::{Synthesized, SynthesizedKind};
 #[derive(Debug, Clone, Copy, Hash, PartialEq, Eq)]
 pub enum SymbolRef {
     Named(u32),
+    // a local symbol, these may share their name with other symbols
+    Local(usize),
     // section + number
     Section(u16, usize),
 }
@@ -46,8 +48,8 @@ pub enum Error {
 #[derive(Debug)]
 pub struct SymbolTable<'p> {
     symbols: HashMap<u32, Symbol<'p>>,
+    locals: Vec<Symbol<'p>>,
     section_syms: HashMap<u16, Vec<Symbol<'p>>>,
-    num_locals: usize,
     is_dynamic: bool,
 }
 
@@ -55,8 +57,8 @@ impl Default for SymbolTable<'_> {
     fn default() -> Self {
         let mut table = Self {
             symbols: Default::default(),
+            locals: vec![],
             section_syms: Default::default(),
-            num_locals: 0,
             is_dynamic: false,
         };
         table
@@ -96,6 +98,10 @@ impl<'p> SymbolTable<'p> {
                 - 1;
             return Ok(SymbolRef::Section(elf_sym.st_shndx, len));
         }
+        if new_sym.is_local() {
+            self.locals.push(new_sym);
+            return Ok(SymbolRef::Local(self.locals.len() - 1));
+        }
         match self.symbols.entry(st_name) {
             Entry::Occupied(mut s) => {
                 let old_sym = s.get_mut();
@@ -123,9 +129,6 @@ impl<'p> SymbolTable<'p> {
                 }
             }
             Entry::Vacant(v) => {
-                if new_sym.is_local() {
-                    self.num_locals += 1;
-                }
                 v.insert(new_sym);
             }
         };
@@ -135,6 +138,7 @@ impl<'p> SymbolTable<'p> {
     pub fn get(&self, s: SymbolRef) -> Option<&Symbol<'_>> {
         match s {
             SymbolRef::Named(n) => self.symbols.get(&n),
+            SymbolRef::Local(i) => self.locals.get(i),
             SymbolRef::Section(s, i) => self.section_syms.get(&s).map(|s| &s[i]),
         }
     }
@@ -142,18 +146,20 @@ impl<'p> SymbolTable<'p> {
     pub fn get_mut(&mut self, s: SymbolRef) -> Option<&mut Symbol<'p>> {
         match s {
             SymbolRef::Named(n) => self.symbols.get_mut(&n),
+            SymbolRef::Local(i) => self.locals.get_mut(i),
             SymbolRef::Section(s, i) => self.section_syms.get_mut(&s).map(|s| &mut s[i]),
         }
     }
 
     pub fn sorted(&self) -> Vec<&Symbol<'p>> {
-        let mut syms: Vec<&Symbol<'p>> = self.symbols.values().collect();
+        let mut syms: Vec<&Symbol<'p>> = self.locals.iter().chain(self.symbols.values()).collect();
         syms.sort_by(|s1, s2| sort_symbols_func(s1, s2));
         syms
     }
 
     pub fn sorted_mut(&mut self) -> Vec<&mut Symbol<'p>> {
-        let mut syms: Vec<&mut Symbol<'p>> = self.symbols.values_mut().collect();
+        let mut syms: Vec<&mut Symbol<'p>> =
+            self.locals.iter_mut().chain(self.symbols.values_mut()).collect();
         syms.sort_by(|s1, s2| sort_symbols_func(s1, s2));
         syms
     }
@@ -161,13 +167,11 @@ impl<'p> SymbolTable<'p> {
     /// Useful for those cases where we need quick access to a symbol with a given
     /// st_name, and we want to know its index in the final symbol table.
     pub fn sorted_with_indexes(&mut self) -> HashMap<u32, (usize, &mut Symbol<'p>)> {
-        let mut syms: Vec<&mut Symbol<'p>> = self.symbols.values_mut().collect();
-        syms.sort_by(|s1, s2| sort_symbols_func(s1, s2));
-        syms.into_iter().enumerate().map(|(i, s)| (s.st_name, (i, s))).collect()
+        self.sorted_mut().into_iter().enumerate().map(|(i, s)| (s.st_name, (i, s))).collect()
     }
 
     pub fn total_len(&self) -> usize {
-        self.symbols.len() * size_of::<Sym>()
+        (self.locals.len() + self.symbols.len()) * size_of::<Sym>()
     }
 
     pub fn chunk(&self) -> Chunk {
@@ -179,7 +183,7 @@ impl<'p> SymbolTable<'p> {
     }
 
     pub fn num_locals(&self) -> usize {
-        self.num_locals
+        self.locals.len()
     }
 
     pub fn named(&self) -> &HashMap<u32, Symbol<'_>> {
@@ -257,17 +261,19 @@ impl<'s> Index<SymbolRef> for SymbolTable<'s> {
     fn index(&self, index: SymbolRef) -> &Self::Output {
         match index {
             SymbolRef::Named(n) => &self.symbols[&n],
+            SymbolRef::Local(i) => &self.locals[i],
             SymbolRef::Section(s, i) => &self.section_syms[&s][i],
         }
     }
 }
 
-// local before global, then compare by gnu hash
+// local before global, then compare by gnu hash (locals are kept in order)
 fn sort_symbols_func(s1: &Symbol, s2: &Symbol) -> Ordering {
     let b1 = if s1.is_local() { 0 } else { 1 };
     let b2 = if s2.is_local() { 0 } else { 1 };
     match b1.cmp(&b2) {
-        Ordering::Equal => s1.gnu_hash().cmp(&s2.gnu_hash()),
+        Ordering::Equal if s1.is_local() => Ordering::Equal,
+        Ordering::Equal => s1.gnu_hash().cmp(&s2.gnu_hash()).then(s1.st_name.cmp(&s2.st_name)),
         c => c,
     }
 }
diff --git a/src/lib.rs b/src/lib.rs
index 7dbd032..836793e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -8,7 +8,7 @@ mod utils;
 use error::{Error, ErrorExt, ErrorType};
 use goblin::{
     archive::Archive,
-    elf::{sym::Sym, Elf},
+    elf::Elf,
     elf64::{
         reloc::Rela,
         section_header::{
@@ -19,37 +19,12 @@ use goblin::{
 use std::{
     collections::{HashMap, HashSet},
     fs::read,
-    hash::{Hash, Hasher},
     path::{Path, PathBuf},
 };
 
 const SKIPPED_SECTIONS: &[u32] =
     &[SHT_SYMTAB, SHT_DYNSYM, SHT_STRTAB, SHT_RELA, SHT_DYNAMIC, SHT_REL, SHT_SHLIB];
 
-struct Symbol(Sym);
-
-impl PartialEq for Symbol {
-    fn eq(&self, s2: &Self) -> bool {
-        self.0.st_name == s2.0.st_name
-            && self.0.st_info == s2.0.st_info
-            && self.0.st_other == s2.0.st_other
-            && self.0.st_shndx == s2.0.st_shndx
-            && self.0.st_size == s2.0.st_size
-    }
-}
-
-impl Eq for Symbol {}
-
-impl Hash for Symbol {
-    fn hash<H: Hasher>(&self, state: &mut H) {
-        self.0.st_name.hash(state);
-        self.0.st_info.hash(state);
-        self.0.st_other.hash(state);
-        self.0.st_shndx.hash(state);
-        self.0.st_size.hash(state);
-    }
-}
-
 pub struct Input<'p, 'd> {
     path: &'p Path,
     data: &'d [u8],
@@ -59,7 +34,8 @@ pub struct ElfObject<'i, 'p, 'd, 'e> {
     input: &'i Input<'p, 'd>,
     elf: Elf<'e>,
     section_relocations: HashMap<usize, elf::SectionRef<'p>>,
-    symbols: HashMap<Symbol, elf::SymbolRef>,
+    // index in the symbol table of the object -> symbol
+    symbols: HashMap<usize, elf::SymbolRef>,
 }
 
 impl<'p, 'd> Input<'p, 'd> {
@@ -104,14 +80,15 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
     pub fn process_symbols(&mut self, writer: &mut elf::Writer<'p>) -> Result<(), Error<'p>> {
         let path = &self.input.path;
         let elf = &self.elf;
-        for symbol in &elf.syms {
+        // the first symbol is always the null symbol
+        for (i, symbol) in elf.syms.iter().enumerate().skip(1) {
             let name = get_symbol_name(elf, symbol.st_name).map_path_err(path)?;
             let sec_ref = self.section_relocations.get(&(symbol.st_shndx as usize));
             let symbol_ref = writer
                 .add_symbol(symbol.into(), sec_ref.cloned(), name, path)
                 .map_path_err(path)?;
             if let Some(sym) = symbol_ref {
-                self.symbols.insert(Symbol(symbol), sym);
+                self.symbols.insert(i, sym);
             }
         }
         Ok(())
@@ -121,13 +98,12 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
         let elf = &self.elf;
         for (section_index, rels) in &elf.shdr_relocs {
             for rel in rels.iter().filter(|r| r.r_sym != 0) {
-                let symbol = &elf.syms.get(rel.r_sym as usize).unwrap();
                 let index = if let Some(sec) = self.section_relocations.get(&(section_index - 1)) {
                     sec.clone()
                 } else {
                     continue;
                 };
-                let symbol = if let Some(sym) = self.symbols.get(&Symbol(*symbol)) {
+                let symbol = if let Some(sym) = self.symbols.get(&rel.r_sym) {
                     sym
                 } else {
                     continue;
-- 
2.43.0


From e5ea0a3895a196ebe4d1fc1fe261476da65def20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:41:00 +0000
Subject: [PATCH 04/47] fix: let strong definitions win over weak ones and
 definitions over references

---
 src/elf.rs              | 39 ++++++++++++++++++------------------
 src/elf/chunk.rs        |  4 ++++
 src/elf/symbol_table.rs | 44 +++++++++++++++++++++++++++++------------
 src/lib.rs              |  4 +---
 4 files changed, 56 insertions(+), 35 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index b149710..26dac94 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -44,7 +44,7 @@ mod string_table;
 pub use string_table::StringTable;
 
 mod symbol_table;
-pub use symbol_table::{GnuHashTable, HashTable, SymbolRef, SymbolTable};
+pub use symbol_table::{GnuHashTable, HashTable, Resolution, SymbolRef, SymbolTable};
 
 use self::chunk::Chunk;
 
@@ -435,27 +435,20 @@ impl<'d> Writer<'d> {
 
     fn add_symbol_inner<'s>(
         mut elf_sym: Sym,
-        section: Option<SectionRef>,
         name: &'s str,
         reference: &'d Path,
         symbol_names: &mut StringTable,
         symbols: &mut SymbolTable<'d>,
-    ) -> Result<SymbolRef, ErrorType> {
+    ) -> Result<(SymbolRef, Resolution), ErrorType> {
         let name: Name = name.to_string().into();
         let hash = name.elf_hash();
         let gnu_hash = name.elf_gnu_hash();
         let st_name = symbol_names.get_or_create(name.clone()).offset as u32;
         elf_sym.st_name = st_name;
         log::trace!("name: '{}' -> sym: {:?}", &name as &str, elf_sym);
-        let r = symbols
+        symbols
             .add_symbol(elf_sym, hash, gnu_hash, reference)
-            .map_err(|e| ErrorType::Other(format!("{} {}", &name as &str, e)))?;
-        if let Some(section_ref) = section {
-            if elf_sym.st_shndx != SHN_ABS as u16 {
-                section_ref.section.write().chunk_mut(section_ref.chunk).add_symbol(r);
-            }
-        }
-        Ok(r)
+            .map_err(|e| ErrorType::Other(format!("{} {}", &name as &str, e)))
     }
 
     pub fn add_symbol<'s>(
@@ -465,21 +458,30 @@ impl<'d> Writer<'d> {
         name: &'s str,
         reference: &'d Path,
     ) -> Result<Option<SymbolRef>, ErrorType> {
-        Self::add_symbol_inner(
+        let (r, resolution) = Self::add_symbol_inner(
             elf_sym,
-            sec_ref,
             name,
             reference,
             self.sym_str_section.write().inner_mut::<StringTable>().unwrap(),
             self.sym_section.write().inner_mut::<SymbolTable<'d>>().unwrap(),
-        )
-        .map(Some)
+        )?;
+        if resolution == Resolution::Replaced {
+            // the previous definition does not count anymore
+            for section in &self.sections {
+                section.write().chunks_mut().iter_mut().for_each(|c| c.remove_symbol(r));
+            }
+        }
+        if let Some(section_ref) = sec_ref {
+            if resolution != Resolution::Kept && elf_sym.st_shndx != SHN_ABS as u16 {
+                section_ref.section.write().chunk_mut(section_ref.chunk).add_symbol(r);
+            }
+        }
+        Ok(Some(r))
     }
 
     pub fn add_dyn_symbol<'s>(
         &mut self,
         mut elf_sym: Sym,
-        sec_ref: Option<SectionRef>,
         name: &'s str,
         reference: &'d Path,
     ) -> Result<Option<SymbolRef>, ErrorType> {
@@ -487,13 +489,12 @@ impl<'d> Writer<'d> {
         elf_sym.st_value = 0;
         let r = Self::add_symbol_inner(
             elf_sym,
-            sec_ref,
             name,
             reference,
             self.dyn_sym_str_section.write().inner_mut::<StringTable>().unwrap(),
             self.dyn_sym_section.write().inner_mut::<SymbolTable<'d>>().unwrap(),
         );
-        if let Ok(dyn_ref) = r {
+        if let Ok((dyn_ref, _)) = r {
             if let Some(entry) =
                 self.sym_str_section.read().inner::<StringTable>().unwrap().get(name.to_string())
             {
@@ -506,7 +507,7 @@ impl<'d> Writer<'d> {
                     .set_dynamic(dyn_ref);
             }
         }
-        r.map(Some)
+        r.map(|(r, _)| Some(r))
     }
 
     pub fn symbol_name(&self, sym: SymbolRef) -> Option<MapRGuard<str>> {
diff --git a/src/elf/chunk.rs b/src/elf/chunk.rs
index d79ba2b..9e0fce5 100644
--- a/src/elf/chunk.rs
+++ b/src/elf/chunk.rs
@@ -35,6 +35,10 @@ impl Chunk {
         self.symbols.insert(sym_ref);
     }
 
+    pub fn remove_symbol(&mut self, sym_ref: SymbolRef) {
+        self.symbols.remove(&sym_ref);
+    }
+
     pub fn add_relocation(&mut self, reloc: Rela, sym_ref: SymbolRef) {
         self.relocations.push((reloc, sym_ref));
     }
diff --git a/src/elf/symbol_table.rs b/src/elf/symbol_table.rs
index 6e6f469..2f45a91 100644
--- a/src/elf/symbol_table.rs
+++ b/src/elf/symbol_table.rs
@@ -45,6 +45,17 @@ pub enum Error {
     AlreadyDefined(PathBuf),
 }
 
+/// What happened to a symbol that was added to a symbol table.
+#[derive(Debug, Clone, Copy, PartialEq, Eq)]
+pub enum Resolution {
+    /// It was added, or it is the first definition of a symbol.
+    New,
+    /// It replaced the previous definition of the symbol.
+    Replaced,
+    /// The symbol that was already in the table is still the one to use.
+    Kept,
+}
+
 #[derive(Debug)]
 pub struct SymbolTable<'p> {
     symbols: HashMap<u32, Symbol<'p>>,
@@ -84,7 +95,7 @@ impl<'p> SymbolTable<'p> {
         hash: u32,
         gnu_hash: u32,
         reference: &'p Path,
-    ) -> Result<SymbolRef, Error> {
+    ) -> Result<(SymbolRef, Resolution), Error> {
         let st_name = elf_sym.st_name;
         let st_type = st_type(elf_sym.st_info);
         let new_sym = Symbol::new(elf_sym, hash, gnu_hash, reference);
@@ -96,13 +107,13 @@ impl<'p> SymbolTable<'p> {
                 .or_insert_with(|| vec![new_sym])
                 .len()
                 - 1;
-            return Ok(SymbolRef::Section(elf_sym.st_shndx, len));
+            return Ok((SymbolRef::Section(elf_sym.st_shndx, len), Resolution::New));
         }
         if new_sym.is_local() {
             self.locals.push(new_sym);
-            return Ok(SymbolRef::Local(self.locals.len() - 1));
+            return Ok((SymbolRef::Local(self.locals.len() - 1), Resolution::New));
         }
-        match self.symbols.entry(st_name) {
+        let resolution = match self.symbols.entry(st_name) {
             Entry::Occupied(mut s) => {
                 let old_sym = s.get_mut();
                 // we found another definition of this global symbol
@@ -118,21 +129,28 @@ impl<'p> SymbolTable<'p> {
                     );
                     return Err(Error::AlreadyDefined(old_sym.reference().into()));
                 }
-                if !old_sym.higher_bind_than(new_sym) {
-                    old_sym.st_info = new_sym.st_info;
-                    old_sym.st_other = new_sym.st_other;
-                    old_sym.st_shndx = new_sym.st_shndx;
-                    old_sym.st_value = new_sym.st_value;
-                    old_sym.st_size = new_sym.st_size;
-                } else if old_sym.st_shndx == SHN_UNDEF as u16 {
-                    old_sym.st_shndx = new_sym.st_shndx;
+                if new_sym.is_undefined() {
+                    // one strong reference is enough to require a definition
+                    if old_sym.is_undefined() && !old_sym.higher_bind_than(new_sym) {
+                        old_sym.st_info = new_sym.st_info;
+                    }
+                    Resolution::Kept
+                } else if old_sym.is_undefined() {
+                    *old_sym = new_sym;
+                    Resolution::New
+                } else if !old_sym.higher_bind_than(new_sym) {
+                    *old_sym = new_sym;
+                    Resolution::Replaced
+                } else {
+                    Resolution::Kept
                 }
             }
             Entry::Vacant(v) => {
                 v.insert(new_sym);
+                Resolution::New
             }
         };
-        Ok(SymbolRef::Named(st_name))
+        Ok((SymbolRef::Named(st_name), resolution))
     }
 
     pub fn get(&self, s: SymbolRef) -> Option<&Symbol<'_>> {
diff --git a/src/lib.rs b/src/lib.rs
index 836793e..23f3990 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -148,9 +148,7 @@ impl Linker {
                     let inner_name = get_dyn_symbol_name(&elf, sym.st_name).map_path_err(path)?;
                     if name == inner_name {
                         *entry.1 = true;
-                        writer
-                            .add_dyn_symbol(sym.into(), None, inner_name, path)
-                            .map_path_err(path)?;
+                        writer.add_dyn_symbol(sym.into(), inner_name, path).map_path_err(path)?;
                         writer.add_needed(path.file_name().unwrap().to_str().unwrap());
                     }
                 }
-- 
2.43.0


From 0b74a4afe1f61c88990d2d8b3d0f507682a6407b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:41:01 +0000
Subject: [PATCH 05/47] fix: branch target of relaxed call and jmp instructions

---
 src/elf/chunk.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/elf/chunk.rs b/src/elf/chunk.rs
index 9e0fce5..452bca3 100644
--- a/src/elf/chunk.rs
+++ b/src/elf/chunk.rs
@@ -151,7 +151,8 @@ fn apply_relocation(
             // -2 because the offset points to where we need to patch, but we want to
             // match the other two bytes to tell which instruction we're patching
             let buf = &mut data[offset - 2..];
-            let value: i32 = (s + a - p).try_into().unwrap();
+            // the operand of the new instruction is one byte closer to its start
+            let value: i32 = (s + a - p + 1).try_into().unwrap();
             match buf[..2] {
                 // call *foo@GOTPCREL(%rip) -> call foo nop
                 [0xff, 0x15] => {
-- 
2.43.0


From a45b7b6b85236f688a4f02541675bf442e8fd6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:41:02 +0000
Subject: [PATCH 06/47] fix: range of R_X86_64_32 and R_X86_64_32S

---
 src/elf/chunk.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/elf/chunk.rs b/src/elf/chunk.rs
index 452bca3..ab6a86d 100644
--- a/src/elf/chunk.rs
+++ b/src/elf/chunk.rs
@@ -132,11 +132,10 @@ fn apply_relocation(
         R_X86_64_NONE => {}
         R_X86_64_64 => (&mut data[offset..]).write_i64::<LittleEndian>(s + a).unwrap(),
         R_X86_64_32 => {
-            (&mut data[offset..]).write_i32::<LittleEndian>((s + a).try_into().unwrap()).unwrap();
+            (&mut data[offset..]).write_u32::<LittleEndian>((s + a).try_into().unwrap()).unwrap();
         }
         R_X86_64_32S => {
-            // TODO warn about truncation
-            (&mut data[offset..]).write_i32::<LittleEndian>((s + a) as i32).unwrap()
+            (&mut data[offset..]).write_i32::<LittleEndian>((s + a).try_into().unwrap()).unwrap();
         }
         R_X86_64_PC32 => (&mut data[offset..])
             .write_i32::<LittleEndian>((s + a - p).try_into().unwrap())
-- 
2.43.0


From 1e7f3f6db143ac9e6ae68ea22d314f4a8f59e07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:41:03 +0000
Subject: [PATCH 07/47] fix: apply relocations to the section named by sh_info

---
 src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 23f3990..48adb5f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -97,8 +97,10 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
     pub fn process_relocations(&self, writer: &mut elf::Writer<'p>) -> Result<(), Error<'p>> {
         let elf = &self.elf;
         for (section_index, rels) in &elf.shdr_relocs {
+            // the section which the relocations apply to
+            let target = elf.section_headers[*section_index].sh_info as usize;
             for rel in rels.iter().filter(|r| r.r_sym != 0) {
-                let index = if let Some(sec) = self.section_relocations.get(&(section_index - 1)) {
+                let index = if let Some(sec) = self.section_relocations.get(&target) {
                     sec.clone()
                 } else {
                     continue;
-- 
2.43.0


From f2bc27e286cff5ed7f9f3095c6ccce0224967494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:41:05 +0000
Subject: [PATCH 08/47] fix: relocate sections which are not loaded

---
 src/elf.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/elf.rs b/src/elf.rs
index 26dac94..b436962 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -1069,6 +1069,8 @@ impl<'d> Writer<'d> {
                 let sh_addr = post_inc(&mut self.p_vaddr, sh.sh_size);
                 sh.set_address(sh_addr);
             } else {
+                // addresses in sections which aren't loaded are relative to their start
+                sh.set_address(0);
                 self.file_offset = round_to(self.file_offset, sh.sh_addralign);
             }
             sh.sh_offset = post_inc(&mut self.file_offset, sh.size_on_disk());
-- 
2.43.0


From 312ea070208fa1b3c1d8dbbfffeb3aa352ccac97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:41:32 +0000
Subject: [PATCH 09/47] fix: apply relocations which have no symbol

---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 48adb5f..4dd3a10 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -81,6 +81,7 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
         let path = &self.input.path;
         let elf = &self.elf;
         // the first symbol is always the null symbol
+        self.symbols.insert(0, elf::SymbolRef::Local(0));
         for (i, symbol) in elf.syms.iter().enumerate().skip(1) {
             let name = get_symbol_name(elf, symbol.st_name).map_path_err(path)?;
             let sec_ref = self.section_relocations.get(&(symbol.st_shndx as usize));
@@ -99,7 +100,7 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
         for (section_index, rels) in &elf.shdr_relocs {
             // the section which the relocations apply to
             let target = elf.section_headers[*section_index].sh_info as usize;
-            for rel in rels.iter().filter(|r| r.r_sym != 0) {
+            for rel in rels.iter() {
                 let index = if let Some(sec) = self.section_relocations.get(&target) {
                     sec.clone()
                 } else {
-- 
2.43.0


From 5a768ab45cba1cb1f99d4f11b6fa1f7ef6cf6785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:41:33 +0000
Subject: [PATCH 10/47] fix: keep the symbols of a .gnu.hash bucket together

---
 src/elf/symbol_table.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/elf/symbol_table.rs b/src/elf/symbol_table.rs
index 2f45a91..025d249 100644
--- a/src/elf/symbol_table.rs
+++ b/src/elf/symbol_table.rs
@@ -171,14 +171,16 @@ impl<'p> SymbolTable<'p> {
 
     pub fn sorted(&self) -> Vec<&Symbol<'p>> {
         let mut syms: Vec<&Symbol<'p>> = self.locals.iter().chain(self.symbols.values()).collect();
-        syms.sort_by(|s1, s2| sort_symbols_func(s1, s2));
+        let nbuckets = gnu_hash_buckets(syms.len());
+        syms.sort_by(|s1, s2| sort_symbols_func(s1, s2, nbuckets));
         syms
     }
 
     pub fn sorted_mut(&mut self) -> Vec<&mut Symbol<'p>> {
         let mut syms: Vec<&mut Symbol<'p>> =
             self.locals.iter_mut().chain(self.symbols.values_mut()).collect();
-        syms.sort_by(|s1, s2| sort_symbols_func(s1, s2));
+        let nbuckets = gnu_hash_buckets(syms.len());
+        syms.sort_by(|s1, s2| sort_symbols_func(s1, s2, nbuckets));
         syms
     }
 
@@ -285,13 +287,22 @@ impl<'s> Index<SymbolRef> for SymbolTable<'s> {
     }
 }
 
-// local before global, then compare by gnu hash (locals are kept in order)
-fn sort_symbols_func(s1: &Symbol, s2: &Symbol) -> Ordering {
+/// How many buckets the gnu hash table of a symbol table of the given size has.
+fn gnu_hash_buckets(symbols: usize) -> u32 {
+    symbols as u32 / 8 + 1
+}
+
+// local before global (locals are kept in order), then by bucket of the gnu hash table, since all
+// the symbols of a bucket have to be next to each other, then compare by gnu hash
+fn sort_symbols_func(s1: &Symbol, s2: &Symbol, nbuckets: u32) -> Ordering {
     let b1 = if s1.is_local() { 0 } else { 1 };
     let b2 = if s2.is_local() { 0 } else { 1 };
     match b1.cmp(&b2) {
         Ordering::Equal if s1.is_local() => Ordering::Equal,
-        Ordering::Equal => s1.gnu_hash().cmp(&s2.gnu_hash()).then(s1.st_name.cmp(&s2.st_name)),
+        Ordering::Equal => (s1.gnu_hash() % nbuckets)
+            .cmp(&(s2.gnu_hash() % nbuckets))
+            .then(s1.gnu_hash().cmp(&s2.gnu_hash()))
+            .then(s1.st_name.cmp(&s2.st_name)),
         c => c,
     }
 }
@@ -398,7 +409,7 @@ impl GnuHashTable {
         let bits = (symbols.len() as u32 - 1) * 12;
         let bloom_size = (bits / elfclass_bits).next_power_of_two();
         let bloom_shift = 26;
-        let nbuckets: u32 = symbols.len() as u32 / 8 + 1;
+        let nbuckets = gnu_hash_buckets(symbols.len());
         // we always skip the first null symbol. For now, since we don't have
         // any locals in `.dynsym`, we can set this to 1, since we skip 1 symbol only.
         let symbol_offset = 1;
-- 
2.43.0


From 67b8cdeaa7f96754fc19424b083971fc63ab6e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:41:35 +0000
Subject: [PATCH 11/47] fix: end of .init_array and .fini_array with several
 inputs

---
 src/elf.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index b436962..702f798 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -693,9 +693,11 @@ impl<'d> Writer<'d> {
                 if let Some(s) = symbol_names.get("__init_array_end") {
                     let sym_ref = SymbolRef::Named(s.offset as u32);
                     let mut symbols = as_mut_sym_tab(&self.sym_section);
-                    symbols.get_mut(sym_ref).unwrap().st_value = section.size_on_disk();
-                    let chunk_index = section.last_chunk_index();
-                    section.chunk_mut(chunk_index).add_symbol(sym_ref);
+                    // the end is relative to the start of the section
+                    if let Some(end) = symbols.get_mut(sym_ref) {
+                        end.st_value = section.size_on_disk();
+                    }
+                    section.chunk_mut(0).add_symbol(sym_ref);
                 }
             } else if is_some_with(section_names.sh_name(".fini_array"), &section.sh_name) {
                 if let Some(s) = symbol_names.get("__fini_array_start") {
@@ -704,9 +706,11 @@ impl<'d> Writer<'d> {
                 if let Some(s) = symbol_names.get("__fini_array_end") {
                     let sym_ref = SymbolRef::Named(s.offset as u32);
                     let mut symbols = as_mut_sym_tab(&self.sym_section);
-                    symbols.get_mut(sym_ref).unwrap().st_value = section.size_on_disk();
-                    let chunk_index = section.last_chunk_index();
-                    section.chunk_mut(chunk_index).add_symbol(sym_ref);
+                    // the end is relative to the start of the section
+                    if let Some(end) = symbols.get_mut(sym_ref) {
+                        end.st_value = section.size_on_disk();
+                    }
+                    section.chunk_mut(0).add_symbol(sym_ref);
                 }
             }
         }
-- 
2.43.0


From d1535944f0b06b462b24a59f82866b59197e01e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:42:19 +0000
Subject: [PATCH 12/47] fix: address of functions which live in a shared
 library

---
 src/elf.rs    | 27 ++++++++++++++++++++++++---
 src/symbol.rs | 11 +++++++++++
 2 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 702f798..617967f 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -715,6 +715,16 @@ impl<'d> Writer<'d> {
             }
         }
 
+        // functions whose address is needed have the same address everywhere: their PLT entry
+        let plt_address = self.plt_address();
+        for sym in as_sym_tab(&self.sym_section).named().values() {
+            if let (true, Some(dyn_ref)) = (sym.address_in_plt(), sym.dynamic()) {
+                let addr = plt_entry_addr(plt_address, sym.plt_index().unwrap());
+                let mut dyn_symbols = as_mut_sym_tab(&self.dyn_sym_section);
+                dyn_symbols.get_mut(dyn_ref).unwrap().st_value = addr as u64;
+            }
+        }
+
         // handle dynamic object symbols
         let copy_rel = self.copy_rel_section.read();
         as_mut_sym_tab(&self.dyn_sym_section)
@@ -770,6 +780,7 @@ impl<'d> Writer<'d> {
         for section in &mut self.sections {
             for chunk in section.write().chunks_mut() {
                 let mut symbols = as_mut_sym_tab(&self.sym_section);
+                let dyn_symbols = as_sym_tab(&self.dyn_sym_section);
                 for (reloc, sym_ref) in chunk.relocations_mut() {
                     let r_type = reloc.r_info as u32;
                     match r_type as u32 {
@@ -789,9 +800,19 @@ impl<'d> Writer<'d> {
                                     if sym.is_tls() && r_type == R_X86_64_TLSGD { 2 } else { 1 };
                             }
                         }
-                        R_X86_64_PLT32 => {
+                        R_X86_64_PLT32 | R_X86_64_64 | R_X86_64_32 | R_X86_64_32S
+                        | R_X86_64_PC32 => {
                             let sym = symbols.get_mut(*sym_ref).unwrap();
-                            if sym.dynamic().is_some() {
+                            let is_plt32 = r_type == R_X86_64_PLT32;
+                            // the PLT entry of a dynamic function is also its address, objects
+                            // have a COPY relocation instead
+                            let needs_plt = sym
+                                .dynamic()
+                                .map_or(false, |d| is_plt32 || !dyn_symbols[d].is_object());
+                            if needs_plt {
+                                if !is_plt32 {
+                                    sym.set_address_in_plt();
+                                }
                                 let len = self.got_plt.len() + 3;
                                 let offset =
                                     *self.got_plt.entry(*sym_ref).or_insert(len * size_of::<u64>());
@@ -803,7 +824,7 @@ impl<'d> Writer<'d> {
                                     .unwrap()
                                     .insert(*sym_ref);
                                 sym.set_plt_index(index);
-                            } else {
+                            } else if is_plt32 {
                                 // replace PLT32 with PC32 since the symbol is local to us
                                 reloc.r_info -= r_type as u64;
                                 reloc.r_info += R_X86_64_PC32 as u64;
diff --git a/src/symbol.rs b/src/symbol.rs
index fcabbf6..1046a43 100644
--- a/src/symbol.rs
+++ b/src/symbol.rs
@@ -18,6 +18,7 @@ pub struct Symbol<'r> {
     reference: &'r Path,
     in_got: Option<usize>,
     in_plt: Option<usize>,
+    address_in_plt: bool,
     in_got_plt: Option<usize>,
     relocation_offset: Option<usize>,
     dynamic: Option<SymbolRef>,
@@ -32,6 +33,7 @@ impl<'r> Symbol<'r> {
             gnu_hash,
             in_got: None,
             in_plt: None,
+            address_in_plt: false,
             in_got_plt: None,
             relocation_offset: None,
             dynamic: None,
@@ -94,6 +96,15 @@ impl<'r> Symbol<'r> {
         self.in_got_plt = Some(offset);
     }
 
+    /// Whether the PLT entry of the symbol is used as its address.
+    pub const fn address_in_plt(&self) -> bool {
+        self.address_in_plt
+    }
+
+    pub fn set_address_in_plt(&mut self) {
+        self.address_in_plt = true;
+    }
+
     pub fn set_plt_index(&mut self, index: usize) {
         self.in_plt = Some(index);
     }
-- 
2.43.0


From 54b8dc6f912868ad2a6c98f622dd6325b29a4889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:42:56 +0000
Subject: [PATCH 13/47] fix: align the slots of COPY relocations and leave
 other objects alone

---
 src/elf.rs              |  8 +++++---
 src/elf/copy_rel.rs     | 14 +++++++++++---
 src/elf/symbol_table.rs | 23 +++++++++++------------
 3 files changed, 27 insertions(+), 18 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 617967f..ce799f2 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -727,8 +727,11 @@ impl<'d> Writer<'d> {
 
         // handle dynamic object symbols
         let copy_rel = self.copy_rel_section.read();
-        as_mut_sym_tab(&self.dyn_sym_section)
-            .update_object_symbols(copy_rel.sh_addr, copy_rel.index());
+        as_mut_sym_tab(&self.dyn_sym_section).update_object_symbols(
+            copy_rel.sh_addr,
+            copy_rel.index(),
+            copy_rel.inner::<CopyRel>().unwrap(),
+        );
     }
 
     fn compute_tables(&mut self) {
@@ -889,7 +892,6 @@ impl<'d> Writer<'d> {
                         .unwrap()
                         .insert(dyn_sym, size);
                     self.dyn_rels.push(rela(offset as usize, index, R_X86_64_COPY));
-                    dyn_symbol.st_value = offset;
                 }
                 if let Some(offset) = sym.got_plt_offset() {
                     sym.set_relocation_offset(self.plt_rels.len());
diff --git a/src/elf/copy_rel.rs b/src/elf/copy_rel.rs
index 273839d..8abecb8 100644
--- a/src/elf/copy_rel.rs
+++ b/src/elf/copy_rel.rs
@@ -3,10 +3,13 @@ use std::collections::HashMap;
 use goblin::elf64::section_header::{SectionHeader, SHF_ALLOC, SHF_WRITE, SHT_NOBITS};
 
 use super::{
+    round_to,
     section::{Synthesized, SynthesizedKind},
     Section, SymbolRef,
 };
 
+const COPY_REL_ALIGNMENT: u64 = 64;
+
 #[derive(Default)]
 pub struct CopyRel {
     // the total size of the section
@@ -17,11 +20,16 @@ pub struct CopyRel {
 
 impl CopyRel {
     pub fn insert(&mut self, sym: SymbolRef, size: u64) -> u64 {
-        let offset = self.size;
+        // every slot is aligned like the section, since we don't know what the object requires
+        let offset = round_to(self.size, COPY_REL_ALIGNMENT);
         self.slots.insert(sym, offset);
-        self.size += size;
+        self.size = offset + size;
         offset
     }
+
+    pub fn slots(&self) -> &HashMap<SymbolRef, u64> {
+        &self.slots
+    }
 }
 
 impl<'p> Synthesized<'p> for CopyRel {
@@ -29,7 +37,7 @@ impl<'p> Synthesized<'p> for CopyRel {
         *sh = SectionHeader {
             sh_type: SHT_NOBITS,
             sh_flags: (SHF_ALLOC | SHF_WRITE) as u64,
-            sh_addralign: 64,
+            sh_addralign: COPY_REL_ALIGNMENT,
             ..*sh
         }
     }
diff --git a/src/elf/symbol_table.rs b/src/elf/symbol_table.rs
index 025d249..430f215 100644
--- a/src/elf/symbol_table.rs
+++ b/src/elf/symbol_table.rs
@@ -16,7 +16,10 @@ use std::{
 };
 use thiserror::Error;
 
-use super::section::{Synthesized, SynthesizedKind};
+use super::{
+    section::{Synthesized, SynthesizedKind},
+    CopyRel,
+};
 
 /// A symbol can be fetched by indexing `symbols` in the following way: `symbols[st_name]`.
 #[derive(Debug, Clone, Copy, Hash, PartialEq, Eq)]
@@ -214,17 +217,13 @@ impl<'p> SymbolTable<'p> {
         &mut self.symbols
     }
 
-    /// Updates all objects symbols to point to `.copyrel`.
-    /// Note: This assumes that `st_value`s already have the correct offsets
-    /// into `.copyrel`.
-    pub fn update_object_symbols(&mut self, copy_rel_addr: u64, index: usize) {
-        for sym in
-            self.symbols
-                .iter_mut()
-                .filter_map(|(_, sym)| if sym.is_object() { Some(sym) } else { None })
-        {
-            sym.st_value += copy_rel_addr;
-            sym.st_shndx = index as u16;
+    /// Updates all objects symbols which have a slot in `.copyrel` to point to it.
+    pub fn update_object_symbols(&mut self, copy_rel_addr: u64, index: usize, copy_rel: &CopyRel) {
+        for (sym_ref, offset) in copy_rel.slots() {
+            if let Some(sym) = self.get_mut(*sym_ref) {
+                sym.st_value = copy_rel_addr + offset;
+                sym.st_shndx = index as u16;
+            }
         }
     }
 }
-- 
2.43.0


From c22618cd86909eafe7c2f5e25c6b978e66f46fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:43:21 +0000
Subject: [PATCH 14/47] fix: make the output independent of hash seeds and
 search libraries in the order given

---
 src/elf.rs  |  8 +++++++-
 src/lib.rs  | 37 ++++++++++++++++++++-----------------
 src/main.rs | 16 ++++++++++------
 3 files changed, 37 insertions(+), 24 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index ce799f2..c8969a0 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -520,6 +520,10 @@ impl<'d> Writer<'d> {
         }
     }
 
+    pub fn is_undefined(&self, sym: SymbolRef) -> bool {
+        as_sym_tab(&self.sym_section).get(sym).map_or(false, |s| s.is_undefined())
+    }
+
     pub fn undefined_symbols(&self) -> Vec<SymbolRef> {
         let mut undefined = vec![];
         let symbols = as_sym_tab(&self.sym_section);
@@ -531,6 +535,8 @@ impl<'d> Writer<'d> {
                 undefined.push(SymbolRef::Named(*st_name));
             }
         }
+        // in the order of their first appearance
+        undefined.sort_by_key(|s| s.st_name());
         undefined
     }
 
@@ -876,7 +882,7 @@ impl<'d> Writer<'d> {
             let section_names = as_str_tab(&self.shstr_section);
 
             for (sym, dyn_sym) in
-                symbols.named_mut().values_mut().filter_map(|s| s.dynamic().map(|d| (s, d)))
+                symbols.sorted_mut().into_iter().filter_map(|s| s.dynamic().map(|d| (s, d)))
             {
                 let index = dyn_sym_indices[&dyn_sym.st_name()];
                 if let Some(offset) = sym.got_offset() {
diff --git a/src/lib.rs b/src/lib.rs
index 4dd3a10..1838b1a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -17,7 +17,7 @@ use goblin::{
     },
 };
 use std::{
-    collections::{HashMap, HashSet},
+    collections::HashMap,
     fs::read,
     path::{Path, PathBuf},
 };
@@ -126,7 +126,7 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
 pub struct Linker {
     pub options: crate::elf::Options,
     pub objects: Vec<PathBuf>,
-    pub archives: HashSet<PathBuf>,
+    pub archives: Vec<PathBuf>,
 }
 
 impl Linker {
@@ -136,13 +136,13 @@ impl Linker {
         writer: &mut elf::Writer<'o>,
     ) -> Result<Vec<elf::SymbolRef>, Error<'o>> {
         let mut undefines =
-            symbols.iter().map(|s| (*s, false)).collect::<HashMap<elf::SymbolRef, bool>>();
+            symbols.iter().map(|s| (*s, false)).collect::<Vec<(elf::SymbolRef, bool)>>();
         for (lib, _) in &self.options.shared_libs {
             let path = lib.as_path();
             let data = read(path).map_path_err(path)?;
             let elf = Elf::parse(&data).unwrap();
-            for entry in undefines.iter_mut().filter(|(_, v)| !**v) {
-                let name = if let Some(name) = writer.symbol_name(*entry.0) {
+            for entry in undefines.iter_mut() {
+                let name = if let Some(name) = writer.symbol_name(entry.0) {
                     name.to_string()
                 } else {
                     continue;
@@ -150,13 +150,13 @@ impl Linker {
                 for sym in &elf.dynsyms {
                     let inner_name = get_dyn_symbol_name(&elf, sym.st_name).map_path_err(path)?;
                     if name == inner_name {
-                        *entry.1 = true;
+                        entry.1 = true;
                         writer.add_dyn_symbol(sym.into(), inner_name, path).map_path_err(path)?;
                         writer.add_needed(path.file_name().unwrap().to_str().unwrap());
                     }
                 }
             }
-            undefines.retain(|_, found| !*found);
+            undefines.retain(|(_, found)| !*found);
         }
         Ok(undefines.into_iter().map(|(k, _)| k).collect())
     }
@@ -167,24 +167,27 @@ impl Linker {
         writer: &mut elf::Writer<'o>,
     ) -> Result<Vec<elf::SymbolRef>, Error<'o>> {
         let mut undefines =
-            symbols.iter().map(|s| (*s, false)).collect::<HashMap<elf::SymbolRef, bool>>();
+            symbols.iter().map(|s| (*s, false)).collect::<Vec<(elf::SymbolRef, bool)>>();
         for ar in &self.archives {
             let path = ar.as_path();
             let data = read(path).map_path_err(path)?;
             let ar = Archive::parse(&data).map_path_err(path)?;
-            let mut members = HashSet::new();
             for entry in &mut undefines {
-                let name = if let Some(name) = writer.symbol_name(*entry.0) {
-                    name
+                let name = if let Some(name) = writer.symbol_name(entry.0) {
+                    name.to_string()
+                } else {
+                    continue;
+                };
+                let member = if let Some(member) = ar.member_of_symbol(&name) {
+                    member
                 } else {
                     continue;
                 };
-                if let Some(member) = ar.member_of_symbol(&*name) {
-                    *entry.1 = true;
-                    members.insert(member);
+                entry.1 = true;
+                // one of the previous members might have defined it too
+                if !writer.is_undefined(entry.0) {
+                    continue;
                 }
-            }
-            for member in members {
                 let object = ar.get(member).unwrap();
                 let object_data =
                     &data[(object.offset as usize)..(object.offset as usize + object.size())];
@@ -194,7 +197,7 @@ impl Linker {
                 elf.process_symbols(writer)?;
                 elf.process_relocations(writer)?;
             }
-            undefines.retain(|_, found| !*found);
+            undefines.retain(|(_, found)| !*found);
         }
         Ok(undefines.into_iter().map(|(k, _)| k).collect())
     }
diff --git a/src/main.rs b/src/main.rs
index 45d6b40..8875919 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,6 +1,6 @@
 use dld::elf::{BuildId, Emulation, HashStyle, Options};
 use goblin::elf32::header::ET_DYN;
-use std::{collections::HashSet, io::Read, path::PathBuf, str::FromStr};
+use std::{io::Read, path::PathBuf, str::FromStr};
 
 mod linker_script;
 
@@ -31,8 +31,8 @@ OPTIONS:
 struct AppArgs {
     opts: Options,
     objects: Vec<PathBuf>,
-    archives: HashSet<PathBuf>,
-    search_paths: HashSet<PathBuf>,
+    archives: Vec<PathBuf>,
+    search_paths: Vec<PathBuf>,
     scripts: Vec<PathBuf>,
     inputs: Vec<(PathBuf, bool)>,
     help: bool,
@@ -148,7 +148,7 @@ fn handle_linker_args(
             "-L" => {
                 let path =
                     args.next().ok_or_else(|| "Missing argument <PATH> for '-L'.".to_string())?;
-                app.search_paths.insert(path.into());
+                app.search_paths.push(path.into());
                 continue;
             }
             "-l" => {
@@ -179,7 +179,7 @@ fn handle_linker_args(
             }
         }
         if let Some(arg) = arg.strip_prefix("-L") {
-            app.search_paths.insert(PathBuf::from(arg).canonicalize().unwrap());
+            app.search_paths.push(arg.into());
         } else if let Some(lib) = arg.strip_prefix("-l") {
             app.inputs.push((lib.into(), app.as_needed));
         } else if let Some(arg) = arg.strip_prefix("--hash-style=") {
@@ -210,6 +210,7 @@ fn search_for_inputs(args: &mut AppArgs) -> Result<(), PathBuf> {
                 let input = dir.join(format!("lib{}.{}", lib.display(), kind));
                 if input.exists() && input.is_file() {
                     found = Some(input);
+                    break;
                 }
             }
         }
@@ -220,7 +221,10 @@ fn search_for_inputs(args: &mut AppArgs) -> Result<(), PathBuf> {
                     args.objects.push(lib.canonicalize().unwrap());
                 }
                 FileType::Archive => {
-                    args.archives.insert(lib.canonicalize().unwrap());
+                    let archive = lib.canonicalize().unwrap();
+                    if !args.archives.contains(&archive) {
+                        args.archives.push(archive);
+                    }
                 }
                 FileType::ElfSharedLib => args.opts.shared_libs.push((lib, as_needed)),
                 FileType::Text => args.scripts.push(lib),
-- 
2.43.0


From af8c05445f633f3ed53b1d935ad9fb58614c6510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:43:46 +0000
Subject: [PATCH 15/47] fix: resolve symbols in shared libraries that define
 them, keep undefined weak symbols at 0, honour --no-as-needed and DT_SONAME

---
 src/elf.rs |  9 +++++++--
 src/lib.rs | 22 +++++++++++++++++-----
 2 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index c8969a0..5672c22 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -524,6 +524,10 @@ impl<'d> Writer<'d> {
         as_sym_tab(&self.sym_section).get(sym).map_or(false, |s| s.is_undefined())
     }
 
+    pub fn is_weak(&self, sym: SymbolRef) -> bool {
+        as_sym_tab(&self.sym_section).get(sym).map_or(false, |s| s.is_weak())
+    }
+
     pub fn undefined_symbols(&self) -> Vec<SymbolRef> {
         let mut undefined = vec![];
         let symbols = as_sym_tab(&self.sym_section);
@@ -579,8 +583,9 @@ impl<'d> Writer<'d> {
             .inner_mut::<StringTable>()
             .unwrap()
             .get_or_create(so_name.to_string());
-        if entry.new {
-            self.dyn_entries.push((DynTag::Needed, entry.offset as u64));
+        let offset = entry.offset as u64;
+        if !self.dyn_entries.iter().any(|(t, v)| matches!(t, DynTag::Needed) && *v == offset) {
+            self.dyn_entries.push((DynTag::Needed, offset));
         }
     }
 
diff --git a/src/lib.rs b/src/lib.rs
index 1838b1a..64f87a8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -137,22 +137,28 @@ impl Linker {
     ) -> Result<Vec<elf::SymbolRef>, Error<'o>> {
         let mut undefines =
             symbols.iter().map(|s| (*s, false)).collect::<Vec<(elf::SymbolRef, bool)>>();
-        for (lib, _) in &self.options.shared_libs {
+        for (lib, as_needed) in &self.options.shared_libs {
             let path = lib.as_path();
             let data = read(path).map_path_err(path)?;
-            let elf = Elf::parse(&data).unwrap();
+            let elf = Elf::parse(&data).map_path_err(path)?;
+            let so_name = elf.soname.unwrap_or_else(|| path.file_name().unwrap().to_str().unwrap());
+            if !as_needed {
+                writer.add_needed(so_name);
+            }
             for entry in undefines.iter_mut() {
                 let name = if let Some(name) = writer.symbol_name(entry.0) {
                     name.to_string()
                 } else {
                     continue;
                 };
-                for sym in &elf.dynsyms {
+                // the library has to define the symbol, it isn't enough that it uses it
+                for sym in elf.dynsyms.iter().filter(|s| s.st_shndx != 0) {
                     let inner_name = get_dyn_symbol_name(&elf, sym.st_name).map_path_err(path)?;
                     if name == inner_name {
                         entry.1 = true;
                         writer.add_dyn_symbol(sym.into(), inner_name, path).map_path_err(path)?;
-                        writer.add_needed(path.file_name().unwrap().to_str().unwrap());
+                        writer.add_needed(so_name);
+                        break;
                     }
                 }
             }
@@ -173,6 +179,10 @@ impl Linker {
             let data = read(path).map_path_err(path)?;
             let ar = Archive::parse(&data).map_path_err(path)?;
             for entry in &mut undefines {
+                // a weak reference alone doesn't pull in members
+                if writer.is_weak(entry.0) {
+                    continue;
+                }
                 let name = if let Some(name) = writer.symbol_name(entry.0) {
                     name.to_string()
                 } else {
@@ -239,7 +249,9 @@ impl Linker {
             }
         }
         writer.compute_sections();
-        let undefined = writer.undefined_symbols();
+        // a weak reference may stay undefined, in which case its value is 0
+        let mut undefined = writer.undefined_symbols();
+        undefined.retain(|s| !writer.is_weak(*s));
         if !undefined.is_empty() {
             let names = undefined
                 .iter()
-- 
2.43.0


From e075412eb87532b5b08772227a21088914137270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:44:02 +0000
Subject: [PATCH 16/47] fix: refuse inputs which aren't x86-64 relocatable
 objects instead of ignoring them

---
 src/lib.rs | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 64f87a8..e79e1f7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -10,6 +10,7 @@ use goblin::{
     archive::Archive,
     elf::Elf,
     elf64::{
+        header::EM_X86_64,
         reloc::Rela,
         section_header::{
             SHT_DYNAMIC, SHT_DYNSYM, SHT_REL, SHT_RELA, SHT_SHLIB, SHT_STRTAB, SHT_SYMTAB,
@@ -39,9 +40,13 @@ pub struct ElfObject<'i, 'p, 'd, 'e> {
 }
 
 impl<'p, 'd> Input<'p, 'd> {
-    fn to_elf_object<'i>(&'i self) -> Result<Option<ElfObject<'i, 'p, '_, 'i>>, Error<'p>> {
+    fn to_elf_object<'i>(&'i self) -> Result<ElfObject<'i, 'p, '_, 'i>, Error<'p>> {
         let elf = Elf::parse(self.data).map_path_err(self.path)?;
-        Ok(if elf.is_object_file() { Some(ElfObject::new(self, elf)) } else { None })
+        check_target(&elf).map_path_err(self.path)?;
+        if !elf.is_object_file() {
+            return Err(Error::new(self.path, "Not a relocatable object.".to_string()));
+        }
+        Ok(ElfObject::new(self, elf))
     }
 }
 
@@ -141,6 +146,7 @@ impl Linker {
             let path = lib.as_path();
             let data = read(path).map_path_err(path)?;
             let elf = Elf::parse(&data).map_path_err(path)?;
+            check_target(&elf).map_path_err(path)?;
             let so_name = elf.soname.unwrap_or_else(|| path.file_name().unwrap().to_str().unwrap());
             if !as_needed {
                 writer.add_needed(so_name);
@@ -202,7 +208,7 @@ impl Linker {
                 let object_data =
                     &data[(object.offset as usize)..(object.offset as usize + object.size())];
                 let input = Input { path, data: object_data };
-                let mut elf = input.to_elf_object()?.unwrap();
+                let mut elf = input.to_elf_object()?;
                 elf.process_sections(writer)?;
                 elf.process_symbols(writer)?;
                 elf.process_relocations(writer)?;
@@ -228,10 +234,9 @@ impl Linker {
             .collect::<Result<Vec<Input>, Error<'_>>>()?;
         let mut elfs = Vec::with_capacity(inputs.len());
         for input in &inputs {
-            if let Some(mut elf) = input.to_elf_object()? {
-                elf.process_sections(&mut writer)?;
-                elfs.push(elf);
-            };
+            let mut elf = input.to_elf_object()?;
+            elf.process_sections(&mut writer)?;
+            elfs.push(elf);
         }
         for elf in &mut elfs {
             elf.process_symbols(&mut writer)?;
@@ -265,6 +270,14 @@ impl Linker {
     }
 }
 
+fn check_target(elf: &Elf) -> Result<(), String> {
+    if elf.is_64 && elf.little_endian && elf.header.e_machine == EM_X86_64 {
+        Ok(())
+    } else {
+        Err("Not for x86-64.".to_string())
+    }
+}
+
 fn get_section_name<'e>(elf: &Elf<'e>, index: usize) -> Result<&'e str, String> {
     elf.shdr_strtab.get_at(index).ok_or_else(|| "Symbol not found in strtab.".to_string())
 }
-- 
2.43.0


From 22f687ef43a49475ecee711a739a7ee6efaa2736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:44:20 +0000
Subject: [PATCH 17/47] fix: linker scripts with unknown commands, self
 references, '*' in comments and more file names

---
 src/linker_script.rs | 14 ++++++++++----
 src/main.rs          |  7 ++++++-
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/linker_script.rs b/src/linker_script.rs
index afeb65b..27cedb2 100644
--- a/src/linker_script.rs
+++ b/src/linker_script.rs
@@ -2,7 +2,9 @@ use combine::error::{ParseError, StringStreamError};
 use combine::parser::char::{alpha_num, char, space, string};
 use combine::parser::repeat::skip_until;
 use combine::stream::Stream;
-use combine::{between, choice, many1, optional, sep_end_by, skip_many, skip_many1, Parser};
+use combine::{
+    attempt, between, choice, many1, optional, sep_end_by, skip_many, skip_many1, Parser,
+};
 
 /// Parses an argument like: 'foo.so' or `/lib/foo.so'.
 pub fn parse_arg<Input>() -> impl Parser<Input, Output = String>
@@ -10,7 +12,7 @@ where
     Input: Stream<Token = char>,
     Input::Error: ParseError<Input::Token, Input::Range, Input::Position>,
 {
-    many1(choice((alpha_num(), char('-'), char('.'), char('_'), char('/'))))
+    many1(choice((alpha_num(), char('-'), char('.'), char('_'), char('+'), char('/'))))
 }
 /// Parses a comment like: /* hey \n second line */
 pub fn parse_comment<Input>() -> impl Parser<Input, Output = ()>
@@ -18,7 +20,7 @@ where
     Input: Stream<Token = char>,
     Input::Error: ParseError<Input::Token, Input::Range, Input::Position>,
 {
-    between(string("/*"), string("*/"), skip_until(string("*/")))
+    between(string("/*"), string("*/"), skip_until(attempt(string("*/"))))
 }
 
 /// Parses a GROUP command like: GROUP ( libgcc_s.so.1 -lgcc )
@@ -42,7 +44,7 @@ where
     Input::Error: ParseError<Input::Token, Input::Range, Input::Position>,
 {
     let args = (skip_many(space()), sep_end_by(parse_arg(), skip_many(space())));
-    (string("AS_NEEDED"), skip_many(space()), between(char('('), char(')'), args)).map(
+    (attempt(string("AS_NEEDED")), skip_many(space()), between(char('('), char(')'), args)).map(
         |(_, _, s): (_, _, (_, Vec<String>))| {
             let mut v: Vec<String> = vec!["--as-needed".into()];
             v.extend(s.1);
@@ -77,6 +79,10 @@ pub fn parse(mut input: &str) -> Result<Vec<String>, StringStreamError> {
             new_args.extend(args);
         }
         if !leftover.is_empty() {
+            // an unknown command
+            if leftover.len() == input.len() {
+                return Err(StringStreamError::UnexpectedParse);
+            }
             input = leftover;
         } else {
             break;
diff --git a/src/main.rs b/src/main.rs
index 8875919..e2c0a1a 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,6 +1,6 @@
 use dld::elf::{BuildId, Emulation, HashStyle, Options};
 use goblin::elf32::header::ET_DYN;
-use std::{io::Read, path::PathBuf, str::FromStr};
+use std::{collections::HashSet, io::Read, path::PathBuf, str::FromStr};
 
 mod linker_script;
 
@@ -46,7 +46,12 @@ fn main() -> Result<(), String> {
         println!("{}", HELP);
         return Ok(());
     }
+    let mut seen_scripts = HashSet::new();
     while let Some(script) = args.scripts.pop() {
+        // scripts might refer to each other
+        if !seen_scripts.insert(script.clone()) {
+            continue;
+        }
         let new_args = linker_script::parse(&std::fs::read_to_string(script).unwrap()).unwrap();
         if !new_args.is_empty() {
             handle_linker_args(&mut new_args.into_iter().peekable(), &mut args)?;
-- 
2.43.0


From 752a3671bec823a6adb68ba3bcc7389882dc52dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:44:43 +0000
Subject: [PATCH 18/47] fix: report missing inputs of linker scripts

---
 src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index e2c0a1a..c792e2e 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -55,7 +55,8 @@ fn main() -> Result<(), String> {
         let new_args = linker_script::parse(&std::fs::read_to_string(script).unwrap()).unwrap();
         if !new_args.is_empty() {
             handle_linker_args(&mut new_args.into_iter().peekable(), &mut args)?;
-            let _ = search_for_inputs(&mut args);
+            search_for_inputs(&mut args)
+                .map_err(|e| format!("Couldn't find library {}", e.display()))?;
         }
     }
     log::debug!("{:#?}", args);
-- 
2.43.0


From 819c1b93b12f74d723225f523155dd1bd9711f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:44:44 +0000
Subject: [PATCH 19/47] fix: -l only names libraries

---
 src/main.rs | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index c792e2e..7bd3a7c 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -27,6 +27,14 @@ OPTIONS:
   --hash-style STYLE  Set hash style.
 ";
 
+#[derive(Debug)]
+struct Input {
+    path: PathBuf,
+    as_needed: bool,
+    /// The name of a library (`-l`) rather than a path.
+    library: bool,
+}
+
 #[derive(Debug, Default)]
 struct AppArgs {
     opts: Options,
@@ -34,7 +42,7 @@ struct AppArgs {
     archives: Vec<PathBuf>,
     search_paths: Vec<PathBuf>,
     scripts: Vec<PathBuf>,
-    inputs: Vec<(PathBuf, bool)>,
+    inputs: Vec<Input>,
     help: bool,
     as_needed: bool,
 }
@@ -160,7 +168,11 @@ fn handle_linker_args(
             "-l" => {
                 let path =
                     args.next().ok_or_else(|| "Missing argument <PATH> for '-l'.".to_string())?;
-                app.inputs.push((path.into(), app.as_needed));
+                app.inputs.push(Input {
+                    path: path.into(),
+                    as_needed: app.as_needed,
+                    library: true,
+                });
                 continue;
             }
             "-z" => {
@@ -187,20 +199,20 @@ fn handle_linker_args(
         if let Some(arg) = arg.strip_prefix("-L") {
             app.search_paths.push(arg.into());
         } else if let Some(lib) = arg.strip_prefix("-l") {
-            app.inputs.push((lib.into(), app.as_needed));
+            app.inputs.push(Input { path: lib.into(), as_needed: app.as_needed, library: true });
         } else if let Some(arg) = arg.strip_prefix("--hash-style=") {
             app.opts.hash_style = HashStyle::from_str(arg)?;
         } else {
-            app.inputs.push((arg.into(), app.as_needed));
+            app.inputs.push(Input { path: arg.into(), as_needed: app.as_needed, library: false });
         }
     }
     Ok(())
 }
 
 fn search_for_inputs(args: &mut AppArgs) -> Result<(), PathBuf> {
-    for (lib, as_needed) in args.inputs.drain(..) {
+    for Input { path: lib, as_needed, library } in args.inputs.drain(..) {
         let mut found = None;
-        if lib.exists() && lib.is_file() {
+        if !library && lib.exists() && lib.is_file() {
             found = Some(lib.clone());
         }
         for kind in ["so", "a"] {
@@ -209,7 +221,7 @@ fn search_for_inputs(args: &mut AppArgs) -> Result<(), PathBuf> {
             }
             for dir in &args.search_paths {
                 let p = dir.join(&lib);
-                if p.exists() && p.is_file() {
+                if !library && p.exists() && p.is_file() {
                     found = Some(p);
                     break;
                 }
-- 
2.43.0


From 480363c3e528521119e5e09e759e41566a1e8dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:45:02 +0000
Subject: [PATCH 20/47] fix: allocate common symbols

---
 src/elf.rs              | 24 ++++++++++++++++++++++++
 src/elf/symbol_table.rs | 11 ++++++++++-
 src/lib.rs              |  1 +
 src/symbol.rs           |  6 +++++-
 4 files changed, 40 insertions(+), 2 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 5672c22..daa3399 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -520,6 +520,30 @@ impl<'d> Writer<'d> {
         }
     }
 
+    /// Reserves space in `.bss` for the common symbols which nobody has defined.
+    pub fn allocate_common_symbols(&mut self) {
+        let mut common = vec![];
+        for (st_name, sym) in as_mut_sym_tab(&self.sym_section).named_mut() {
+            if sym.is_common() {
+                let sh = goblin::elf::SectionHeader {
+                    sh_type: SHT_NOBITS,
+                    sh_flags: (SHF_ALLOC | SHF_WRITE) as u64,
+                    sh_size: sym.st_size,
+                    // the value of a common symbol is its alignment
+                    sh_addralign: sym.st_value,
+                    ..Default::default()
+                };
+                sym.st_value = 0;
+                common.push((SymbolRef::Named(*st_name), sh));
+            }
+        }
+        common.sort_by_key(|(sym_ref, _)| sym_ref.st_name());
+        for (sym_ref, sh) in common {
+            let bss = self.push_section(".bss", &sh, None);
+            bss.section.write().chunk_mut(bss.chunk).add_symbol(sym_ref);
+        }
+    }
+
     pub fn is_undefined(&self, sym: SymbolRef) -> bool {
         as_sym_tab(&self.sym_section).get(sym).map_or(false, |s| s.is_undefined())
     }
diff --git a/src/elf/symbol_table.rs b/src/elf/symbol_table.rs
index 430f215..f116742 100644
--- a/src/elf/symbol_table.rs
+++ b/src/elf/symbol_table.rs
@@ -124,6 +124,8 @@ impl<'p> SymbolTable<'p> {
                     && new_sym.is_global()
                     && old_sym.st_shndx != SHN_UNDEF as u16
                     && new_sym.st_shndx != SHN_UNDEF as u16
+                    && !old_sym.is_common()
+                    && !new_sym.is_common()
                 {
                     log::trace!(
                         "Old defition: {:#?} vs new definition: {:#?}",
@@ -141,7 +143,14 @@ impl<'p> SymbolTable<'p> {
                 } else if old_sym.is_undefined() {
                     *old_sym = new_sym;
                     Resolution::New
-                } else if !old_sym.higher_bind_than(new_sym) {
+                } else if old_sym.is_common() && new_sym.is_common() {
+                    // the value of a common symbol is its alignment
+                    old_sym.st_value = old_sym.st_value.max(new_sym.st_value);
+                    old_sym.st_size = old_sym.st_size.max(new_sym.st_size);
+                    Resolution::Kept
+                } else if !old_sym.higher_bind_than(new_sym)
+                    || old_sym.is_common() && new_sym.is_global()
+                {
                     *old_sym = new_sym;
                     Resolution::Replaced
                 } else {
diff --git a/src/lib.rs b/src/lib.rs
index e79e1f7..c552406 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -253,6 +253,7 @@ impl Linker {
                 undefined = writer.undefined_symbols();
             }
         }
+        writer.allocate_common_symbols();
         writer.compute_sections();
         // a weak reference may stay undefined, in which case its value is 0
         let mut undefined = writer.undefined_symbols();
diff --git a/src/symbol.rs b/src/symbol.rs
index 1046a43..06780be 100644
--- a/src/symbol.rs
+++ b/src/symbol.rs
@@ -6,7 +6,7 @@ use std::{
 };
 
 use goblin::elf64::{
-    section_header::SHN_UNDEF,
+    section_header::{SHN_COMMON, SHN_UNDEF},
     sym::{Sym, STB_GLOBAL, STB_LOCAL, STB_WEAK, STT_OBJECT, STT_TLS},
 };
 
@@ -72,6 +72,10 @@ impl<'r> Symbol<'r> {
         self.sym.st_shndx == SHN_UNDEF as u16
     }
 
+    pub const fn is_common(&self) -> bool {
+        self.sym.st_shndx == SHN_COMMON as u16
+    }
+
     pub const fn reference(&self) -> &Path {
         self.reference
     }
-- 
2.43.0


From 54388464025c63b77c0af422d683c415c60ba502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:45:18 +0000
Subject: [PATCH 21/47] fix: bounds of .init_array and .fini_array when there
 are none

---
 src/elf.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/elf.rs b/src/elf.rs
index daa3399..d264e27 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -750,6 +750,23 @@ impl<'d> Writer<'d> {
             }
         }
 
+        // without any input section the arrays are empty
+        for (section, names) in [
+            (".init_array", ["__init_array_start", "__init_array_end"]),
+            (".fini_array", ["__fini_array_start", "__fini_array_end"]),
+        ] {
+            if section_names.sh_name(section).is_some() {
+                continue;
+            }
+            let mut symbols = as_mut_sym_tab(&self.sym_section);
+            for entry in names.iter().filter_map(|name| symbol_names.get(*name)) {
+                match symbols.get_mut(SymbolRef::Named(entry.offset as u32)) {
+                    Some(s) if s.is_undefined() => s.st_shndx = SHN_ABS as u16,
+                    _ => {}
+                }
+            }
+        }
+
         // functions whose address is needed have the same address everywhere: their PLT entry
         let plt_address = self.plt_address();
         for sym in as_sym_tab(&self.sym_section).named().values() {
-- 
2.43.0


From 926c37af86bd1f40bb6ba7f3740c6a5af724eec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:56:17 +0000
Subject: [PATCH 22/47] fix: reserve address space for COPY relocations

The size of .copyrel was computed before the relocations were known, so
its slots were outside of the loaded segment.
---
 src/elf.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/elf.rs b/src/elf.rs
index d264e27..2877f7c 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -950,6 +950,8 @@ impl<'d> Writer<'d> {
                     self.plt_rels.push(rela(offset, index, R_X86_64_JUMP_SLOT));
                 }
             }
+            // now that every slot is known
+            self.copy_rel_section.write().expand();
             self.dyn_rel_section.write().sh_size = (self.dyn_rels.len() * size_of::<Rela>()) as u64;
             self.plt_rel_section.write().sh_size = (self.plt_rels.len() * size_of::<Rela>()) as u64;
 
-- 
2.43.0


From 9ae29e64868874e0d164161a4d5a480ec29214d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:28:06 +0000
Subject: [PATCH 23/47] fix: the inputs of a linker script take the script's
 place

---
 src/main.rs | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 7bd3a7c..bcec91b 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -41,7 +41,6 @@ struct AppArgs {
     objects: Vec<PathBuf>,
     archives: Vec<PathBuf>,
     search_paths: Vec<PathBuf>,
-    scripts: Vec<PathBuf>,
     inputs: Vec<Input>,
     help: bool,
     as_needed: bool,
@@ -49,24 +48,11 @@ struct AppArgs {
 
 fn main() -> Result<(), String> {
     env_logger::init();
-    let mut args = parse_args()?;
+    let args = parse_args()?;
     if args.help {
         println!("{}", HELP);
         return Ok(());
     }
-    let mut seen_scripts = HashSet::new();
-    while let Some(script) = args.scripts.pop() {
-        // scripts might refer to each other
-        if !seen_scripts.insert(script.clone()) {
-            continue;
-        }
-        let new_args = linker_script::parse(&std::fs::read_to_string(script).unwrap()).unwrap();
-        if !new_args.is_empty() {
-            handle_linker_args(&mut new_args.into_iter().peekable(), &mut args)?;
-            search_for_inputs(&mut args)
-                .map_err(|e| format!("Couldn't find library {}", e.display()))?;
-        }
-    }
     log::debug!("{:#?}", args);
     let linker = dld::Linker { options: args.opts, objects: args.objects, archives: args.archives };
     if let Err(e) = linker.link() {
@@ -109,7 +95,7 @@ fn parse_args() -> Result<AppArgs, String> {
     let _ = args.next();
     let mut app = Default::default();
     handle_linker_args(&mut args, &mut app)?;
-    search_for_inputs(&mut app).map_err(|e| format!("Couldn't find library {}", e.display()))?;
+    search_for_inputs(&mut app)?;
     Ok(app)
 }
 
@@ -209,8 +195,11 @@ fn handle_linker_args(
     Ok(())
 }
 
-fn search_for_inputs(args: &mut AppArgs) -> Result<(), PathBuf> {
-    for Input { path: lib, as_needed, library } in args.inputs.drain(..) {
+fn search_for_inputs(args: &mut AppArgs) -> Result<(), String> {
+    // the next input is the last one
+    let mut inputs: Vec<Input> = args.inputs.drain(..).rev().collect();
+    let mut seen_scripts = HashSet::new();
+    while let Some(Input { path: lib, as_needed, library }) = inputs.pop() {
         let mut found = None;
         if !library && lib.exists() && lib.is_file() {
             found = Some(lib.clone());
@@ -245,10 +234,21 @@ fn search_for_inputs(args: &mut AppArgs) -> Result<(), PathBuf> {
                     }
                 }
                 FileType::ElfSharedLib => args.opts.shared_libs.push((lib, as_needed)),
-                FileType::Text => args.scripts.push(lib),
+                FileType::Text => {
+                    // scripts might refer to each other
+                    if !seen_scripts.insert(lib.clone()) {
+                        continue;
+                    }
+                    let script = std::fs::read_to_string(lib).unwrap();
+                    let new_args = linker_script::parse(&script).unwrap();
+                    // the inputs of a script take its place
+                    args.as_needed = as_needed;
+                    handle_linker_args(&mut new_args.into_iter().peekable(), args)?;
+                    inputs.extend(args.inputs.drain(..).rev());
+                }
             }
         } else {
-            return Err(lib);
+            return Err(format!("Couldn't find library {}", lib.display()));
         }
     }
     Ok(())
-- 
2.43.0


From 09ef449d32bd9a0aeca31a496c519a6789151477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:33:11 +0000
Subject: [PATCH 24/47] fix: only -l looks for a library of that name

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index bcec91b..5e78098 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -215,7 +215,7 @@ fn search_for_inputs(args: &mut AppArgs) -> Result<(), String> {
                     break;
                 }
                 let input = dir.join(format!("lib{}.{}", lib.display(), kind));
-                if input.exists() && input.is_file() {
+                if library && input.exists() && input.is_file() {
                     found = Some(input);
                     break;
                 }
-- 
2.43.0


From 3fe5e01e8d48aed5513fce9858c5a4fe1a0aa945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:13:35 +0000
Subject: [PATCH 25/47] fix: R_X86_64_GOT32 is relative to the global offset
 table

---
 src/elf.rs       | 9 ++++++++-
 src/elf/chunk.rs | 7 ++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 2877f7c..7214e06 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -976,6 +976,7 @@ impl<'d> Writer<'d> {
 
     fn handle_relocations(&mut self) {
         let got_address = self.got_address();
+        let got_plt_address = self.got_plt_address();
         let plt_address = self.plt_address();
         let sh_names = [self.sym_section.read().sh_name, self.dyn_sym_section.read().sh_name];
 
@@ -992,7 +993,13 @@ impl<'d> Writer<'d> {
             &mut self.sections.iter_mut().skip(1).filter(|s| !sh_names.contains(&s.read().sh_name))
         {
             for chunk in section.write().chunks_mut() {
-                chunk.apply_relocations(got_address, plt_address, &symbols, &dyn_symbols);
+                chunk.apply_relocations(
+                    got_address,
+                    got_plt_address,
+                    plt_address,
+                    &symbols,
+                    &dyn_symbols,
+                );
             }
         }
     }
diff --git a/src/elf/chunk.rs b/src/elf/chunk.rs
index ab6a86d..14443a6 100644
--- a/src/elf/chunk.rs
+++ b/src/elf/chunk.rs
@@ -58,6 +58,7 @@ impl Chunk {
     pub fn apply_relocations(
         &mut self,
         got_address: u64,
+        got_plt_address: u64,
         plt_address: u64,
         table: &SymbolTable,
         dyn_table: &SymbolTable,
@@ -70,6 +71,7 @@ impl Chunk {
                 table.get(*symbol_ref).unwrap(),
                 dyn_table,
                 got_address,
+                got_plt_address,
                 plt_address,
             );
         }
@@ -111,6 +113,7 @@ fn apply_relocation(
     symbol: &crate::elf::Symbol<'_>,
     dyn_table: &SymbolTable,
     got_address: u64,
+    got_plt_address: u64,
     plt_address: u64,
 ) {
     // e.g. `stderr` will be undefined, but we might reference it. Since
@@ -142,8 +145,10 @@ fn apply_relocation(
             .unwrap(),
         R_X86_64_GOT32 => {
             let g: i64 = symbol.got_offset().unwrap().try_into().unwrap();
+            // relative to `_GLOBAL_OFFSET_TABLE_`
+            let base: i64 = got_plt_address.try_into().unwrap();
             (&mut data[offset..])
-                .write_i32::<LittleEndian>((g + got + a - p).try_into().unwrap())
+                .write_i32::<LittleEndian>((g + got - base + a).try_into().unwrap())
                 .unwrap()
         }
         R_X86_64_GOTPCRELX if symbol.dynamic().is_none() => {
-- 
2.43.0


From 8f9ee4c17270b47fd7024ba1d567452ee8fd1a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:13:48 +0000
Subject: [PATCH 26/47] fix: refuse objects that refer to sections or symbols
 which don't exist

---
 src/lib.rs | 37 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index c552406..ffecee2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -13,13 +13,16 @@ use goblin::{
         header::EM_X86_64,
         reloc::Rela,
         section_header::{
-            SHT_DYNAMIC, SHT_DYNSYM, SHT_REL, SHT_RELA, SHT_SHLIB, SHT_STRTAB, SHT_SYMTAB,
+            SectionHeader, SHN_ABS, SHN_COMMON, SHT_DYNAMIC, SHT_DYNSYM, SHT_REL, SHT_RELA,
+            SHT_SHLIB, SHT_STRTAB, SHT_SYMTAB,
         },
+        sym::Sym,
     },
 };
 use std::{
     collections::HashMap,
     fs::read,
+    mem::size_of,
     path::{Path, PathBuf},
 };
 
@@ -46,6 +49,7 @@ impl<'p, 'd> Input<'p, 'd> {
         if !elf.is_object_file() {
             return Err(Error::new(self.path, "Not a relocatable object.".to_string()));
         }
+        check_references(&elf).map_path_err(self.path)?;
         Ok(ElfObject::new(self, elf))
     }
 }
@@ -279,6 +283,37 @@ fn check_target(elf: &Elf) -> Result<(), String> {
     }
 }
 
+/// Everything an object refers to (by index) has to exist.
+fn check_references(elf: &Elf) -> Result<(), String> {
+    let sections = elf.section_headers.len();
+    if sections > 0 && elf.header.e_shentsize as usize != size_of::<SectionHeader>() {
+        return Err("Unexpected size of section headers.".to_string());
+    }
+    for sh in &elf.section_headers {
+        let (link, info) = (sh.sh_link as usize, sh.sh_info as usize);
+        let valid = match sh.sh_type {
+            SHT_SYMTAB => link < sections && sh.sh_entsize as usize == size_of::<Sym>(),
+            SHT_RELA | SHT_REL => link < sections && info < sections,
+            _ => true,
+        };
+        if !valid {
+            return Err("Malformed section header.".to_string());
+        }
+    }
+    for symbol in elf.syms.iter() {
+        let special = [SHN_ABS, SHN_COMMON].contains(&(symbol.st_shndx as u32));
+        if symbol.st_shndx >= sections && !special {
+            return Err("Symbol of a section that does not exist.".to_string());
+        }
+    }
+    for (_, relocations) in &elf.shdr_relocs {
+        if relocations.iter().any(|r| r.r_sym != 0 && r.r_sym >= elf.syms.len()) {
+            return Err("Relocation against a symbol that does not exist.".to_string());
+        }
+    }
+    Ok(())
+}
+
 fn get_section_name<'e>(elf: &Elf<'e>, index: usize) -> Result<&'e str, String> {
     elf.shdr_strtab.get_at(index).ok_or_else(|| "Symbol not found in strtab.".to_string())
 }
-- 
2.43.0


From 8c121c1b6002a681ed64c7f8f7fc4736983fe266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:33:42 +0000
Subject: [PATCH 27/47] fix: refuse sections which are named like one of the
 linker's own

---
 src/elf.rs | 15 +++++++++++----
 src/lib.rs | 15 +++++++--------
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 7214e06..3d20008 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -145,6 +145,8 @@ pub struct Writer<'d> {
     dyn_rels: Vec<Rela>,
     plt_rels: Vec<Rela>,
     sections: Vec<SectionPtr<'d>>,
+    /// How many of the sections come from the linker itself.
+    own_sections: usize,
     got_len: usize,
     got_plt: HashMap<SymbolRef, usize>,
     dyn_entries: Vec<(DynTag, u64)>,
@@ -350,6 +352,7 @@ impl<'d> Writer<'d> {
             eh,
             dyn_rels: vec![],
             plt_rels: vec![],
+            own_sections: sections.len(),
             sections,
             // first entry reserved
             got_len: 1,
@@ -383,9 +386,13 @@ impl<'d> Writer<'d> {
         name: impl Into<Name>,
         sh: &goblin::elf::SectionHeader,
         data: Option<Vec<u8>>,
-    ) -> SectionRef<'d> {
+    ) -> Result<SectionRef<'d>, ErrorType> {
         let entry =
             self.shstr_section.write().inner_mut::<StringTable>().unwrap().get_or_create(name);
+        if !entry.new && entry.index < self.own_sections {
+            let message = "Section with the name of one of the linker's own.";
+            return Err(ErrorType::Other(message.to_string()));
+        }
         let (section, chunk) = if entry.new {
             let sh = SectionHeader {
                 sh_name: entry.offset as u32,
@@ -420,7 +427,7 @@ impl<'d> Writer<'d> {
                 section.add_chunk(Chunk::from(data.unwrap_or_default()).with_offset(offset));
             (section_ptr, chunk)
         };
-        SectionRef { section, chunk }
+        Ok(SectionRef { section, chunk })
     }
 
     pub fn push_section(
@@ -428,7 +435,7 @@ impl<'d> Writer<'d> {
         name: impl Into<Name>,
         section: &goblin::elf::SectionHeader,
         data: Option<&[u8]>,
-    ) -> SectionRef<'d> {
+    ) -> Result<SectionRef<'d>, ErrorType> {
         let data = data.map(|v| v.to_owned());
         self.add_section(name, section, data)
     }
@@ -539,7 +546,7 @@ impl<'d> Writer<'d> {
         }
         common.sort_by_key(|(sym_ref, _)| sym_ref.st_name());
         for (sym_ref, sh) in common {
-            let bss = self.push_section(".bss", &sh, None);
+            let bss = self.push_section(".bss", &sh, None).unwrap();
             bss.section.write().chunk_mut(bss.chunk).add_symbol(sym_ref);
         }
     }
diff --git a/src/lib.rs b/src/lib.rs
index ffecee2..f3fae70 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -13,8 +13,8 @@ use goblin::{
         header::EM_X86_64,
         reloc::Rela,
         section_header::{
-            SectionHeader, SHN_ABS, SHN_COMMON, SHT_DYNAMIC, SHT_DYNSYM, SHT_REL, SHT_RELA,
-            SHT_SHLIB, SHT_STRTAB, SHT_SYMTAB,
+            SectionHeader, SHN_ABS, SHN_COMMON, SHT_DYNAMIC, SHT_DYNSYM, SHT_NULL, SHT_REL,
+            SHT_RELA, SHT_SHLIB, SHT_STRTAB, SHT_SYMTAB,
         },
         sym::Sym,
     },
@@ -27,7 +27,7 @@ use std::{
 };
 
 const SKIPPED_SECTIONS: &[u32] =
-    &[SHT_SYMTAB, SHT_DYNSYM, SHT_STRTAB, SHT_RELA, SHT_DYNAMIC, SHT_REL, SHT_SHLIB];
+    &[SHT_NULL, SHT_SYMTAB, SHT_DYNSYM, SHT_STRTAB, SHT_RELA, SHT_DYNAMIC, SHT_REL, SHT_SHLIB];
 
 pub struct Input<'p, 'd> {
     path: &'p Path,
@@ -69,11 +69,10 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
         {
             let name =
                 get_section_name(&self.elf, section.sh_name).map_path_err(self.input.path)?;
-            let section_ref = writer.push_section(
-                name.to_owned(),
-                section,
-                section.file_range().map(|r| &self.input.data[r]),
-            );
+            let data = section.file_range().map(|r| &self.input.data[r]);
+            let section_ref = writer
+                .push_section(name.to_owned(), section, data)
+                .map_path_err(self.input.path)?;
             log::trace!(
                 "Section '{}:{}' of {:?} mapped to {:?}",
                 i,
-- 
2.43.0


From e89d6c46d63f59323459dd0be945ec8ad38eb065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:35:04 +0000
Subject: [PATCH 28/47] fix: fill the GOT slots of symbols which aren't dynamic

---
 src/elf.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/elf.rs b/src/elf.rs
index 3d20008..a732f2e 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -148,6 +148,8 @@ pub struct Writer<'d> {
     /// How many of the sections come from the linker itself.
     own_sections: usize,
     got_len: usize,
+    /// The offsets of the symbols in the `.got`.
+    got: Vec<(SymbolRef, usize)>,
     got_plt: HashMap<SymbolRef, usize>,
     dyn_entries: Vec<(DynTag, u64)>,
     program_headers: Vec<ProgramHeader>,
@@ -356,6 +358,7 @@ impl<'d> Writer<'d> {
             sections,
             // first entry reserved
             got_len: 1,
+            got: vec![],
             got_plt: Default::default(),
             dyn_entries: vec![(DynTag::Needed, interp_entry.offset as u64)],
             program_headers: vec![],
@@ -857,6 +860,7 @@ impl<'d> Writer<'d> {
                             let sym = symbols.get_mut(*sym_ref).unwrap();
                             if sym.got_offset().is_none() {
                                 sym.set_got_offset(self.got_len * size_of::<u64>());
+                                self.got.push((*sym_ref, self.got_len * size_of::<u64>()));
                                 // For TLSGD relocations we need to allocate two slots
                                 self.got_len +=
                                     if sym.is_tls() && r_type == R_X86_64_TLSGD { 2 } else { 1 };
@@ -982,6 +986,8 @@ impl<'d> Writer<'d> {
     }
 
     fn handle_relocations(&mut self) {
+        use byteorder::{LittleEndian, WriteBytesExt};
+
         let got_address = self.got_address();
         let got_plt_address = self.got_plt_address();
         let plt_address = self.plt_address();
@@ -996,6 +1002,18 @@ impl<'d> Writer<'d> {
         }
         let symbols = as_sym_tab(&self.sym_section);
         let dyn_symbols = as_sym_tab(&self.dyn_sym_section);
+        // nobody else fills the slots of symbols which aren't dynamic
+        let mut got_section = self.got_section.write();
+        for (sym_ref, offset) in &self.got {
+            let sym = symbols.get(*sym_ref).unwrap();
+            if sym.dynamic().is_none() {
+                got_section.chunk_mut(0)[*offset..]
+                    .as_mut()
+                    .write_u64::<LittleEndian>(sym.st_value)
+                    .unwrap();
+            }
+        }
+        drop(got_section);
         for section in
             &mut self.sections.iter_mut().skip(1).filter(|s| !sh_names.contains(&s.read().sh_name))
         {
-- 
2.43.0


From 251a666380343553d6149f263ecfc76f8e222339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:35:05 +0000
Subject: [PATCH 29/47] fix: refuse sections whose alignment is not a power of
 two

---
 src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index f3fae70..65983ee 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -290,6 +290,9 @@ fn check_references(elf: &Elf) -> Result<(), String> {
     }
     for sh in &elf.section_headers {
         let (link, info) = (sh.sh_link as usize, sh.sh_info as usize);
+        if sh.sh_addralign != 0 && !sh.sh_addralign.is_power_of_two() {
+            return Err("Alignment of a section is not a power of two.".to_string());
+        }
         let valid = match sh.sh_type {
             SHT_SYMTAB => link < sections && sh.sh_entsize as usize == size_of::<Sym>(),
             SHT_RELA | SHT_REL => link < sections && info < sections,
-- 
2.43.0


From 140c77831ca1305fe4766e158d42326efb25c266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:50:25 +0000
Subject: [PATCH 30/47] fix: refuse R_X86_64_TPOFF32 against symbols which are
 not thread-local

---
 src/elf/chunk.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/elf/chunk.rs b/src/elf/chunk.rs
index 14443a6..c607f28 100644
--- a/src/elf/chunk.rs
+++ b/src/elf/chunk.rs
@@ -222,6 +222,7 @@ fn apply_relocation(
             (&mut data[offset..]).write_i32::<LittleEndian>(value.try_into().unwrap()).unwrap();
         }
         R_X86_64_TPOFF32 => {
+            assert!(symbol.is_tls());
             let value = s + a;
             (&mut data[offset..]).write_i32::<LittleEndian>(value.try_into().unwrap()).unwrap();
         }
-- 
2.43.0


From fa425ed5b8ce6e454e556d7adb94204a4e5a203f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:58:57 +0000
Subject: [PATCH 31/47] fix: the program interpreter is not a needed library

---
 src/elf.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index a732f2e..5550514 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -206,7 +206,7 @@ impl<'d> Writer<'d> {
             sh_flags: SHF_ALLOC as u64,
             ..Default::default()
         };
-        let mut dyn_sym_names = StringTable::default();
+        let dyn_sym_names = StringTable::default();
         let loader = options
             .dynamic_linker
             .to_str()
@@ -216,9 +216,6 @@ impl<'d> Writer<'d> {
             .copied()
             .chain(std::iter::once(0))
             .collect::<Vec<u8>>();
-        let interp_entry = dyn_sym_names.get_or_create(
-            options.dynamic_linker.file_name().unwrap().to_str().unwrap().to_string(),
-        );
         let interp_section = Section::new(SectionHeader {
             sh_name: section_names.get_or_create(".interp").offset as u32,
             sh_type: SHT_PROGBITS,
@@ -360,7 +357,7 @@ impl<'d> Writer<'d> {
             got_len: 1,
             got: vec![],
             got_plt: Default::default(),
-            dyn_entries: vec![(DynTag::Needed, interp_entry.offset as u64)],
+            dyn_entries: vec![],
             program_headers: vec![],
             p_vaddr: 0x200000,
             start_p_vaddr: 0x200000,
-- 
2.43.0


From c77a8045ce33c1cee148633fcbba7581008b3960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:41:40 +0000
Subject: [PATCH 32/47] fix: DT_NEEDED follows the order of the command line

---
 src/lib.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 65983ee..9bdeaad 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -141,18 +141,19 @@ impl Linker {
     fn find_undefined_symbols_in_libs<'o>(
         &'o self,
         symbols: &[elf::SymbolRef],
+        needed: &mut [Option<String>],
         writer: &mut elf::Writer<'o>,
     ) -> Result<Vec<elf::SymbolRef>, Error<'o>> {
         let mut undefines =
             symbols.iter().map(|s| (*s, false)).collect::<Vec<(elf::SymbolRef, bool)>>();
-        for (lib, as_needed) in &self.options.shared_libs {
+        for ((lib, as_needed), needed) in self.options.shared_libs.iter().zip(needed) {
             let path = lib.as_path();
             let data = read(path).map_path_err(path)?;
             let elf = Elf::parse(&data).map_path_err(path)?;
             check_target(&elf).map_path_err(path)?;
             let so_name = elf.soname.unwrap_or_else(|| path.file_name().unwrap().to_str().unwrap());
             if !as_needed {
-                writer.add_needed(so_name);
+                *needed = Some(so_name.to_string());
             }
             for entry in undefines.iter_mut() {
                 let name = if let Some(name) = writer.symbol_name(entry.0) {
@@ -166,7 +167,7 @@ impl Linker {
                     if name == inner_name {
                         entry.1 = true;
                         writer.add_dyn_symbol(sym.into(), inner_name, path).map_path_err(path)?;
-                        writer.add_needed(so_name);
+                        *needed = Some(so_name.to_string());
                         break;
                     }
                 }
@@ -246,8 +247,10 @@ impl Linker {
             elf.process_relocations(&mut writer)?;
         }
         let mut undefined = writer.undefined_symbols();
+        let mut needed = vec![None; self.options.shared_libs.len()];
         loop {
-            let undefined_next = self.find_undefined_symbols_in_libs(&undefined, &mut writer)?;
+            let undefined_next =
+                self.find_undefined_symbols_in_libs(&undefined, &mut needed, &mut writer)?;
             let undefined_next = self.process_archives_containing(&undefined_next, &mut writer)?;
             // if the length doesn't change, it means we haven't found any of our symbols
             if undefined.len() == undefined_next.len() {
@@ -256,6 +259,10 @@ impl Linker {
                 undefined = writer.undefined_symbols();
             }
         }
+        // in the order of the command line, no matter which one turned out to be needed first
+        for so_name in needed.iter().flatten() {
+            writer.add_needed(so_name);
+        }
         writer.allocate_common_symbols();
         writer.compute_sections();
         // a weak reference may stay undefined, in which case its value is 0
-- 
2.43.0


From 2d4c9afbb73835b6a2ba9542886feb8efa5dcd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:56:00 +0000
Subject: [PATCH 33/47] fix: archives without members are archives

---
 src/main.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 5e78098..f041070 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -72,13 +72,14 @@ enum FileType {
 }
 
 fn file_type(input: &std::path::Path) -> std::io::Result<FileType> {
-    let mut f = std::fs::File::open(&input)?;
-    let mut header = [0; 18];
-    if f.read_exact(&mut header).is_err() {
-        return Ok(FileType::Text);
-    }
+    let f = std::fs::File::open(&input)?;
+    let mut header = vec![];
+    f.take(18).read_to_end(&mut header)?;
+    // an archive without members is as short as its magic
     if header.starts_with(goblin::archive::MAGIC) {
         Ok(FileType::Archive)
+    } else if header.len() < 18 {
+        Ok(FileType::Text)
     } else if header.starts_with(&[0x7f, b'E', b'L', b'F']) {
         if header.ends_with(&[ET_DYN as u8, ((ET_DYN & 0xff00) >> 8) as u8]) {
             Ok(FileType::ElfSharedLib)
-- 
2.43.0


From de5deb2d61d958b4e7f56b8d4c134ee00579861c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:47:25 +0000
Subject: [PATCH 34/47] fix: an incomplete output is never executable

---
 src/elf.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/elf.rs b/src/elf.rs
index 5550514..57faf50 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -176,6 +176,12 @@ pub struct Writer<'d> {
 impl<'d> Writer<'d> {
     pub fn new(options: &'d options::Options) -> std::io::Result<Self> {
         let out = File::create(options.output.as_path())?;
+        // an executable from an earlier link must not stay executable while it is incomplete
+        let mut perm = out.metadata()?.permissions();
+        if perm.mode() & 0o111 != 0 {
+            perm.set_mode(perm.mode() & !0o111);
+            out.set_permissions(perm)?;
+        }
         let eh = Header {
             #[rustfmt::skip]
             e_ident: [
-- 
2.43.0


From 91b07489cc64292da64475c650afc102d56546b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:48:49 +0000
Subject: [PATCH 35/47] fix: thread-local data has a segment and offsets

---
 src/elf.rs         | 138 +++++++++++++++++++++++++++++++++++++++------
 src/elf/chunk.rs   |  31 ++++++++--
 src/elf/section.rs |   7 ++-
 src/symbol.rs      |  11 ++++
 4 files changed, 163 insertions(+), 24 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 57faf50..1fdd370 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -3,12 +3,14 @@ use crate::{
 };
 use goblin::elf64::{
     header::{Header, ELFCLASS64, ELFDATA2LSB, ELFMAG, EM_X86_64, ET_EXEC, EV_CURRENT},
-    program_header::{ProgramHeader, PF_R, PF_W, PF_X, PT_DYNAMIC, PT_INTERP, PT_LOAD, PT_PHDR},
+    program_header::{
+        ProgramHeader, PF_R, PF_W, PF_X, PT_DYNAMIC, PT_INTERP, PT_LOAD, PT_PHDR, PT_TLS,
+    },
     reloc::{r_type, Rela, *},
     section_header::{
-        SectionHeader, SHF_ALLOC, SHF_EXECINSTR, SHF_WRITE, SHN_ABS, SHN_UNDEF, SHT_DYNAMIC,
-        SHT_DYNSYM, SHT_FINI_ARRAY, SHT_GNU_HASH, SHT_HASH, SHT_INIT_ARRAY, SHT_NOBITS,
-        SHT_PROGBITS, SHT_RELA, SHT_STRTAB,
+        SectionHeader, SHF_ALLOC, SHF_EXECINSTR, SHF_TLS, SHF_WRITE, SHN_ABS, SHN_UNDEF,
+        SHT_DYNAMIC, SHT_DYNSYM, SHT_FINI_ARRAY, SHT_GNU_HASH, SHT_HASH, SHT_INIT_ARRAY,
+        SHT_NOBITS, SHT_PROGBITS, SHT_RELA, SHT_STRTAB,
     },
     sym::Sym,
 };
@@ -65,6 +67,27 @@ impl std::fmt::Debug for SectionRef<'_> {
     }
 }
 
+/// The initial image of the thread-local data of the program.
+#[derive(Clone, Copy, Debug)]
+pub struct TlsSegment {
+    /// Where the image starts.
+    address: u64,
+    size: u64,
+    align: u64,
+}
+
+impl TlsSegment {
+    /// What the thread pointer would be if the image itself were the thread's copy: each
+    /// thread's copy of the data ends right in front of its thread pointer.
+    pub fn thread_pointer(&self) -> u64 {
+        self.address + round_to(self.size, self.align)
+    }
+
+    pub fn address(&self) -> u64 {
+        self.address
+    }
+}
+
 const PLT_ENTRY_JMP_INSTR_SIZE: isize = 6;
 const PLT_ENTRY_PUSH_INSTR_SIZE: usize = 5;
 // The PLT header is just as big.
@@ -156,6 +179,10 @@ pub struct Writer<'d> {
     p_vaddr: u64,
     start_p_vaddr: u64,
     file_offset: u64,
+    /// The image of the thread-local data.
+    tls: Option<TlsSegment>,
+    /// The offsets of the pairs of slots for TLSGD relocations in the `.got`.
+    tls_got: Vec<(SymbolRef, usize)>,
     shstr_section: SectionPtr<'d>,
     sym_str_section: SectionPtr<'d>,
     dyn_sym_str_section: SectionPtr<'d>,
@@ -368,6 +395,8 @@ impl<'d> Writer<'d> {
             p_vaddr: 0x200000,
             start_p_vaddr: 0x200000,
             file_offset: 0,
+            tls: None,
+            tls_got: vec![],
             shstr_section,
             sym_str_section,
             dyn_sym_str_section,
@@ -399,11 +428,17 @@ impl<'d> Writer<'d> {
             let message = "Section with the name of one of the linker's own.";
             return Err(ErrorType::Other(message.to_string()));
         }
+        // thread-local data is a single segment, whatever else is said about its sections
+        let sh_flags = if sh.sh_flags & SHF_TLS as u64 != 0 {
+            (SHF_ALLOC | SHF_WRITE | SHF_TLS) as u64
+        } else {
+            sh.sh_flags
+        };
         let (section, chunk) = if entry.new {
             let sh = SectionHeader {
                 sh_name: entry.offset as u32,
                 sh_type: sh.sh_type,
-                sh_flags: sh.sh_flags as u64,
+                sh_flags,
                 sh_size: sh.sh_size,
                 sh_link: sh.sh_link,
                 sh_info: sh.sh_info,
@@ -425,7 +460,7 @@ impl<'d> Writer<'d> {
             section.sh_addralign = std::cmp::max(section.sh_addralign, sh.sh_addralign);
             // the output section needs the permissions of all its inputs, and space in the file
             // if any of them has contents
-            section.sh_flags |= sh.sh_flags;
+            section.sh_flags |= sh_flags;
             if section.sh_type == SHT_NOBITS {
                 section.sh_type = sh.sh_type;
             }
@@ -538,9 +573,10 @@ impl<'d> Writer<'d> {
         let mut common = vec![];
         for (st_name, sym) in as_mut_sym_tab(&self.sym_section).named_mut() {
             if sym.is_common() {
+                let tls = if sym.is_tls() { SHF_TLS } else { 0 };
                 let sh = goblin::elf::SectionHeader {
                     sh_type: SHT_NOBITS,
-                    sh_flags: (SHF_ALLOC | SHF_WRITE) as u64,
+                    sh_flags: (SHF_ALLOC | SHF_WRITE | tls) as u64,
                     sh_size: sym.st_size,
                     // the value of a common symbol is its alignment
                     sh_addralign: sym.st_value,
@@ -552,7 +588,8 @@ impl<'d> Writer<'d> {
         }
         common.sort_by_key(|(sym_ref, _)| sym_ref.st_name());
         for (sym_ref, sh) in common {
-            let bss = self.push_section(".bss", &sh, None).unwrap();
+            let name = if sh.sh_flags & SHF_TLS as u64 != 0 { ".tbss" } else { ".bss" };
+            let bss = self.push_section(name, &sh, None).unwrap();
             bss.section.write().chunk_mut(bss.chunk).add_symbol(sym_ref);
         }
     }
@@ -824,7 +861,8 @@ impl<'d> Writer<'d> {
             let mut data = Vec::with_capacity(section.sh_size as usize);
             for rel in rels {
                 match r_type(rel.r_info) {
-                    R_X86_64_GLOB_DAT => rel.r_offset += got_addr,
+                    R_X86_64_GLOB_DAT | R_X86_64_TPOFF64 | R_X86_64_DTPMOD64
+                    | R_X86_64_DTPOFF64 => rel.r_offset += got_addr,
                     R_X86_64_JUMP_SLOT => rel.r_offset += got_plt_addr,
                     R_X86_64_COPY => rel.r_offset += copy_rel_addr,
                     _ => {}
@@ -858,15 +896,21 @@ impl<'d> Writer<'d> {
                         | R_X86_64_GOTPC32
                         | R_X86_64_GOTPCRELX
                         | R_X86_64_REX_GOTPCRELX
-                        | R_X86_64_TLSGD
                         | R_X86_64_GOTTPOFF => {
                             let sym = symbols.get_mut(*sym_ref).unwrap();
                             if sym.got_offset().is_none() {
                                 sym.set_got_offset(self.got_len * size_of::<u64>());
                                 self.got.push((*sym_ref, self.got_len * size_of::<u64>()));
-                                // For TLSGD relocations we need to allocate two slots
-                                self.got_len +=
-                                    if sym.is_tls() && r_type == R_X86_64_TLSGD { 2 } else { 1 };
+                                self.got_len += 1;
+                            }
+                        }
+                        R_X86_64_TLSGD => {
+                            let sym = symbols.get_mut(*sym_ref).unwrap();
+                            if sym.tlsgd_offset().is_none() {
+                                sym.set_tlsgd_offset(self.got_len * size_of::<u64>());
+                                self.tls_got.push((*sym_ref, self.got_len * size_of::<u64>()));
+                                // the module and the offset within its thread-local data
+                                self.got_len += 2;
                             }
                         }
                         R_X86_64_PLT32 | R_X86_64_64 | R_X86_64_32 | R_X86_64_32S
@@ -945,10 +989,16 @@ impl<'d> Writer<'d> {
                 symbols.sorted_mut().into_iter().filter_map(|s| s.dynamic().map(|d| (s, d)))
             {
                 let index = dyn_sym_indices[&dyn_sym.st_name()];
+                let dyn_symbol = &mut dyn_syms.get_mut(dyn_sym).unwrap();
                 if let Some(offset) = sym.got_offset() {
-                    self.dyn_rels.push(rela(offset, index, R_X86_64_GLOB_DAT));
+                    let tls = dyn_symbol.is_tls();
+                    let r_type = if tls { R_X86_64_TPOFF64 } else { R_X86_64_GLOB_DAT };
+                    self.dyn_rels.push(rela(offset, index, r_type));
+                }
+                if let Some(offset) = sym.tlsgd_offset() {
+                    self.dyn_rels.push(rela(offset, index, R_X86_64_DTPMOD64));
+                    self.dyn_rels.push(rela(offset + size_of::<u64>(), index, R_X86_64_DTPOFF64));
                 }
-                let dyn_symbol = &mut dyn_syms.get_mut(dyn_sym).unwrap();
                 if dyn_symbol.is_object() {
                     let size = dyn_symbol.st_size;
                     let offset = self
@@ -1010,12 +1060,27 @@ impl<'d> Writer<'d> {
         for (sym_ref, offset) in &self.got {
             let sym = symbols.get(*sym_ref).unwrap();
             if sym.dynamic().is_none() {
+                // the slot of a thread-local symbol holds its offset from the thread pointer
+                let tp = match self.tls {
+                    Some(tls) if sym.is_tls() => tls.thread_pointer(),
+                    _ => 0,
+                };
                 got_section.chunk_mut(0)[*offset..]
                     .as_mut()
-                    .write_u64::<LittleEndian>(sym.st_value)
+                    .write_u64::<LittleEndian>(sym.st_value.wrapping_sub(tp))
                     .unwrap();
             }
         }
+        for (sym_ref, offset) in &self.tls_got {
+            let sym = symbols.get(*sym_ref).unwrap();
+            if sym.dynamic().is_none() {
+                let start = self.tls.map_or(0, |tls| tls.address());
+                let mut slots = got_section.chunk_mut(0)[*offset..].as_mut();
+                // the program itself is always the first module
+                slots.write_u64::<LittleEndian>(1).unwrap();
+                slots.write_u64::<LittleEndian>(sym.st_value.wrapping_sub(start)).unwrap();
+            }
+        }
         drop(got_section);
         for section in
             &mut self.sections.iter_mut().skip(1).filter(|s| !sh_names.contains(&s.read().sh_name))
@@ -1025,11 +1090,21 @@ impl<'d> Writer<'d> {
                     got_address,
                     got_plt_address,
                     plt_address,
+                    self.tls,
                     &symbols,
                     &dyn_symbols,
                 );
             }
         }
+        drop(symbols);
+        // the value of a thread-local symbol is its offset within the thread-local data
+        if let Some(tls) = self.tls {
+            for sym in as_mut_sym_tab(&self.sym_section).sorted_mut() {
+                if sym.is_tls() && !sym.is_undefined() {
+                    sym.st_value = sym.st_value.wrapping_sub(tls.address());
+                }
+            }
+        }
     }
 
     // elf header
@@ -1147,8 +1222,9 @@ impl<'d> Writer<'d> {
                 flags = sh.sh_flags;
             }
         }
+        let tls = self.sections.iter().any(|s| s.read().is_tls());
         // 3 == INTERP, DYNAMIC, PHDR
-        count + 3
+        count + 3 + tls as usize
     }
 
     fn generate_program_headers(&mut self) {
@@ -1157,8 +1233,15 @@ impl<'d> Writer<'d> {
         let mut first_load_data = Some(program_headers_size + size_of::<Header>() as u64);
         let mut flags = 0;
         let mut program_header = None;
+        // the first section of the thread-local data is aligned like all of it
+        let tls_align =
+            self.sections.iter().filter(|s| s.read().is_tls()).map(|s| s.read().sh_addralign).max();
+        let mut tls_header: Option<ProgramHeader> = None;
         for sh in self.sections.iter_mut().skip(1) {
             let mut sh = sh.write();
+            if let (true, None, Some(align)) = (sh.is_tls(), tls_header, tls_align) {
+                sh.sh_addralign = align;
+            }
             if sh.sh_flags != flags {
                 // push old program header
                 if let Some(ph) = program_header.take() {
@@ -1190,6 +1273,22 @@ impl<'d> Writer<'d> {
                 self.file_offset = round_to(self.file_offset, sh.sh_addralign);
             }
             sh.sh_offset = post_inc(&mut self.file_offset, sh.size_on_disk());
+            if sh.is_tls() {
+                let ph = tls_header.get_or_insert(ProgramHeader {
+                    p_type: PT_TLS,
+                    p_flags: PF_R,
+                    p_align: sh.sh_addralign,
+                    p_offset: sh.sh_offset,
+                    p_vaddr: sh.sh_addr,
+                    p_paddr: sh.sh_addr,
+                    p_filesz: 0,
+                    p_memsz: 0,
+                });
+                ph.p_memsz = sh.sh_addr + sh.sh_size - ph.p_vaddr;
+                if sh.sh_type != SHT_NOBITS {
+                    ph.p_filesz = ph.p_memsz;
+                }
+            }
             let sh = WGuard::downgrade(sh);
             if let Some(p_type) =
                 p_type(self.shstr_section.read().inner::<StringTable>().unwrap(), &*sh)
@@ -1211,6 +1310,11 @@ impl<'d> Writer<'d> {
                 )
             }
         }
+        if let Some(ph) = tls_header {
+            self.tls =
+                Some(TlsSegment { address: ph.p_vaddr, size: ph.p_memsz, align: ph.p_align });
+            self.program_headers.insert(0, ph);
+        }
         self.program_headers.insert(
             0,
             ProgramHeader {
diff --git a/src/elf/chunk.rs b/src/elf/chunk.rs
index c607f28..c16021a 100644
--- a/src/elf/chunk.rs
+++ b/src/elf/chunk.rs
@@ -5,7 +5,7 @@ use goblin::elf64::{
 };
 use std::{collections::HashSet, convert::TryInto, io::Write};
 
-use crate::elf::{plt_entry_addr, SymbolRef, SymbolTable};
+use crate::elf::{plt_entry_addr, SymbolRef, SymbolTable, TlsSegment};
 
 /// A part of a section.
 pub struct Chunk {
@@ -60,6 +60,7 @@ impl Chunk {
         got_address: u64,
         got_plt_address: u64,
         plt_address: u64,
+        tls: Option<TlsSegment>,
         table: &SymbolTable,
         dyn_table: &SymbolTable,
     ) {
@@ -73,6 +74,7 @@ impl Chunk {
                 got_address,
                 got_plt_address,
                 plt_address,
+                tls,
             );
         }
     }
@@ -115,6 +117,7 @@ fn apply_relocation(
     got_address: u64,
     got_plt_address: u64,
     plt_address: u64,
+    tls: Option<TlsSegment>,
 ) {
     // e.g. `stderr` will be undefined, but we might reference it. Since
     // `stderr` is an object, we will know its address at runtime because
@@ -125,6 +128,10 @@ fn apply_relocation(
         }
         _ => symbol.st_value.try_into().unwrap(),
     };
+    let is_tls = match symbol.dynamic() {
+        Some(dyn_sym) => dyn_table.get(dyn_sym).unwrap().is_tls(),
+        None => symbol.is_tls(),
+    };
     let a = rel.r_addend;
     let p: i64 = (chunk_address + rel.r_offset).try_into().unwrap();
     let _z = symbol.st_size;
@@ -210,22 +217,34 @@ fn apply_relocation(
             };
         }
         R_X86_64_TLSGD => {
-            assert!(symbol.is_tls());
-            let got_offset = symbol.got_offset().unwrap();
+            assert!(is_tls);
+            let got_offset = symbol.tlsgd_offset().unwrap();
             let value = got_offset as i64 + got + a - p;
             (&mut data[offset..]).write_i32::<LittleEndian>(value.try_into().unwrap()).unwrap();
         }
         R_X86_64_GOTTPOFF => {
-            assert!(symbol.is_tls());
+            assert!(is_tls);
             let got_offset = symbol.got_offset().unwrap();
             let value = got_offset as i64 + got + a - p;
             (&mut data[offset..]).write_i32::<LittleEndian>(value.try_into().unwrap()).unwrap();
         }
         R_X86_64_TPOFF32 => {
-            assert!(symbol.is_tls());
-            let value = s + a;
+            // the thread-local data of libraries is not at a fixed offset
+            assert!(is_tls && symbol.dynamic().is_none());
+            let tp = tls.map_or(0, |tls| tls.thread_pointer()) as i64;
+            let value = s + a - tp;
             (&mut data[offset..]).write_i32::<LittleEndian>(value.try_into().unwrap()).unwrap();
         }
+        R_X86_64_DTPOFF64 | R_X86_64_DTPOFF32 => {
+            assert!(is_tls && symbol.dynamic().is_none());
+            let value = s + a - tls.map_or(0, |tls| tls.address()) as i64;
+            let mut data = &mut data[offset..];
+            if r_type(rel.r_info) == R_X86_64_DTPOFF64 {
+                data.write_i64::<LittleEndian>(value).unwrap();
+            } else {
+                data.write_i32::<LittleEndian>(value.try_into().unwrap()).unwrap();
+            }
+        }
         R_X86_64_PLT32 => {
             let l: i64 = plt_entry_addr(plt_address, l.unwrap());
             let value = l + a - p;
diff --git a/src/elf/section.rs b/src/elf/section.rs
index fff8a67..8983a13 100644
--- a/src/elf/section.rs
+++ b/src/elf/section.rs
@@ -6,7 +6,7 @@ use crate::elf::{
     SymbolRef,
 };
 
-use goblin::elf64::section_header::{SectionHeader, SHT_NOBITS};
+use goblin::elf64::section_header::{SectionHeader, SHF_TLS, SHT_NOBITS};
 use parking_lot::RwLock;
 use std::sync::Arc;
 
@@ -183,6 +183,11 @@ impl<'p> Section<'p> {
         }
     }
 
+    /// Whether the section is part of the thread-local data.
+    pub fn is_tls(&self) -> bool {
+        self.sh.sh_flags & SHF_TLS as u64 != 0
+    }
+
     pub fn chunks(&self) -> &[Chunk] {
         &self.chunks[..]
     }
diff --git a/src/symbol.rs b/src/symbol.rs
index 06780be..82e8d5f 100644
--- a/src/symbol.rs
+++ b/src/symbol.rs
@@ -17,6 +17,7 @@ pub struct Symbol<'r> {
     gnu_hash: u32,
     reference: &'r Path,
     in_got: Option<usize>,
+    tlsgd_in_got: Option<usize>,
     in_plt: Option<usize>,
     address_in_plt: bool,
     in_got_plt: Option<usize>,
@@ -32,6 +33,7 @@ impl<'r> Symbol<'r> {
             hash,
             gnu_hash,
             in_got: None,
+            tlsgd_in_got: None,
             in_plt: None,
             address_in_plt: false,
             in_got_plt: None,
@@ -84,6 +86,15 @@ impl<'r> Symbol<'r> {
         self.in_got
     }
 
+    /// The offset of the two slots that TLSGD relocations refer to.
+    pub const fn tlsgd_offset(&self) -> Option<usize> {
+        self.tlsgd_in_got
+    }
+
+    pub fn set_tlsgd_offset(&mut self, offset: usize) {
+        self.tlsgd_in_got = Some(offset);
+    }
+
     pub const fn got_plt_offset(&self) -> Option<usize> {
         self.in_got_plt
     }
-- 
2.43.0


From cb1902b3313e7b98facc840c99ed57064bb8acef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:48:49 +0000
Subject: [PATCH 36/47] fix: libraries use the definitions and copies of the
 program

---
 src/elf.rs          | 99 +++++++++++++++++++++++++++++++++++++++++----
 src/elf/copy_rel.rs |  7 ++++
 src/lib.rs          | 50 ++++++++++++++++++++++-
 src/symbol.rs       |  7 +++-
 4 files changed, 152 insertions(+), 11 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 1fdd370..1c84bfb 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -179,6 +179,10 @@ pub struct Writer<'d> {
     p_vaddr: u64,
     start_p_vaddr: u64,
     file_offset: u64,
+    /// Symbols of the program which libraries use, and their entries in `.dynsym`.
+    exports: Vec<(SymbolRef, SymbolRef)>,
+    /// Further names of objects of libraries, and the names these are used by.
+    dyn_aliases: Vec<(SymbolRef, SymbolRef)>,
     /// The image of the thread-local data.
     tls: Option<TlsSegment>,
     /// The offsets of the pairs of slots for TLSGD relocations in the `.got`.
@@ -395,6 +399,8 @@ impl<'d> Writer<'d> {
             p_vaddr: 0x200000,
             start_p_vaddr: 0x200000,
             file_offset: 0,
+            exports: vec![],
+            dyn_aliases: vec![],
             tls: None,
             tls_got: vec![],
             shstr_section,
@@ -558,6 +564,70 @@ impl<'d> Writer<'d> {
         r.map(|(r, _)| Some(r))
     }
 
+    /// Adds another name of an object of a library: if the object is copied, the library has to
+    /// find the copy by all of its names.
+    pub fn add_dyn_alias<'s>(
+        &mut self,
+        mut elf_sym: Sym,
+        name: &'s str,
+        of: &'s str,
+        reference: &'d Path,
+    ) -> Result<(), ErrorType> {
+        elf_sym.st_shndx = SHN_UNDEF as u16;
+        elf_sym.st_value = 0;
+        let mut names = self.dyn_sym_str_section.write();
+        let names = names.inner_mut::<StringTable>().unwrap();
+        let of = SymbolRef::Named(names.get(of.to_string()).unwrap().offset as u32);
+        if self.dyn_aliases.iter().any(|(alias, _)| *alias == of) {
+            return Ok(());
+        }
+        let (alias, _) = Self::add_symbol_inner(
+            elf_sym,
+            name,
+            reference,
+            names,
+            self.dyn_sym_section.write().inner_mut::<SymbolTable<'d>>().unwrap(),
+        )?;
+        self.dyn_aliases.push((alias, of));
+        Ok(())
+    }
+
+    /// Whether the program uses the definition of a library.
+    pub fn is_imported(&self, name: &str) -> bool {
+        let entry = as_str_tab(&self.sym_str_section).get(name.to_string()).map(|e| e.offset);
+        let symbols = as_sym_tab(&self.sym_section);
+        let sym = entry.and_then(|offset| symbols.get(SymbolRef::Named(offset as u32)));
+        sym.map_or(false, |s| s.dynamic().is_some())
+    }
+
+    /// Makes a symbol visible to libraries, if the program defines it.
+    pub fn export_symbol<'s>(
+        &mut self,
+        name: &'s str,
+        reference: &'d Path,
+    ) -> Result<(), ErrorType> {
+        let symbol_ref = match as_str_tab(&self.sym_str_section).get(name.to_string()) {
+            Some(entry) => SymbolRef::Named(entry.offset as u32),
+            None => return Ok(()),
+        };
+        let mut elf_sym = match as_sym_tab(&self.sym_section).get(symbol_ref) {
+            Some(s) if !s.is_undefined() && !s.is_hidden() => s.sym,
+            _ => return Ok(()),
+        };
+        // known once there are addresses
+        elf_sym.st_shndx = SHN_UNDEF as u16;
+        elf_sym.st_value = 0;
+        let (dyn_ref, _) = Self::add_symbol_inner(
+            elf_sym,
+            name,
+            reference,
+            self.dyn_sym_str_section.write().inner_mut::<StringTable>().unwrap(),
+            self.dyn_sym_section.write().inner_mut::<SymbolTable<'d>>().unwrap(),
+        )?;
+        self.exports.push((symbol_ref, dyn_ref));
+        Ok(())
+    }
+
     pub fn symbol_name(&self, sym: SymbolRef) -> Option<MapRGuard<str>> {
         if let SymbolRef::Named(st_name) = sym {
             Some(MapRGuard::map(as_str_tab(&self.sym_str_section), |s| {
@@ -1000,20 +1070,25 @@ impl<'d> Writer<'d> {
                     self.dyn_rels.push(rela(offset + size_of::<u64>(), index, R_X86_64_DTPOFF64));
                 }
                 if dyn_symbol.is_object() {
-                    let size = dyn_symbol.st_size;
-                    let offset = self
-                        .copy_rel_section
-                        .write()
-                        .inner_mut::<CopyRel>()
-                        .unwrap()
-                        .insert(dyn_sym, size);
-                    self.dyn_rels.push(rela(offset as usize, index, R_X86_64_COPY));
+                    let mut copy_rel = self.copy_rel_section.write();
+                    let copy_rel = copy_rel.inner_mut::<CopyRel>().unwrap();
+                    // all the names of an object are about a single copy
+                    let alias = self.dyn_aliases.iter().find(|(alias, _)| *alias == dyn_sym);
+                    let object = alias.map_or(dyn_sym, |(_, of)| *of);
+                    if !copy_rel.slots().contains_key(&object) {
+                        let offset = copy_rel.insert(object, dyn_symbol.st_size);
+                        self.dyn_rels.push(rela(offset as usize, index, R_X86_64_COPY));
+                    }
                 }
                 if let Some(offset) = sym.got_plt_offset() {
                     sym.set_relocation_offset(self.plt_rels.len());
                     self.plt_rels.push(rela(offset, index, R_X86_64_JUMP_SLOT));
                 }
             }
+            for (alias, of) in &self.dyn_aliases {
+                let mut copy_rel = self.copy_rel_section.write();
+                copy_rel.inner_mut::<CopyRel>().unwrap().share(*alias, *of);
+            }
             // now that every slot is known
             self.copy_rel_section.write().expand();
             self.dyn_rel_section.write().sh_size = (self.dyn_rels.len() * size_of::<Rela>()) as u64;
@@ -1097,6 +1172,7 @@ impl<'d> Writer<'d> {
             }
         }
         drop(symbols);
+        drop(dyn_symbols);
         // the value of a thread-local symbol is its offset within the thread-local data
         if let Some(tls) = self.tls {
             for sym in as_mut_sym_tab(&self.sym_section).sorted_mut() {
@@ -1105,6 +1181,13 @@ impl<'d> Writer<'d> {
                 }
             }
         }
+        let symbols = as_sym_tab(&self.sym_section);
+        let mut dyn_symbols = as_mut_sym_tab(&self.dyn_sym_section);
+        for (sym, dyn_sym) in &self.exports {
+            let dyn_sym = dyn_symbols.get_mut(*dyn_sym).unwrap();
+            // a library might have had one too
+            dyn_sym.sym = Sym { st_name: dyn_sym.st_name, ..symbols[*sym].sym };
+        }
     }
 
     // elf header
diff --git a/src/elf/copy_rel.rs b/src/elf/copy_rel.rs
index 8abecb8..da1e51e 100644
--- a/src/elf/copy_rel.rs
+++ b/src/elf/copy_rel.rs
@@ -27,6 +27,13 @@ impl CopyRel {
         offset
     }
 
+    /// Lets a symbol use the slot of another one, if that has any.
+    pub fn share(&mut self, sym: SymbolRef, of: SymbolRef) {
+        if let Some(offset) = self.slots.get(&of).copied() {
+            self.slots.insert(sym, offset);
+        }
+    }
+
     pub fn slots(&self) -> &HashMap<SymbolRef, u64> {
         &self.slots
     }
diff --git a/src/lib.rs b/src/lib.rs
index 9bdeaad..c2f9d87 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -16,11 +16,11 @@ use goblin::{
             SectionHeader, SHN_ABS, SHN_COMMON, SHT_DYNAMIC, SHT_DYNSYM, SHT_NULL, SHT_REL,
             SHT_RELA, SHT_SHLIB, SHT_STRTAB, SHT_SYMTAB,
         },
-        sym::Sym,
+        sym::{Sym, STB_LOCAL, STT_OBJECT},
     },
 };
 use std::{
-    collections::HashMap,
+    collections::{HashMap, HashSet},
     fs::read,
     mem::size_of,
     path::{Path, PathBuf},
@@ -177,6 +177,47 @@ impl Linker {
         Ok(undefines.into_iter().map(|(k, _)| k).collect())
     }
 
+    /// Libraries have to use the definitions and the copies of the program, by whatever name they
+    /// know them.
+    fn export_symbols<'o>(
+        &'o self,
+        needed: &[Option<String>],
+        writer: &mut elf::Writer<'o>,
+    ) -> Result<(), Error<'o>> {
+        let mut defined = HashSet::new();
+        for ((lib, _), needed) in self.options.shared_libs.iter().zip(needed) {
+            if needed.is_none() {
+                continue;
+            }
+            let path = lib.as_path();
+            let data = read(path).map_path_err(path)?;
+            let elf = Elf::parse(&data).map_path_err(path)?;
+            let mut objects = vec![];
+            for sym in elf.dynsyms.iter().filter(|s| s.st_bind() != STB_LOCAL) {
+                let name = get_dyn_symbol_name(&elf, sym.st_name).map_path_err(path)?;
+                writer.export_symbol(name, path).map_path_err(path)?;
+                // the first library that defines a symbol provides it
+                if sym.st_shndx != 0 && defined.insert(name.to_string()) && is_object(&sym) {
+                    objects.push((sym, name));
+                }
+            }
+            for (sym, name) in &objects {
+                if !writer.is_imported(name) {
+                    continue;
+                }
+                let place = (sym.st_shndx, sym.st_value);
+                for (alias, alias_name) in &objects {
+                    if alias_name != name && (alias.st_shndx, alias.st_value) == place {
+                        writer
+                            .add_dyn_alias((*alias).into(), alias_name, name, path)
+                            .map_path_err(path)?;
+                    }
+                }
+            }
+        }
+        Ok(())
+    }
+
     fn process_archives_containing<'o>(
         &'o self,
         symbols: &[elf::SymbolRef],
@@ -259,6 +300,7 @@ impl Linker {
                 undefined = writer.undefined_symbols();
             }
         }
+        self.export_symbols(&needed, &mut writer)?;
         // in the order of the command line, no matter which one turned out to be needed first
         for so_name in needed.iter().flatten() {
             writer.add_needed(so_name);
@@ -281,6 +323,10 @@ impl Linker {
     }
 }
 
+fn is_object(sym: &goblin::elf::Sym) -> bool {
+    sym.st_type() == STT_OBJECT
+}
+
 fn check_target(elf: &Elf) -> Result<(), String> {
     if elf.is_64 && elf.little_endian && elf.header.e_machine == EM_X86_64 {
         Ok(())
diff --git a/src/symbol.rs b/src/symbol.rs
index 82e8d5f..b91a7de 100644
--- a/src/symbol.rs
+++ b/src/symbol.rs
@@ -7,7 +7,7 @@ use std::{
 
 use goblin::elf64::{
     section_header::{SHN_COMMON, SHN_UNDEF},
-    sym::{Sym, STB_GLOBAL, STB_LOCAL, STB_WEAK, STT_OBJECT, STT_TLS},
+    sym::{Sym, STB_GLOBAL, STB_LOCAL, STB_WEAK, STT_OBJECT, STT_TLS, STV_HIDDEN, STV_INTERNAL},
 };
 
 #[derive(Debug, Clone, Copy)]
@@ -78,6 +78,11 @@ impl<'r> Symbol<'r> {
         self.sym.st_shndx == SHN_COMMON as u16
     }
 
+    /// Whether libraries can't use the symbol.
+    pub const fn is_hidden(&self) -> bool {
+        matches!(self.sym.st_other & 3, STV_HIDDEN | STV_INTERNAL)
+    }
+
     pub const fn reference(&self) -> &Path {
         self.reference
     }
-- 
2.43.0


From baaad0fb4c3a3bf2ee5b6a4cf0dca0775f9b6ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:48:49 +0000
Subject: [PATCH 37/47] fix: --eh-frame-hdr creates .eh_frame_hdr

---
 src/elf.rs          |  78 +++++++++++++++++++++--
 src/elf/eh_frame.rs | 147 ++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 219 insertions(+), 6 deletions(-)
 create mode 100644 src/elf/eh_frame.rs

diff --git a/src/elf.rs b/src/elf.rs
index 1c84bfb..a41c56c 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -4,7 +4,8 @@ use crate::{
 use goblin::elf64::{
     header::{Header, ELFCLASS64, ELFDATA2LSB, ELFMAG, EM_X86_64, ET_EXEC, EV_CURRENT},
     program_header::{
-        ProgramHeader, PF_R, PF_W, PF_X, PT_DYNAMIC, PT_INTERP, PT_LOAD, PT_PHDR, PT_TLS,
+        ProgramHeader, PF_R, PF_W, PF_X, PT_DYNAMIC, PT_GNU_EH_FRAME, PT_INTERP, PT_LOAD, PT_PHDR,
+        PT_TLS,
     },
     reloc::{r_type, Rela, *},
     section_header::{
@@ -36,6 +37,8 @@ pub use copy_rel::CopyRel;
 mod options;
 pub use options::*;
 
+mod eh_frame;
+
 mod section;
 pub use section::{Section, SectionPtr};
 mod plt;
@@ -202,6 +205,7 @@ pub struct Writer<'d> {
     gnu_hash_section: Option<SectionPtr<'d>>,
     // holds the space required by COPY relocations
     copy_rel_section: SectionPtr<'d>,
+    eh_frame_hdr_section: Option<SectionPtr<'d>>,
 }
 
 impl<'d> Writer<'d> {
@@ -347,6 +351,17 @@ impl<'d> Writer<'d> {
                 .synthetic(CopyRel::default())
                 .build();
 
+        let mut eh_frame_hdr_section = None;
+        if options.eh_frame_hdr {
+            eh_frame_hdr_section = Some(Section::new(SectionHeader {
+                sh_name: section_names.get_or_create(".eh_frame_hdr").offset as u32,
+                sh_type: SHT_PROGBITS,
+                sh_flags: SHF_ALLOC as u64,
+                sh_addralign: size_of::<u32>() as u64,
+                ..Default::default()
+            }));
+        }
+
         let null_section = Section::new(Default::default());
         let shstr_section = Section::builder(Default::default()).synthetic(section_names).build();
         let got_section = Section::new(got_sh);
@@ -382,6 +397,9 @@ impl<'d> Writer<'d> {
         if let Some(s) = gnu_hash_section.clone() {
             sections.push(s)
         }
+        if let Some(s) = eh_frame_hdr_section.clone() {
+            sections.push(s)
+        }
 
         Ok(Self {
             out,
@@ -417,6 +435,7 @@ impl<'d> Writer<'d> {
             hash_section,
             gnu_hash_section,
             copy_rel_section,
+            eh_frame_hdr_section,
         })
     }
 
@@ -1020,9 +1039,48 @@ impl<'d> Writer<'d> {
         }
     }
 
+    fn eh_frame_section(&self) -> Option<SectionPtr<'d>> {
+        let name = as_str_tab(&self.shstr_section).sh_name(".eh_frame")?;
+        let mut sections =
+            self.sections.iter().filter(|s| s.read().sh_flags as u32 & SHF_ALLOC != 0);
+        sections.find(|s| s.read().sh_name == name).cloned()
+    }
+
+    /// Makes space for a table of everything in `.eh_frame`.
+    fn resize_eh_frame_hdr(&mut self) {
+        if let (Some(hdr), Some(eh_frame)) = (&self.eh_frame_hdr_section, self.eh_frame_section()) {
+            let fdes = eh_frame
+                .read()
+                .chunks()
+                .iter()
+                .map(|c| eh_frame::fdes(c))
+                .collect::<Option<Vec<_>>>();
+            let len = fdes.map(|fdes| fdes.iter().map(Vec::len).sum());
+            hdr.write().sh_size = eh_frame::header_size(len) as u64;
+        }
+    }
+
+    fn fill_eh_frame_hdr(&mut self) {
+        if let (Some(hdr), Some(eh_frame)) = (&self.eh_frame_hdr_section, self.eh_frame_section()) {
+            let eh_frame = eh_frame.read();
+            let table = eh_frame.chunks().iter().map(|chunk| {
+                let address = chunk.address().unwrap();
+                let entry =
+                    |fde: eh_frame::Fde| (fde.pc(chunk, address), address + fde.offset as u64);
+                Some(eh_frame::fdes(chunk)?.into_iter().map(entry).collect::<Vec<_>>())
+            });
+            let table = table.collect::<Option<Vec<_>>>().map(|table| table.concat());
+            let mut hdr = hdr.write();
+            let data = eh_frame::header(hdr.sh_addr, eh_frame.sh_addr, table);
+            hdr.add_chunk(data.into());
+        }
+    }
+
     fn assign_section_addresses(&mut self) {
         self.scan_relocations();
 
+        self.resize_eh_frame_hdr();
+
         self.resize_got_section();
         self.resize_got_plt_section();
 
@@ -1205,6 +1263,8 @@ impl<'d> Writer<'d> {
 
         self.handle_relocations();
 
+        self.fill_eh_frame_hdr();
+
         self.compute_tables();
 
         if let Some(entry) =
@@ -1306,8 +1366,11 @@ impl<'d> Writer<'d> {
             }
         }
         let tls = self.sections.iter().any(|s| s.read().is_tls());
-        // 3 == INTERP, DYNAMIC, PHDR
-        count + 3 + tls as usize
+        // the ones of INTERP, DYNAMIC and GNU_EH_FRAME
+        let names = as_str_tab(&self.shstr_section);
+        let special = self.sections.iter().filter(|s| p_type(&names, &s.read()).is_some()).count();
+        // 1 == PHDR
+        count + 1 + tls as usize + special
     }
 
     fn generate_program_headers(&mut self) {
@@ -1377,7 +1440,7 @@ impl<'d> Writer<'d> {
                 p_type(self.shstr_section.read().inner::<StringTable>().unwrap(), &*sh)
             {
                 let write = if sh.sh_flags as u32 & SHF_WRITE == SHF_WRITE { PF_W } else { 0 };
-                // for .interp or .dynamic we have some extra program headers we want to generate
+                // for some sections, like .interp or .dynamic, we have some extra program headers we want to generate
                 self.program_headers.insert(
                     0,
                     ProgramHeader {
@@ -1522,8 +1585,11 @@ fn try_add_dyn_entries(entries: &mut Vec<(DynTag, u64)>, names: &StringTable, sh
 fn p_type(names: &StringTable, sh: &SectionHeader) -> Option<u32> {
     match sh.sh_type {
         SHT_DYNAMIC => Some(PT_DYNAMIC),
-        _ if names.name(sh.sh_name as usize).unwrap() as &str == ".interp" => Some(PT_INTERP),
-        _ => None,
+        _ => match names.name(sh.sh_name as usize).unwrap() as &str {
+            ".interp" => Some(PT_INTERP),
+            ".eh_frame_hdr" if sh.sh_size > 0 => Some(PT_GNU_EH_FRAME),
+            _ => None,
+        },
     }
 }
 
diff --git a/src/elf/eh_frame.rs b/src/elf/eh_frame.rs
new file mode 100644
index 0000000..a7e745e
--- /dev/null
+++ b/src/elf/eh_frame.rs
@@ -0,0 +1,147 @@
+use byteorder::{LittleEndian, ReadBytesExt, WriteBytesExt};
+use std::{collections::HashMap, convert::TryInto, io::Read};
+
+// encodings of pointers
+const DW_EH_PE_PCREL: u8 = 0x10;
+const DW_EH_PE_UDATA4: u8 = 0x03;
+const DW_EH_PE_PCREL_SDATA4: u8 = 0x1b;
+const DW_EH_PE_DATAREL_SDATA4: u8 = 0x3b;
+const DW_EH_PE_OMIT: u8 = 0xff;
+
+/// The size of `.eh_frame_hdr` without its table.
+const HEADER_SIZE: usize = 8;
+
+/// A description of how to unwind the stack in a function.
+#[derive(Debug, Clone, Copy)]
+pub struct Fde {
+    /// Where the description is.
+    pub offset: usize,
+    /// Where the address of the function is.
+    pc_offset: usize,
+    pc_encoding: u8,
+}
+
+impl Fde {
+    /// The address of the function, which is described by `data` at `address`.
+    pub fn pc(&self, data: &[u8], address: u64) -> u64 {
+        let mut field = &data[self.pc_offset..];
+        let value = match self.pc_encoding & 0xf {
+            0x2 => field.read_u16::<LittleEndian>().unwrap() as u64,
+            0x3 => field.read_u32::<LittleEndian>().unwrap() as u64,
+            0xa => field.read_i16::<LittleEndian>().unwrap() as u64,
+            0xb => field.read_i32::<LittleEndian>().unwrap() as u64,
+            _ => field.read_u64::<LittleEndian>().unwrap(),
+        };
+        if self.pc_encoding & DW_EH_PE_PCREL != 0 {
+            value.wrapping_add(address + self.pc_offset as u64)
+        } else {
+            value
+        }
+    }
+}
+
+/// The size of an encoded pointer.
+fn pointer_size(encoding: u8) -> Option<usize> {
+    match encoding & 0xf {
+        0x0 | 0x4 | 0xc => Some(8),
+        0x2 | 0xa => Some(2),
+        0x3 | 0xb => Some(4),
+        _ => None,
+    }
+}
+
+fn skip_leb128(data: &mut &[u8]) -> Option<()> {
+    while data.read_u8().ok()? & 0x80 != 0 {}
+    Some(())
+}
+
+/// Returns the encoding of the addresses in descriptions that use a CIE.
+fn pc_encoding(mut cie: &[u8]) -> Option<u8> {
+    let version = cie.read_u8().ok()?;
+    let augmentation = cie.split(|b| *b == 0).next()?;
+    cie = cie.get(augmentation.len() + 1..)?;
+    // the alignment factors, and the column of the return address
+    skip_leb128(&mut cie)?;
+    skip_leb128(&mut cie)?;
+    match version {
+        1 => drop(cie.read_u8().ok()?),
+        3 => skip_leb128(&mut cie)?,
+        _ => return None,
+    }
+    let mut encoding = 0;
+    for c in augmentation {
+        match c {
+            b'z' => skip_leb128(&mut cie)?,
+            b'L' => drop(cie.read_u8().ok()?),
+            b'P' => {
+                let size = pointer_size(cie.read_u8().ok()?)?;
+                cie.read_exact(&mut [0; 8][..size]).ok()?;
+            }
+            b'R' => encoding = cie.read_u8().ok()?,
+            b'S' | b'B' => {}
+            _ => return None,
+        }
+    }
+    // absolute, or relative to where it is
+    match encoding & 0xf0 {
+        0 | DW_EH_PE_PCREL => Some(encoding),
+        _ => None,
+    }
+}
+
+/// Finds the descriptions of a `.eh_frame` section, unless it contains something unknown.
+pub fn fdes(data: &[u8]) -> Option<Vec<Fde>> {
+    let mut fdes = vec![];
+    let mut encodings = HashMap::new();
+    let mut offset = 0;
+    while offset < data.len() {
+        let mut entry = data.get(offset..)?;
+        let length = entry.read_u32::<LittleEndian>().ok()? as usize;
+        // the field that says what kind of entry it is
+        let id_offset = offset + 4;
+        let start = offset;
+        offset = id_offset + length;
+        // what ends a section here doesn't end the others
+        if length == 0 {
+            continue;
+        }
+        entry = entry.get(..length)?;
+        let id = entry.read_u32::<LittleEndian>().ok()? as usize;
+        if id == 0 {
+            encodings.insert(start, pc_encoding(entry)?);
+        } else {
+            let pc_encoding = *encodings.get(&id_offset.checked_sub(id)?)?;
+            if entry.len() < pointer_size(pc_encoding)? {
+                return None;
+            }
+            fdes.push(Fde { offset: start, pc_offset: id_offset + 4, pc_encoding });
+        }
+    }
+    Some(fdes)
+}
+
+/// The size of a `.eh_frame_hdr` section.
+pub fn header_size(fdes: Option<usize>) -> usize {
+    fdes.map_or(HEADER_SIZE, |len| HEADER_SIZE + 4 + len * 8)
+}
+
+/// The contents of a `.eh_frame_hdr` section. The table contains the addresses of functions, and
+/// those of their descriptions.
+pub fn header(address: u64, eh_frame: u64, table: Option<Vec<(u64, u64)>>) -> Vec<u8> {
+    let relative = |to: u64, from: u64| -> i32 { (to as i64 - from as i64).try_into().unwrap() };
+    let mut data = vec![1, DW_EH_PE_PCREL_SDATA4];
+    data.extend(match table {
+        Some(_) => [DW_EH_PE_UDATA4, DW_EH_PE_DATAREL_SDATA4],
+        None => [DW_EH_PE_OMIT, DW_EH_PE_OMIT],
+    });
+    data.write_i32::<LittleEndian>(relative(eh_frame, address + 4)).unwrap();
+    if let Some(mut table) = table {
+        table.sort_unstable();
+        data.write_u32::<LittleEndian>(table.len() as u32).unwrap();
+        for (pc, fde) in table {
+            data.write_i32::<LittleEndian>(relative(pc, address)).unwrap();
+            data.write_i32::<LittleEndian>(relative(fde, address)).unwrap();
+        }
+    }
+    data
+}
-- 
2.43.0


From dc0bbae7d0cfc50ae5b2540af40f2d4ab5d19e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:48:49 +0000
Subject: [PATCH 38/47] fix: relocated values wrap, and the table serves what
 is not rewritten

---
 src/elf/chunk.rs | 53 ++++++++++++++++++++++++++++++++++--------------
 1 file changed, 38 insertions(+), 15 deletions(-)

diff --git a/src/elf/chunk.rs b/src/elf/chunk.rs
index c16021a..b3f3370 100644
--- a/src/elf/chunk.rs
+++ b/src/elf/chunk.rs
@@ -3,7 +3,11 @@ use goblin::elf64::{
     header::EM_X86_64,
     reloc::{Rela, *},
 };
-use std::{collections::HashSet, convert::TryInto, io::Write};
+use std::{
+    collections::HashSet,
+    convert::{TryFrom, TryInto},
+    io::Write,
+};
 
 use crate::elf::{plt_entry_addr, SymbolRef, SymbolTable, TlsSegment};
 
@@ -123,10 +127,8 @@ fn apply_relocation(
     // `stderr` is an object, we will know its address at runtime because
     // we will issue a COPY relocation to make a copy of `stderr` for our binary.
     let s: i64 = match symbol.dynamic() {
-        Some(dyn_sym) if symbol.is_undefined() => {
-            dyn_table.get(dyn_sym).unwrap().st_value.try_into().unwrap()
-        }
-        _ => symbol.st_value.try_into().unwrap(),
+        Some(dyn_sym) if symbol.is_undefined() => dyn_table.get(dyn_sym).unwrap().st_value as i64,
+        _ => symbol.st_value as i64,
     };
     let is_tls = match symbol.dynamic() {
         Some(dyn_sym) => dyn_table.get(dyn_sym).unwrap().is_tls(),
@@ -138,18 +140,21 @@ fn apply_relocation(
     let got: i64 = got_address.try_into().unwrap();
     let l = symbol.plt_index();
     let offset = rel.r_offset as usize;
+    // addresses wrap around
+    let absolute = s.wrapping_add(a);
+    let relative = absolute.wrapping_sub(p);
     match (rel.r_info & 0xffff_ffff) as u32 {
         R_X86_64_NONE => {}
-        R_X86_64_64 => (&mut data[offset..]).write_i64::<LittleEndian>(s + a).unwrap(),
+        R_X86_64_64 => (&mut data[offset..]).write_i64::<LittleEndian>(absolute).unwrap(),
         R_X86_64_32 => {
-            (&mut data[offset..]).write_u32::<LittleEndian>((s + a).try_into().unwrap()).unwrap();
+            (&mut data[offset..]).write_u32::<LittleEndian>(absolute.try_into().unwrap()).unwrap();
         }
         R_X86_64_32S => {
-            (&mut data[offset..]).write_i32::<LittleEndian>((s + a).try_into().unwrap()).unwrap();
+            (&mut data[offset..]).write_i32::<LittleEndian>(absolute.try_into().unwrap()).unwrap();
+        }
+        R_X86_64_PC32 => {
+            (&mut data[offset..]).write_i32::<LittleEndian>(relative.try_into().unwrap()).unwrap()
         }
-        R_X86_64_PC32 => (&mut data[offset..])
-            .write_i32::<LittleEndian>((s + a - p).try_into().unwrap())
-            .unwrap(),
         R_X86_64_GOT32 => {
             let g: i64 = symbol.got_offset().unwrap().try_into().unwrap();
             // relative to `_GLOBAL_OFFSET_TABLE_`
@@ -158,12 +163,16 @@ fn apply_relocation(
                 .write_i32::<LittleEndian>((g + got - base + a).try_into().unwrap())
                 .unwrap()
         }
-        R_X86_64_GOTPCRELX if symbol.dynamic().is_none() => {
+        R_X86_64_GOTPCRELX
+            if symbol.dynamic().is_none()
+                && fits(relative.wrapping_add(1))
+                && is_branch(data, offset) =>
+        {
             // -2 because the offset points to where we need to patch, but we want to
             // match the other two bytes to tell which instruction we're patching
             let buf = &mut data[offset - 2..];
             // the operand of the new instruction is one byte closer to its start
-            let value: i32 = (s + a - p + 1).try_into().unwrap();
+            let value: i32 = relative.wrapping_add(1).try_into().unwrap();
             match buf[..2] {
                 // call *foo@GOTPCREL(%rip) -> call foo nop
                 [0xff, 0x15] => {
@@ -186,7 +195,7 @@ fn apply_relocation(
             (&mut data[offset..]).write_i32::<LittleEndian>(value).unwrap();
         }
         R_X86_64_REX_GOTPCRELX => {
-            if symbol.dynamic().is_none() {
+            if symbol.dynamic().is_none() && fits(relative) && is_load(data, offset) {
                 let buf = &mut data[offset - 3..];
                 let instr = match buf[..3] {
                     [0x48, 0x8b, 0x05] => [0x48, 0x8d, 0x05], // mov 0x0(%rip),%rax -> lea 0x0(%rip),%rax
@@ -208,7 +217,7 @@ fn apply_relocation(
                     ref x => unreachable!("{:?}", &x),
                 };
                 buf[..3].as_mut().write_all(&instr).unwrap();
-                let value: i32 = (s + a - p).try_into().unwrap();
+                let value: i32 = relative.try_into().unwrap();
                 buf[3..].as_mut().write_i32::<LittleEndian>(value).unwrap();
             } else {
                 let g: i64 = symbol.got_offset().unwrap().try_into().unwrap();
@@ -253,3 +262,17 @@ fn apply_relocation(
         x => unimplemented!("Relocation {}", r_to_str(x, EM_X86_64)),
     }
 }
+
+fn fits(value: i64) -> bool {
+    i32::try_from(value).is_ok()
+}
+
+/// Whether the operand at an offset is the one of `call *foo@GOTPCREL(%rip)` or `jmp`.
+fn is_branch(data: &[u8], offset: usize) -> bool {
+    matches!(data[..offset], [.., 0xff, 0x15 | 0x25])
+}
+
+/// Whether the operand at an offset is the one of `mov foo@GOTPCREL(%rip), %reg`.
+fn is_load(data: &[u8], offset: usize) -> bool {
+    matches!(data[..offset], [.., 0x48 | 0x4c, 0x8b, modrm] if modrm & 0xc7 == 5)
+}
-- 
2.43.0


From d2ef2af41cbc67c095c61aacc0e43f7e2893207a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:48:49 +0000
Subject: [PATCH 39/47] fix: section groups and excluded sections are not part
 of the program

---
 src/elf.rs | 14 ++++++++------
 src/lib.rs | 31 ++++++++++++++++++++++++++-----
 2 files changed, 34 insertions(+), 11 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index a41c56c..a161b2d 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -9,9 +9,9 @@ use goblin::elf64::{
     },
     reloc::{r_type, Rela, *},
     section_header::{
-        SectionHeader, SHF_ALLOC, SHF_EXECINSTR, SHF_TLS, SHF_WRITE, SHN_ABS, SHN_UNDEF,
-        SHT_DYNAMIC, SHT_DYNSYM, SHT_FINI_ARRAY, SHT_GNU_HASH, SHT_HASH, SHT_INIT_ARRAY,
-        SHT_NOBITS, SHT_PROGBITS, SHT_RELA, SHT_STRTAB,
+        SectionHeader, SHF_ALLOC, SHF_EXECINSTR, SHF_GROUP, SHF_INFO_LINK, SHF_LINK_ORDER, SHF_TLS,
+        SHF_WRITE, SHN_ABS, SHN_UNDEF, SHT_DYNAMIC, SHT_DYNSYM, SHT_FINI_ARRAY, SHT_GNU_HASH,
+        SHT_HASH, SHT_INIT_ARRAY, SHT_NOBITS, SHT_PROGBITS, SHT_RELA, SHT_STRTAB,
     },
     sym::Sym,
 };
@@ -457,7 +457,8 @@ impl<'d> Writer<'d> {
         let sh_flags = if sh.sh_flags & SHF_TLS as u64 != 0 {
             (SHF_ALLOC | SHF_WRITE | SHF_TLS) as u64
         } else {
-            sh.sh_flags
+            // how sections of an object belong together doesn't matter anymore
+            sh.sh_flags & !((SHF_GROUP | SHF_LINK_ORDER | SHF_INFO_LINK) as u64)
         };
         let (section, chunk) = if entry.new {
             let sh = SectionHeader {
@@ -465,8 +466,9 @@ impl<'d> Writer<'d> {
                 sh_type: sh.sh_type,
                 sh_flags,
                 sh_size: sh.sh_size,
-                sh_link: sh.sh_link,
-                sh_info: sh.sh_info,
+                // these refer to sections of the object
+                sh_link: 0,
+                sh_info: 0,
                 sh_entsize: sh.sh_entsize,
                 sh_addralign: sh.sh_addralign,
                 // patched later on
diff --git a/src/lib.rs b/src/lib.rs
index c2f9d87..ad986a2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -13,8 +13,8 @@ use goblin::{
         header::EM_X86_64,
         reloc::Rela,
         section_header::{
-            SectionHeader, SHN_ABS, SHN_COMMON, SHT_DYNAMIC, SHT_DYNSYM, SHT_NULL, SHT_REL,
-            SHT_RELA, SHT_SHLIB, SHT_STRTAB, SHT_SYMTAB,
+            SectionHeader, SHF_EXCLUDE, SHN_ABS, SHN_COMMON, SHN_UNDEF, SHT_DYNAMIC, SHT_DYNSYM,
+            SHT_GROUP, SHT_NULL, SHT_REL, SHT_RELA, SHT_SHLIB, SHT_STRTAB, SHT_SYMTAB,
         },
         sym::{Sym, STB_LOCAL, STT_OBJECT},
     },
@@ -26,8 +26,17 @@ use std::{
     path::{Path, PathBuf},
 };
 
-const SKIPPED_SECTIONS: &[u32] =
-    &[SHT_NULL, SHT_SYMTAB, SHT_DYNSYM, SHT_STRTAB, SHT_RELA, SHT_DYNAMIC, SHT_REL, SHT_SHLIB];
+const SKIPPED_SECTIONS: &[u32] = &[
+    SHT_NULL,
+    SHT_SYMTAB,
+    SHT_DYNSYM,
+    SHT_STRTAB,
+    SHT_RELA,
+    SHT_DYNAMIC,
+    SHT_REL,
+    SHT_SHLIB,
+    SHT_GROUP,
+];
 
 pub struct Input<'p, 'd> {
     path: &'p Path,
@@ -66,6 +75,7 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
             .iter()
             .enumerate()
             .filter(|(_, sh)| !SKIPPED_SECTIONS.contains(&sh.sh_type))
+            .filter(|(_, sh)| sh.sh_flags & SHF_EXCLUDE as u64 == 0)
         {
             let name =
                 get_section_name(&self.elf, section.sh_name).map_path_err(self.input.path)?;
@@ -90,9 +100,17 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
         let elf = &self.elf;
         // the first symbol is always the null symbol
         self.symbols.insert(0, elf::SymbolRef::Local(0));
-        for (i, symbol) in elf.syms.iter().enumerate().skip(1) {
+        for (i, mut symbol) in elf.syms.iter().enumerate().skip(1) {
             let name = get_symbol_name(elf, symbol.st_name).map_path_err(path)?;
             let sec_ref = self.section_relocations.get(&(symbol.st_shndx as usize));
+            let special = [SHN_UNDEF, SHN_ABS, SHN_COMMON].contains(&(symbol.st_shndx as u32));
+            if sec_ref.is_none() && !special {
+                // the section doesn't become part of the program
+                if symbol.st_bind() == STB_LOCAL {
+                    continue;
+                }
+                symbol.st_shndx = SHN_UNDEF as usize;
+            }
             let symbol_ref = writer
                 .add_symbol(symbol.into(), sec_ref.cloned(), name, path)
                 .map_path_err(path)?;
@@ -116,6 +134,9 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
                 };
                 let symbol = if let Some(sym) = self.symbols.get(&rel.r_sym) {
                     sym
+                } else if elf.section_headers[target].is_alloc() {
+                    let message = "Relocation against a section that is not part of the program.";
+                    return Err(message.to_string()).map_path_err(self.input.path);
                 } else {
                     continue;
                 };
-- 
2.43.0


From ac9d486d55ad3d572473a15dd1b05153343db1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:54:51 +0000
Subject: [PATCH 40/47] fix: the stack is executable if an object needs it

---
 src/elf.rs | 29 +++++++++++++++++++++++++----
 src/lib.rs | 11 +++++++++--
 2 files changed, 34 insertions(+), 6 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index a161b2d..a28ba17 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -4,8 +4,8 @@ use crate::{
 use goblin::elf64::{
     header::{Header, ELFCLASS64, ELFDATA2LSB, ELFMAG, EM_X86_64, ET_EXEC, EV_CURRENT},
     program_header::{
-        ProgramHeader, PF_R, PF_W, PF_X, PT_DYNAMIC, PT_GNU_EH_FRAME, PT_INTERP, PT_LOAD, PT_PHDR,
-        PT_TLS,
+        ProgramHeader, PF_R, PF_W, PF_X, PT_DYNAMIC, PT_GNU_EH_FRAME, PT_GNU_STACK, PT_INTERP,
+        PT_LOAD, PT_PHDR, PT_TLS,
     },
     reloc::{r_type, Rela, *},
     section_header::{
@@ -188,6 +188,7 @@ pub struct Writer<'d> {
     dyn_aliases: Vec<(SymbolRef, SymbolRef)>,
     /// The image of the thread-local data.
     tls: Option<TlsSegment>,
+    executable_stack: bool,
     /// The offsets of the pairs of slots for TLSGD relocations in the `.got`.
     tls_got: Vec<(SymbolRef, usize)>,
     shstr_section: SectionPtr<'d>,
@@ -420,6 +421,7 @@ impl<'d> Writer<'d> {
             exports: vec![],
             dyn_aliases: vec![],
             tls: None,
+            executable_stack: false,
             tls_got: vec![],
             shstr_section,
             sym_str_section,
@@ -659,6 +661,11 @@ impl<'d> Writer<'d> {
         }
     }
 
+    /// Some code of the program is on its stack.
+    pub fn set_executable_stack(&mut self) {
+        self.executable_stack = true;
+    }
+
     /// Reserves space in `.bss` for the common symbols which nobody has defined.
     pub fn allocate_common_symbols(&mut self) {
         let mut common = vec![];
@@ -1371,8 +1378,8 @@ impl<'d> Writer<'d> {
         // the ones of INTERP, DYNAMIC and GNU_EH_FRAME
         let names = as_str_tab(&self.shstr_section);
         let special = self.sections.iter().filter(|s| p_type(&names, &s.read()).is_some()).count();
-        // 1 == PHDR
-        count + 1 + tls as usize + special
+        // 2 == PHDR, GNU_STACK
+        count + 2 + tls as usize + special
     }
 
     fn generate_program_headers(&mut self) {
@@ -1458,6 +1465,20 @@ impl<'d> Writer<'d> {
                 )
             }
         }
+        let exec = if self.executable_stack { PF_X } else { 0 };
+        self.program_headers.insert(
+            0,
+            ProgramHeader {
+                p_type: PT_GNU_STACK,
+                p_flags: PF_R | PF_W | exec,
+                p_offset: 0,
+                p_vaddr: 0,
+                p_paddr: 0,
+                p_filesz: 0,
+                p_memsz: 0,
+                p_align: 16,
+            },
+        );
         if let Some(ph) = tls_header {
             self.tls =
                 Some(TlsSegment { address: ph.p_vaddr, size: ph.p_memsz, align: ph.p_align });
diff --git a/src/lib.rs b/src/lib.rs
index ad986a2..23f12f0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -13,8 +13,8 @@ use goblin::{
         header::EM_X86_64,
         reloc::Rela,
         section_header::{
-            SectionHeader, SHF_EXCLUDE, SHN_ABS, SHN_COMMON, SHN_UNDEF, SHT_DYNAMIC, SHT_DYNSYM,
-            SHT_GROUP, SHT_NULL, SHT_REL, SHT_RELA, SHT_SHLIB, SHT_STRTAB, SHT_SYMTAB,
+            SectionHeader, SHF_EXCLUDE, SHF_EXECINSTR, SHN_ABS, SHN_COMMON, SHN_UNDEF, SHT_DYNAMIC,
+            SHT_DYNSYM, SHT_GROUP, SHT_NULL, SHT_REL, SHT_RELA, SHT_SHLIB, SHT_STRTAB, SHT_SYMTAB,
         },
         sym::{Sym, STB_LOCAL, STT_OBJECT},
     },
@@ -79,6 +79,13 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
         {
             let name =
                 get_section_name(&self.elf, section.sh_name).map_path_err(self.input.path)?;
+            if name == ".note.GNU-stack" {
+                // not a part of the program either, but about it
+                if section.sh_flags & SHF_EXECINSTR as u64 != 0 {
+                    writer.set_executable_stack();
+                }
+                continue;
+            }
             let data = section.file_range().map(|r| &self.input.data[r]);
             let section_ref = writer
                 .push_section(name.to_owned(), section, data)
-- 
2.43.0


From 1900239aa09aec3a5d47422d9cdc3dbc7f2eb8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:57:59 +0000
Subject: [PATCH 41/47] fix: indirect functions are refused

---
 src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 23f12f0..b1b71b9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -16,7 +16,7 @@ use goblin::{
             SectionHeader, SHF_EXCLUDE, SHF_EXECINSTR, SHN_ABS, SHN_COMMON, SHN_UNDEF, SHT_DYNAMIC,
             SHT_DYNSYM, SHT_GROUP, SHT_NULL, SHT_REL, SHT_RELA, SHT_SHLIB, SHT_STRTAB, SHT_SYMTAB,
         },
-        sym::{Sym, STB_LOCAL, STT_OBJECT},
+        sym::{Sym, STB_LOCAL, STT_GNU_IFUNC, STT_OBJECT},
     },
 };
 use std::{
@@ -118,6 +118,10 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
                 }
                 symbol.st_shndx = SHN_UNDEF as usize;
             }
+            if symbol.st_type() == STT_GNU_IFUNC && symbol.st_shndx != SHN_UNDEF as usize {
+                let message = format!("The indirect function '{}' is not supported.", name);
+                return Err(message).map_path_err(path);
+            }
             let symbol_ref = writer
                 .add_symbol(symbol.into(), sec_ref.cloned(), name, path)
                 .map_path_err(path)?;
-- 
2.43.0


From 14d149ea5aef297f6aefd943b70ec51d8f285a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:57:59 +0000
Subject: [PATCH 42/47] fix: local symbols of libraries are of no concern to
 others

---
 src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index b1b71b9..9c5e95f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -194,7 +194,9 @@ impl Linker {
                     continue;
                 };
                 // the library has to define the symbol, it isn't enough that it uses it
-                for sym in elf.dynsyms.iter().filter(|s| s.st_shndx != 0) {
+                for sym in
+                    elf.dynsyms.iter().filter(|s| s.st_shndx != 0 && s.st_bind() != STB_LOCAL)
+                {
                     let inner_name = get_dyn_symbol_name(&elf, sym.st_name).map_path_err(path)?;
                     if name == inner_name {
                         entry.1 = true;
-- 
2.43.0


From 73a9119c27dd9a7848ce916daac34214cb6b220f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:18:09 +0000
Subject: [PATCH 43/47] fix: constructors with a priority are part of the array

---
 src/elf.rs       | 79 ++++++++++++++++++++++++++++++++++++++++++------
 src/elf/chunk.rs | 39 +++++++++++++++++++++++-
 2 files changed, 107 insertions(+), 11 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index a28ba17..4644d2d 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -449,6 +449,16 @@ impl<'d> Writer<'d> {
         sh: &goblin::elf::SectionHeader,
         data: Option<Vec<u8>>,
     ) -> Result<SectionRef<'d>, ErrorType> {
+        let name = name.into();
+        let mut sh_type = sh.sh_type;
+        let mut priority = 0;
+        let name = if let Some((array, array_type, array_priority)) = array_of_section(&name) {
+            sh_type = array_type;
+            priority = array_priority;
+            Name::from(array)
+        } else {
+            name
+        };
         let entry =
             self.shstr_section.write().inner_mut::<StringTable>().unwrap().get_or_create(name);
         if !entry.new && entry.index < self.own_sections {
@@ -465,7 +475,7 @@ impl<'d> Writer<'d> {
         let (section, chunk) = if entry.new {
             let sh = SectionHeader {
                 sh_name: entry.offset as u32,
-                sh_type: sh.sh_type,
+                sh_type,
                 sh_flags,
                 sh_size: sh.sh_size,
                 // these refer to sections of the object
@@ -477,7 +487,11 @@ impl<'d> Writer<'d> {
                 sh_addr: 0,
                 sh_offset: 0,
             };
-            let sh = Section::builder(sh).with_chunk(data.unwrap_or_default()).build();
+            let (align, sh_size) = (sh.sh_addralign, sh.sh_size);
+            let sh = Section::builder(sh).build();
+            let chunk =
+                Chunk::from(data.unwrap_or_default()).with_priority(priority, align, sh_size);
+            sh.write().add_chunk(chunk);
             self.sections.push(Arc::clone(&sh));
             (sh, 0)
         } else {
@@ -491,10 +505,15 @@ impl<'d> Writer<'d> {
             // if any of them has contents
             section.sh_flags |= sh_flags;
             if section.sh_type == SHT_NOBITS {
-                section.sh_type = sh.sh_type;
+                section.sh_type = sh_type;
             }
-            let chunk =
-                section.add_chunk(Chunk::from(data.unwrap_or_default()).with_offset(offset));
+            let chunk = section.add_chunk(
+                Chunk::from(data.unwrap_or_default()).with_offset(offset).with_priority(
+                    priority,
+                    sh.sh_addralign,
+                    sh.sh_size,
+                ),
+            );
             (section_ptr, chunk)
         };
         Ok(SectionRef { section, chunk })
@@ -1085,6 +1104,24 @@ impl<'d> Writer<'d> {
         }
     }
 
+    /// Functions with a priority are called in its order.
+    fn sort_arrays(&mut self) {
+        for section in &self.sections {
+            let mut section = section.write();
+            if !matches!(section.sh_type, SHT_INIT_ARRAY | SHT_FINI_ARRAY) {
+                continue;
+            }
+            section.chunks_mut().sort_by_key(|c| c.priority());
+            let mut size = 0;
+            for chunk in section.chunks_mut() {
+                let offset = round_to(size, chunk.align());
+                chunk.set_offset(offset);
+                size = offset + chunk.size();
+            }
+            section.sh_size = size;
+        }
+    }
+
     fn assign_section_addresses(&mut self) {
         self.scan_relocations();
 
@@ -1266,6 +1303,8 @@ impl<'d> Writer<'d> {
     // section header 2
     // ...
     pub fn compute_sections(&mut self) {
+        self.sort_arrays();
+
         self.assign_section_addresses();
 
         self.handle_special_symbols();
@@ -1553,6 +1592,23 @@ fn get_load_program_header(
     }
 }
 
+/// The array of functions that a section is a part of, with its type, and the priority of the
+/// section in it.
+fn array_of_section(name: &str) -> Option<(&'static str, u32, u32)> {
+    const ARRAYS: [(&str, u32); 2] =
+        [(".init_array", SHT_INIT_ARRAY), (".fini_array", SHT_FINI_ARRAY)];
+    ARRAYS.iter().find_map(|(array, sh_type)| {
+        let suffix = name.strip_prefix(array)?;
+        if suffix.is_empty() {
+            // after all those which have a priority
+            Some((*array, *sh_type, u32::MAX))
+        } else {
+            let priority = suffix.strip_prefix('.')?.parse().unwrap_or(u32::MAX - 1);
+            Some((*array, *sh_type, priority))
+        }
+    })
+}
+
 fn dyn_entries(names: &StringTable, sh: &SectionPtr) -> usize {
     let sh = sh.read();
     let name = names.name(sh.sh_name as usize).unwrap();
@@ -1560,8 +1616,9 @@ fn dyn_entries(names: &StringTable, sh: &SectionPtr) -> usize {
         ".init" | ".fini" | ".got.plt" => 1,
         ".rela.dyn" => 4,
         ".rela.plt" => 3,
+        ".init_array" | ".fini_array" => 2,
         _ => match sh.sh_type {
-            SHT_DYNSYM | SHT_INIT_ARRAY | SHT_FINI_ARRAY => 2,
+            SHT_DYNSYM => 2,
             SHT_STRTAB if sh.sh_flags & SHF_ALLOC as u64 == SHF_ALLOC as u64 => 2,
             SHT_HASH | SHT_GNU_HASH => 1,
             _ => 0,
@@ -1587,6 +1644,12 @@ fn try_add_dyn_entries(entries: &mut Vec<(DynTag, u64)>, names: &StringTable, sh
             (DynTag::PltRelSz, sh.sh_size),
         ]),
         ".got.plt" => entries.push((DynTag::PltGot, sh.sh_addr)),
+        ".init_array" => {
+            entries.extend(&[(DynTag::InitArray, sh.sh_addr), (DynTag::InitArraySize, sh.sh_size)])
+        }
+        ".fini_array" => {
+            entries.extend(&[(DynTag::FiniArray, sh.sh_addr), (DynTag::FiniArraySize, sh.sh_size)])
+        }
         _ => match sh.sh_type {
             SHT_DYNSYM => {
                 entries.extend(&[(DynTag::SymTab, sh.sh_addr), (DynTag::SymEnt, sh.sh_entsize)])
@@ -1594,10 +1657,6 @@ fn try_add_dyn_entries(entries: &mut Vec<(DynTag, u64)>, names: &StringTable, sh
             SHT_STRTAB if sh.sh_flags & SHF_ALLOC as u64 == SHF_ALLOC as u64 => {
                 entries.extend(&[(DynTag::StrTab, sh.sh_addr), (DynTag::StrSize, sh.sh_size)])
             }
-            SHT_INIT_ARRAY => entries
-                .extend(&[(DynTag::InitArray, sh.sh_addr), (DynTag::InitArraySize, sh.sh_size)]),
-            SHT_FINI_ARRAY => entries
-                .extend(&[(DynTag::FiniArray, sh.sh_addr), (DynTag::FiniArraySize, sh.sh_size)]),
             SHT_HASH => entries.push((DynTag::Hash, sh.sh_addr)),
             SHT_GNU_HASH => entries.push((DynTag::GnuHash, sh.sh_addr)),
             _ => {}
diff --git a/src/elf/chunk.rs b/src/elf/chunk.rs
index b3f3370..1e81b78 100644
--- a/src/elf/chunk.rs
+++ b/src/elf/chunk.rs
@@ -16,6 +16,11 @@ pub struct Chunk {
     address: Option<u64>,
     /// Where the chunk starts, relative to its section.
     offset: u64,
+    align: u64,
+    /// How much memory the chunk takes.
+    size: u64,
+    /// Chunks with a lower priority come first in their section.
+    priority: u32,
     data: Vec<u8>,
     symbols: HashSet<SymbolRef>,
     relocations: Vec<(Rela, SymbolRef)>,
@@ -23,7 +28,35 @@ pub struct Chunk {
 
 impl Chunk {
     pub fn new(data: Vec<u8>) -> Self {
-        Self { address: None, offset: 0, data, symbols: Default::default(), relocations: vec![] }
+        Self {
+            address: None,
+            offset: 0,
+            align: 1,
+            size: 0,
+            priority: 0,
+            data,
+            symbols: Default::default(),
+            relocations: vec![],
+        }
+    }
+
+    pub fn with_priority(mut self, priority: u32, align: u64, size: u64) -> Self {
+        self.priority = priority;
+        self.align = align;
+        self.size = size;
+        self
+    }
+
+    pub fn priority(&self) -> u32 {
+        self.priority
+    }
+
+    pub fn align(&self) -> u64 {
+        self.align
+    }
+
+    pub fn size(&self) -> u64 {
+        self.size
     }
 
     pub fn with_offset(mut self, offset: u64) -> Self {
@@ -35,6 +68,10 @@ impl Chunk {
         self.offset
     }
 
+    pub fn set_offset(&mut self, offset: u64) {
+        self.offset = offset;
+    }
+
     pub fn add_symbol(&mut self, sym_ref: SymbolRef) {
         self.symbols.insert(sym_ref);
     }
-- 
2.43.0


From 405bce72995b77ed6c9c8a9859fbc1957d703aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:18:09 +0000
Subject: [PATCH 44/47] fix: .preinit_array is called

---
 src/elf.rs | 52 ++++++++++++++++++++++++++++------------------------
 1 file changed, 28 insertions(+), 24 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 4644d2d..8663045 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -11,7 +11,8 @@ use goblin::elf64::{
     section_header::{
         SectionHeader, SHF_ALLOC, SHF_EXECINSTR, SHF_GROUP, SHF_INFO_LINK, SHF_LINK_ORDER, SHF_TLS,
         SHF_WRITE, SHN_ABS, SHN_UNDEF, SHT_DYNAMIC, SHT_DYNSYM, SHT_FINI_ARRAY, SHT_GNU_HASH,
-        SHT_HASH, SHT_INIT_ARRAY, SHT_NOBITS, SHT_PROGBITS, SHT_RELA, SHT_STRTAB,
+        SHT_HASH, SHT_INIT_ARRAY, SHT_NOBITS, SHT_PREINIT_ARRAY, SHT_PROGBITS, SHT_RELA,
+        SHT_STRTAB,
     },
     sym::Sym,
 };
@@ -91,6 +92,13 @@ impl TlsSegment {
     }
 }
 
+/// The arrays of functions, and the symbols for their bounds.
+const ARRAY_BOUNDS: [(&str, [&str; 2]); 3] = [
+    (".preinit_array", ["__preinit_array_start", "__preinit_array_end"]),
+    (".init_array", ["__init_array_start", "__init_array_end"]),
+    (".fini_array", ["__fini_array_start", "__fini_array_end"]),
+];
+
 const PLT_ENTRY_JMP_INSTR_SIZE: isize = 6;
 const PLT_ENTRY_PUSH_INSTR_SIZE: usize = 5;
 // The PLT header is just as big.
@@ -158,6 +166,10 @@ pub enum DynTag {
     FiniArraySize = 28,
     /// Library search path
     Runpath = 29,
+    /// Array with addresses of preinit functions
+    PreinitArray = 32,
+    /// Size in bytes of DT_PREINIT_ARRAY
+    PreinitArraySize = 33,
     /// GNU-style hash table
     GnuHash = 0x6fff_fef5,
     /// Indicates that all Elf32_Rela (or Elf64_Rela) RELATIVE relocations have been
@@ -888,24 +900,14 @@ impl<'d> Writer<'d> {
         let skip = [self.sym_str_section.read().sh_name, self.shstr_section.read().sh_name];
         for section in self.sections.iter().filter(|s| !skip.contains(&s.read().sh_name)) {
             let mut section = section.write();
-            if is_some_with(section_names.sh_name(".init_array"), &section.sh_name) {
-                if let Some(s) = symbol_names.get("__init_array_start") {
-                    section.chunk_mut(0).add_symbol(SymbolRef::Named(s.offset as u32));
+            for (array, [start, end]) in ARRAY_BOUNDS {
+                if !is_some_with(section_names.sh_name(array), &section.sh_name) {
+                    continue;
                 }
-                if let Some(s) = symbol_names.get("__init_array_end") {
-                    let sym_ref = SymbolRef::Named(s.offset as u32);
-                    let mut symbols = as_mut_sym_tab(&self.sym_section);
-                    // the end is relative to the start of the section
-                    if let Some(end) = symbols.get_mut(sym_ref) {
-                        end.st_value = section.size_on_disk();
-                    }
-                    section.chunk_mut(0).add_symbol(sym_ref);
-                }
-            } else if is_some_with(section_names.sh_name(".fini_array"), &section.sh_name) {
-                if let Some(s) = symbol_names.get("__fini_array_start") {
+                if let Some(s) = symbol_names.get(start) {
                     section.chunk_mut(0).add_symbol(SymbolRef::Named(s.offset as u32));
                 }
-                if let Some(s) = symbol_names.get("__fini_array_end") {
+                if let Some(s) = symbol_names.get(end) {
                     let sym_ref = SymbolRef::Named(s.offset as u32);
                     let mut symbols = as_mut_sym_tab(&self.sym_section);
                     // the end is relative to the start of the section
@@ -918,10 +920,7 @@ impl<'d> Writer<'d> {
         }
 
         // without any input section the arrays are empty
-        for (section, names) in [
-            (".init_array", ["__init_array_start", "__init_array_end"]),
-            (".fini_array", ["__fini_array_start", "__fini_array_end"]),
-        ] {
+        for (section, names) in ARRAY_BOUNDS {
             if section_names.sh_name(section).is_some() {
                 continue;
             }
@@ -1108,7 +1107,7 @@ impl<'d> Writer<'d> {
     fn sort_arrays(&mut self) {
         for section in &self.sections {
             let mut section = section.write();
-            if !matches!(section.sh_type, SHT_INIT_ARRAY | SHT_FINI_ARRAY) {
+            if !matches!(section.sh_type, SHT_PREINIT_ARRAY | SHT_INIT_ARRAY | SHT_FINI_ARRAY) {
                 continue;
             }
             section.chunks_mut().sort_by_key(|c| c.priority());
@@ -1595,8 +1594,11 @@ fn get_load_program_header(
 /// The array of functions that a section is a part of, with its type, and the priority of the
 /// section in it.
 fn array_of_section(name: &str) -> Option<(&'static str, u32, u32)> {
-    const ARRAYS: [(&str, u32); 2] =
-        [(".init_array", SHT_INIT_ARRAY), (".fini_array", SHT_FINI_ARRAY)];
+    const ARRAYS: [(&str, u32); 3] = [
+        (".preinit_array", SHT_PREINIT_ARRAY),
+        (".init_array", SHT_INIT_ARRAY),
+        (".fini_array", SHT_FINI_ARRAY),
+    ];
     ARRAYS.iter().find_map(|(array, sh_type)| {
         let suffix = name.strip_prefix(array)?;
         if suffix.is_empty() {
@@ -1616,7 +1618,7 @@ fn dyn_entries(names: &StringTable, sh: &SectionPtr) -> usize {
         ".init" | ".fini" | ".got.plt" => 1,
         ".rela.dyn" => 4,
         ".rela.plt" => 3,
-        ".init_array" | ".fini_array" => 2,
+        ".preinit_array" | ".init_array" | ".fini_array" => 2,
         _ => match sh.sh_type {
             SHT_DYNSYM => 2,
             SHT_STRTAB if sh.sh_flags & SHF_ALLOC as u64 == SHF_ALLOC as u64 => 2,
@@ -1644,6 +1646,8 @@ fn try_add_dyn_entries(entries: &mut Vec<(DynTag, u64)>, names: &StringTable, sh
             (DynTag::PltRelSz, sh.sh_size),
         ]),
         ".got.plt" => entries.push((DynTag::PltGot, sh.sh_addr)),
+        ".preinit_array" => entries
+            .extend(&[(DynTag::PreinitArray, sh.sh_addr), (DynTag::PreinitArraySize, sh.sh_size)]),
         ".init_array" => {
             entries.extend(&[(DynTag::InitArray, sh.sh_addr), (DynTag::InitArraySize, sh.sh_size)])
         }
-- 
2.43.0


From 36fe73f1392f7df71572d792c24c160b53b42313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:29 +0000
Subject: [PATCH 45/47] fix: apply R_X86_64_GOTPCREL relocations

Slots of the GOT are made for them, but no value was ever stored.
---
 src/elf/chunk.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elf/chunk.rs b/src/elf/chunk.rs
index 1e81b78..9e222ec 100644
--- a/src/elf/chunk.rs
+++ b/src/elf/chunk.rs
@@ -226,7 +226,7 @@ fn apply_relocation(
                 ref x => unreachable!("{:?}", x),
             }
         }
-        R_X86_64_GOTPCRELX => {
+        R_X86_64_GOTPCREL | R_X86_64_GOTPCRELX => {
             let g: i64 = symbol.got_offset().unwrap().try_into().unwrap();
             let value: i32 = (g + got + a - p).try_into().unwrap();
             (&mut data[offset..]).write_i32::<LittleEndian>(value).unwrap();
-- 
2.43.0


From bd58fd090b1a0e5fd6e4e54d2a57ddcaa2998884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:30 +0000
Subject: [PATCH 46/47] fix: accept --hash-style STYLE as the help says

Only --hash-style=STYLE was understood, everything else was taken for inputs.
---
 src/main.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index f041070..be6fc59 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -168,6 +168,13 @@ fn handle_linker_args(
                     .ok_or_else(|| "Missing argument <KEYWORD> for '-z'.".to_string())?;
                 continue;
             }
+            "--hash-style" => {
+                let style = args
+                    .next()
+                    .ok_or_else(|| "Missing argument <STYLE> for '--hash-style'.".to_string())?;
+                app.opts.hash_style = HashStyle::from_str(&style)?;
+                continue;
+            }
             "--as-needed" => {
                 app.as_needed = true;
                 continue;
-- 
2.43.0


From fa4bb49e7d5f0d3e6e01d979155e96bed51e49f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:45 +0000
Subject: [PATCH 47/47] fix: compressed sections are refused, not concatenated

---
 src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 9c5e95f..9c4f0e2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -13,8 +13,9 @@ use goblin::{
         header::EM_X86_64,
         reloc::Rela,
         section_header::{
-            SectionHeader, SHF_EXCLUDE, SHF_EXECINSTR, SHN_ABS, SHN_COMMON, SHN_UNDEF, SHT_DYNAMIC,
-            SHT_DYNSYM, SHT_GROUP, SHT_NULL, SHT_REL, SHT_RELA, SHT_SHLIB, SHT_STRTAB, SHT_SYMTAB,
+            SectionHeader, SHF_COMPRESSED, SHF_EXCLUDE, SHF_EXECINSTR, SHN_ABS, SHN_COMMON,
+            SHN_UNDEF, SHT_DYNAMIC, SHT_DYNSYM, SHT_GROUP, SHT_NULL, SHT_REL, SHT_RELA, SHT_SHLIB,
+            SHT_STRTAB, SHT_SYMTAB,
         },
         sym::{Sym, STB_LOCAL, STT_GNU_IFUNC, STT_OBJECT},
     },
@@ -86,6 +87,11 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
                 }
                 continue;
             }
+            if section.sh_flags & SHF_COMPRESSED as u64 != 0 {
+                // relocations are about what it expands to
+                return Err("Compressed sections are not supported.".to_string())
+                    .map_path_err(self.input.path);
+            }
             let data = section.file_range().map(|r| &self.input.data[r]);
             let section_ref = writer
                 .push_section(name.to_owned(), section, data)
-- 
2.43.0

