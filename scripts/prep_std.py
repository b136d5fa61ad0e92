#!/usr/bin/env python3
"""Prepare a copy of the std sources (symlinks except one patched file) whose DefaultHasher
hands its input to the checker.  usage: prep_std.py DEST"""
import os, subprocess, sys

TC = "stable-x86_64-unknown-linux-gnu"

def prep(dest):
    sysroot = subprocess.check_output(["rustc", "+" + TC, "--print", "sysroot"], text=True).strip()
    lib = os.path.join(sysroot, "lib/rustlib/src/rust/library")
    out = os.path.join(dest, "library")
    os.makedirs(out, exist_ok=True)
    # real directories along the path to the patched file, symlinks elsewhere
    def mirror(src, dst, path):
        os.makedirs(dst, exist_ok=True)
        for n in os.listdir(src):
            d = os.path.join(dst, n)
            if path and n == path[0]:
                if len(path) > 1:
                    mirror(os.path.join(src, n), d, path[1:])
                continue
            if not os.path.lexists(d):
                os.symlink(os.path.join(src, n), d)
    path = ["std", "src", "hash", "random.rs"]
    mirror(lib, out, path)
    s = open(os.path.join(lib, *path)).read()
    def sub(a, b):
        nonlocal s
        assert s.count(a) >= 1, "std source changed: " + a
        s = s.replace(a, b)
    sub("DefaultHasher(SipHasher13::new_with_keys(self.k0, self.k1))",
        "DefaultHasher { k0: self.k0, k1: self.k1, h: 0 }")
    sub("DefaultHasher(SipHasher13::new_with_keys(0, 0))", "DefaultHasher { k0: 0, k1: 0, h: 0 }")
    sub("pub struct DefaultHasher(SipHasher13);",
        "pub struct DefaultHasher { k0: u64, k1: u64, h: u64 }\n"
        "unsafe extern \"C\" {\n"
        "    fn symx_hash_write(k0: u64, k1: u64, h: u64, p: *const u8, n: usize) -> u64;\n"
        "    fn symx_hash_finish(k0: u64, k1: u64, h: u64) -> u64;\n"
        "}\n")
    sub("        self.0.write(msg)",
        "        self.h = unsafe { symx_hash_write(self.k0, self.k1, self.h, msg.as_ptr(), msg.len()) }")
    sub("        self.0.write_str(s);",
        "        self.write(s.as_bytes());\n        self.write(&[0xff]);")
    sub("        self.0.finish()",
        "        unsafe { symx_hash_finish(self.k0, self.k1, self.h) }")
    import re
    s = re.sub(r"use (crate::|super::|core::|)[^;]*SipHasher13[^;]*;",
               lambda m: m.group(0).replace("SipHasher13", "").replace("{, ", "{").replace(", }", "}").replace(", ,", ",")
               if "{" in m.group(0) else "", s)
    f = os.path.join(out, *path)
    if not os.path.exists(f) or open(f).read() != s:
        with open(f, "w") as o:
            o.write(s)
    return dest

if __name__ == "__main__":
    print(prep(sys.argv[1]))
