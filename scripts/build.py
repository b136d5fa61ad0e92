#!/usr/bin/env python3
"""Build everything a check needs from /repo's current working tree into /verif/build:
the symbolic executor, the LLVM IR of dld (all crates and std) and of the oracle, the native
oracle and the native dld.  usage: build.py [variant...]   (variants: dev, rel)"""
import fcntl, hashlib, json, os, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DLD_REPO", "/repo")
BUILD = os.environ.get("DLD_BUILD", os.path.join(VERIF, "build"))
TC = "stable-x86_64-unknown-linux-gnu"
sys.path.insert(0, os.path.join(VERIF, "scripts"))
import prep_std, irlist

class BuildError(Exception):
    pass

def run(cmd, env=None, out=None):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET_DIR", "RUSTC_WRAPPER",
              "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    e.update(env or {})
    log = out or os.path.join(BUILD, "log-%d" % threading.get_ident())
    with open(log, "w") as o:
        p = subprocess.run(cmd, env=e, stdout=o, stderr=subprocess.PIPE, text=True,
                           stdin=subprocess.DEVNULL)
    if not out:
        os.unlink(log)
    if p.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stderr[-6000:]))

def ir(manifest, name, variant, extra):
    """LLVM IR of one binary and everything it links; returns the list file"""
    std = prep_std.prep(os.path.join(BUILD, "stdsrc"))
    ov = "on" if variant == "dev" else "off"
    env = {
        "CARGO_TARGET_DIR": os.path.join(BUILD, "ir-" + variant),
        "RUSTC_BOOTSTRAP": "1", "RUSTUP_TOOLCHAIN": TC,
        "__CARGO_TESTS_ONLY_SRC_ROOT": os.path.join(std, "library"),
        "CARGO_PROFILE_DEV_DEBUG": "0", "CARGO_INCREMENTAL": "0",
        "RUSTFLAGS": "--emit=llvm-ir -C panic=abort -C opt-level=1 -C codegen-units=1 "
                     "-C debug-assertions=off -C overflow-checks=%s -C no-vectorize-loops "
                     "-C no-vectorize-slp -C link-arg=-Wl,--unresolved-symbols=ignore-all" % ov,
    }
    js = os.path.join(BUILD, "%s-%s.json" % (name, variant))
    run(["cargo", "build", "--manifest-path", manifest, "--offline", "-Zbuild-std=std,panic_abort",
         "--target", "x86_64-unknown-linux-gnu", "--message-format=json"] + extra, env, js)
    dest = os.path.join(BUILD, "%s-%s.list" % (name, variant))
    l = irlist.irlist(js, name)
    with open(dest, "w") as o:
        o.write("\n".join(l) + "\n")
    return dest

def build(variants=("dev",), what=None):
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    t0 = time.time()
    errs, times = [], {}
    def job(label, f):
        def g():
            t = time.time()
            try:
                f()
            except Exception as e:
                errs.append((label, e))
            times[label] = round(time.time() - t, 1)
        th = threading.Thread(target=g)
        th.start()
        return th
    oracle = os.path.join(VERIF, "oracle/Cargo.toml")
    repo = os.path.join(REPO, "Cargo.toml")
    def irs():
        for v in variants:
            ir(repo, "dld", v, ["--locked", "--bin", "dld"])
            ir(oracle, "oracle", v, [])
    ths = [
        job("engine", lambda: run(["cargo", "build", "--release", "--offline", "--manifest-path",
            os.path.join(VERIF, "engine/Cargo.toml")], {"CARGO_TARGET_DIR": os.path.join(BUILD, "engine"), "RUSTUP_TOOLCHAIN": TC})),
        job("oracle", lambda: run(["cargo", "build", "--offline", "--features", "native", "--manifest-path", oracle],
            {"CARGO_TARGET_DIR": os.path.join(BUILD, "onative"), "RUSTUP_TOOLCHAIN": TC})),
        job("native", lambda: run(["cargo", "build", "--offline", "--locked", "--bin", "dld", "--manifest-path", repo],
            {"CARGO_TARGET_DIR": os.path.join(BUILD, "native"), "RUSTUP_TOOLCHAIN": TC})),
        job("shim", lambda: run(["gcc", "-shared", "-fPIC", "-O1", "-o", os.path.join(BUILD, "shim.so"),
            os.path.join(VERIF, "scripts/shim.c"), "-ldl"])),
        job("ir", irs),
    ]
    for t in ths:
        t.join()
    if errs:
        raise BuildError("\n".join("%s: %s" % e for e in errs))
    times["total"] = round(time.time() - t0, 1)
    return times

if __name__ == "__main__":
    try:
        print(json.dumps(build(tuple(sys.argv[1:]) or ("dev",))))
    except BuildError as e:
        print("BUILD FAILED\n%s" % e)
        sys.exit(2)
