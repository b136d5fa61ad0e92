#!/usr/bin/env python3
"""usage: irlist.py CARGO_JSON BIN_NAME OUT: list the .ll files that make up one binary."""
import json, os, sys
def irlist(js, name):
    lls, deps = [], None
    for l in open(js):
        try: m = json.loads(l)
        except ValueError: continue
        if m.get("reason") != "compiler-artifact": continue
        kinds = m["target"]["kind"]
        if "custom-build" in kinds or "proc-macro" in kinds: continue
        isbin = "bin" in kinds
        if isbin and m["target"]["name"] != name: continue
        for f in m["filenames"]:
            base = os.path.basename(f); d = os.path.dirname(f)
            if isbin:
                deps = os.path.join(d, "deps") if os.path.basename(d) != "deps" else d
                # hashed copy: find by hard link identity
                ino = os.stat(f).st_ino
                for g in os.listdir(deps):
                    p = os.path.join(deps, g)
                    if "." not in g and os.stat(p).st_ino == ino:
                        lls.append(p + ".ll")
            elif base.endswith(".rlib") or base.endswith(".rmeta"):
                stem = base.rsplit(".", 1)[0]
                if stem.startswith("lib"): stem = stem[3:]
                d2 = d if os.path.basename(d) == "deps" else os.path.join(d, "deps")
                c = os.path.join(d2, stem + ".ll")
                if not os.path.exists(c):
                    # uplifted copy without a hash
                    ino = os.stat(f).st_ino
                    for g in os.listdir(d2):
                        if g.startswith("lib") and os.stat(os.path.join(d2, g)).st_ino == ino:
                            c = os.path.join(d2, g.rsplit(".", 1)[0][3:] + ".ll")
                if os.path.exists(c): lls.append(c)

    out = []
    for l in lls:
        if l not in out: out.append(l)
    return out
if __name__ == "__main__":
    r = irlist(sys.argv[1], sys.argv[2])
    open(sys.argv[3], "w").write("\n".join(r) + "\n")
    print(len(r))
