#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--only SCENARIO] [--no-build] [-v]

Decides one property: every scenario of the property is executed symbolically (dld's own code, as
LLVM IR, between a generator and a checker), counterexamples are replayed with the natively built
linker, and only those that the real linker reproduces are reported."""
import argparse, concurrent.futures, json, os, re, shutil, signal, subprocess, sys, tempfile, time
import build as B

VERIF, BUILD = B.VERIF, B.BUILD
SYMX = os.path.join(BUILD, "engine/release/symx")
ONATIVE = os.path.join(BUILD, "onative/debug/oracle")
DLD = os.path.join(BUILD, "native/debug/dld")
SHIM = os.path.join(BUILD, "shim.so")
EV = os.path.join(VERIF, "evidence")
HANG = 20

def native_run(args, cwd, env=None):
    """status of one native linker run, in the executor's numbering"""
    try:
        p = subprocess.Popen(args, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                             stderr=subprocess.DEVNULL, start_new_session=True)
        p.wait(timeout=HANG)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        return 1002
    if p.returncode < 0:
        return 134 if p.returncode == -6 else 1001
    return p.returncode

def replay(scen, values, keep=None, attempts=1):
    """re-run one assignment against the real linker: (failed message or None, directory)"""
    msg = None
    for k in range(attempts):
        d = tempfile.mkdtemp(prefix="dldreplay-")
        try:
            with open(os.path.join(d, "values"), "w") as f:
                for n, v in sorted(values.items()):
                    f.write("%s %s\n" % (n, v))
            os.mkdir(os.path.join(d, "w"))
            w = os.path.join(d, "w")
            env = {"SYMX_VALUES": os.path.join(d, "values"), "PATH": os.environ.get("PATH", "")}
            g = subprocess.run([ONATIVE, "gen", scen], cwd=w, env=env, capture_output=True, text=True)
            if g.returncode != 0:
                return ("generator: " + g.stdout + g.stderr if g.returncode != 3 else None)
            st, masks = [], []
            for l in open(os.path.join(w, "plan")):
                a = l.split()
                if a and a[0] == "run":
                    args = [open(os.path.join(w, x[2:]), "rb").read() if x.startswith("@:") else x for x in a[2:]]
                    e = {"PATH": env["PATH"]}
                    fs = sorted((int(n.split("_")[1]), int(v)) for n, v in values.items() if re.fullmatch(r"fault%d_\d+" % len(st), n) and int(v))
                    if fs:
                        with open(os.path.join(d, "shim%d" % len(st)), "w") as f:
                            f.write("".join("%d %d\n" % x for x in fs))
                        e.update(LD_PRELOAD=SHIM, DLDSHIM=os.path.join(d, "shim%d" % len(st)))
                    masks.append(sum({1 << v for _, v in fs}))
                    st.append(native_run([DLD] + args, w, e))
            with open(os.path.join(w, "faults"), "w") as f:
                f.write("".join("%d\n" % m for m in masks))
            with open(os.path.join(w, "statuses"), "w") as f:
                f.write("".join("%d\n" % s for s in st))
            try:
                c = subprocess.run([ONATIVE, "check", scen], cwd=w, env=env, capture_output=True, text=True, timeout=120)
                rc, out = c.returncode, c.stdout
            except subprocess.TimeoutExpired:
                rc, out = 101, ""
            if rc == 1:
                msg = [l[8:] for l in out.splitlines() if l.startswith("FAILED: ")][0]
            elif rc == 101:
                msg = "the output cannot be interpreted"
            if msg is not None:
                if keep:
                    shutil.rmtree(keep, ignore_errors=True)
                    shutil.copytree(d, keep)
                    with open(os.path.join(keep, "README"), "w") as f:
                        f.write("scenario %s, statuses %s\nfailed: %s\nvalues: the symbolic inputs; w/: inputs, plan and output\n" % (scen, st, msg))
                return msg
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return None

def run_scenario(scen, variant, jobs, tlimit, maxpaths, cut=None):
    out = os.path.join(BUILD, "run-%s-%s.jsonl" % (scen, variant))
    if os.path.exists(out):
        os.unlink(out)
    cmd = [SYMX, "--dld", os.path.join(BUILD, "dld-%s.list" % variant), "--oracle",
           os.path.join(BUILD, "oracle-%s.list" % variant), "--scenario", scen, "--jobs", str(jobs),
           "--out", out, "--time", str(tlimit), "--max-paths", str(maxpaths), "--samples", "64"]
    t = time.time()
    # (into files: nobody reads a pipe while this waits)
    with open(out + ".err", "w+") as ferr:
        p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=ferr, start_new_session=True)
        hard, seen = False, 0
        while p.poll() is None:
            time.sleep(0.1 if time.time() - t < 5 else 0.5)
            if cut is not None and cut["at"] is None and os.path.exists(out) and os.path.getsize(out) != seen:
                # a violation has been found: what else there is need not be complete
                with open(out) as f:
                    f.seek(seen)
                    new = f.read()
                new = new[:new.rfind("\n") + 1]
                seen += len(new.encode())
                for l in new.splitlines():
                    r = json.loads(l) if '"violation"' in l else {"kind": ""}
                    if r["kind"] == "violation" and not any(matches(k, cut["prop"], scen, r["msg"], r.get("values") or {}) for k in cut["known"]):
                        cut["at"] = time.time()
            late = cut is not None and cut["at"] is not None and time.time() > max(cut["at"], t) + 90
            if late or time.time() > t + tlimit + 60:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                hard = True
        ferr.seek(0)
        err = ferr.read()
    os.unlink(out + ".err")
    recs = []
    if os.path.exists(out):
        for l in open(out):
            try:
                recs.append(json.loads(l))
            except ValueError:
                pass
    return {"scenario": scen, "variant": variant, "recs": recs, "wall": time.time() - t, "rc": p.returncode,
            "hard": hard, "err": err[-2000:] if err else ""}

def known():
    f = os.path.join(VERIF, "known_findings.json")
    return json.load(open(f))["findings"] if os.path.exists(f) else []

def matches(k, pid, scen, msg, values):
    if k["property"] != pid or not re.fullmatch(k["scenario"], scen) or k["message"] != msg:
        return False
    return all(int(values.get(n, 0)) in v for n, v in k.get("values", {}).items())

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--only")
    ap.add_argument("--no-build", action="store_true")
    ap.add_argument("--time", type=int)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    pid, thorough = a.prop, a.tier == "thorough"
    t0 = time.time()
    variants = ["dev", "rel"] if thorough else ["dev"]
    try:
        times = B.build(variants) if not a.no_build else {}
    except B.BuildError as e:
        print("build failed:\n%s" % e)
        return 2
    lst = [l.split() for l in subprocess.check_output([ONATIVE, "list"], text=True).splitlines()]
    scens = [n for n, t in lst if n.split("_")[0].upper() == pid and (thorough or t == "quick")]
    if a.only:
        scens = [s for s in scens if re.fullmatch(a.only, s)]
    if not scens:
        print("no scenario for %s" % pid)
        return 2
    limit = a.time or (3000 if thorough else 300)
    jobs = [(s, v) for v in variants for s in scens]
    par = min(4, len(jobs))
    with concurrent.futures.ThreadPoolExecutor(par) as ex:
        cut = None if thorough else {"at": None, "prop": pid, "known": known()}
        def one(j):
            # a quick check ends in time, even where everything takes longer than it should
            left = limit if thorough or a.time else min(limit, max(15, int(t0 + 760 - time.time())))
            if cut and cut["at"]:
                left = min(left, 60)
            return run_scenario(j[0], j[1], max(2, 8 // par), left, 2000000, cut)
        res = list(ex.map(one, jobs))
    tot = dict(paths=0, queries=0, violations=0, errors=0, instructions=0, solver_s=0.0, unknown=0, branches=0,
               asserts=0, assert_queries=0, runs=0, infeasible=0, exit_ok=0, exit_fail=0, panics=0, hangs=0)
    fns, reached, per, samples = set(), {}, [], []
    viol, unexpl, z3v = [], [], ""
    for r in res:
        key = r["scenario"] + ("/" + r["variant"] if thorough else "")
        summ = [x for x in r["recs"] if x["kind"] == "summary"]
        s = summ[0] if summ else None
        n_err = sum(x["kind"] == "error" for x in r["recs"])
        rs = {}
        for x in r["recs"]:
            if x["kind"] == "path":
                for l in x["reached"].split(","):
                    if l:
                        rs[l] = rs.get(l, 0) + 1
            if x["kind"] == "path" and x.get("values") and len(samples) < 400:
                samples.append((r["scenario"], x["values"]))
            if x["kind"] in ("violation", "error"):
                viol.append((r["scenario"], x["kind"], x["msg"], x.get("values") or {}, r["variant"]))
        if not s:
            unexpl.append("%s: the executor did not finish (%s)" % (key, (r["err"] or "time limit").strip()[-300:]))
        else:
            z3v = s["z3"]
            for k in tot:
                tot[k] += s[k]
            fns.update(s["functions"])
            if s["timeout"]:
                unexpl.append("%s: stopped at its time limit after %d paths" % (key, s["paths"]))
        for k, v in rs.items():
            reached[k] = reached.get(k, 0) + v
        per.append({"scenario": r["scenario"], "variant": r["variant"], "paths": s["paths"] if s else None,
                    "queries": s["queries"] if s else None, "solver_s": s["solver_s"] if s else None,
                    "instructions": s["instructions"] if s else None, "errors": n_err, "reached": rs,
                    "exhausted": bool(s and not s["timeout"] and not n_err and not s["unknown"]), "wall_s": round(r["wall"], 1)})
    # replay counterexamples: a few per (scenario, message)
    groups = {}
    for sc, kind, msg, vals, var in viol:
        groups.setdefault((sc, kind, re.sub(r"0x[0-9a-f]+|\d+", "#", msg) if kind == "error" else msg), []).append((vals, var, msg))
    rep, kn, n_rep, spurious = [], [], 0, 0
    os.makedirs(os.path.join(EV, "replay"), exist_ok=True)
    kf = known()
    for (sc, kind, msg), lst in sorted(groups.items()):
        hit = None
        unlisted = [x for x in lst if not any(matches(k, pid, sc, msg, x[0]) for k in kf)]
        for x in lst:
            for k in kf:
                if matches(k, pid, sc, msg, x[0]) and k["id"] not in [q["id"] for q in kn]:
                    kn.append(k)
        cand = unlisted if kind == "violation" else lst
        for i, (vals, var, m) in enumerate(cand[:6]):
            n_rep += 1
            dst = os.path.join(EV, "replay", "%s-%s-%d" % (pid, sc, len(rep)))
            f = replay(sc, vals, dst, 40 if i < 2 and kind == "violation" else 4)
            if f and any(matches(k, pid, sc, f, vals) for k in kf):
                f = None
            if f:
                hit = f
                rep.append({"scenario": sc, "message": f, "symbolic": m, "values": vals, "replay": dst})
                break
        if cand and not hit:
            spurious += kind == "violation"
            unexpl.append("%s: %s (%d paths) %s: %s" % (sc, "counterexample not reproduced by the native linker" if kind == "violation"
                          else "not encodable", len(cand), "values " + json.dumps(cand[0][0])[:300] if kind == "violation" else "", msg[:400]))
    # cross-check: some explored assignments against the native linker
    n_x = 0
    step = max(1, len(samples) // (60 if thorough else 12))
    for sc, vals in samples[::step]:
        n_x += 1
        f = replay(sc, vals, os.path.join(EV, "replay", "%s-%s-x" % (pid, sc)), 1)
        if f and not any(matches(k, pid, sc, f, vals) for k in kf):
            rep.append({"scenario": sc, "message": f, "symbolic": "(native run of an explored path)", "values": vals,
                        "replay": os.path.join(EV, "replay", "%s-%s-x" % (pid, sc))})
            break
    if fns:
        dem = subprocess.run(["c++filt", "-s", "rust"], input="\n".join(sorted(fns)), text=True, capture_output=True).stdout
        names = sorted({re.sub(r"\[[0-9a-f]+\]|::h[0-9a-f]{16}$", "", x) for x in dem.split("\n") if "dld" in x})
    else:
        names = []
    ev = {
        "property": pid, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
        "coverage": {
            "explanation": "Symbolic execution of the linker's LLVM IR between a generator and a checker of the same kind. "
                "states: execution paths explored to their end, each for all values of the symbolic inputs that follow it; "
                "transitions: branches and choices decided on them; queries: satisfiability queries discharged by z3; "
                "traces_validated_against_impl: assignments re-run with the natively built linker; samples: assignments of explored paths.",
            "functions_encoded": names, "functions_encoded_count": len(names),
            "states": tot["paths"], "transitions": tot["branches"], "infeasible_paths": tot["infeasible"],
            "queries": tot["queries"], "assertions_evaluated": tot["asserts"],
            "assertions_decided_by_solver": tot["assert_queries"], "solver_s": round(tot["solver_s"], 2),
            "instructions": tot["instructions"], "linker_runs": tot["runs"],
            "link_outcomes": {k: tot[k] for k in ("exit_ok", "exit_fail", "panics", "hangs")},
            "witnesses": reached, "scenarios": per,
            "exhaustive": all(p["exhausted"] for p in per),
            "unexplored": unexpl, "counterexamples_replayed": n_rep, "traces_validated_against_impl": n_x,
            "samples": [{"scenario": sc, "values": v} for sc, v in samples[:: max(1, len(samples) // 6)][:6]],
            "known_findings": [k["id"] for k in kn], "counterexamples": rep, "solver": "z3 " + z3v, "build_s": times,
        },
        "assumptions": [
            "rustc's LLVM IR (opt-level 1, panic=abort; unoptimised arithmetic checks on) means what the executor implements",
            "the executor's system-call model (regular files, directories, no concurrent writers) and z3 are right",
            "the oracle's reference semantics (oracle/src) state the property",
        ],
        "violations": len(rep), "wall_s": round(time.time() - t0, 1),
    }
    bf = os.path.join(VERIF, "bounds.json")
    if os.path.exists(bf):
        ev["coverage"]["bounds"] = json.load(open(bf)).get(pid, "")
    os.makedirs(EV, exist_ok=True)
    with open(os.path.join(EV, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for u in unexpl[:20]:
        print("note: " + u[:600])
    for k in kn:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    for r in rep:
        print("violated: %s: %s" % (r["scenario"], r["message"]))
        if a.v:
            print("   values " + json.dumps(r["values"])[:1500])
        print("VIOLATION property=%s replay=%s" % (pid, r["replay"]))
    print("%s %s: %d scenarios, %d paths, %d solver queries (%.1f s), %d link runs, %d functions, %.0f s" % (
        pid, a.tier, len(per), tot["paths"], tot["queries"], tot["solver_s"], tot["runs"], len(names), time.time() - t0))
    if a.v:
        for p in per:
            print("  ", p["scenario"], p["variant"], p["paths"], "paths", p["reached"], p["wall_s"], "s", "exhausted" if p["exhausted"] else "NOT exhausted")
    if rep:
        return 1
    if not tot["paths"]:
        print("nothing was explored")
        return 2
    if spurious:
        print("a counterexample of the executor does not reproduce with the native linker: no verdict")
        return 2
    return 0

if __name__ == "__main__":
    sys.exit(main())
