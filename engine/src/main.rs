//! symx: symbolic execution of dld's compiled code.
mod exec;
mod ir;
mod natives;
mod sys;
mod term;
mod z3;
#[cfg(test)]
mod tests;

use exec::*;
use std::collections::HashMap;
use std::rc::Rc;
use sys::{Cn, Shared};

struct Opts {
    dld: String,
    oracle: String,
    scenario: String,
    jobs: u32,
    out: String,
    budget: u64,
    max_paths: u64,
    rlimit: u32,
    trace: bool,
    forks: bool,
    verbose: bool,
    values: Option<String>,
    pin: HashMap<String, u128>,
    slow: u128,
    dump: Option<String>,
    samples: u64,
    warm: bool,
    time: u64,
}

fn list(f: &str) -> Vec<String> {
    std::fs::read_to_string(f)
        .unwrap_or_else(|e| panic!("{}: {}", f, e))
        .lines()
        .map(|s| s.to_string())
        .filter(|s| !s.is_empty())
        .collect()
}

fn fresh_vfs(ex: &mut Ex) {
    ex.vfs.clear();
    for d in ["/work", "/tmp"] {
        ex.vfs.insert(d.into(), VFile { dir: true, mode: 0o755, ..Default::default() });
    }
}

/// generate inputs, run dld as planned, check: one complete symbolic path (forking inside).
fn path(ex: &mut Ex, o: &Opts) -> X<()> {
    let sc = o.scenario.clone();
    let st = ex.process(0, &["oracle".into(), "gen".into(), sc.clone()], o.budget)?;
    if st != 0 {
        return ex.err(format!("generator ended with {} {}", st, String::from_utf8_lossy(&ex.stderr)));
    }
    let plan = match ex.vfs.get("/work/plan") {
        Some(f) if f.sym.iter().all(|t| *t == 0) => String::from_utf8_lossy(&f.data).into_owned(),
        _ => return ex.err("no (concrete) plan"),
    };
    ex.hash_mode = HashMode::Const;
    ex.getrandom_seed = 0;
    ex.statuses.clear();
    ex.fault_log.clear();
    let mut faults = 0;
    for l in plan.lines() {
        let w: Vec<&str> = l.split_whitespace().collect();
        match w.first().copied() {
            Some("hash") => {
                ex.hash_mode = match w[1] {
                    "const" => HashMode::Const,
                    "sip" => {
                        ex.getrandom_seed = w[2].parse().unwrap();
                        HashMode::Sip(ex.getrandom_seed)
                    }
                    "sym" => HashMode::Sym(w[2].parse().unwrap(), w[3].parse().unwrap(), w[4].parse().unwrap()),
                    _ => return ex.err("hash mode"),
                }
            }
            Some("fault") => {
                faults = w[1].parse().unwrap();
                ex.fault_window = w.get(2).map_or(u32::MAX, |x| x.parse().unwrap());
            }
            Some("run") => {
                ex.fault_left = faults;
                ex.fault_calls = 0;
                ex.fault_until = u32::MAX;
                ex.fault_log.push(0);
                ex.run_label = ex.statuses.len().to_string();
                let args: Vec<String> = w[1..].iter().map(|s| s.to_string()).collect();
                let st = ex.process(1, &args, o.budget)?;
                ex.fault_left = 0;
                ex.shared.add(
                    match st {
                        0 => Cn::ExitOk,
                        ST_PANIC => Cn::Panics,
                        ST_HANG => Cn::Hangs,
                        _ => Cn::ExitFail,
                    },
                    1,
                );
                if ex.verbose {
                    eprintln!(
                        "[run] {} -> {} {}",
                        l,
                        st,
                        String::from_utf8_lossy(&ex.stderr)
                    );
                }
                ex.statuses.push(st);
            }
            _ => {}
        }
    }
    ex.hash_mode = HashMode::Const;
    let st = ex.process(0, &["oracle".into(), "check".into(), sc], o.budget)?;
    if st == ST_PANIC || st == ST_HANG {
        let v = ex.model.vals.clone();
        if !ex.warm {
            ex.shared.add(Cn::Violations, 1);
            ex.report("violation", "the output cannot be interpreted", Some(&v));
        }
        return Err(Stop::End);
    }
    if st != 0 {
        return ex.err(format!("oracle ended with {} {}", st, String::from_utf8_lossy(&ex.stderr)));
    }
    Ok(())
}

fn dump(ex: &Ex, d: &str) {
    for (p, f) in &ex.vfs {
        if let Some(r) = p.strip_prefix("/work") {
            let t = format!("{}{}", d, r);
            if f.dir {
                let _ = std::fs::create_dir_all(&t);
            } else {
                std::fs::write(&t, &f.data).unwrap();
                use std::os::unix::fs::PermissionsExt;
                let _ = std::fs::set_permissions(&t, std::fs::Permissions::from_mode(f.mode | 0o600));
            }
        }
    }
}

fn main() {
    let mut o = Opts {
        dld: String::new(),
        oracle: String::new(),
        scenario: String::new(),
        jobs: 1,
        out: "/dev/stdout".into(),
        budget: 400_000_000,
        max_paths: 1_000_000,
        rlimit: 40_000_000,
        trace: false,
        forks: false,
        verbose: false,
        values: None,
        pin: Default::default(),
        slow: u128::MAX,
        dump: None,
        samples: 1,
        warm: true,
        time: 100_000,
    };
    let mut a = std::env::args().skip(1);
    while let Some(k) = a.next() {
        let mut v = || a.next().unwrap();
        match k.as_str() {
            "--dld" => o.dld = v(),
            "--oracle" => o.oracle = v(),
            "--scenario" => o.scenario = v(),
            "--jobs" => o.jobs = v().parse().unwrap(),
            "--out" => o.out = v(),
            "--budget" => o.budget = v().parse().unwrap(),
            "--max-paths" => o.max_paths = v().parse().unwrap(),
            "--rlimit" => o.rlimit = v().parse().unwrap(),
            "--samples" => o.samples = v().parse().unwrap(),
            "--time" => o.time = v().parse().unwrap(),
            "--trace" => o.trace = true,
            "--forks" => o.forks = true,
            "--no-warm" => o.warm = false,
            "--verbose" => o.verbose = true,
            "--pin" => {
                let x = v();
                let (n, k) = x.split_once('=').unwrap();
                o.pin.insert(n.to_string(), k.parse().unwrap());
            }
            "--slow" => o.slow = v().parse().unwrap(),
            "--values" => o.values = Some(v()),
            "--dump" => o.dump = Some(v()),
            "--version" => {
                println!("z3 {}", z3::version());
                return;
            }
            x => panic!("unknown option {}", x),
        }
    }
    let t0 = std::time::Instant::now();
    let mut p0 = Prog::new("oracle", &list(&o.oracle));
    let mut p1 = Prog::new("dld", &list(&o.dld));
    p0.cov_base = 0;
    p1.cov_base = p0.ix.fdefs.len() + 4000;
    let bits = p1.cov_base + p1.ix.fdefs.len() + 4000;
    let shared = Rc::new(Shared::new(o.jobs, bits));
    let out = std::fs::OpenOptions::new()
        .create(true)
        .append(true)
        .open(&o.out)
        .expect("output file");
    let mut ex = Ex::new(vec![p0, p1], shared.clone(), out, o.rlimit, &o.scenario);
    ex.trace = o.trace;
    ex.show_forks = o.forks;
    ex.pin = o.pin.clone();
    ex.slow = o.slow;
    ex.verbose = o.verbose;
    ex.trace_panics = o.verbose;
    ex.max_paths = o.max_paths;
    let t_load = t0.elapsed();
    if let Some(f) = &o.values {
        let mut m = HashMap::new();
        for l in list(f) {
            let w: Vec<&str> = l.split_whitespace().collect();
            m.insert(w[0].to_string(), w[1].parse::<u128>().unwrap());
        }
        ex.fixed = Some(m);
    } else if o.warm {
        // compile the code most paths need before forking
        ex.fixed = Some(HashMap::new());
        ex.warm = true;
        fresh_vfs(&mut ex);
        let keep = (ex.verbose, ex.trace_panics);
        ex.verbose = false;
        ex.trace_panics = false;
        let _ = path(&mut ex, &o);
        ex.verbose = keep.0;
        ex.trace_panics = keep.1;
        ex.fixed = None;
        ex.warm = false;
        ex.reached.clear();
        ex.icount = 0;
        ex.asserts = 0;
        for c in [Cn::Runs, Cn::ExitOk, Cn::ExitFail, Cn::Panics, Cn::Hangs] {
            shared.c(c).store(0, std::sync::atomic::Ordering::Relaxed);
        }
    }
    let t_warm = t0.elapsed();
    fresh_vfs(&mut ex);
    shared.wait_token();
    // watchdog
    let root = std::process::id();
    {
        let s2 = unsafe { std::mem::transmute::<&Shared, &'static Shared>(&*shared) };
        let limit = o.time;
        // a forked process would not inherit the thread; use a helper process instead
        let pid = unsafe { sys::fork() };
        if pid == 0 {
            sys::die_with_parent();
            for _ in 0..limit {
                std::thread::sleep(std::time::Duration::from_secs(1));
            }
            s2.c(Cn::Stop).store(2, std::sync::atomic::Ordering::Relaxed);
            unsafe { sys::_exit(0) };
        }
    }
    let r = path(&mut ex, &o);
    match r {
        Ok(()) | Err(Stop::End) | Err(Stop::Exit(_)) => {
            if matches!(r, Ok(())) {
                let n = shared.c(Cn::Paths).fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                if n % o.samples == 0 {
                    let v = ex.model.vals.clone();
                    ex.report("path", "", Some(&v));
                } else {
                    ex.report("path", "", None);
                }
            } else {
                shared.add(Cn::Infeasible, 1);
            }
        }
        Err(Stop::Error(ref m)) => {
            shared.add(Cn::Errors, 1);
            let v = ex.model.vals.clone();
            ex.report("error", m, Some(&v));
        }
    }
    ex.flush_counts();
    if let Some(d) = &o.dump {
        if !ex.is_child {
            dump(&ex, d);
        }
    }
    // hand the token on while waiting for children
    shared.post_token();
    for c in std::mem::take(&mut ex.children) {
        if !sys::wait_child(c) {
            shared.add(Cn::Errors, 1);
            ex.report("error", "a worker process died", None);
        }
    }
    if std::process::id() != root {
        // a child that borrowed its parent's token must not give it back: it was re-acquired there
        unsafe { sys::_exit(0) };
    }
    // summary
    let g = |c: Cn| shared.get(c);
    let mut fns = vec![];
    {
        let p = &ex.progs[1];
        for (i, d) in p.ix.fdefs.iter().enumerate() {
            if d.text.is_some() && shared.covered(p.cov_base + i) {
                let m = &p.ix.modules[d.module as usize].path;
                let base = m.rsplit('/').next().unwrap();
                if base.starts_with("dld-") {
                    fns.push(format!("\"{}\"", d.name));
                }
            }
        }
    }
    let mut total_fns = 0;
    {
        let p = &ex.progs[1];
        for (i, _) in p.ix.fdefs.iter().enumerate() {
            if shared.covered(p.cov_base + i) {
                total_fns += 1;
            }
        }
    }
    let line = format!(
        "{{\"kind\":\"summary\",\"scenario\":\"{}\",\"paths\":{},\"forks\":{},\"branches\":{},\"queries\":{},\"unknown\":{},\"violations\":{},\"errors\":{},\"instructions\":{},\"solver_s\":{:.3},\"infeasible\":{},\"asserts\":{},\"assert_queries\":{},\"runs\":{},\"exit_ok\":{},\"exit_fail\":{},\"panics\":{},\"hangs\":{},\"timeout\":{},\"load_s\":{:.2},\"warm_s\":{:.2},\"wall_s\":{:.2},\"functions_total\":{},\"z3\":\"{}\",\"functions\":[{}]}}\n",
        o.scenario, g(Cn::Paths), g(Cn::Forks), g(Cn::Branches), g(Cn::Queries), g(Cn::Unknown),
        g(Cn::Violations), g(Cn::Errors), g(Cn::Instrs), g(Cn::SolverNs) as f64 / 1e9,
        g(Cn::Infeasible), g(Cn::Asserts), g(Cn::AssertQueries), g(Cn::Runs), g(Cn::ExitOk),
        g(Cn::ExitFail), g(Cn::Panics), g(Cn::Hangs), g(Cn::Stop), t_load.as_secs_f64(),
        t_warm.as_secs_f64(), t0.elapsed().as_secs_f64(), total_fns, z3::version(), fns.join(",")
    );
    use std::io::Write;
    ex.out.write_all(line.as_bytes()).unwrap();
    // make sure the watchdog goes away with us
    unsafe { sys::_exit(0) };
}
