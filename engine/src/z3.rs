//! Minimal z3 C API binding and the path-condition solver.
use crate::term::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: extern "C" fn(P, c_int));
    fn Z3_global_param_set(k: *const c_char, v: *const c_char);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_is_numeral_ast(c: P, a: P) -> bool;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_get_full_version() -> *const c_char;
}

extern "C" fn on_error(_c: P, code: c_int) {
    eprintln!("z3 error code {}", code);
    std::process::abort();
}

pub fn version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Res {
    Sat,
    Unsat,
    Unknown,
}

pub struct Solver {
    ctx: P,
    s: P,
    asts: Vec<P>,
    /// conditions asserted so far (1-bit terms that must be 1)
    pub pc: Vec<T>,
    asserted: usize,
    pub rlimit: u32,
    pub queries: u64,
    pub unknowns: u64,
    pub time: std::time::Duration,
    pub since_fresh: u32,
}

impl Solver {
    pub fn new(rlimit: u32) -> Solver {
        unsafe {
            let k = CString::new("memory_max_size").unwrap();
            let v = CString::new("6000").unwrap();
            Z3_global_param_set(k.as_ptr(), v.as_ptr());
            let cfg = Z3_mk_config();
            let ctx = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(ctx, on_error);
            let mut s = Solver {
                ctx,
                s: std::ptr::null_mut(),
                asts: vec![],
                pc: vec![],
                asserted: 0,
                rlimit,
                queries: 0,
                unknowns: 0,
                time: Default::default(),
                since_fresh: 0,
            };
            s.s = s.mk_solver();
            s
        }
    }
    fn sym(&self, s: &str) -> P {
        let c = CString::new(s).unwrap();
        unsafe { Z3_mk_string_symbol(self.ctx, c.as_ptr()) }
    }
    fn mk_solver(&self) -> P {
        unsafe {
            let s = Z3_mk_solver_for_logic(self.ctx, self.sym("QF_BV"));
            Z3_solver_inc_ref(self.ctx, s);
            let p = Z3_mk_params(self.ctx);
            Z3_params_inc_ref(self.ctx, p);
            Z3_params_set_uint(self.ctx, p, self.sym("rlimit"), self.rlimit);
            Z3_solver_set_params(self.ctx, s, p);
            s
        }
    }
    pub fn ast(&mut self, t: T) -> P {
        if let Some(p) = self.asts.get(t as usize) {
            if !p.is_null() {
                return *p;
            }
        }
        let n = tp().nodes.len();
        if self.asts.len() < n {
            self.asts.resize(n, std::ptr::null_mut());
        }
        let mut stack = vec![t];
        while let Some(&x) = stack.last() {
            if !self.asts[x as usize].is_null() {
                stack.pop();
                continue;
            }
            let n = tp().n(x);
            let kids = children(&n);
            let mut ready = true;
            for k in kids {
                if k != 0 && self.asts[k as usize].is_null() {
                    stack.push(k);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            let c = self.ctx;
            let g = |i: T| self.asts[i as usize];
            let w = n.w as u32;
            unsafe {
                let k = |p: P| {
                    Z3_inc_ref(c, p);
                    p
                };
                let srt = |w: u32| k(Z3_mk_bv_sort(c, w));
                let b2v = |b: P| {
                    Z3_mk_ite(
                        c,
                        k(b),
                        k(Z3_mk_unsigned_int64(c, 1, srt(1))),
                        k(Z3_mk_unsigned_int64(c, 0, srt(1))),
                    )
                };
                let r = match n.op {
                    Op::Const => {
                        if w <= 64 {
                            Z3_mk_unsigned_int64(c, n.k as u64, srt(w))
                        } else {
                            let h = k(Z3_mk_unsigned_int64(c, (n.k >> 64) as u64, srt(w - 64)));
                            let l = k(Z3_mk_unsigned_int64(c, n.k as u64, srt(64)));
                            Z3_mk_concat(c, h, l)
                        }
                    }
                    Op::Var => {
                        let name = tp().vars[n.a as usize].0.clone();
                        Z3_mk_const(c, self.sym(&name), srt(w))
                    }
                    Op::Add => Z3_mk_bvadd(c, g(n.a), g(n.b)),
                    Op::Sub => Z3_mk_bvsub(c, g(n.a), g(n.b)),
                    Op::Mul => Z3_mk_bvmul(c, g(n.a), g(n.b)),
                    Op::UDiv => Z3_mk_bvudiv(c, g(n.a), g(n.b)),
                    Op::URem => Z3_mk_bvurem(c, g(n.a), g(n.b)),
                    Op::SDiv => Z3_mk_bvsdiv(c, g(n.a), g(n.b)),
                    Op::SRem => Z3_mk_bvsrem(c, g(n.a), g(n.b)),
                    Op::Shl => Z3_mk_bvshl(c, g(n.a), g(n.b)),
                    Op::LShr => Z3_mk_bvlshr(c, g(n.a), g(n.b)),
                    Op::AShr => Z3_mk_bvashr(c, g(n.a), g(n.b)),
                    Op::And => Z3_mk_bvand(c, g(n.a), g(n.b)),
                    Op::Or => Z3_mk_bvor(c, g(n.a), g(n.b)),
                    Op::Xor => Z3_mk_bvxor(c, g(n.a), g(n.b)),
                    Op::Eq => b2v(Z3_mk_eq(c, g(n.a), g(n.b))),
                    Op::Ult => b2v(Z3_mk_bvult(c, g(n.a), g(n.b))),
                    Op::Ule => b2v(Z3_mk_bvule(c, g(n.a), g(n.b))),
                    Op::Slt => b2v(Z3_mk_bvslt(c, g(n.a), g(n.b))),
                    Op::Sle => b2v(Z3_mk_bvsle(c, g(n.a), g(n.b))),
                    Op::Ite => {
                        let one = k(Z3_mk_unsigned_int64(c, 1, srt(1)));
                        Z3_mk_ite(c, k(Z3_mk_eq(c, g(n.a), one)), g(n.b), g(n.c))
                    }
                    Op::Concat => Z3_mk_concat(c, g(n.a), g(n.b)),
                    Op::Extract => Z3_mk_extract(c, n.b + w - 1, n.b, g(n.a)),
                    Op::ZExt => Z3_mk_zero_ext(c, w - tp().w(n.a), g(n.a)),
                    Op::SExt => Z3_mk_sign_ext(c, w - tp().w(n.a), g(n.a)),
                };
                Z3_inc_ref(c, r);
                self.asts[x as usize] = r;
            }
            stack.pop();
        }
        self.asts[t as usize]
    }
    fn boolean(&mut self, t: T) -> P {
        let a = self.ast(t);
        unsafe {
            let c = self.ctx;
            let k = |p: P| {
                Z3_inc_ref(c, p);
                p
            };
            let one = k(Z3_mk_unsigned_int64(c, 1, k(Z3_mk_bv_sort(c, 1))));
            k(Z3_mk_eq(c, a, one))
        }
    }
    pub fn add(&mut self, t: T) {
        if tp().cval(t) == Some(1) {
            return;
        }
        self.pc.push(t);
    }
    fn flush(&mut self) {
        while self.asserted < self.pc.len() {
            let b = self.boolean(self.pc[self.asserted]);
            unsafe { Z3_solver_assert(self.ctx, self.s, b) };
            self.asserted += 1;
        }
    }
    /// Values of all variables under the last model; `old` supplies unconstrained ones.
    fn model(&mut self, s: P, old: &[u128]) -> Vec<u128> {
        unsafe {
            let m = Z3_solver_get_model(self.ctx, s);
            Z3_model_inc_ref(self.ctx, m);
            let n = tp().vars.len();
            let mut out = vec![0u128; n];
            for i in 0..n {
                out[i] = old.get(i).copied().unwrap_or(0);
                let (name, _) = tp().vars[i].clone();
                let vt = tp().var_by_name[&name];
                let a = self.ast(vt);
                let mut v: P = std::ptr::null_mut();
                if Z3_model_eval(self.ctx, m, a, false, &mut v)
                    && !v.is_null()
                    && Z3_is_numeral_ast(self.ctx, v)
                {
                    let st = CStr::from_ptr(Z3_get_numeral_string(self.ctx, v));
                    out[i] = st.to_str().unwrap().parse::<u128>().unwrap();
                }
            }
            Z3_model_dec_ref(self.ctx, m);
            out
        }
    }
    /// Is `pc & cond` satisfiable?  On Sat returns an assignment.
    pub fn check(&mut self, cond: T, old: &[u128]) -> (Res, Option<Vec<u128>>) {
        let t0 = std::time::Instant::now();
        self.queries += 1;
        self.since_fresh += 1;
        self.flush();
        let b = self.boolean(cond);
        let mut res;
        let mut model = None;
        unsafe {
            Z3_solver_push(self.ctx, self.s);
            Z3_solver_assert(self.ctx, self.s, b);
            res = Z3_solver_check(self.ctx, self.s);
            if res == 1 {
                model = Some(self.model(self.s, old));
            }
            Z3_solver_pop(self.ctx, self.s, 1);
            if res == 0 {
                // retry from scratch on the relevant slice
                self.unknowns += 1;
                let s2 = self.mk_solver();
                let sl = self.slice(cond);
                for t in sl {
                    let b = self.boolean(t);
                    Z3_solver_assert(self.ctx, s2, b);
                }
                Z3_solver_assert(self.ctx, s2, b);
                res = Z3_solver_check(self.ctx, s2);
                if res == 1 {
                    model = Some(self.model(s2, old));
                }
                Z3_solver_dec_ref(self.ctx, s2);
            }
        }
        self.time += t0.elapsed();
        let r = match res {
            1 => Res::Sat,
            -1 => Res::Unsat,
            _ => Res::Unknown,
        };
        // every model is validated against the path condition by our own evaluator
        if r == Res::Sat {
            let mut m = Model::new(model.clone().unwrap());
            for i in 0..self.pc.len() {
                if m.eval(self.pc[i]) != 1 {
                    return (Res::Unknown, None);
                }
            }
            if m.eval(cond) != 1 {
                return (Res::Unknown, None);
            }
        }
        (r, model)
    }
    fn slice(&mut self, cond: T) -> Vec<T> {
        use std::collections::HashSet;
        let mut vars: HashSet<u32> = tp().varset(cond).iter().copied().collect();
        let mut taken = vec![false; self.pc.len()];
        loop {
            let mut ch = false;
            for i in 0..self.pc.len() {
                if taken[i] {
                    continue;
                }
                let vs = tp().varset(self.pc[i]);
                if vs.iter().any(|v| vars.contains(v)) {
                    taken[i] = true;
                    vars.extend(vs.iter().copied());
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        (0..self.pc.len()).filter(|i| taken[*i]).map(|i| self.pc[i]).collect()
    }
}
