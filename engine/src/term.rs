//! Hash-consed bit-vector terms (width 1..=128) with local simplification and evaluation.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.write_u64(*c as u64)
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u16(&mut self, i: u16) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

pub type T = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    Concat,
    Extract,
    ZExt,
    SExt,
}
use Op::*;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: u32,
    pub b: u32,
    pub c: u32,
    pub k: u128,
}

pub struct Terms {
    pub nodes: Vec<Node>,
    map: FxMap<Node, T>,
    pub vars: Vec<(String, u16)>,
    pub var_by_name: HashMap<String, T>,
    varsets: Vec<Option<Rc<Vec<u32>>>>,
}

static mut POOL: Option<Terms> = None;

#[allow(static_mut_refs)]
pub fn tp() -> &'static mut Terms {
    unsafe {
        if POOL.is_none() {
            POOL = Some(Terms {
                nodes: vec![Node { op: Const, w: 1, a: 0, b: 0, c: 0, k: 0 }],
                map: Default::default(),
                vars: vec![],
                var_by_name: Default::default(),
                varsets: vec![],
            });
            // node 0 is a dummy so that T==0 can mean "none"
        }
        POOL.as_mut().unwrap()
    }
}

#[inline]
pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
#[inline]
pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

pub fn eval_op(op: Op, w: u32, aw: u32, x: u128, y: u128) -> u128 {
    let m = mask(w);
    match op {
        Add => x.wrapping_add(y) & m,
        Sub => x.wrapping_sub(y) & m,
        Mul => x.wrapping_mul(y) & m,
        UDiv => {
            if y == 0 {
                m
            } else {
                x / y
            }
        }
        URem => {
            if y == 0 {
                x
            } else {
                x % y
            }
        }
        SDiv => {
            let (a, b) = (sext(x, w), sext(y, w));
            if b == 0 {
                if a < 0 {
                    1
                } else {
                    m
                }
            } else {
                (a.wrapping_div(b)) as u128 & m
            }
        }
        SRem => {
            let (a, b) = (sext(x, w), sext(y, w));
            if b == 0 {
                x
            } else {
                (a.wrapping_rem(b)) as u128 & m
            }
        }
        Shl => {
            if y >= w as u128 {
                0
            } else {
                (x << y) & m
            }
        }
        LShr => {
            if y >= w as u128 {
                0
            } else {
                x >> y
            }
        }
        AShr => {
            let a = sext(x, w);
            let s = if y >= w as u128 { w - 1 } else { y as u32 };
            ((a >> s) as u128) & m
        }
        And => x & y,
        Or => x | y,
        Xor => x ^ y,
        Eq => (x == y) as u128,
        Ult => (x < y) as u128,
        Ule => (x <= y) as u128,
        Slt => (sext(x, aw) < sext(y, aw)) as u128,
        Sle => (sext(x, aw) <= sext(y, aw)) as u128,
        _ => unreachable!(),
    }
}

impl Terms {
    #[inline]
    pub fn n(&self, t: T) -> Node {
        self.nodes[t as usize]
    }
    #[inline]
    pub fn w(&self, t: T) -> u32 {
        self.nodes[t as usize].w as u32
    }
    #[inline]
    pub fn cval(&self, t: T) -> Option<u128> {
        let n = &self.nodes[t as usize];
        if n.op == Const {
            Some(n.k)
        } else {
            None
        }
    }
    fn intern(&mut self, n: Node) -> T {
        if let Some(t) = self.map.get(&n) {
            return *t;
        }
        let t = self.nodes.len() as T;
        self.nodes.push(n);
        self.map.insert(n, t);
        t
    }
    fn mk(&mut self, op: Op, w: u32, a: T, b: T, c: T) -> T {
        self.intern(Node { op, w: w as u16, a, b, c, k: 0 })
    }
    pub fn konst(&mut self, w: u32, k: u128) -> T {
        self.intern(Node { op: Const, w: w as u16, a: 0, b: 0, c: 0, k: k & mask(w) })
    }
    pub fn var(&mut self, name: &str, w: u32) -> T {
        if let Some(t) = self.var_by_name.get(name) {
            assert_eq!(self.w(*t), w, "variable {} redeclared with another width", name);
            return *t;
        }
        let idx = self.vars.len() as u32;
        self.vars.push((name.to_string(), w as u16));
        let t = self.intern(Node { op: Var, w: w as u16, a: idx, b: 0, c: 0, k: 0 });
        self.var_by_name.insert(name.to_string(), t);
        t
    }
    pub fn not1(&mut self, a: T) -> T {
        let one = self.konst(1, 1);
        self.bin(Xor, a, one)
    }

    pub fn zext(&mut self, a: T, w: u32) -> T {
        let n = self.n(a);
        if n.w as u32 == w {
            return a;
        }
        match n.op {
            Const => self.konst(w, n.k),
            ZExt => self.zext(n.a, w),
            _ => self.mk(ZExt, w, a, 0, 0),
        }
    }
    pub fn sext(&mut self, a: T, w: u32) -> T {
        let n = self.n(a);
        if n.w as u32 == w {
            return a;
        }
        match n.op {
            Const => self.konst(w, sext(n.k, n.w as u32) as u128),
            ZExt => self.zext(n.a, w),
            SExt => self.sext(n.a, w),
            _ => self.mk(SExt, w, a, 0, 0),
        }
    }
    pub fn extract(&mut self, a: T, lo: u32, w: u32) -> T {
        let n = self.n(a);
        if lo == 0 && w == n.w as u32 {
            return a;
        }
        debug_assert!(lo + w <= n.w as u32);
        match n.op {
            Const => self.konst(w, n.k >> lo),
            Extract => self.extract(n.a, n.b + lo, w),
            ZExt => {
                let iw = self.w(n.a);
                if lo >= iw {
                    self.konst(w, 0)
                } else if lo + w <= iw {
                    self.extract(n.a, lo, w)
                } else {
                    let e = self.extract(n.a, lo, iw - lo);
                    self.zext(e, w)
                }
            }
            SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    self.extract(n.a, lo, w)
                } else if lo < iw {
                    let e = self.extract(n.a, lo, iw - lo);
                    self.sext(e, w)
                } else {
                    let e = self.extract(n.a, iw - 1, 1);
                    self.sext(e, w)
                }
            }
            Concat => {
                let lw = self.w(n.b);
                if lo + w <= lw {
                    self.extract(n.b, lo, w)
                } else if lo >= lw {
                    self.extract(n.a, lo - lw, w)
                } else {
                    let l = self.extract(n.b, lo, lw - lo);
                    let h = self.extract(n.a, 0, w - (lw - lo));
                    self.concat(h, l)
                }
            }
            Ite => {
                let (x, y) = (self.n(n.b), self.n(n.c));
                if x.op == Const || y.op == Const {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    self.ite(n.a, x, y)
                } else {
                    self.mk(Extract, w, a, lo, 0)
                }
            }
            And | Or | Xor if self.n(n.a).op == Const || self.n(n.b).op == Const => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                self.bin(n.op, x, y)
            }
            Add | Sub | Mul if lo == 0 => {
                // low bits only depend on low bits
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                self.bin(n.op, x, y)
            }
            _ => self.mk(Extract, w, a, lo, 0),
        }
    }
    /// hi:lo
    pub fn concat(&mut self, hi: T, lo: T) -> T {
        let (h, l) = (self.n(hi), self.n(lo));
        let w = (h.w + l.w) as u32;
        debug_assert!(w <= 128);
        if h.op == Const && l.op == Const {
            return self.konst(w, (h.k << l.w) | l.k);
        }
        if h.op == Const && h.k == 0 {
            return self.zext(lo, w);
        }
        // adjacent pieces of the same term
        let (ht, hlo, hw) = if h.op == Extract { (h.a, h.b, h.w) } else { (hi, 0, h.w) };
        let (lt, llo, lw) = if l.op == Extract { (l.a, l.b, l.w) } else { (lo, 0, l.w) };
        if ht == lt && hlo == llo + lw as u32 {
            return self.extract(ht, llo, (hw + lw) as u32);
        }
        // hi is the sign/zero extension continuing lo: concat(extract(zext)) cases
        if l.op == Concat {
            // right-associate differently: (hi . (m . l)) -> ((hi . m) . l) when hi.m merges
            let m = l.a;
            let mn = self.n(m);
            let (mt, mlo, mw) = if mn.op == Extract { (mn.a, mn.b, mn.w) } else { (m, 0, mn.w) };
            if (ht == mt && hlo == mlo + mw as u32) || (h.op == Const && mn.op == Const) {
                let hm = self.concat(hi, m);
                return self.concat(hm, l.b);
            }
        }
        if l.op == ZExt && h.op != Const {
            // keep as concat(hi, concat(0, x)) form
            let zw = l.w as u32 - self.w(l.a);
            let z = self.konst(zw, 0);
            let hz = self.mk(Concat, h.w as u32 + zw, hi, z, 0);
            return self.mk(Concat, w, hz, l.a, 0);
        }
        if h.op == Concat {
            // ((a . b) . lo) with b.lo merging
            let b = h.b;
            let bn = self.n(b);
            let (bt, blo) = if bn.op == Extract { (bn.a, bn.b) } else { (b, 0) };
            if (bt == lt && blo == llo + lw as u32) || (bn.op == Const && l.op == Const) {
                let bl = self.concat(b, lo);
                return self.concat(h.a, bl);
            }
        }
        if h.op == ZExt {
            // concat(zext(x), lo) -> zext(concat(x, lo))
            let x = self.concat(h.a, lo);
            return self.zext(x, w);
        }
        self.mk(Concat, w, hi, lo, 0)
    }
    pub fn ite(&mut self, c: T, x: T, y: T) -> T {
        if x == y {
            return x;
        }
        if let Some(k) = self.cval(c) {
            return if k != 0 { x } else { y };
        }
        let cn = self.n(c);
        if cn.op == Xor && self.cval(cn.b) == Some(1) {
            return self.ite(cn.a, y, x);
        }
        let w = self.w(x);
        if w == 1 {
            match (self.cval(x), self.cval(y)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not1(c),
                (Some(1), None) => return self.bin(Or, c, y),
                (Some(0), None) => {
                    let nc = self.not1(c);
                    return self.bin(And, nc, y);
                }
                (None, Some(0)) => return self.bin(And, c, x),
                (None, Some(1)) => {
                    let nc = self.not1(c);
                    return self.bin(Or, nc, x);
                }
                _ => {}
            }
        }
        // ite(c, ite(c, p, q), y) -> ite(c, p, y)
        let xn = self.n(x);
        if xn.op == Ite && xn.a == c {
            return self.ite(c, xn.b, y);
        }
        let yn = self.n(y);
        if yn.op == Ite && yn.a == c {
            return self.ite(c, x, yn.c);
        }
        self.mk(Ite, w, c, x, y)
    }

    /// Bits that may be non-zero (cheap over-approximation).
    fn maybe_ones(&self, t: T, depth: u32) -> u128 {
        let n = self.n(t);
        let m = mask(n.w as u32);
        if depth == 0 {
            return if n.op == Const { n.k } else { m };
        }
        match n.op {
            Const => n.k,
            ZExt => self.maybe_ones(n.a, depth - 1),
            Concat => {
                let lw = self.w(n.b);
                (self.maybe_ones(n.a, depth - 1) << lw) | self.maybe_ones(n.b, depth - 1)
            }
            And => self.maybe_ones(n.a, depth - 1) & self.maybe_ones(n.b, depth - 1),
            Or | Xor => self.maybe_ones(n.a, depth - 1) | self.maybe_ones(n.b, depth - 1),
            Ite => self.maybe_ones(n.b, depth - 1) | self.maybe_ones(n.c, depth - 1),
            Extract => (self.maybe_ones(n.a, depth - 1) >> n.b) & m,
            URem => {
                if let Some(k) = self.cval(n.b) {
                    if k > 0 {
                        let bits = 128 - (k - 1).leading_zeros();
                        return mask(bits);
                    }
                }
                m
            }
            UDiv => {
                let o = self.maybe_ones(n.a, depth - 1);
                let bits = 128 - o.leading_zeros();
                mask(bits)
            }
            Add => {
                let o = self.maybe_ones(n.a, depth - 1) | self.maybe_ones(n.b, depth - 1);
                let bits = 128 - o.leading_zeros() + 1;
                mask(bits) & m
            }
            Mul => {
                let b = (128 - self.maybe_ones(n.a, depth - 1).leading_zeros())
                    + (128 - self.maybe_ones(n.b, depth - 1).leading_zeros());
                mask(b) & m
            }
            _ => m,
        }
    }
    /// Upper bound of the unsigned value.
    pub fn umax(&self, t: T) -> u128 {
        let n = self.n(t);
        match n.op {
            Add => {
                let (a, b) = (self.umax1(n.a), self.umax1(n.b));
                match a.checked_add(b) {
                    Some(s) if s <= mask(n.w as u32) => s,
                    _ => mask(n.w as u32),
                }
            }
            _ => self.umax1(t),
        }
    }
    fn umax1(&self, t: T) -> u128 {
        let o = self.maybe_ones(t, 6);
        mask(128 - o.leading_zeros())
    }

    pub fn bin(&mut self, op: Op, a: T, b: T) -> T {
        let (na, nb) = (self.n(a), self.n(b));
        let w = na.w as u32;
        debug_assert_eq!(na.w, nb.w, "{:?}", op);
        let rw = match op {
            Eq | Ult | Ule | Slt | Sle => 1,
            _ => w,
        };
        if na.op == Const && nb.op == Const {
            return self.konst(rw, eval_op(op, rw, w, na.k, nb.k));
        }
        // canonical: constant on the right for commutative ops
        if matches!(op, Add | Mul | And | Or | Xor | Eq)
            && (na.op == Const || (nb.op != Const && a > b))
        {
            return self.bin2(op, b, a);
        }
        self.bin2(op, a, b)
    }

    fn bin2(&mut self, op: Op, a: T, b: T) -> T {
        let (na, nb) = (self.n(a), self.n(b));
        let w = na.w as u32;
        let m = mask(w);
        let kb = if nb.op == Const { Some(nb.k) } else { None };
        let ka = if na.op == Const { Some(na.k) } else { None };
        match op {
            Add => {
                if kb == Some(0) {
                    return a;
                }
                if let Some(k) = kb {
                    if na.op == Add {
                        if let Some(k2) = self.cval(na.b) {
                            let c = self.konst(w, k.wrapping_add(k2));
                            return self.bin(Add, na.a, c);
                        }
                    }
                }
                // pull constants outwards: (x + k) + y -> (x + y) + k
                if na.op == Add && kb.is_none() {
                    if self.cval(na.b).is_some() {
                        let s = self.bin(Add, na.a, b);
                        return self.bin(Add, s, na.b);
                    }
                }
                if nb.op == Add {
                    if self.cval(nb.b).is_some() {
                        let s = self.bin(Add, a, nb.a);
                        return self.bin(Add, s, nb.b);
                    }
                }
                // (x - y) + y
                if na.op == Sub && na.b == b {
                    return na.a;
                }
                if nb.op == Sub && nb.b == a {
                    return nb.a;
                }
                if w == 1 {
                    return self.bin(Xor, a, b);
                }
            }
            Sub => {
                if a == b {
                    return self.konst(w, 0);
                }
                if let Some(k) = kb {
                    let c = self.konst(w, k.wrapping_neg());
                    return self.bin(Add, a, c);
                }
                // (x + k) - y -> (x - y) + k
                if na.op == Add {
                    if na.a == b {
                        return na.b;
                    }
                    if na.b == b {
                        return na.a;
                    }
                    if self.cval(na.b).is_some() {
                        let s = self.bin(Sub, na.a, b);
                        return self.bin(Add, s, na.b);
                    }
                }
                if nb.op == Add {
                    if let Some(k) = self.cval(nb.b) {
                        let s = self.bin(Sub, a, nb.a);
                        let c = self.konst(w, k.wrapping_neg());
                        return self.bin(Add, s, c);
                    }
                    if nb.a == a {
                        let z = self.konst(w, 0);
                        return self.bin(Sub, z, nb.b);
                    }
                    if nb.b == a {
                        let z = self.konst(w, 0);
                        return self.bin(Sub, z, nb.a);
                    }
                }
                if w == 1 {
                    return self.bin(Xor, a, b);
                }
            }
            Mul => {
                if let Some(k) = kb {
                    if k == 0 {
                        return b;
                    }
                    if k == 1 {
                        return a;
                    }
                    if k.is_power_of_two() {
                        let c = self.konst(w, k.trailing_zeros() as u128);
                        return self.bin(Shl, a, c);
                    }
                }
                if w == 1 {
                    return self.bin(And, a, b);
                }
            }
            UDiv => {
                if let Some(k) = kb {
                    if k == 1 {
                        return a;
                    }
                    if k.is_power_of_two() {
                        let c = self.konst(w, k.trailing_zeros() as u128);
                        return self.bin(LShr, a, c);
                    }
                    if k > 0 && self.umax(a) < k {
                        return self.konst(w, 0);
                    }
                }
            }
            URem => {
                if let Some(k) = kb {
                    if k.is_power_of_two() {
                        let c = self.konst(w, k - 1);
                        return self.bin(And, a, c);
                    }
                    if k > 0 && self.umax(a) < k {
                        return a;
                    }
                }
            }
            Shl => {
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.konst(w, 0);
                    }
                    let k = k as u32;
                    let e = self.extract(a, 0, w - k);
                    let z = self.konst(k, 0);
                    return self.concat(e, z);
                }
            }
            LShr => {
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.konst(w, 0);
                    }
                    let k = k as u32;
                    let e = self.extract(a, k, w - k);
                    return self.zext(e, w);
                }
            }
            AShr => {
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    let k = if k >= w as u128 { w - 1 } else { k as u32 };
                    let e = self.extract(a, k, w - k);
                    return self.sext(e, w);
                }
            }
            And => {
                if a == b {
                    return a;
                }
                if let Some(k) = kb {
                    if k == 0 {
                        return b;
                    }
                    if k == m {
                        return a;
                    }
                    if na.op == And {
                        if let Some(k2) = self.cval(na.b) {
                            let c = self.konst(w, k & k2);
                            return self.bin(And, na.a, c);
                        }
                    }
                    let mo = self.maybe_ones(a, 6);
                    if mo & k == 0 {
                        return self.konst(w, 0);
                    }
                    if mo & !k == 0 {
                        return a;
                    }
                    // low mask -> zext(extract)
                    if (k + 1).is_power_of_two() {
                        let e = self.extract(a, 0, (k + 1).trailing_zeros());
                        return self.zext(e, w);
                    }
                    // contiguous mask -> concat pieces
                    let lo = k.trailing_zeros();
                    let top = 128 - k.leading_zeros();
                    if k == (mask(top) & !mask(lo)) {
                        let e = self.extract(a, lo, top - lo);
                        let z = self.konst(lo, 0);
                        let c = self.concat(e, z);
                        return self.zext(c, w);
                    }
                    if na.op == Ite {
                        let (x, y) = (self.n(na.b), self.n(na.c));
                        if x.op == Const && y.op == Const {
                            let x = self.bin(And, na.b, b);
                            let y = self.bin(And, na.c, b);
                            return self.ite(na.a, x, y);
                        }
                    }
                }
                if w == 1 {
                    // x & !x
                    if self.is_not(a, b) {
                        return self.konst(1, 0);
                    }
                }
            }
            Or => {
                if a == b || kb == Some(0) {
                    return a;
                }
                if kb == Some(m) {
                    return b;
                }
                if w == 1 && self.is_not(a, b) {
                    return self.konst(1, 1);
                }
                if w > 1 {
                    if let Some(t) = self.disjoint_merge(a, b) {
                        return t;
                    }
                }
            }
            Xor => {
                if a == b {
                    return self.konst(w, 0);
                }
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if na.op == Xor {
                        if let Some(k2) = self.cval(na.b) {
                            let c = self.konst(w, k ^ k2);
                            return self.bin(Xor, na.a, c);
                        }
                    }
                    if w == 1 && k == 1 {
                        match na.op {
                            Ult => return self.bin(Ule, na.b, na.a),
                            Ule => return self.bin(Ult, na.b, na.a),
                            Slt => return self.bin(Sle, na.b, na.a),
                            Sle => return self.bin(Slt, na.b, na.a),
                            _ => {}
                        }
                    }
                }
            }
            Eq => {
                if a == b {
                    return self.konst(1, 1);
                }
                if w == 1 {
                    if let Some(k) = kb {
                        return if k == 1 { a } else { self.not1(a) };
                    }
                }
                if let Some(k) = kb {
                    match na.op {
                        ZExt => {
                            let iw = self.w(na.a);
                            if k > mask(iw) {
                                return self.konst(1, 0);
                            }
                            let c = self.konst(iw, k);
                            return self.bin(Eq, na.a, c);
                        }
                        SExt => {
                            let iw = self.w(na.a);
                            if (sext(k & mask(iw), iw) as u128) & m != k {
                                return self.konst(1, 0);
                            }
                            let c = self.konst(iw, k);
                            return self.bin(Eq, na.a, c);
                        }
                        Concat => {
                            let lw = self.w(na.b);
                            let h = self.konst(w - lw, k >> lw);
                            let l = self.konst(lw, k);
                            let e1 = self.bin(Eq, na.a, h);
                            if self.cval(e1) == Some(0) {
                                return e1;
                            }
                            let e2 = self.bin(Eq, na.b, l);
                            return self.bin(And, e1, e2);
                        }
                        Add => {
                            if let Some(k2) = self.cval(na.b) {
                                let c = self.konst(w, k.wrapping_sub(k2));
                                return self.bin(Eq, na.a, c);
                            }
                        }
                        Xor => {
                            if let Some(k2) = self.cval(na.b) {
                                let c = self.konst(w, k ^ k2);
                                return self.bin(Eq, na.a, c);
                            }
                        }
                        Ite => {
                            let (x, y) = (self.cval(na.b), self.cval(na.c));
                            if x.is_some() || y.is_some() {
                                let e1 = self.bin(Eq, na.b, b);
                                let e2 = self.bin(Eq, na.c, b);
                                return self.ite(na.a, e1, e2);
                            }
                        }
                        _ => {}
                    }
                    if k > self.umax(a) {
                        return self.konst(1, 0);
                    }
                } else {
                    // x + k == y + k
                    if na.op == Add && nb.op == Add && na.b == nb.b {
                        return self.bin(Eq, na.a, nb.a);
                    }
                    if na.op == Add && (na.a == b) {
                        let z = self.konst(w, 0);
                        return self.bin(Eq, na.b, z);
                    }
                    if nb.op == Add && (nb.a == a) {
                        let z = self.konst(w, 0);
                        return self.bin(Eq, nb.b, z);
                    }
                    if na.op == ZExt && nb.op == ZExt {
                        let (wa, wb) = (self.w(na.a), self.w(nb.a));
                        let ww = wa.max(wb);
                        let x = self.zext(na.a, ww);
                        let y = self.zext(nb.a, ww);
                        if ww < w {
                            return self.bin(Eq, x, y);
                        }
                    }
                }
            }
            Ult => {
                if a == b || kb == Some(0) {
                    return self.konst(1, 0);
                }
                if let Some(k) = kb {
                    if self.umax(a) < k {
                        return self.konst(1, 1);
                    }
                    if k == 1 {
                        let z = self.konst(w, 0);
                        return self.bin(Eq, a, z);
                    }
                    if na.op == ZExt {
                        let iw = self.w(na.a);
                        let c = self.konst(iw, k); // k <= umax
                        return self.bin(Ult, na.a, c);
                    }
                }
                if let Some(k) = ka {
                    if k == m {
                        return self.konst(1, 0);
                    }
                    if k >= self.umax(b) {
                        return self.konst(1, 0);
                    }
                    if nb.op == ZExt {
                        let iw = self.w(nb.a);
                        let c = self.konst(iw, k);
                        return self.bin(Ult, c, nb.a);
                    }
                }
                if na.op == ZExt && nb.op == ZExt {
                    let ww = self.w(na.a).max(self.w(nb.a));
                    if ww < w {
                        let x = self.zext(na.a, ww);
                        let y = self.zext(nb.a, ww);
                        return self.bin(Ult, x, y);
                    }
                }
            }
            Ule => {
                if a == b || ka == Some(0) {
                    return self.konst(1, 1);
                }
                if let Some(k) = kb {
                    if self.umax(a) <= k {
                        return self.konst(1, 1);
                    }
                    if k == 0 {
                        return self.bin(Eq, a, b);
                    }
                    // a <= k  ==  a < k+1
                    if k < m {
                        let c = self.konst(w, k + 1);
                        return self.bin(Ult, a, c);
                    }
                }
                if let Some(k) = ka {
                    if k > self.umax(b) {
                        return self.konst(1, 0);
                    }
                    // k <= b == k-1 < b
                    let c = self.konst(w, k - 1);
                    return self.bin(Ult, c, b);
                }
                if na.op == ZExt && nb.op == ZExt {
                    let ww = self.w(na.a).max(self.w(nb.a));
                    if ww < w {
                        let x = self.zext(na.a, ww);
                        let y = self.zext(nb.a, ww);
                        return self.bin(Ule, x, y);
                    }
                }
            }
            Slt | Sle => {
                if a == b {
                    return self.konst(1, (op == Sle) as u128);
                }
                // both known non-negative: unsigned comparison
                let half = 1u128 << (w - 1);
                let ua = self.umax(a);
                let ub = self.umax(b);
                if ua < half && ub < half {
                    return self.bin(if op == Slt { Ult } else { Ule }, a, b);
                }
                if let Some(k) = kb {
                    if k >= half && ua < half {
                        return self.konst(1, 0); // a >= 0 > k
                    }
                    if op == Slt && k == 0 {
                        return self.extract(a, w - 1, 1);
                    }
                    if op == Sle && k == m {
                        return self.extract(a, w - 1, 1);
                    }
                    if na.op == SExt {
                        let iw = self.w(na.a);
                        let c = sext(k, w);
                        let (lo, hi) = (-(1i128 << (iw - 1)), (1i128 << (iw - 1)) - 1);
                        if c > hi {
                            return self.konst(1, 1);
                        }
                        if c < lo {
                            return self.konst(1, 0);
                        }
                        let c = self.konst(iw, c as u128);
                        return self.bin(op, na.a, c);
                    }
                }
                if let Some(k) = ka {
                    if k >= half && ub < half {
                        return self.konst(1, 1);
                    }
                    if nb.op == SExt {
                        let iw = self.w(nb.a);
                        let c = sext(k, w);
                        let (lo, hi) = (-(1i128 << (iw - 1)), (1i128 << (iw - 1)) - 1);
                        if c > hi {
                            return self.konst(1, 0);
                        }
                        if c < lo {
                            return self.konst(1, 1);
                        }
                        let c = self.konst(iw, c as u128);
                        return self.bin(op, c, nb.a);
                    }
                }
            }
            _ => {}
        }
        let rw = match op {
            Eq | Ult | Ule | Slt | Sle => 1,
            _ => w,
        };
        self.mk(op, rw, a, b, 0)
    }
    fn is_not(&self, a: T, b: T) -> bool {
        let (x, y) = (self.n(a), self.n(b));
        (x.op == Xor && x.a == b && self.cval(x.b) == Some(1))
            || (y.op == Xor && y.a == a && self.cval(y.b) == Some(1))
    }
    /// or/add of operands with disjoint, byte-like segments becomes a concat
    fn disjoint_merge(&mut self, a: T, b: T) -> Option<T> {
        let w = self.w(a);
        let (ma, mb) = (self.maybe_ones(a, 8), self.maybe_ones(b, 8));
        if ma & mb != 0 {
            return None;
        }
        // split points: walk bit runs of ownership
        let mut res: Option<T> = None;
        let mut i = 0;
        let mut runs = 0;
        while i < w {
            let own_a = (ma >> i) & 1 == 1;
            let own_b = (mb >> i) & 1 == 1;
            let mut j = i + 1;
            while j < w && ((ma >> j) & 1 == 1) == own_a && ((mb >> j) & 1 == 1) == own_b {
                j += 1;
            }
            let piece = if own_a {
                self.extract(a, i, j - i)
            } else if own_b {
                self.extract(b, i, j - i)
            } else {
                self.konst(j - i, 0)
            };
            res = Some(match res {
                None => piece,
                Some(r) => self.concat(piece, r),
            });
            i = j;
            runs += 1;
            if runs > 20 {
                return None;
            }
        }
        res
    }

    pub fn varset(&mut self, t: T) -> Rc<Vec<u32>> {
        if self.varsets.len() < self.nodes.len() {
            let n = self.nodes.len();
            self.varsets.resize(n, None);
        }
        if let Some(v) = &self.varsets[t as usize] {
            return v.clone();
        }
        let mut stack = vec![t];
        while let Some(&x) = stack.last() {
            if self.varsets[x as usize].is_some() {
                stack.pop();
                continue;
            }
            let n = self.n(x);
            let kids = children(&n);
            let mut ready = true;
            for k in kids.iter() {
                if *k != 0 && self.varsets[*k as usize].is_none() {
                    stack.push(*k);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            let mut s: Vec<u32> = vec![];
            if n.op == Var {
                s.push(n.a);
            }
            for k in kids.iter() {
                if *k != 0 {
                    s.extend(self.varsets[*k as usize].as_ref().unwrap().iter());
                }
            }
            s.sort_unstable();
            s.dedup();
            self.varsets[x as usize] = Some(Rc::new(s));
            stack.pop();
        }
        self.varsets[t as usize].clone().unwrap()
    }
}

pub fn children(n: &Node) -> [T; 3] {
    match n.op {
        Const | Var => [0, 0, 0],
        Extract | ZExt | SExt => [n.a, 0, 0],
        Ite => [n.a, n.b, n.c],
        _ => [n.a, n.b, 0],
    }
}

/// A total assignment (missing variables are 0) with memoised evaluation.
pub struct Model {
    pub vals: Vec<u128>,
    memo: FxMap<T, u128>,
}
impl Model {
    pub fn new(vals: Vec<u128>) -> Self {
        Model { vals, memo: Default::default() }
    }
    pub fn eval(&mut self, t: T) -> u128 {
        let tp = tp();
        let n = tp.n(t);
        match n.op {
            Const => return n.k,
            Var => return self.vals.get(n.a as usize).copied().unwrap_or(0),
            _ => {}
        }
        if let Some(v) = self.memo.get(&t) {
            return *v;
        }
        let mut stack = vec![t];
        while let Some(&x) = stack.last() {
            if self.memo.contains_key(&x) {
                stack.pop();
                continue;
            }
            let n = tp.n(x);
            let v = match n.op {
                Const => n.k,
                Var => self.vals.get(n.a as usize).copied().unwrap_or(0),
                _ => {
                    let kids = children(&n);
                    let mut vs = [0u128; 3];
                    let mut ready = true;
                    for (i, k) in kids.iter().enumerate() {
                        if *k == 0 {
                            continue;
                        }
                        let kn = tp.n(*k);
                        match kn.op {
                            Const => vs[i] = kn.k,
                            Var => vs[i] = self.vals.get(kn.a as usize).copied().unwrap_or(0),
                            _ => match self.memo.get(k) {
                                Some(v) => vs[i] = *v,
                                None => {
                                    stack.push(*k);
                                    ready = false;
                                }
                            },
                        }
                    }
                    if !ready {
                        continue;
                    }
                    match n.op {
                        Ite => {
                            if vs[0] != 0 {
                                vs[1]
                            } else {
                                vs[2]
                            }
                        }
                        Concat => (vs[0] << tp.w(n.b)) | vs[1],
                        Extract => (vs[0] >> n.b) & mask(n.w as u32),
                        ZExt => vs[0],
                        SExt => (sext(vs[0], tp.w(n.a)) as u128) & mask(n.w as u32),
                        _ => eval_op(n.op, n.w as u32, tp.w(n.a), vs[0], vs[1]),
                    }
                }
            };
            self.memo.insert(x, v);
            stack.pop();
        }
        self.memo[&t]
    }
}
