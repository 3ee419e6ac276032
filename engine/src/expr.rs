//! Hash-consed bit-vector terms over 8-bit symbolic inputs.
//! A term that depends on one input byte only is kept as its 256-entry value table, the canonical form
//! of a function of one byte; everything else is a DAG that goes to the SMT solver.
use crate::ir::{BinOp, Pred};
use crate::val::E;
use std::collections::HashMap;
use std::rc::Rc;

pub type Set = [u64; 4];
pub const FULL: Set = [!0; 4];
pub const EMPTY: Set = [0; 4];

pub fn set_has(s: &Set, i: usize) -> bool {
    s[i >> 6] >> (i & 63) & 1 == 1
}
pub fn set_add(s: &mut Set, i: usize) {
    s[i >> 6] |= 1 << (i & 63);
}
pub fn set_and(a: &Set, b: &Set) -> Set {
    [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]]
}
pub fn set_or(a: &Set, b: &Set) -> Set {
    [a[0] | b[0], a[1] | b[1], a[2] | b[2], a[3] | b[3]]
}
pub fn set_not(a: &Set) -> Set {
    [!a[0], !a[1], !a[2], !a[3]]
}
pub fn set_empty(a: &Set) -> bool {
    a[0] | a[1] | a[2] | a[3] == 0
}
pub fn set_count(a: &Set) -> u32 {
    a.iter().map(|x| x.count_ones()).sum()
}
pub fn set_first(a: &Set) -> usize {
    for i in 0..4 {
        if a[i] != 0 {
            return i * 64 + a[i].trailing_zeros() as usize;
        }
    }
    256
}
pub fn set_iter(a: Set) -> impl Iterator<Item = usize> {
    (0..256usize).filter(move |i| set_has(&a, *i))
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum N {
    Const(u128),
    /// single-byte function, width <= 64
    Tab(u16, Rc<[u64]>),
    /// single-byte predicate (width 1)
    Set(u16, Set),
    Bin(BinOp, E, E),
    Cmp(Pred, E, E), // only Eq, Ult, Ule, Slt, Sle
    Not(E),          // width 1
    Ite(E, E, E),
    Cat(E, E), // hi, lo
    Ext(E, u32),
    SExt(E),
}

pub type Vars = u128;

#[derive(Clone, Copy)]
pub struct Meta {
    pub w: u32,
    pub vars: Vars,
    /// no value of the term exceeds it
    pub hi: u128,
}

pub struct Ctx {
    pub n: Vec<N>,
    pub m: Vec<Meta>,
    h: HashMap<(N, u32), E>,
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 { !0 } else { (1u128 << w) - 1 }
}
pub fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w;
        ((v << s) as i128) >> s
    }
}

pub fn fold_bin(op: BinOp, a: u128, b: u128, w: u32) -> u128 {
    let m = mask(w);
    let r = match op {
        BinOp::Add => a.wrapping_add(b),
        BinOp::Sub => a.wrapping_sub(b),
        BinOp::Mul => a.wrapping_mul(b),
        BinOp::UDiv => if b == 0 { m } else { a / b },
        BinOp::URem => if b == 0 { a } else { a % b },
        BinOp::SDiv => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 { if x < 0 { 1 } else { m } } else { x.wrapping_div(y) as u128 }
        }
        BinOp::SRem => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 { a } else { x.wrapping_rem(y) as u128 }
        }
        BinOp::And => a & b,
        BinOp::Or => a | b,
        BinOp::Xor => a ^ b,
        BinOp::Shl => if b >= w as u128 { 0 } else { a << b },
        BinOp::LShr => if b >= w as u128 { 0 } else { a >> b },
        BinOp::AShr => {
            let s = if b >= w as u128 { w - 1 } else { b as u32 };
            (sx(a, w) >> s) as u128
        }
    };
    r & m
}

pub fn fold_cmp(p: Pred, a: u128, b: u128, w: u32) -> bool {
    match p {
        Pred::Eq => a == b,
        Pred::Ne => a != b,
        Pred::Ult => a < b,
        Pred::Ule => a <= b,
        Pred::Ugt => a > b,
        Pred::Uge => a >= b,
        Pred::Slt => sx(a, w) < sx(b, w),
        Pred::Sle => sx(a, w) <= sx(b, w),
        Pred::Sgt => sx(a, w) > sx(b, w),
        Pred::Sge => sx(a, w) >= sx(b, w),
    }
}

impl Ctx {
    pub fn new() -> Ctx {
        Ctx { n: vec![], m: vec![], h: HashMap::new() }
    }
    fn mk(&mut self, n: N, w: u32) -> E {
        if let Some(e) = self.h.get(&(n.clone(), w)) {
            return *e;
        }
        let vars = match &n {
            N::Const(_) => 0,
            N::Tab(v, _) | N::Set(v, _) => 1u128 << *v,
            N::Bin(_, a, b) | N::Cmp(_, a, b) | N::Cat(a, b) => self.m[*a as usize].vars | self.m[*b as usize].vars,
            N::Not(a) | N::Ext(a, _) | N::SExt(a) => self.m[*a as usize].vars,
            N::Ite(a, b, c) => self.m[*a as usize].vars | self.m[*b as usize].vars | self.m[*c as usize].vars,
        };
        let h = |e: &E| self.m[*e as usize].hi;
        let hi = match &n {
            N::Const(v) => *v,
            N::Tab(_, t) => *t.iter().max().unwrap() as u128,
            N::Cat(a, b) => h(a) << self.w(*b) | mask(128 - h(b).leading_zeros()),
            N::Bin(BinOp::Add, a, b) => h(a).checked_add(h(b)).unwrap_or(!0),
            N::Bin(BinOp::Mul, a, b) => h(a).checked_mul(h(b)).unwrap_or(!0),
            N::Bin(BinOp::And, a, b) => h(a).min(h(b)),
            N::Bin(BinOp::Or | BinOp::Xor, a, b) => mask(128 - h(a).max(h(b)).leading_zeros()),
            N::Bin(BinOp::UDiv | BinOp::LShr, a, _) => h(a),
            N::Bin(BinOp::URem, a, b) => match self.n[*b as usize] {
                N::Const(k) if k > 0 => h(a).min(k - 1),
                _ => h(a),
            },
            N::Ite(_, a, b) => h(a).max(h(b)),
            N::Ext(a, 0) => h(a),
            _ => !0,
        };
        let hi = if hi > mask(w) { mask(w) } else { hi };
        let id = self.n.len() as E;
        self.n.push(n.clone());
        self.m.push(Meta { w, vars, hi });
        self.h.insert((n, w), id);
        id
    }
    pub fn w(&self, e: E) -> u32 {
        self.m[e as usize].w
    }
    pub fn vars(&self, e: E) -> Vars {
        self.m[e as usize].vars
    }
    pub fn k(&mut self, v: u128, w: u32) -> E {
        self.mk(N::Const(v & mask(w)), w)
    }
    pub fn as_k(&self, e: E) -> Option<u128> {
        match self.n[e as usize] {
            N::Const(v) => Some(v),
            _ => None,
        }
    }
    pub fn var(&mut self, v: u16) -> E {
        let t: Vec<u64> = (0..256).collect();
        self.mk(N::Tab(v, t.into()), 8)
    }
    /// single variable this term depends on (and it is tabulated)
    pub fn single(&self, e: E) -> Option<u16> {
        match &self.n[e as usize] {
            N::Tab(v, _) | N::Set(v, _) => Some(*v),
            _ => None,
        }
    }
    pub fn at(&self, e: E, i: usize) -> u128 {
        match &self.n[e as usize] {
            N::Const(v) => *v,
            N::Tab(_, t) => t[i] as u128,
            N::Set(_, s) => set_has(s, i) as u128,
            _ => unreachable!(),
        }
    }
    pub fn from_tab(&mut self, v: u16, w: u32, f: impl Fn(usize) -> u128) -> E {
        let m = mask(w);
        let first = f(0) & m;
        if w == 1 {
            let mut s = EMPTY;
            for i in 0..256 {
                if f(i) & 1 == 1 {
                    set_add(&mut s, i);
                }
            }
            if set_empty(&s) {
                return self.k(0, 1);
            }
            if s == FULL {
                return self.k(1, 1);
            }
            return self.mk(N::Set(v, s), 1);
        }
        let mut t = Vec::with_capacity(256);
        let mut same = true;
        for i in 0..256 {
            let x = f(i) & m;
            same &= x == first;
            t.push(x as u64);
        }
        if same {
            return self.k(first, w);
        }
        self.mk(N::Tab(v, t.into()), w)
    }
    pub fn set(&mut self, v: u16, s: Set) -> E {
        if set_empty(&s) {
            return self.k(0, 1);
        }
        if s == FULL {
            return self.k(1, 1);
        }
        self.mk(N::Set(v, s), 1)
    }
    fn tab_like(&self, es: &[E]) -> Option<u16> {
        let mut v = None;
        for e in es {
            match &self.n[*e as usize] {
                N::Const(_) => {}
                N::Tab(x, _) | N::Set(x, _) => match v {
                    None => v = Some(*x),
                    Some(y) if y == *x => {}
                    _ => return None,
                },
                _ => return None,
            }
        }
        v
    }
    fn tab2(&mut self, v: u16, w: u32, a: E, b: E, f: impl Fn(u128, u128) -> u128) -> E {
        let va: Vec<u128> = (0..256).map(|i| self.at(a, i)).collect();
        let vb: Vec<u128> = (0..256).map(|i| self.at(b, i)).collect();
        self.from_tab(v, w, |i| f(va[i], vb[i]))
    }

    pub fn bin(&mut self, op: BinOp, a: E, b: E) -> E {
        let w = self.w(a);
        let (ka, kb) = (self.as_k(a), self.as_k(b));
        if let (Some(x), Some(y)) = (ka, kb) {
            return self.k(fold_bin(op, x, y, w), w);
        }
        if w <= 64 {
            if let Some(v) = self.tab_like(&[a, b]) {
                return self.tab2(v, w, a, b, |x, y| fold_bin(op, x, y, w));
            }
        }
        // commutative: constant to the right
        let comm = matches!(op, BinOp::Add | BinOp::Mul | BinOp::And | BinOp::Or | BinOp::Xor);
        if comm && ka.is_some() {
            return self.bin(op, b, a);
        }
        if comm && kb.is_none() && a > b {
            return self.bin(op, b, a);
        }
        if let Some(k) = kb {
            match op {
                BinOp::Add | BinOp::Sub | BinOp::Or | BinOp::Xor | BinOp::Shl | BinOp::LShr | BinOp::AShr if k == 0 => return a,
                BinOp::And if k == 0 => return b,
                BinOp::Mul if k == 0 => return b,
                BinOp::Mul | BinOp::UDiv | BinOp::SDiv if k == 1 => return a,
                BinOp::And if k == mask(w) => return a,
                BinOp::Or if k == mask(w) => return b,
                BinOp::Xor if w == 1 => return self.not(a),
                BinOp::Shl => {
                    if k >= w as u128 { return self.k(0, w); }
                    let k = k as u32;
                    let lo = self.ext(a, 0, w - k);
                    let z = self.k(0, k);
                    return self.cat(lo, z);
                }
                BinOp::LShr => {
                    if k >= w as u128 { return self.k(0, w); }
                    let k = k as u32;
                    let hi = self.ext(a, k, w - k);
                    let z = self.k(0, k);
                    return self.cat(z, hi);
                }
                BinOp::AShr => {
                    let k = k.min(w as u128 - 1) as u32;
                    let hi = self.ext(a, k, w - k);
                    return self.sext(hi, w);
                }
                BinOp::Mul if k.is_power_of_two() => {
                    let s = self.k(k.trailing_zeros() as u128, w);
                    return self.bin(BinOp::Shl, a, s);
                }
                BinOp::UDiv if k.is_power_of_two() => {
                    let s = self.k(k.trailing_zeros() as u128, w);
                    return self.bin(BinOp::LShr, a, s);
                }
                BinOp::URem if k.is_power_of_two() => {
                    let s = self.k(k - 1, w);
                    return self.bin(BinOp::And, a, s);
                }
                BinOp::Sub => {
                    let nk = self.k(k.wrapping_neg(), w);
                    return self.bin(BinOp::Add, a, nk);
                }
                _ => {}
            }
        }
        if a == b {
            match op {
                BinOp::And | BinOp::Or => return a,
                BinOp::Xor | BinOp::Sub => return self.k(0, w),
                _ => {}
            }
        }
        if w == 1 {
            // boolean structure
            match op {
                BinOp::And | BinOp::Or => {
                    // merge sets on the same variable across one level
                    for (x, y) in [(a, b), (b, a)] {
                        if let (N::Set(v, _), N::Bin(op2, p, q)) = (self.n[x as usize].clone(), self.n[y as usize].clone()) {
                            if op2 == op {
                                for (p, q) in [(p, q), (q, p)] {
                                    if let N::Set(v2, _) = self.n[p as usize] {
                                        if v2 == v {
                                            let c = self.bin(op, x, p);
                                            return self.bin(op, c, q);
                                        }
                                    }
                                }
                            }
                        }
                    }
                    let na = self.not(a);
                    if na == b {
                        return self.k((op == BinOp::Or) as u128, 1);
                    }
                }
                BinOp::Add | BinOp::Sub => return self.bin(BinOp::Xor, a, b),
                _ => {}
            }
        }
        // bitwise over concatenations
        if matches!(op, BinOp::And | BinOp::Or | BinOp::Xor) && w > 1 {
            let split = match (&self.n[a as usize], &self.n[b as usize]) {
                (N::Cat(_, l), _) => Some(self.w(*l)),
                (_, N::Cat(_, l)) => Some(self.w(*l)),
                _ => None,
            };
            if let Some(lw) = split {
                let ok = |n: &N| matches!(n, N::Cat(..) | N::Const(_) | N::Tab(..));
                if ok(&self.n[a as usize]) && ok(&self.n[b as usize]) {
                    let (al, ah) = (self.ext(a, 0, lw), self.ext(a, lw, w - lw));
                    let (bl, bh) = (self.ext(b, 0, lw), self.ext(b, lw, w - lw));
                    let l = self.bin(op, al, bl);
                    let h = self.bin(op, ah, bh);
                    return self.cat(h, l);
                }
            }
        }
        // (zext a) + const small: keep
        if op == BinOp::Add {
            if let (N::Bin(BinOp::Add, x, y), Some(k)) = (self.n[a as usize].clone(), kb) {
                if let Some(k2) = self.as_k(y) {
                    let kk = self.k(k.wrapping_add(k2), w);
                    return self.bin(BinOp::Add, x, kk);
                }
            }
        }
        // no wrap-around: compute at the width the result needs
        if matches!(op, BinOp::Add | BinOp::Mul) && w > 16 {
            let (x, y) = (self.m[a as usize].hi, self.m[b as usize].hi);
            let r = if op == BinOp::Add { x.checked_add(y) } else { x.checked_mul(y) };
            if let Some(r) = r {
                let n = (128 - r.leading_zeros() + 7) & !7;
                if n < w {
                    let (x, y) = (self.ext(a, 0, n), self.ext(b, 0, n));
                    let r = self.bin(op, x, y);
                    return self.zext(r, w);
                }
            }
        }
        self.mk(N::Bin(op, a, b), w)
    }
    pub fn hi(&self, e: E) -> u128 {
        self.m[e as usize].hi
    }
    pub fn not(&mut self, a: E) -> E {
        debug_assert_eq!(self.w(a), 1);
        match self.n[a as usize].clone() {
            N::Const(v) => self.k(v ^ 1, 1),
            N::Set(v, s) => self.set(v, set_not(&s)),
            N::Not(x) => x,
            _ => self.mk(N::Not(a), 1),
        }
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        self.bin(BinOp::And, a, b)
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        self.bin(BinOp::Or, a, b)
    }
    pub fn cmp(&mut self, p: Pred, a: E, b: E) -> E {
        let w = self.w(a);
        match p {
            Pred::Ne => {
                let e = self.cmp(Pred::Eq, a, b);
                return self.not(e);
            }
            Pred::Ugt => return self.cmp(Pred::Ult, b, a),
            Pred::Uge => return self.cmp(Pred::Ule, b, a),
            Pred::Sgt => return self.cmp(Pred::Slt, b, a),
            Pred::Sge => return self.cmp(Pred::Sle, b, a),
            _ => {}
        }
        let (ka, kb) = (self.as_k(a), self.as_k(b));
        if let (Some(x), Some(y)) = (ka, kb) {
            return self.k(fold_cmp(p, x, y, w) as u128, 1);
        }
        if a == b {
            return self.k(matches!(p, Pred::Eq | Pred::Ule | Pred::Sle) as u128, 1);
        }
        if w <= 64 {
            if let Some(v) = self.tab_like(&[a, b]) {
                return self.tab2(v, 1, a, b, |x, y| fold_cmp(p, x, y, w) as u128);
            }
        }
        if matches!(p, Pred::Eq | Pred::Ult | Pred::Ule) && w > 8 {
            let (x, y) = (self.hi(a), self.hi(b));
            if let Some(k) = kb {
                if k > x {
                    return self.k((p != Pred::Eq) as u128, 1);
                }
            }
            if let Some(k) = ka {
                if k > y {
                    return self.k(0, 1);
                }
            }
            let n = (128 - x.max(y).leading_zeros() + 7) & !7;
            if n < w {
                let (x, y) = (self.ext(a, 0, n), self.ext(b, 0, n));
                return self.cmp(p, x, y);
            }
            // a sum that does not wrap around is not below one of its parts
            if let (N::Bin(BinOp::Add, x, y), Pred::Ult) = (self.n[a as usize].clone(), p) {
                if (x == b || y == b) && self.hi(x).checked_add(self.hi(y)).map(|s| s <= mask(w)).unwrap_or(false) {
                    return self.k(0, 1);
                }
            }
        }
        match p {
            Pred::Eq => {
                if ka.is_some() {
                    return self.cmp(p, b, a);
                }
                if w == 1 {
                    if let Some(k) = kb {
                        return if k == 1 { a } else { self.not(a) };
                    }
                    let x = self.bin(BinOp::Xor, a, b);
                    return self.not(x);
                }
                let split = match (&self.n[a as usize], &self.n[b as usize]) {
                    (N::Cat(_, l), N::Const(_)) | (N::Cat(_, l), N::Cat(..)) | (N::Cat(_, l), N::Tab(..)) => Some(self.w(*l)),
                    (N::Tab(..), N::Cat(_, l)) => Some(self.w(*l)),
                    _ => None,
                };
                if let Some(lw) = split {
                    let (al, ah) = (self.ext(a, 0, lw), self.ext(a, lw, w - lw));
                    let (bl, bh) = (self.ext(b, 0, lw), self.ext(b, lw, w - lw));
                    let l = self.cmp(Pred::Eq, al, bl);
                    let h = self.cmp(Pred::Eq, ah, bh);
                    return self.and(l, h);
                }
                if let (N::Ite(c, x, y), Some(k)) = (self.n[a as usize].clone(), kb) {
                    if self.as_k(x).is_some() || self.as_k(y).is_some() {
                        let kk = self.k(k, w);
                        let ex = self.cmp(Pred::Eq, x, kk);
                        let ey = self.cmp(Pred::Eq, y, kk);
                        return self.ite(c, ex, ey);
                    }
                }
                if let (N::SExt(x), Some(k)) = (self.n[a as usize].clone(), kb) {
                    let wx = self.w(x);
                    let lo = k & mask(wx);
                    if (sx(lo, wx) as u128) & mask(w) == k {
                        let kk = self.k(lo, wx);
                        return self.cmp(Pred::Eq, x, kk);
                    }
                    return self.k(0, 1);
                }
                if let (N::Bin(BinOp::Add, x, y), Some(k)) = (self.n[a as usize].clone(), kb) {
                    if let Some(k2) = self.as_k(y) {
                        let kk = self.k(k.wrapping_sub(k2), w);
                        return self.cmp(Pred::Eq, x, kk);
                    }
                }
            }
            Pred::Ult | Pred::Ule => {
                if let Some(k) = kb {
                    if p == Pred::Ult && k == 0 {
                        return self.k(0, 1);
                    }
                    if p == Pred::Ule && k == mask(w) {
                        return self.k(1, 1);
                    }
                    if p == Pred::Ult && k == 1 {
                        let z = self.k(0, w);
                        return self.cmp(Pred::Eq, a, z);
                    }
                }
                if let Some(k) = ka {
                    if p == Pred::Ult && k == mask(w) {
                        return self.k(0, 1);
                    }
                    if p == Pred::Ule && k == 0 {
                        return self.k(1, 1);
                    }
                    if p == Pred::Ult && k == 0 {
                        let e = self.cmp(Pred::Eq, b, a);
                        return self.not(e);
                    }
                    if p == Pred::Ule {
                        // k <= b  ==  !(b < k)
                        let e = self.cmp(Pred::Ult, b, a);
                        return self.not(e);
                    }
                }
                // strip equal constant high parts
                let hi = |s: &Self, e: E| -> Option<(u128, u32)> {
                    match &s.n[e as usize] {
                        N::Cat(h, _) => s.as_k(*h).map(|k| (k, s.w(*h))),
                        N::Const(_) => Some((0, 0)),
                        _ => None,
                    }
                };
                if let (Some((h1, w1)), Some((h2, w2))) = (hi(self, a), hi(self, b)) {
                    let wm = if w1 == 0 { w2 } else if w2 == 0 { w1 } else { w1.min(w2) };
                    if wm > 0 {
                        let top = |s: &Self, e: E, h: u128, wh: u32| -> u128 {
                            if wh == 0 { s.as_k(e).unwrap() >> (w - wm) } else { h >> (wh - wm) }
                        };
                        let (t1, t2) = (top(self, a, h1, w1), top(self, b, h2, w2));
                        if t1 != t2 {
                            return self.k((t1 < t2) as u128, 1);
                        }
                        let x = self.ext(a, 0, w - wm);
                        let y = self.ext(b, 0, w - wm);
                        return self.cmp(p, x, y);
                    }
                }
            }
            Pred::Slt | Pred::Sle => {
                // non-negative on both sides -> unsigned
                let nn = |s: &Self, e: E| -> bool {
                    match &s.n[e as usize] {
                        N::Const(k) => k >> (w - 1) & 1 == 0,
                        N::Cat(h, _) => s.as_k(*h).map(|k| k >> (s.w(*h) - 1) & 1 == 0).unwrap_or(false),
                        _ => false,
                    }
                };
                if nn(self, a) && nn(self, b) {
                    return self.cmp(if p == Pred::Slt { Pred::Ult } else { Pred::Ule }, a, b);
                }
                // sign test of a concatenation
                if p == Pred::Slt && kb == Some(0) || p == Pred::Sle && kb == Some(mask(w)) {
                    return self.ext(a, w - 1, 1);
                }
                if p == Pred::Slt && ka == Some(mask(w)) || p == Pred::Sle && ka == Some(0) {
                    let s = self.ext(b, w - 1, 1);
                    return self.not(s);
                }
            }
            _ => {}
        }
        self.mk(N::Cmp(p, a, b), 1)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(k) = self.as_k(c) {
            return if k == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        if w <= 64 {
            if let Some(v) = self.tab_like(&[c, a, b]) {
                let vc: Vec<u128> = (0..256).map(|i| self.at(c, i)).collect();
                return {
                    let va: Vec<u128> = (0..256).map(|i| self.at(a, i)).collect();
                    let vb: Vec<u128> = (0..256).map(|i| self.at(b, i)).collect();
                    self.from_tab(v, w, |i| if vc[i] == 1 { va[i] } else { vb[i] })
                };
            }
        }
        if w == 1 {
            match (self.as_k(a), self.as_k(b)) {
                (Some(1), Some(_)) => return c,
                (Some(0), Some(_)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.and(n, b);
                }
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, a);
                }
                (None, Some(0)) => return self.and(c, a),
                _ => {
                    let n = self.not(c);
                    let x = self.and(c, a);
                    let y = self.and(n, b);
                    return self.or(x, y);
                }
            }
        }
        if let N::Not(x) = self.n[c as usize] {
            return self.ite(x, b, a);
        }
        self.mk(N::Ite(c, a, b), w)
    }
    pub fn cat(&mut self, hi: E, lo: E) -> E {
        let (wh, wl) = (self.w(hi), self.w(lo));
        let w = wh + wl;
        if let (Some(x), Some(y)) = (self.as_k(hi), self.as_k(lo)) {
            return self.k(x << wl | y, w);
        }
        if w <= 64 {
            if let Some(v) = self.tab_like(&[hi, lo]) {
                return self.tab2(v, w, hi, lo, |x, y| x << wl | y);
            }
        }
        // right-nested: cat(cat(a,b),c) -> cat(a,cat(b,c))
        if let N::Cat(a, b) = self.n[hi as usize] {
            let r = self.cat(b, lo);
            return self.cat(a, r);
        }
        // adjacent constants / same-variable tables
        if let N::Cat(a, b) = self.n[lo as usize] {
            let merge = match (&self.n[hi as usize], &self.n[a as usize]) {
                (N::Const(_), N::Const(_)) => true,
                (N::Tab(x, _), N::Tab(y, _)) => x == y && wh + self.w(a) <= 64,
                _ => false,
            };
            if merge {
                let h = self.cat(hi, a);
                return self.cat(h, b);
            }
        }
        // cat of adjacent extracts of the same term
        if let (N::Ext(x, l1), N::Ext(y, l2)) = (self.n[hi as usize].clone(), self.n[lo as usize].clone()) {
            if x == y && l1 == l2 + wl {
                return self.ext(x, l2, w);
            }
        }
        if let (N::Ext(x, l1), N::Cat(a, b)) = (self.n[hi as usize].clone(), self.n[lo as usize].clone()) {
            if let N::Ext(y, l2) = self.n[a as usize] {
                if x == y && l1 == l2 + self.w(a) {
                    let wa = self.w(a);
                    let h = self.ext(x, l2, wh + wa);
                    return self.cat(h, b);
                }
            }
        }
        self.mk(N::Cat(hi, lo), w)
    }
    pub fn ext(&mut self, a: E, lo: u32, w: u32) -> E {
        let wa = self.w(a);
        debug_assert!(lo + w <= wa);
        if lo == 0 && w == wa {
            return a;
        }
        match self.n[a as usize].clone() {
            N::Const(v) => self.k(v >> lo, w),
            N::Tab(v, t) => self.from_tab(v, w, |i| (t[i] >> lo) as u128),
            N::Cat(h, l) => {
                let wl = self.w(l);
                if lo >= wl {
                    self.ext(h, lo - wl, w)
                } else if lo + w <= wl {
                    self.ext(l, lo, w)
                } else {
                    let x = self.ext(l, lo, wl - lo);
                    let y = self.ext(h, 0, w - (wl - lo));
                    self.cat(y, x)
                }
            }
            N::Ext(x, l) => self.ext(x, l + lo, w),
            N::Bin(op, x, y) if matches!(op, BinOp::And | BinOp::Or | BinOp::Xor) || (lo == 0 && matches!(op, BinOp::Add | BinOp::Sub | BinOp::Mul)) => {
                let x = self.ext(x, lo, w);
                let y = self.ext(y, lo, w);
                self.bin(op, x, y)
            }
            N::Ite(c, x, y) => {
                let x = self.ext(x, lo, w);
                let y = self.ext(y, lo, w);
                self.ite(c, x, y)
            }
            N::SExt(x) if lo + w <= self.w(x) => self.ext(x, lo, w),
            _ => self.mk(N::Ext(a, lo), w),
        }
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        let z = self.k(0, w - wa);
        self.cat(z, a)
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        match self.n[a as usize].clone() {
            N::Const(v) => self.k(sx(v, wa) as u128, w),
            N::Tab(v, t) if w <= 64 => self.from_tab(v, w, |i| sx(t[i] as u128, wa) as u128),
            N::Set(v, s) if w <= 64 => self.from_tab(v, w, |i| if set_has(&s, i) { !0 } else { 0 }),
            N::Cat(h, _) if self.as_k(h).is_some() => {
                let k = self.as_k(h).unwrap();
                let hw = self.w(h);
                let f = if k >> (hw - 1) & 1 == 1 { mask(w - wa) } else { 0 };
                let z = self.k(f, w - wa);
                self.cat(z, a)
            }
            N::SExt(x) => self.sext(x, w),
            _ => self.mk(N::SExt(a), w),
        }
    }

    pub fn eval(&self, e: E, asg: &[u8]) -> u128 {
        let mut memo = HashMap::new();
        self.eval_m(e, asg, &mut memo)
    }
    fn eval_m(&self, e: E, asg: &[u8], memo: &mut HashMap<E, u128>) -> u128 {
        match &self.n[e as usize] {
            N::Const(v) => return *v,
            N::Tab(v, t) => return t[*asg.get(*v as usize).unwrap_or(&0) as usize] as u128,
            N::Set(v, s) => return set_has(s, *asg.get(*v as usize).unwrap_or(&0) as usize) as u128,
            _ => {}
        }
        if let Some(v) = memo.get(&e) {
            return *v;
        }
        let w = self.w(e);
        let r = match &self.n[e as usize] {
            N::Bin(op, a, b) => {
                let (x, y) = (self.eval_m(*a, asg, memo), self.eval_m(*b, asg, memo));
                fold_bin(*op, x, y, w)
            }
            N::Cmp(p, a, b) => {
                let (x, y) = (self.eval_m(*a, asg, memo), self.eval_m(*b, asg, memo));
                fold_cmp(*p, x, y, self.w(*a)) as u128
            }
            N::Not(a) => self.eval_m(*a, asg, memo) ^ 1,
            N::Ite(c, a, b) => {
                if self.eval_m(*c, asg, memo) == 1 {
                    self.eval_m(*a, asg, memo)
                } else {
                    self.eval_m(*b, asg, memo)
                }
            }
            N::Cat(h, l) => self.eval_m(*h, asg, memo) << self.w(*l) | self.eval_m(*l, asg, memo),
            N::Ext(a, lo) => (self.eval_m(*a, asg, memo) >> lo) & mask(w),
            N::SExt(a) => (sx(self.eval_m(*a, asg, memo), self.w(*a)) as u128) & mask(w),
            _ => unreachable!(),
        };
        memo.insert(e, r);
        r
    }

    /// three-valued evaluation of a predicate under per-variable domains
    pub fn abs(&self, e: E, doms: &[Set]) -> Option<bool> {
        match &self.n[e as usize] {
            N::Const(v) => Some(*v == 1),
            N::Set(v, s) => {
                let d = &doms[*v as usize];
                let i = set_and(d, s);
                if set_empty(&i) {
                    Some(false)
                } else if i == *d {
                    Some(true)
                } else {
                    None
                }
            }
            N::Not(a) => self.abs(*a, doms).map(|x| !x),
            N::Bin(BinOp::And, a, b) => match (self.abs(*a, doms), self.abs(*b, doms)) {
                (Some(false), _) | (_, Some(false)) => Some(false),
                (Some(true), Some(true)) => Some(true),
                _ => None,
            },
            N::Bin(BinOp::Or, a, b) => match (self.abs(*a, doms), self.abs(*b, doms)) {
                (Some(true), _) | (_, Some(true)) => Some(true),
                (Some(false), Some(false)) => Some(false),
                _ => None,
            },
            N::Cmp(Pred::Eq, a, b) => {
                // disjoint value sets of two tabulated terms
                if let (Some(x), Some(y)) = (self.range(*a, doms), self.range(*b, doms)) {
                    if x.0 > y.1 || y.0 > x.1 {
                        return Some(false);
                    }
                    if x.0 == x.1 && x == y {
                        return Some(true);
                    }
                    // exact sets for tables
                    if let (Some(u), Some(v)) = (self.single(*a), self.single(*b)) {
                        let mut sa: Vec<u128> = set_iter(doms[u as usize]).map(|i| self.at(*a, i)).collect();
                        sa.sort();
                        if set_iter(doms[v as usize]).all(|i| sa.binary_search(&self.at(*b, i)).is_err()) {
                            return Some(false);
                        }
                    }
                }
                None
            }
            N::Cmp(p @ (Pred::Slt | Pred::Sle), a, b) => {
                let top = self.w(*a) - 1;
                if let (Some(x), Some(y)) = (self.range(*a, doms), self.range(*b, doms)) {
                    // both intervals on one side of the sign boundary
                    if x.0 >> top == x.1 >> top && y.0 >> top == y.1 >> top {
                        let f = |v: u128| v ^ (1 << top);
                        let (x, y) = ((f(x.0), f(x.1)), (f(y.0), f(y.1)));
                        if x.1 < y.0 || (*p == Pred::Sle && x.1 == y.0) {
                            return Some(true);
                        }
                        if x.0 > y.1 || (*p == Pred::Slt && x.0 == y.1) {
                            return Some(false);
                        }
                    }
                }
                None
            }
            N::Cmp(Pred::Ult, a, b) => {
                if let (Some(x), Some(y)) = (self.range(*a, doms), self.range(*b, doms)) {
                    if x.1 < y.0 {
                        return Some(true);
                    }
                    if x.0 >= y.1 {
                        return Some(false);
                    }
                }
                None
            }
            N::Cmp(Pred::Ule, a, b) => {
                if let (Some(x), Some(y)) = (self.range(*a, doms), self.range(*b, doms)) {
                    if x.1 <= y.0 {
                        return Some(true);
                    }
                    if x.0 > y.1 {
                        return Some(false);
                    }
                }
                None
            }
            _ => None,
        }
    }
    /// unsigned interval
    pub fn range(&self, e: E, doms: &[Set]) -> Option<(u128, u128)> {
        match &self.n[e as usize] {
            N::Const(v) => Some((*v, *v)),
            N::Tab(v, t) => {
                let d = doms[*v as usize];
                let mut lo = u64::MAX;
                let mut hi = 0;
                for i in set_iter(d) {
                    lo = lo.min(t[i]);
                    hi = hi.max(t[i]);
                }
                Some((lo as u128, hi as u128))
            }
            N::Cat(h, l) => {
                let (a, b) = (self.range(*h, doms)?, self.range(*l, doms)?);
                let wl = self.w(*l);
                Some((a.0 << wl | b.0, a.1 << wl | b.1))
            }
            N::Bin(BinOp::Add, a, b) => {
                let (x, y) = (self.range(*a, doms)?, self.range(*b, doms)?);
                let w = self.w(e);
                let hi = x.1.checked_add(y.1)?;
                if hi > mask(w) {
                    return None;
                }
                Some((x.0 + y.0, hi))
            }
            N::Bin(BinOp::Sub, a, b) => {
                let (x, y) = (self.range(*a, doms)?, self.range(*b, doms)?);
                if x.0 < y.1 {
                    return None;
                }
                Some((x.0 - y.1, x.1 - y.0))
            }
            N::Bin(BinOp::UDiv, a, b) => {
                let (x, y) = (self.range(*a, doms)?, self.range(*b, doms)?);
                if y.0 == 0 {
                    return None;
                }
                Some((x.0 / y.1, x.1 / y.0))
            }
            N::Ext(a, 0) => {
                let x = self.range(*a, doms)?;
                if x.1 > mask(self.w(e)) {
                    return Some((0, mask(self.w(e))));
                }
                Some(x)
            }
            N::SExt(a) => {
                let x = self.range(*a, doms)?;
                if x.1 >> (self.w(*a) - 1) != 0 {
                    return None;
                }
                Some(x)
            }
            N::Bin(BinOp::Mul, a, b) => {
                let (x, y) = (self.range(*a, doms)?, self.range(*b, doms)?);
                let hi = x.1.checked_mul(y.1)?;
                if hi > mask(self.w(e)) {
                    return None;
                }
                Some((x.0 * y.0, hi))
            }
            N::Ite(_, a, b) => {
                let (x, y) = (self.range(*a, doms)?, self.range(*b, doms)?);
                Some((x.0.min(y.0), x.1.max(y.1)))
            }
            _ => {
                let w = self.w(e);
                Some((0, mask(w)))
            }
        }
    }
}
