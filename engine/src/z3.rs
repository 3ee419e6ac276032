//! Z3 through its C API. Every feasibility question that the per-byte tables cannot settle, every
//! symbolic assertion and every finished path is decided here.
use crate::expr::*;
use crate::ir::{BinOp, Pred};
use crate::val::E;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::time::Instant;

type P = *mut c_void;

extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, comp: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, v: *mut u64) -> bool;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
}

extern "C" fn on_err(c: P, e: c_int) {
    unsafe {
        let m = CStr::from_ptr(Z3_get_error_msg(c, e));
        eprintln!("z3 error: {:?}", m);
        std::process::exit(70);
    }
}

pub struct Z3 {
    c: P,
    s: P,
    bv: HashMap<E, P>,   // bit-vector encoding
    bl: HashMap<E, P>,   // boolean encoding of width-1 terms
    vars: HashMap<u16, P>,
    sets: HashMap<(u16, Set), P>,
    sorts: HashMap<u32, P>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub time_us: u64,
    pub max_us: u64,
    dump: bool,
}

#[derive(Debug)]
pub enum R {
    Sat(Vec<u8>),
    Unsat,
    Unknown,
}

impl Z3 {
    pub fn new() -> Z3 {
        unsafe {
            let c = Z3_mk_context_rc(Z3_mk_config());
            Z3_set_error_handler(c, Some(on_err));
            let nm = CString::new("QF_BV").unwrap();
            let s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, nm.as_ptr()));
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), 60000);
            Z3_solver_set_params(c, s, p);
            Z3 { c, s, bv: HashMap::new(), bl: HashMap::new(), vars: HashMap::new(), sets: HashMap::new(), sorts: HashMap::new(), queries: 0, sat: 0, unsat: 0, time_us: 0, max_us: 0, dump: std::env::var("OBSYM_SMT").is_ok() }
        }
    }
    fn keep(&self, a: P) -> P {
        unsafe { Z3_inc_ref(self.c, a) };
        a
    }
    fn sort(&mut self, w: u32) -> P {
        if let Some(s) = self.sorts.get(&w) {
            return *s;
        }
        let s = unsafe { Z3_mk_bv_sort(self.c, w) };
        self.keep(s);
        self.sorts.insert(w, s);
        s
    }
    fn num(&mut self, v: u128, w: u32) -> P {
        let s = self.sort(w);
        let t = CString::new(v.to_string()).unwrap();
        let a = unsafe { Z3_mk_numeral(self.c, t.as_ptr(), s) };
        self.keep(a)
    }
    fn var(&mut self, v: u16) -> P {
        if let Some(a) = self.vars.get(&v) {
            return *a;
        }
        let s = self.sort(8);
        let n = CString::new(format!("b{}", v)).unwrap();
        let a = unsafe { Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, n.as_ptr()), s) };
        self.keep(a);
        self.vars.insert(v, a);
        a
    }
    pub fn set(&mut self, v: u16, s: &Set) -> P {
        if let Some(a) = self.sets.get(&(v, *s)) {
            return *a;
        }
        let x = self.var(v);
        let mut parts = vec![];
        // encode the smaller of set / complement
        let neg = set_count(s) > 128;
        let t = if neg { set_not(s) } else { *s };
        let mut i = 0;
        while i < 256 {
            if set_has(&t, i) {
                let mut j = i;
                while j + 1 < 256 && set_has(&t, j + 1) {
                    j += 1;
                }
                let lo = self.num(i as u128, 8);
                let a = if i == j {
                    unsafe { Z3_mk_eq(self.c, x, lo) }
                } else {
                    let hi = self.num(j as u128, 8);
                    unsafe {
                        let p = self.keep(Z3_mk_bvule(self.c, lo, x));
                        let q = self.keep(Z3_mk_bvule(self.c, x, hi));
                        Z3_mk_and(self.c, 2, [p, q].as_ptr())
                    }
                };
                parts.push(self.keep(a));
                i = j + 1;
            } else {
                i += 1;
            }
        }
        let mut r = unsafe {
            match parts.len() {
                0 => Z3_mk_false(self.c),
                1 => parts[0],
                n => Z3_mk_or(self.c, n as c_uint, parts.as_ptr()),
            }
        };
        self.keep(r);
        if neg {
            r = unsafe { Z3_mk_not(self.c, r) };
            self.keep(r);
        }
        self.sets.insert((v, *s), r);
        r
    }
    pub fn bool_of(&mut self, cx: &Ctx, e: E) -> P {
        if let Some(a) = self.bl.get(&e) {
            return *a;
        }
        let c = self.c;
        let a = unsafe {
            match cx.n[e as usize].clone() {
                N::Const(v) => if v == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) },
                N::Set(v, s) => self.set(v, &s),
                N::Not(x) => Z3_mk_not(c, self.bool_of(cx, x)),
                N::Bin(BinOp::And, x, y) => {
                    let (p, q) = (self.bool_of(cx, x), self.bool_of(cx, y));
                    Z3_mk_and(c, 2, [p, q].as_ptr())
                }
                N::Bin(BinOp::Or, x, y) => {
                    let (p, q) = (self.bool_of(cx, x), self.bool_of(cx, y));
                    Z3_mk_or(c, 2, [p, q].as_ptr())
                }
                N::Bin(BinOp::Xor, x, y) => {
                    let (p, q) = (self.bool_of(cx, x), self.bool_of(cx, y));
                    Z3_mk_xor(c, p, q)
                }
                N::Cmp(pr, x, y) => {
                    let (p, q) = (self.term(cx, x), self.term(cx, y));
                    match pr {
                        Pred::Eq => Z3_mk_eq(c, p, q),
                        Pred::Ult => Z3_mk_bvult(c, p, q),
                        Pred::Ule => Z3_mk_bvule(c, p, q),
                        Pred::Slt => Z3_mk_bvslt(c, p, q),
                        Pred::Sle => Z3_mk_bvsle(c, p, q),
                        _ => unreachable!(),
                    }
                }
                N::Ite(i, x, y) => {
                    let (i, p, q) = (self.bool_of(cx, i), self.bool_of(cx, x), self.bool_of(cx, y));
                    Z3_mk_ite(c, i, p, q)
                }
                N::Ext(..) | N::Bin(..) => {
                    let t = self.term(cx, e);
                    let one = self.num(1, 1);
                    Z3_mk_eq(c, t, one)
                }
                ref o => panic!("bool_of {:?}", o),
            }
        };
        self.keep(a);
        self.bl.insert(e, a);
        a
    }
    pub fn term(&mut self, cx: &Ctx, e: E) -> P {
        if let Some(a) = self.bv.get(&e) {
            return *a;
        }
        let c = self.c;
        let w = cx.w(e);
        let a = unsafe {
            match cx.n[e as usize].clone() {
                N::Const(v) => self.num(v, w),
                N::Set(..) | N::Not(..) | N::Cmp(..) => {
                    let b = self.bool_of(cx, e);
                    let (o, z) = (self.num(1, 1), self.num(0, 1));
                    Z3_mk_ite(c, b, o, z)
                }
                N::Tab(v, t) => self.table(v, &t, w),
                N::Bin(op, x, y) => {
                    if w == 1 && matches!(op, BinOp::And | BinOp::Or | BinOp::Xor) {
                        let b = self.bool_of(cx, e);
                        let (o, z) = (self.num(1, 1), self.num(0, 1));
                        Z3_mk_ite(c, b, o, z)
                    } else {
                        let (p, q) = (self.term(cx, x), self.term(cx, y));
                        match op {
                            BinOp::Add => Z3_mk_bvadd(c, p, q),
                            BinOp::Sub => Z3_mk_bvsub(c, p, q),
                            BinOp::Mul => Z3_mk_bvmul(c, p, q),
                            BinOp::UDiv => Z3_mk_bvudiv(c, p, q),
                            BinOp::SDiv => Z3_mk_bvsdiv(c, p, q),
                            BinOp::URem => Z3_mk_bvurem(c, p, q),
                            BinOp::SRem => Z3_mk_bvsrem(c, p, q),
                            BinOp::And => Z3_mk_bvand(c, p, q),
                            BinOp::Or => Z3_mk_bvor(c, p, q),
                            BinOp::Xor => Z3_mk_bvxor(c, p, q),
                            BinOp::Shl => Z3_mk_bvshl(c, p, q),
                            BinOp::LShr => Z3_mk_bvlshr(c, p, q),
                            BinOp::AShr => Z3_mk_bvashr(c, p, q),
                        }
                    }
                }
                N::Ite(i, x, y) => {
                    let (i, p, q) = (self.bool_of(cx, i), self.term(cx, x), self.term(cx, y));
                    Z3_mk_ite(c, i, p, q)
                }
                N::Cat(h, l) => {
                    let (p, q) = (self.term(cx, h), self.term(cx, l));
                    Z3_mk_concat(c, p, q)
                }
                N::Ext(x, lo) => {
                    let p = self.term(cx, x);
                    Z3_mk_extract(c, lo + w - 1, lo, p)
                }
                N::SExt(x) => {
                    let p = self.term(cx, x);
                    Z3_mk_sign_ext(c, w - cx.w(x), p)
                }
            }
        };
        self.keep(a);
        self.bv.insert(e, a);
        a
    }
    fn table(&mut self, v: u16, t: &[u64], w: u32) -> P {
        let x = self.var(v);
        let c = self.c;
        // affine over the whole range?
        let k = t[0];
        let m = mask(w) as u64;
        if w >= 8 && (0..256).all(|i| t[i] == (k.wrapping_add(i as u64)) & m) {
            let z = if w == 8 { x } else { let a = unsafe { Z3_mk_zero_ext(c, w - 8, x) }; self.keep(a) };
            if k == 0 {
                return z;
            }
            let kk = self.num(k as u128, w);
            let a = unsafe { Z3_mk_bvadd(c, z, kk) };
            return self.keep(a);
        }
        // affine over the whole range but for one wrap-around: c + m * ((i + s) mod 256)
        if w >= 8 {
            let at = |i: usize| t[i & 255] & m;
            let d = |i: usize| at(i + 1).wrapping_sub(at(i)) & m;
            let step = if d(0) == d(1) || d(0) == d(2) { d(0) } else { d(2) };
            let s = (0..256).find(|i| d(*i) != step).map(|i| (i + 1) & 255).unwrap_or(0);
            if step != 0 && (0..255).all(|k| d(s + k) == step) {
                unsafe {
                    let mut a = x;
                    if s > 0 {
                        let kk = self.num(256 - s as u128, 8);
                        a = self.keep(Z3_mk_bvadd(c, a, kk));
                    }
                    if w > 8 {
                        a = self.keep(Z3_mk_zero_ext(c, w - 8, a));
                    }
                    if step != 1 {
                        let kk = self.num(step as u128, w);
                        a = self.keep(Z3_mk_bvmul(c, kk, a));
                    }
                    if at(s) != 0 {
                        let kk = self.num(at(s) as u128, w);
                        a = self.keep(Z3_mk_bvadd(c, a, kk));
                    }
                    return a;
                }
            }
        }
        // a shift and an exclusive or with a constant
        let d = t[0] ^ t[1];
        if w >= 8 && d.is_power_of_two() && (0..256).all(|i| t[i] ^ t[0] == (i as u64) * d) {
            unsafe {
                let k = d.trailing_zeros();
                let mut a = x;
                if k > 0 {
                    let z = self.num(0, k);
                    a = self.keep(Z3_mk_concat(c, a, z));
                }
                if w > 8 + k {
                    a = self.keep(Z3_mk_zero_ext(c, w - 8 - k, a));
                }
                if t[0] != 0 {
                    let kk = self.num(t[0] as u128, w);
                    a = self.keep(Z3_mk_bvxor(c, a, kk));
                }
                return a;
            }
        }
        // group by value
        let mut groups: Vec<(u64, Set)> = vec![];
        let mut idx: HashMap<u64, usize> = HashMap::new();
        for i in 0..256 {
            let g = *idx.entry(t[i]).or_insert_with(|| {
                groups.push((t[i], EMPTY));
                groups.len() - 1
            });
            set_add(&mut groups[g].1, i);
        }
        groups.sort_by_key(|g| std::cmp::Reverse(set_count(&g.1)));
        let mut r = self.num(groups[0].0 as u128, w);
        for (val, s) in &groups[1..] {
            let cnd = self.set(v, s);
            let kk = self.num(*val as u128, w);
            r = unsafe { Z3_mk_ite(c, cnd, kk, r) };
            self.keep(r);
        }
        r
    }
    /// satisfiability of doms ∧ cons ; nv = number of inputs
    pub fn check(&mut self, cx: &Ctx, doms: &[(u16, Set)], cons: &[E], nv: usize) -> R {
        let asserts: Vec<P> = doms.iter().map(|(v, s)| self.set(*v, s)).chain(std::iter::empty()).collect::<Vec<_>>();
        let mut asserts = asserts;
        for e in cons {
            let b = self.bool_of(cx, *e);
            asserts.push(b);
        }
        self.run(&asserts, nv)
    }
    pub fn and(&mut self, v: &[P]) -> P {
        let a = unsafe { Z3_mk_and(self.c, v.len() as c_uint, v.as_ptr()) };
        self.keep(a)
    }
    pub fn not(&mut self, v: P) -> P {
        let a = unsafe { Z3_mk_not(self.c, v) };
        self.keep(a)
    }
    pub fn run(&mut self, asserts: &[P], nv: usize) -> R {
        let t0 = Instant::now();
        self.queries += 1;
        unsafe {
            Z3_solver_push(self.c, self.s);
            for b in asserts {
                Z3_solver_assert(self.c, self.s, *b);
            }
            let r = Z3_solver_check(self.c, self.s);
            let out = match r {
                1 => {
                    self.sat += 1;
                    let m = Z3_solver_get_model(self.c, self.s);
                    Z3_model_inc_ref(self.c, m);
                    let mut asg = vec![0u8; nv];
                    for v in 0..nv {
                        if let Some(x) = self.vars.get(&(v as u16)) {
                            let mut o: P = std::ptr::null_mut();
                            if Z3_model_eval(self.c, m, *x, true, &mut o) {
                                Z3_inc_ref(self.c, o);
                                let mut u = 0u64;
                                Z3_get_numeral_uint64(self.c, o, &mut u);
                                asg[v] = u as u8;
                            }
                        }
                    }
                    Z3_model_dec_ref(self.c, m);
                    R::Sat(asg)
                }
                -1 => {
                    self.unsat += 1;
                    R::Unsat
                }
                _ => R::Unknown,
            };
            if self.dump && t0.elapsed().as_millis() > 60 {
                eprintln!("---- {:?}\n{}", t0.elapsed(), std::ffi::CStr::from_ptr(Z3_solver_to_string(self.c, self.s)).to_string_lossy());
            }
            Z3_solver_pop(self.c, self.s, 1);
            let us = t0.elapsed().as_micros() as u64;
            self.time_us += us;
            self.max_us = self.max_us.max(us);
            out
        }
    }
}
