//! Minimal in-process binding to the installed libz3 (C API) and the query layer.
use crate::expr::{Arena, Bits, E, K};
use crate::ir::{Bop, Pred};
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_del_config(c: P);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, r: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, r: *mut u64) -> bool;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_set_error_handler(c: P, h: *const c_void);
    fn Z3_get_error_code(c: P) -> c_int;
}

#[derive(Default, Clone)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cache_hits: u64,
    pub time: f64,
    pub max_time: f64,
    pub certs: u64,
}

pub enum Res {
    Sat(Vec<(u8, u8)>),
    Unsat,
    Unknown,
}

pub struct Z3 {
    c: P,
    s: P,
    ast: HashMap<E, P>,
    vars: Vec<P>,
    doms: HashMap<(u8, Bits), P>,
    pub st: Stats,
    since: u64,
    timeout_ms: u32,
    pub dump: Option<(String, u64, u64)>, // dir, limit, count
}

impl Z3 {
    pub fn new(timeout_ms: u32) -> Z3 {
        let mut z = Z3 { c: std::ptr::null_mut(), s: std::ptr::null_mut(), ast: HashMap::new(), vars: vec![], doms: HashMap::new(), st: Stats::default(), since: 0, timeout_ms, dump: None };
        z.init();
        z
    }
    fn init(&mut self) {
        unsafe {
            let cfg = Z3_mk_config();
            self.c = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(self.c, std::ptr::null());
            self.s = Z3_mk_simple_solver(self.c);
            Z3_solver_inc_ref(self.c, self.s);
            let p = Z3_mk_params(self.c);
            Z3_params_inc_ref(self.c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, k.as_ptr()), self.timeout_ms);
            Z3_solver_set_params(self.c, self.s, p);
            self.vars.clear();
            for i in 0..64 {
                let n = CString::new(format!("b{}", i)).unwrap();
                let v = Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, n.as_ptr()), Z3_mk_bv_sort(self.c, 8));
                self.vars.push(v);
            }
        }
        self.ast.clear();
        self.doms.clear();
        self.since = 0;
    }
    fn reset(&mut self) {
        unsafe {
            Z3_solver_dec_ref(self.c, self.s);
            Z3_del_context(self.c);
        }
        self.init();
    }
    fn num(&self, v: u64, w: u32) -> P {
        unsafe { Z3_mk_unsigned_int64(self.c, v, Z3_mk_bv_sort(self.c, w)) }
    }
    fn enc(&mut self, ar: &Arena, e: E) -> P {
        if let Some(p) = self.ast.get(&e) {
            return *p;
        }
        let w = ar.w(e);
        let k = ar.k(e).clone();
        let c = self.c;
        let r = unsafe {
            match k {
                K::Const(v) => self.num(v, w),
                K::Byte(b) => self.vars[b as usize],
                K::Bin(op, a, b) => {
                    let (a, b) = (self.enc(ar, a), self.enc(ar, b));
                    match op {
                        Bop::Add => Z3_mk_bvadd(c, a, b),
                        Bop::Sub => Z3_mk_bvsub(c, a, b),
                        Bop::Mul => Z3_mk_bvmul(c, a, b),
                        Bop::UDiv => Z3_mk_bvudiv(c, a, b),
                        Bop::SDiv => Z3_mk_bvsdiv(c, a, b),
                        Bop::URem => Z3_mk_bvurem(c, a, b),
                        Bop::SRem => Z3_mk_bvsrem(c, a, b),
                        Bop::Shl => Z3_mk_bvshl(c, a, b),
                        Bop::LShr => Z3_mk_bvlshr(c, a, b),
                        Bop::AShr => Z3_mk_bvashr(c, a, b),
                        Bop::And => Z3_mk_bvand(c, a, b),
                        Bop::Or => Z3_mk_bvor(c, a, b),
                        Bop::Xor => Z3_mk_bvxor(c, a, b),
                    }
                }
                K::Cmp(p, a, b) => {
                    let (a, b) = (self.enc(ar, a), self.enc(ar, b));
                    let x = match p {
                        Pred::Eq => Z3_mk_eq(c, a, b),
                        Pred::Ne => Z3_mk_not(c, Z3_mk_eq(c, a, b)),
                        Pred::Ult => Z3_mk_bvult(c, a, b),
                        Pred::Ule => Z3_mk_bvule(c, a, b),
                        Pred::Ugt => Z3_mk_bvult(c, b, a),
                        Pred::Uge => Z3_mk_bvule(c, b, a),
                        Pred::Slt => Z3_mk_bvslt(c, a, b),
                        Pred::Sle => Z3_mk_bvsle(c, a, b),
                        Pred::Sgt => Z3_mk_bvslt(c, b, a),
                        Pred::Sge => Z3_mk_bvsle(c, b, a),
                    };
                    Z3_mk_ite(c, x, self.num(1, 1), self.num(0, 1))
                }
                K::Zext(a) => {
                    let aw = ar.w(a);
                    let a = self.enc(ar, a);
                    Z3_mk_zero_ext(c, w - aw, a)
                }
                K::Sext(a) => {
                    let aw = ar.w(a);
                    let a = self.enc(ar, a);
                    Z3_mk_sign_ext(c, w - aw, a)
                }
                K::Extract(lo, a) => {
                    let a = self.enc(ar, a);
                    Z3_mk_extract(c, lo as u32 + w - 1, lo as u32, a)
                }
                K::Concat(ps) => {
                    let mut r = self.enc(ar, ps[0]);
                    for p in &ps[1..] {
                        let x = self.enc(ar, *p);
                        r = Z3_mk_concat(c, x, r);
                    }
                    r
                }
                K::Ite(cc, a, b) => {
                    let x = self.enc(ar, cc);
                    let (a, b) = (self.enc(ar, a), self.enc(ar, b));
                    Z3_mk_ite(c, Z3_mk_eq(c, x, self.num(1, 1)), a, b)
                }
                K::Lut(b, t) => {
                    let t = ar.luts[t as usize].clone();
                    let v = self.vars[b as usize];
                    // runs of equal values as an if-then-else chain
                    let mut r = self.num(t[255], w);
                    let mut i = 255usize;
                    while i > 0 {
                        let cur = t[i - 1];
                        if cur != t[i] {
                            // values <= i-1 -> cur chain
                            let cond = Z3_mk_bvule(c, v, self.num((i - 1) as u64, 8));
                            let val = self.num(cur, w);
                            r = Z3_mk_ite(c, cond, val, r);
                        }
                        i -= 1;
                    }
                    r
                }
            }
        };
        self.ast.insert(e, r);
        r
    }
    fn dom(&mut self, b: u8, d: &Bits) -> P {
        if let Some(p) = self.doms.get(&(b, *d)) {
            return *p;
        }
        let c = self.c;
        let v = self.vars[b as usize];
        let mut parts: Vec<P> = vec![];
        let has = |i: usize| (d[i >> 6] >> (i & 63)) & 1 == 1;
        let mut i = 0;
        unsafe {
            while i < 256 {
                if has(i) {
                    let s = i;
                    while i < 256 && has(i) {
                        i += 1;
                    }
                    let e = i - 1;
                    let x = if s == e {
                        Z3_mk_eq(c, v, self.num(s as u64, 8))
                    } else {
                        let a = [Z3_mk_bvule(c, self.num(s as u64, 8), v), Z3_mk_bvule(c, v, self.num(e as u64, 8))];
                        Z3_mk_and(c, 2, a.as_ptr())
                    };
                    parts.push(x);
                } else {
                    i += 1;
                }
            }
            let r = Z3_mk_or(c, parts.len() as u32, parts.as_ptr());
            self.doms.insert((b, *d), r);
            r
        }
    }
    /// conj of (expr == polarity) and byte domains
    pub fn check(&mut self, ar: &Arena, conds: &[(E, bool)], doms: &[(u8, Bits)]) -> Res {
        let t0 = std::time::Instant::now();
        self.since += 1;
        if self.since > 20000 {
            self.reset();
        }
        let r = unsafe {
            let c = self.c;
            Z3_solver_push(c, self.s);
            for (b, d) in doms {
                if d.iter().any(|x| *x != u64::MAX) {
                    let p = self.dom(*b, d);
                    Z3_solver_assert(c, self.s, p);
                }
            }
            for (e, pol) in conds {
                let p = self.enc(ar, *e);
                let q = Z3_mk_eq(c, p, self.num(*pol as u64, 1));
                Z3_solver_assert(c, self.s, q);
            }
            let k = Z3_solver_check(c, self.s);
            if let Some((dir, lim, n)) = &mut self.dump {
                if *n < *lim {
                    let s = CStr::from_ptr(Z3_solver_to_string(c, self.s)).to_string_lossy().to_string();
                    let _ = std::fs::write(format!("{}/{:05}.{}.smt2", dir, n, if k == 1 { "sat" } else if k == -1 { "unsat" } else { "unknown" }), format!("(set-logic QF_BV)\n{}\n(check-sat)\n", s));
                    *n += 1;
                }
            }
            let r = if k == 1 {
                let m = Z3_solver_get_model(c, self.s);
                Z3_model_inc_ref(c, m);
                let mut out = vec![];
                for (b, _) in doms {
                    let mut r: P = std::ptr::null_mut();
                    let mut v = 0u64;
                    if !Z3_model_eval(c, m, self.vars[*b as usize], true, &mut r) || !Z3_get_numeral_uint64(c, r, &mut v) {
                        panic!("z3 model eval");
                    }
                    out.push((*b, v as u8));
                }
                Z3_model_dec_ref(c, m);
                self.st.sat += 1;
                Res::Sat(out)
            } else if k == -1 {
                self.st.unsat += 1;
                Res::Unsat
            } else {
                self.st.unknown += 1;
                Res::Unknown
            };
            Z3_solver_pop(c, self.s, 1);
            if Z3_get_error_code(c) != 0 {
                panic!("z3 error {}", Z3_get_error_code(c));
            }
            r
        };
        self.st.queries += 1;
        let dt = t0.elapsed().as_secs_f64();
        self.st.time += dt;
        if dt > self.st.max_time {
            self.st.max_time = dt;
        }
        r
    }
}
