//! z3, used incrementally: the assertion stack follows the path condition.
use crate::expr::*;
use crate::ffi::*;
use crate::ir::B;
use std::collections::HashMap;
use std::ffi::{CStr, CString};
use std::time::{Duration, Instant};

pub enum R { Sat(Vec<u128>), Unsat, Unknown(String) }
pub struct Solver {
    c: P, s: P,
    bv: HashMap<E, P, BuildFx>,
    bo: HashMap<E, P, BuildFx>,
    stack: Vec<E>,
    pub sat: u64, pub unsat: u64, pub unknown: u64, pub time: Duration, pub digest_terms: u64,
    timeout_ms: u32,
}
extern "C" fn on_err(_: P, code: std::ffi::c_int) { eprintln!("z3 error {}", code); std::process::abort(); }

impl Solver {
    pub fn new(timeout_ms: u32) -> Self {
        let mut s = Solver { c: std::ptr::null_mut(), s: std::ptr::null_mut(), bv: Default::default(), bo: Default::default(), stack: vec![], sat: 0, unsat: 0, unknown: 0, time: Duration::ZERO, digest_terms: 0, timeout_ms };
        s.reset();
        s
    }
    /// Forgets every term (used when the arena is replaced).
    pub fn reset(&mut self) {
        unsafe {
            if !self.c.is_null() { Z3_solver_dec_ref(self.c, self.s); Z3_del_context(self.c); }
            self.bv.clear(); self.bo.clear(); self.stack.clear();
            let cfg = Z3_mk_config();
            let c = Z3_mk_context_rc(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let logic = CString::new("QF_BV").unwrap();
            let _ = &logic;
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), self.timeout_ms);
            Z3_solver_set_params(c, s, p);
            self.c = c; self.s = s;
        }
    }
    fn keep(&self, p: P) -> P { unsafe { Z3_inc_ref(self.c, p); } p }
    fn num(&self, v: u128, w: u32) -> P {
        unsafe {
            let sort = Z3_mk_bv_sort(self.c, w);
            if v <= u64::MAX as u128 { return Z3_mk_unsigned_int64(self.c, v as u64, sort); }
            let s = CString::new(v.to_string()).unwrap();
            Z3_mk_numeral(self.c, s.as_ptr(), sort)
        }
    }
    fn var(&self, id: u32, w: u32) -> P {
        unsafe { Z3_mk_const(self.c, Z3_mk_int_symbol(self.c, (id * 512 + w) as i32), Z3_mk_bv_sort(self.c, w)) }
    }
    fn bool(&mut self, ar: &Arena, e: E) -> P {
        if let Some(&p) = self.bo.get(&e) { return p; }
        let c = self.c;
        let r = unsafe { match &ar.n[e as usize].0 {
            N::Const(v) => if *v == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) },
            N::Eq(a, b) => if ar.w(*a) == 1 { let (x, y) = (self.bool(ar, *a), self.bool(ar, *b)); Z3_mk_eq(c, x, y) } else { let (x, y) = (self.bv(ar, *a), self.bv(ar, *b)); Z3_mk_eq(c, x, y) },
            N::Ult(a, b) => { let (x, y) = (self.bv(ar, *a), self.bv(ar, *b)); Z3_mk_bvult(c, x, y) }
            N::Slt(a, b) => { let (x, y) = (self.bv(ar, *a), self.bv(ar, *b)); Z3_mk_bvslt(c, x, y) }
            N::Bin(B::And, a, b) => { let v = [self.bool(ar, *a), self.bool(ar, *b)]; Z3_mk_and(c, 2, v.as_ptr()) }
            N::Bin(B::Or, a, b) => { let v = [self.bool(ar, *a), self.bool(ar, *b)]; Z3_mk_or(c, 2, v.as_ptr()) }
            N::Bin(B::Xor, a, b) => { let x = self.bool(ar, *a); if ar.is_k(*b) == Some(1) { Z3_mk_not(c, x) } else { let y = self.bool(ar, *b); let q = self.keep(Z3_mk_eq(c, x, y)); Z3_mk_not(c, q) } }
            N::Ite(q, a, b) => { let (q, x, y) = (self.bool(ar, *q), self.bool(ar, *a), self.bool(ar, *b)); Z3_mk_ite(c, q, x, y) }
            _ => { let x = self.bv(ar, e); let one = self.keep(self.num(1, 1)); Z3_mk_eq(c, x, one) }
        } };
        self.keep(r);
        self.bo.insert(e, r);
        r
    }
    fn bv(&mut self, ar: &Arena, e: E) -> P {
        if let Some(&p) = self.bv.get(&e) { return p; }
        let c = self.c;
        let w = ar.w(e);
        let r = unsafe { match &ar.n[e as usize].0 {
            N::Const(v) => self.num(*v, w),
            N::Var(i) => self.var(*i, w),
            N::Sha(_) => { self.digest_terms += 1; let n = CString::new(format!("sha{}", e)).unwrap(); Z3_mk_const(c, Z3_mk_string_symbol(c, n.as_ptr()), Z3_mk_bv_sort(c, w)) }
            N::Eq(..) | N::Ult(..) | N::Slt(..) => { let q = self.bool(ar, e); let (o, z) = (self.keep(self.num(1, 1)), self.keep(self.num(0, 1))); Z3_mk_ite(c, q, o, z) }
            N::Ite(q, a, b) => { let (q, x, y) = (self.bool(ar, *q), self.bv(ar, *a), self.bv(ar, *b)); Z3_mk_ite(c, q, x, y) }
            N::Extract(a, lo) => { let x = self.bv(ar, *a); Z3_mk_extract(c, lo + w - 1, *lo, x) }
            N::ZExt(a) => { let x = self.bv(ar, *a); Z3_mk_zero_ext(c, w - ar.w(*a), x) }
            N::SExt(a) => { let x = self.bv(ar, *a); Z3_mk_sign_ext(c, w - ar.w(*a), x) }
            N::Concat(v) => {
                let mut r = self.bv(ar, v[0]);
                for x in v[1..].iter() { let y = self.bv(ar, *x); r = self.keep(Z3_mk_concat(c, r, y)); }
                r
            }
            N::Bin(op, a, b) => {
                let (x, y) = (self.bv(ar, *a), self.bv(ar, *b));
                match op {
                    B::Add => Z3_mk_bvadd(c, x, y), B::Sub => Z3_mk_bvsub(c, x, y), B::Mul => Z3_mk_bvmul(c, x, y),
                    B::UDiv => Z3_mk_bvudiv(c, x, y), B::SDiv => Z3_mk_bvsdiv(c, x, y), B::URem => Z3_mk_bvurem(c, x, y), B::SRem => Z3_mk_bvsrem(c, x, y),
                    B::Shl => Z3_mk_bvshl(c, x, y), B::LShr => Z3_mk_bvlshr(c, x, y), B::AShr => Z3_mk_bvashr(c, x, y),
                    B::And => Z3_mk_bvand(c, x, y), B::Or => Z3_mk_bvor(c, x, y), B::Xor => Z3_mk_bvxor(c, x, y),
                }
            }
        } };
        self.keep(r);
        self.bv.insert(e, r);
        r
    }
    /// Is `pc` and `extra` satisfiable? On success, the value of every input in `vars`.
    pub fn check(&mut self, ar: &Arena, pc: &[E], extra: Option<E>, vars: &[(u32, u32)]) -> R {
        let t0 = Instant::now();
        let r = unsafe {
            let common = self.stack.iter().zip(pc).take_while(|(a, b)| a == b).count();
            if common < self.stack.len() { Z3_solver_pop(self.c, self.s, (self.stack.len() - common) as u32); self.stack.truncate(common); }
            for &e in &pc[common..] {
                let p = self.bool(ar, e);
                Z3_solver_push(self.c, self.s);
                Z3_solver_assert(self.c, self.s, p);
                self.stack.push(e);
            }
            if let Some(x) = extra {
                let p = self.bool(ar, x);
                Z3_solver_push(self.c, self.s);
                Z3_solver_assert(self.c, self.s, p);
            }
            let r = match Z3_solver_check(self.c, self.s) {
                1 => {
                    self.sat += 1;
                    let m = Z3_solver_get_model(self.c, self.s);
                    Z3_model_inc_ref(self.c, m);
                    let mut out = vec![];
                    for &(id, w) in vars {
                        let v = self.keep(self.var(id, w));
                        let mut r = std::ptr::null_mut();
                        assert!(Z3_model_eval(self.c, m, v, true, &mut r));
                        self.keep(r);
                        let mut x = 0u64;
                        let val = if w <= 64 && Z3_get_numeral_uint64(self.c, r, &mut x) { x as u128 } else { CStr::from_ptr(Z3_get_numeral_string(self.c, r)).to_str().unwrap().parse().unwrap() };
                        Z3_dec_ref(self.c, r);
                        if out.len() <= id as usize { out.resize(id as usize + 1, 0); }
                        out[id as usize] = val;
                    }
                    Z3_model_dec_ref(self.c, m);
                    R::Sat(out)
                }
                -1 => { self.unsat += 1; R::Unsat }
                _ => { self.unknown += 1; R::Unknown(CStr::from_ptr(Z3_solver_get_reason_unknown(self.c, self.s)).to_string_lossy().into_owned()) }
            };
            if extra.is_some() { Z3_solver_pop(self.c, self.s, 1); }
            r
        };
        self.time += t0.elapsed();
        r
    }
}
