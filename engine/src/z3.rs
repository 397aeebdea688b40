//! Minimal binding to libz3 (QF_BV, and QF_FPBV where the code does floating point arithmetic).
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sort(c: P, e: c_uint, s: c_uint) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, rm: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, rm: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, rm: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, rm: P, a: P, w: c_uint) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, rm: P, a: P, w: c_uint) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, a: P) -> P;
    fn Z3_mk_fpa_add(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_geq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, out: *mut u64) -> bool;
    fn Z3_get_error_code(c: P) -> c_int;
    fn Z3_get_full_version() -> *const c_char;
}

pub enum Res {
    Sat(Vec<(u32, u128)>),
    Unsat,
    Unknown,
}

pub struct Solver {
    ctx: P,
    solver: P,
    bv: HashMap<Ex, P, BuildH>,
    bo: HashMap<Ex, P, BuildH>,
    pub timeout_ms: u32,
    /// floating point operations have been translated: the logic becomes QF_FPBV
    fp: bool,
}

pub fn version() -> String {
    unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let ctx = Z3_mk_context(cfg);
            let mut s = Solver {
                ctx,
                solver: std::ptr::null_mut(),
                bv: HashMap::with_hasher(BuildH),
                bo: HashMap::with_hasher(BuildH),
                timeout_ms,
                fp: false,
            };
            s.solver = s.mk_solver(timeout_ms);
            s
        }
    }
    unsafe fn mk_solver(&self, timeout: u32) -> P {
        let l = CString::new(if self.fp { "QF_FPBV" } else { "QF_BV" }).unwrap();
        let s = Z3_mk_solver_for_logic(self.ctx, Z3_mk_string_symbol(self.ctx, l.as_ptr()));
        Z3_solver_inc_ref(self.ctx, s);
        let p = Z3_mk_params(self.ctx);
        Z3_params_inc_ref(self.ctx, p);
        let t = CString::new("timeout").unwrap();
        Z3_params_set_uint(self.ctx, p, Z3_mk_string_symbol(self.ctx, t.as_ptr()), timeout);
        Z3_solver_set_params(self.ctx, s, p);
        s
    }
    unsafe fn num(&self, w: u32, v: u128) -> P {
        let sort = Z3_mk_bv_sort(self.ctx, w);
        if v <= u64::MAX as u128 {
            Z3_mk_unsigned_int64(self.ctx, v as u64, sort)
        } else {
            let s = CString::new(v.to_string()).unwrap();
            Z3_mk_numeral(self.ctx, s.as_ptr(), sort)
        }
    }
    unsafe fn fsort(&self, w: u32) -> P {
        if w == 32 {
            Z3_mk_fpa_sort(self.ctx, 8, 24)
        } else {
            Z3_mk_fpa_sort(self.ctx, 11, 53)
        }
    }
    unsafe fn fnan(&self, w: u32, a: P) -> P {
        let c = self.ctx;
        Z3_mk_bvult(c, self.num(w - 1, finf(w)), Z3_mk_extract(c, w - 2, 0, a))
    }
    unsafe fn fcvt(&mut self, kind: u32, fw: u32, w: u32, a: P) -> P {
        self.fp = true;
        let c = self.ctx;
        let rne = Z3_mk_fpa_rne(c);
        match kind {
            0 => {
                let f = Z3_mk_fpa_to_fp_bv(c, a, self.fsort(fw));
                let r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_float(c, rne, f, self.fsort(w)));
                let s = Z3_mk_extract(c, fw - 1, fw - 1, a);
                let (k, p) = if w == 64 {
                    let l = Z3_mk_concat(c, Z3_mk_extract(c, 22, 0, a), self.num(29, 0));
                    (self.num(64, finf(64) | fquiet(64)), Z3_mk_concat(c, s, Z3_mk_zero_ext(c, 11, l)))
                } else {
                    (self.num(32, finf(32) | fquiet(32)), Z3_mk_concat(c, s, Z3_mk_zero_ext(c, 8, Z3_mk_extract(c, 51, 29, a))))
                };
                Z3_mk_ite(c, self.fnan(fw, a), Z3_mk_bvor(c, p, k), r)
            }
            1 => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_unsigned(c, rne, a, self.fsort(w))),
            2 => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_signed(c, rne, a, self.fsort(w))),
            _ => {
                let f = Z3_mk_fpa_to_fp_bv(c, a, self.fsort(fw));
                let rtz = Z3_mk_fpa_rtz(c);
                let (r, lo, hi) = if kind == 3 {
                    (Z3_mk_fpa_to_ubv(c, rtz, f, w), 0u128, mask(w))
                } else {
                    (Z3_mk_fpa_to_sbv(c, rtz, f, w), 1u128 << (w - 1), mask(w - 1))
                };
                // the bounds as floats: both are (just beyond) representable
                let top = 2f64.powi(if kind == 3 { w as i32 } else { w as i32 - 1 });
                let bot = if kind == 3 { 0.0 } else { -top };
                let fk = |x: f64| {
                    let v = if fw == 32 { (x as f32).to_bits() as u128 } else { x.to_bits() as u128 };
                    Z3_mk_fpa_to_fp_bv(c, self.num(fw, v), self.fsort(fw))
                };
                let r = Z3_mk_ite(c, Z3_mk_fpa_geq(c, f, fk(top)), self.num(w, hi), r);
                let below = if kind == 3 { Z3_mk_not(c, Z3_mk_fpa_geq(c, f, fk(bot))) } else { Z3_mk_fpa_lt(c, f, fk(bot)) };
                let r = Z3_mk_ite(c, below, self.num(w, lo), r);
                Z3_mk_ite(c, self.fnan(fw, a), self.num(w, 0), r)
            }
        }
    }
    unsafe fn to_bv(&mut self, ar: &Arena, e: Ex) -> P {
        if let Some(&p) = self.bv.get(&e) {
            return p;
        }
        let n = ar.node(e);
        let c = self.ctx;
        let w = n.w as u32;
        let r = match n.op {
            Op::Const => self.num(w, ar.cval(e).unwrap()),
            Op::Sym => Z3_mk_const(c, Z3_mk_int_symbol(c, n.a as c_int), Z3_mk_bv_sort(c, w)),
            Op::Extract => {
                let a = self.to_bv(ar, n.a);
                Z3_mk_extract(c, n.b + w - 1, n.b, a)
            }
            Op::ZExt => {
                let a = self.to_bv(ar, n.a);
                Z3_mk_zero_ext(c, w - ar.w(n.a), a)
            }
            Op::FCvt => {
                let a = self.to_bv(ar, n.a);
                self.fcvt(n.b, ar.w(n.a), w, a)
            }
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
                let a = self.to_bv(ar, n.a);
                let b = self.to_bv(ar, n.b);
                self.fp = true;
                let s = self.fsort(w);
                let (x, y, rm) = (Z3_mk_fpa_to_fp_bv(c, a, s), Z3_mk_fpa_to_fp_bv(c, b, s), Z3_mk_fpa_rne(c));
                let f = match n.op {
                    Op::FAdd => Z3_mk_fpa_add(c, rm, x, y),
                    Op::FSub => Z3_mk_fpa_sub(c, rm, x, y),
                    Op::FMul => Z3_mk_fpa_mul(c, rm, x, y),
                    _ => Z3_mk_fpa_div(c, rm, x, y),
                };
                let r = Z3_mk_fpa_to_ieee_bv(c, f);
                let r = Z3_mk_ite(c, self.fnan(w, r), self.num(w, fdefault(w)), r);
                let q = self.num(w, fquiet(w));
                let r = Z3_mk_ite(c, self.fnan(w, b), Z3_mk_bvor(c, b, q), r);
                Z3_mk_ite(c, self.fnan(w, a), Z3_mk_bvor(c, a, q), r)
            }
            Op::SExt => {
                let a = self.to_bv(ar, n.a);
                Z3_mk_sign_ext(c, w - ar.w(n.a), a)
            }
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                let b = self.to_bool(ar, e);
                let (o, z) = (self.num(1, 1), self.num(1, 0));
                Z3_mk_ite(c, b, o, z)
            }
            Op::Ite => {
                let k = self.to_bool(ar, n.a);
                let a = self.to_bv(ar, n.b);
                let b = self.to_bv(ar, n.c);
                Z3_mk_ite(c, k, a, b)
            }
            op => {
                let a = self.to_bv(ar, n.a);
                let b = self.to_bv(ar, n.b);
                match op {
                    Op::Add => Z3_mk_bvadd(c, a, b),
                    Op::Sub => Z3_mk_bvsub(c, a, b),
                    Op::Mul => Z3_mk_bvmul(c, a, b),
                    Op::UDiv => Z3_mk_bvudiv(c, a, b),
                    Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                    Op::URem => Z3_mk_bvurem(c, a, b),
                    Op::SRem => Z3_mk_bvsrem(c, a, b),
                    Op::And => Z3_mk_bvand(c, a, b),
                    Op::Or => Z3_mk_bvor(c, a, b),
                    Op::Xor => Z3_mk_bvxor(c, a, b),
                    Op::Shl => Z3_mk_bvshl(c, a, b),
                    Op::LShr => Z3_mk_bvlshr(c, a, b),
                    Op::AShr => Z3_mk_bvashr(c, a, b),
                    Op::Concat => Z3_mk_concat(c, a, b),
                    _ => unreachable!(),
                }
            }
        };
        self.bv.insert(e, r);
        r
    }
    unsafe fn to_bool(&mut self, ar: &Arena, e: Ex) -> P {
        if let Some(&p) = self.bo.get(&e) {
            return p;
        }
        let n = ar.node(e);
        let c = self.ctx;
        let r = match n.op {
            Op::Eq if ar.w(n.a) == 1 => {
                let a = self.to_bool(ar, n.a);
                let b = self.to_bool(ar, n.b);
                Z3_mk_eq(c, a, b)
            }
            Op::Eq => {
                let a = self.to_bv(ar, n.a);
                let b = self.to_bv(ar, n.b);
                Z3_mk_eq(c, a, b)
            }
            Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                let a = self.to_bv(ar, n.a);
                let b = self.to_bv(ar, n.b);
                match n.op {
                    Op::Ult => Z3_mk_bvult(c, a, b),
                    Op::Ule => Z3_mk_bvule(c, a, b),
                    Op::Slt => Z3_mk_bvslt(c, a, b),
                    _ => Z3_mk_bvsle(c, a, b),
                }
            }
            Op::And | Op::Or | Op::Xor => {
                if n.op == Op::Xor && ar.cval(n.b) == Some(1) {
                    let a = self.to_bool(ar, n.a);
                    Z3_mk_not(c, a)
                } else {
                    let a = self.to_bool(ar, n.a);
                    let b = self.to_bool(ar, n.b);
                    let v = [a, b];
                    match n.op {
                        Op::And => Z3_mk_and(c, 2, v.as_ptr()),
                        Op::Or => Z3_mk_or(c, 2, v.as_ptr()),
                        _ => Z3_mk_xor(c, a, b),
                    }
                }
            }
            _ => {
                let a = self.to_bv(ar, e);
                let o = self.num(1, 1);
                Z3_mk_eq(c, a, o)
            }
        };
        self.bo.insert(e, r);
        r
    }
    /// Satisfiability of the conjunction; on Sat the values of `syms`.
    pub fn check(&mut self, ar: &Arena, conj: &[Ex], syms: &[(u32, u32)]) -> Res {
        unsafe {
            let c = self.ctx;
            let had_fp = self.fp;
            let asts: Vec<P> = conj.iter().map(|&e| self.to_bool(ar, e)).collect();
            let consts: Vec<P> = syms
                .iter()
                .map(|&(id, w)| Z3_mk_const(c, Z3_mk_int_symbol(c, id as c_int), Z3_mk_bv_sort(c, w)))
                .collect();
            if self.fp && !had_fp {
                Z3_solver_dec_ref(c, self.solver);
                self.solver = self.mk_solver(self.timeout_ms);
            }
            let mut s = self.solver;
            Z3_solver_push(c, s);
            for &a in &asts {
                Z3_solver_assert(c, s, a);
            }
            let mut r = Z3_solver_check(c, s);
            let mut second = None;
            if r == 0 {
                // retry on a fresh, non-incremental solver
                Z3_solver_pop(c, s, 1);
                s = self.mk_solver(self.timeout_ms * 4);
                for &a in &asts {
                    Z3_solver_assert(c, s, a);
                }
                r = Z3_solver_check(c, s);
                second = Some(s);
            }
            let out = match r {
                1 => {
                    let m = Z3_solver_get_model(c, s);
                    Z3_model_inc_ref(c, m);
                    let mut v = vec![];
                    for (i, &(id, _)) in syms.iter().enumerate() {
                        let mut o: P = std::ptr::null_mut();
                        let mut x = 0u64;
                        if !Z3_model_eval(c, m, consts[i], true, &mut o) || !Z3_get_numeral_uint64(c, o, &mut x) {
                            x = 0;
                        }
                        v.push((id, x as u128));
                    }
                    Z3_model_dec_ref(c, m);
                    Res::Sat(v)
                }
                -1 => Res::Unsat,
                _ => Res::Unknown,
            };
            if let Some(s2) = second {
                Z3_solver_dec_ref(c, s2);
            } else {
                Z3_solver_pop(c, s, 1);
            }
            let ec = Z3_get_error_code(c);
            if ec != 0 {
                eprintln!("z3 error code {}", ec);
                return Res::Unknown;
            }
            out
        }
    }
}
