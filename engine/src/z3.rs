//! Minimal FFI to libz3 and translation of expressions.
use crate::expr::*;
use crate::ir::{BinOp, Pred};
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_del_config(c: P);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_get_numeral_string(c: P, v: P) -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_set_error_handler(c: P, h: extern "C" fn(P, c_int));
}
extern "C" fn on_err(_c: P, e: c_int) {
    eprintln!("z3 error {}", e);
    std::process::abort();
}

pub struct Z3 {
    c: P,
    s: P,
    ast: Vec<P>, // by expr id; booleans are kept as bv1
    asb: Vec<P>, // boolean form for width-1
    timeout_ms: u32,
    pub dump: Option<String>,
}
pub enum Res {
    Sat(Vec<(u32, u128)>),
    Unsat,
    Unknown,
}

impl Z3 {
    pub fn new(timeout_ms: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(c, on_err);
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), timeout_ms);
            Z3_solver_set_params(c, s, p);
            Z3 { c, s, ast: vec![], asb: vec![], timeout_ms, dump: None }
        }
    }
    pub fn reset(&mut self) {
        let t = self.timeout_ms;
        *self = Z3::new(t);
    }
    fn bv(&mut self, ar: &Arena, e: Ex) -> P {
        let i = e as usize;
        if self.ast.len() <= i {
            self.ast.resize(ar.nodes.len().max(i + 1), std::ptr::null_mut());
            self.asb.resize(ar.nodes.len().max(i + 1), std::ptr::null_mut());
        }
        if !self.ast[i].is_null() {
            return self.ast[i];
        }
        let c = self.c;
        let (n, w) = ar.nodes[i];
        let r = unsafe {
            match n {
                N::Const(v) => {
                    let t = Z3_mk_bv_sort(c, w);
                    if w <= 64 {
                        Z3_mk_unsigned_int64(c, v as u64, t)
                    } else {
                        let s = CString::new(v.to_string()).unwrap();
                        Z3_mk_numeral(c, s.as_ptr(), t)
                    }
                }
                N::Var(k) => Z3_mk_const(c, Z3_mk_int_symbol(c, k as c_int), Z3_mk_bv_sort(c, w)),
                N::Bin(op, a, b) => {
                    let x = self.bv(ar, a);
                    let y = self.bv(ar, b);
                    let f = match op {
                        BinOp::Add => Z3_mk_bvadd,
                        BinOp::Sub => Z3_mk_bvsub,
                        BinOp::Mul => Z3_mk_bvmul,
                        BinOp::UDiv => Z3_mk_bvudiv,
                        BinOp::SDiv => Z3_mk_bvsdiv,
                        BinOp::URem => Z3_mk_bvurem,
                        BinOp::SRem => Z3_mk_bvsrem,
                        BinOp::Shl => Z3_mk_bvshl,
                        BinOp::LShr => Z3_mk_bvlshr,
                        BinOp::AShr => Z3_mk_bvashr,
                        BinOp::And => Z3_mk_bvand,
                        BinOp::Or => Z3_mk_bvor,
                        BinOp::Xor => Z3_mk_bvxor,
                    };
                    f(c, x, y)
                }
                N::Cmp(..) => {
                    let b = self.boolean(ar, e);
                    let t = Z3_mk_bv_sort(c, 1);
                    Z3_mk_ite(c, b, Z3_mk_unsigned_int64(c, 1, t), Z3_mk_unsigned_int64(c, 0, t))
                }
                N::Ite(cc, a, b) => {
                    let k = self.boolean(ar, cc);
                    let x = self.bv(ar, a);
                    let y = self.bv(ar, b);
                    Z3_mk_ite(c, k, x, y)
                }
                N::ZExt(a) => {
                    let x = self.bv(ar, a);
                    Z3_mk_zero_ext(c, w - ar.w(a), x)
                }
                N::SExt(a) => {
                    let x = self.bv(ar, a);
                    Z3_mk_sign_ext(c, w - ar.w(a), x)
                }
                N::Extract(a, lo) => {
                    let x = self.bv(ar, a);
                    Z3_mk_extract(c, lo + w - 1, lo, x)
                }
                N::Concat(a, b) => {
                    let x = self.bv(ar, a);
                    let y = self.bv(ar, b);
                    Z3_mk_concat(c, x, y)
                }
                N::None => Z3_mk_true(c),
            }
        };
        self.ast[i] = r;
        r
    }
    fn boolean(&mut self, ar: &Arena, e: Ex) -> P {
        let i = e as usize;
        if self.asb.len() > i && !self.asb[i].is_null() {
            return self.asb[i];
        }
        let c = self.c;
        let r = unsafe {
            match ar.n(e) {
                N::Cmp(p, a, b) => {
                    let x = self.bv(ar, a);
                    let y = self.bv(ar, b);
                    match p {
                        Pred::Eq => Z3_mk_eq(c, x, y),
                        Pred::Ne => Z3_mk_not(c, Z3_mk_eq(c, x, y)),
                        Pred::Ult => Z3_mk_bvult(c, x, y),
                        Pred::Ule => Z3_mk_bvule(c, x, y),
                        Pred::Ugt => Z3_mk_bvult(c, y, x),
                        Pred::Uge => Z3_mk_bvule(c, y, x),
                        Pred::Slt => Z3_mk_bvslt(c, x, y),
                        Pred::Sle => Z3_mk_bvsle(c, x, y),
                        Pred::Sgt => Z3_mk_bvslt(c, y, x),
                        Pred::Sge => Z3_mk_bvsle(c, y, x),
                    }
                }
                _ => {
                    let x = self.bv(ar, e);
                    let t = Z3_mk_bv_sort(c, 1);
                    Z3_mk_eq(c, x, Z3_mk_unsigned_int64(c, 1, t))
                }
            }
        };
        if self.asb.len() <= i {
            self.ast.resize(ar.nodes.len().max(i + 1), std::ptr::null_mut());
            self.asb.resize(ar.nodes.len().max(i + 1), std::ptr::null_mut());
        }
        self.asb[i] = r;
        r
    }
    pub fn solve(&mut self, ar: &Arena, cs: &[Ex], vars: &[(u32, Ex)]) -> Res {
        unsafe {
            let bs: Vec<P> = cs.iter().map(|e| self.boolean(ar, *e)).collect();
            let vs: Vec<P> = vars.iter().map(|(_, e)| self.bv(ar, *e)).collect();
            Z3_solver_push(self.c, self.s);
            for b in bs {
                Z3_solver_assert(self.c, self.s, b);
            }
            if let Some(d) = &self.dump {
                use std::io::Write;
                let s = std::ffi::CStr::from_ptr(Z3_solver_to_string(self.c, self.s)).to_string_lossy().into_owned();
                if let Ok(mut f) = std::fs::OpenOptions::new().create(true).append(true).open(d) {
                    let _ = writeln!(f, "(push)\n{}\n(check-sat)\n(pop)", s);
                }
            }
            let r = Z3_solver_check(self.c, self.s);
            let out = match r {
                1 => {
                    let m = Z3_solver_get_model(self.c, self.s);
                    Z3_model_inc_ref(self.c, m);
                    let mut o = vec![];
                    for ((k, e), v) in vars.iter().zip(vs) {
                        let mut x: P = std::ptr::null_mut();
                        Z3_model_eval(self.c, m, v, true, &mut x);
                        let mut u = 0u64;
                        let val = if ar.w(*e) <= 64 && Z3_get_numeral_uint64(self.c, x, &mut u) {
                            u as u128
                        } else {
                            let s = std::ffi::CStr::from_ptr(Z3_get_numeral_string(self.c, x)).to_string_lossy().into_owned();
                            s.parse().unwrap_or(0)
                        };
                        o.push((*k, val));
                    }
                    Z3_model_dec_ref(self.c, m);
                    Res::Sat(o)
                }
                -1 => Res::Unsat,
                _ => Res::Unknown,
            };
            Z3_solver_pop(self.c, self.s, 1);
            out
        }
    }
}
impl Drop for Z3 {
    fn drop(&mut self) {
        unsafe { Z3_del_context(self.c) }
    }
}
