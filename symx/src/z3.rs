//! Minimal hand-written bindings to the installed libz3 (C API).
#![allow(non_camel_case_types)]
use std::cell::RefCell;
use std::collections::HashMap;
use std::ffi::{CStr, CString};
use std::os::raw::{c_char, c_int, c_uint, c_void};

pub type P = *mut c_void;
pub type Ast = P;

#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_del_config(c: P);
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: Ast) -> Ast;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: Ast);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_check_assumptions(c: P, s: P, n: c_uint, a: *const Ast) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: Ast, compl: bool, v: *mut Ast) -> bool;
    fn Z3_get_numeral_string(c: P, a: Ast) -> *const c_char;
    fn Z3_get_bool_value(c: P, a: Ast) -> c_int;
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> Ast;
    fn Z3_mk_numeral(c: P, n: *const c_char, ty: P) -> Ast;
    fn Z3_mk_true(c: P) -> Ast;
    fn Z3_mk_false(c: P) -> Ast;
    fn Z3_mk_eq(c: P, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_not(c: P, a: Ast) -> Ast;
    fn Z3_mk_ite(c: P, a: Ast, b: Ast, d: Ast) -> Ast;
    fn Z3_mk_and(c: P, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_or(c: P, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_bvadd(c: P, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsub(c: P, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvmul(c: P, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvneg(c: P, a: Ast) -> Ast;
    fn Z3_mk_bvsdiv(c: P, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvslt(c: P, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsle(c: P, a: Ast, b: Ast) -> Ast;
    fn Z3_inc_ref(c: P, a: Ast);
    fn Z3_dec_ref(c: P, a: Ast);
    fn Z3_set_error_handler(c: P, h: *const c_void);
    fn Z3_get_version(a: *mut c_uint, b: *mut c_uint, d: *mut c_uint, e: *mut c_uint);
}

pub fn version() -> String {
    let (mut a, mut b, mut c, mut d) = (0, 0, 0, 0);
    unsafe { Z3_get_version(&mut a, &mut b, &mut c, &mut d) };
    format!("{a}.{b}.{c}.{d}")
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Sat {
    Sat,
    Unsat,
    Unknown,
}

/// A z3 context with one incremental solver. Terms are reference counted by
/// the caller through `keep` / `release_all`.
pub struct Z3 {
    c: P,
    s: P,
    int: P,
    bv: P,
    bits: u32,
    iw: u32,
    pub checks: u64,
    pub nanos: u128,
    pub unknowns: u64,
    pool: RefCell<Vec<Ast>>,
    nums: RefCell<HashMap<(i128, bool), Ast>>,
}

impl Z3 {
    pub fn new(bits: u32, iw: u32, timeout_ms: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context_rc(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(c, std::ptr::null());
            let s = match std::env::var("SYMX_SOLVER").as_deref() {
                Ok("simple") => Z3_mk_simple_solver(c),
                Ok("default") => Z3_mk_solver(c),
                _ => {
                    let l = CString::new("QF_BV").unwrap();
                    Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()))
                }
            };
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let t = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, t.as_ptr()), timeout_ms);
            Z3_solver_set_params(c, s, p);
            let int = Z3_mk_bv_sort(c, iw);
            let bv = Z3_mk_bv_sort(c, bits);
            Z3_inc_ref(c, int);
            Z3_inc_ref(c, bv);
            Z3 { c, s, int, bv, bits, iw, checks: 0, nanos: 0, unknowns: 0, pool: Default::default(), nums: Default::default() }
        }
    }
    pub fn inc(&self, a: Ast) {
        unsafe { Z3_inc_ref(self.c, a) }
    }
    pub fn dec(&self, a: Ast) {
        unsafe { Z3_dec_ref(self.c, a) }
    }
    pub fn push(&self) {
        unsafe { Z3_solver_push(self.c, self.s) }
    }
    pub fn pop(&self, n: u32) {
        if n > 0 {
            unsafe { Z3_solver_pop(self.c, self.s, n) }
        }
    }
    pub fn assert(&self, a: Ast) {
        unsafe { Z3_solver_assert(self.c, self.s, a) }
    }
    fn timed(&mut self, f: impl FnOnce(P, P) -> c_int) -> Sat {
        let t = std::time::Instant::now();
        let r = f(self.c, self.s);
        self.nanos += t.elapsed().as_nanos();
        self.checks += 1;
        match r {
            1 => Sat::Sat,
            -1 => Sat::Unsat,
            _ => {
                self.unknowns += 1;
                Sat::Unknown
            }
        }
    }
    pub fn check(&mut self) -> Sat {
        self.timed(|c, s| unsafe { Z3_solver_check(c, s) })
    }
    pub fn check_with(&mut self, a: &[Ast]) -> Sat {
        self.timed(|c, s| unsafe {
            Z3_solver_check_assumptions(c, s, a.len() as c_uint, a.as_ptr())
        })
    }
    pub fn model(&self) -> P {
        unsafe {
            let m = Z3_solver_get_model(self.c, self.s);
            assert!(!m.is_null());
            Z3_model_inc_ref(self.c, m);
            m
        }
    }
    pub fn model_dec(&self, m: P) {
        unsafe { Z3_model_dec_ref(self.c, m) }
    }
    pub fn eval_bool(&self, m: P, a: Ast) -> Option<bool> {
        unsafe {
            let mut v: Ast = std::ptr::null_mut();
            if !Z3_model_eval(self.c, m, a, true, &mut v) {
                return None;
            }
            Z3_inc_ref(self.c, v);
            let r = Z3_get_bool_value(self.c, v);
            Z3_dec_ref(self.c, v);
            match r {
                1 => Some(true),
                -1 => Some(false),
                _ => None,
            }
        }
    }
    pub fn eval_num(&self, m: P, a: Ast) -> Option<i128> {
        unsafe {
            let mut v: Ast = std::ptr::null_mut();
            if !Z3_model_eval(self.c, m, a, true, &mut v) {
                return None;
            }
            Z3_inc_ref(self.c, v);
            let s = Z3_get_numeral_string(self.c, v);
            let r = if s.is_null() {
                None
            } else {
                CStr::from_ptr(s).to_str().ok().and_then(|s| s.parse::<i128>().ok())
            };
            Z3_dec_ref(self.c, v);
            r
        }
    }
    /// Value of an index term (two's complement).
    pub fn eval_int(&self, m: P, a: Ast) -> Option<i128> {
        let v = self.eval_num(m, a)?;
        Some(if v >= 1i128 << (self.iw - 1) { v - (1i128 << self.iw) } else { v })
    }
    pub fn solver_string(&self) -> String {
        unsafe { CStr::from_ptr(Z3_solver_to_string(self.c, self.s)).to_string_lossy().into_owned() }
    }
    /// Every term is kept alive until the current path is finished.
    fn k(&self, a: Ast) -> Ast {
        self.inc(a);
        self.pool.borrow_mut().push(a);
        a
    }
    pub fn release_path(&self) {
        for a in self.pool.borrow_mut().drain(..) {
            self.dec(a);
        }
    }
    fn sym(&self, s: &str) -> P {
        let s = CString::new(s).unwrap();
        unsafe { Z3_mk_string_symbol(self.c, s.as_ptr()) }
    }
    /// An integer known to lie in lo..=hi: a bit-vector of just enough bits, extended.
    pub fn int_var(&self, s: &str, lo: i128, hi: i128) -> Ast {
        let signed = lo < 0;
        let top = hi.max(if signed { -lo - 1 } else { 0 });
        let k = (128 - top.leading_zeros()).max(1) + signed as u32;
        unsafe {
            let sort = Z3_mk_bv_sort(self.c, k);
            self.inc(sort);
            let v = self.k(Z3_mk_const(self.c, self.sym(s), sort));
            self.dec(sort);
            self.k(if signed { Z3_mk_sign_ext(self.c, self.iw - k, v) } else { Z3_mk_zero_ext(self.c, self.iw - k, v) })
        }
    }
    pub fn fits(&self, lo: i128, hi: i128) -> bool {
        let h = 1i128 << (self.iw - 1);
        lo >= -h && hi < h
    }
    pub fn bv_var(&self, s: &str) -> Ast {
        self.k(unsafe { Z3_mk_const(self.c, self.sym(s), self.bv) })
    }
    pub fn int_num(&self, v: i128) -> Ast {
        if let Some(a) = self.nums.borrow().get(&(v, true)) {
            return *a;
        }
        let m = if v < 0 { v + (1i128 << self.iw) } else { v };
        let s = CString::new(m.to_string()).unwrap();
        let a = unsafe { Z3_mk_numeral(self.c, s.as_ptr(), self.int) };
        self.inc(a);
        self.nums.borrow_mut().insert((v, true), a);
        a
    }
    pub fn bv_num(&self, v: i64) -> Ast {
        let m = if self.bits >= 64 { u64::MAX } else { (1u64 << self.bits) - 1 };
        let w = ((v as u64) & m) as i128;
        if let Some(a) = self.nums.borrow().get(&(w, false)) {
            return *a;
        }
        let s = CString::new(w.to_string()).unwrap();
        let a = unsafe { Z3_mk_numeral(self.c, s.as_ptr(), self.bv) };
        self.inc(a);
        self.nums.borrow_mut().insert((w, false), a);
        a
    }
    pub fn tt(&self) -> Ast {
        self.k(unsafe { Z3_mk_true(self.c) })
    }
    pub fn ff(&self) -> Ast {
        self.k(unsafe { Z3_mk_false(self.c) })
    }
    pub fn eq(&self, a: Ast, b: Ast) -> Ast {
        self.k(unsafe { Z3_mk_eq(self.c, a, b) })
    }
    pub fn not(&self, a: Ast) -> Ast {
        self.k(unsafe { Z3_mk_not(self.c, a) })
    }
    pub fn ite(&self, a: Ast, b: Ast, d: Ast) -> Ast {
        self.k(unsafe { Z3_mk_ite(self.c, a, b, d) })
    }
    pub fn and(&self, v: &[Ast]) -> Ast {
        self.k(unsafe { Z3_mk_and(self.c, v.len() as c_uint, v.as_ptr()) })
    }
    pub fn or(&self, v: &[Ast]) -> Ast {
        self.k(unsafe { Z3_mk_or(self.c, v.len() as c_uint, v.as_ptr()) })
    }
    pub fn iadd(&self, a: Ast, b: Ast) -> Ast {
        self.k(unsafe { Z3_mk_bvadd(self.c, a, b) })
    }
    pub fn isub(&self, a: Ast, b: Ast) -> Ast {
        self.k(unsafe { Z3_mk_bvsub(self.c, a, b) })
    }
    pub fn imul(&self, a: Ast, b: Ast) -> Ast {
        self.k(unsafe { Z3_mk_bvmul(self.c, a, b) })
    }
    pub fn ilt(&self, a: Ast, b: Ast) -> Ast {
        self.k(unsafe { Z3_mk_bvslt(self.c, a, b) })
    }
    pub fn ile(&self, a: Ast, b: Ast) -> Ast {
        self.k(unsafe { Z3_mk_bvsle(self.c, a, b) })
    }
    pub fn vadd(&self, a: Ast, b: Ast) -> Ast {
        self.k(unsafe { Z3_mk_bvadd(self.c, a, b) })
    }
    pub fn vsub(&self, a: Ast, b: Ast) -> Ast {
        self.k(unsafe { Z3_mk_bvsub(self.c, a, b) })
    }
    pub fn vmul(&self, a: Ast, b: Ast) -> Ast {
        self.k(unsafe { Z3_mk_bvmul(self.c, a, b) })
    }
    pub fn vneg(&self, a: Ast) -> Ast {
        self.k(unsafe { Z3_mk_bvneg(self.c, a) })
    }
    pub fn vsdiv(&self, a: Ast, b: Ast) -> Ast {
        self.k(unsafe { Z3_mk_bvsdiv(self.c, a, b) })
    }
    pub fn vslt(&self, a: Ast, b: Ast) -> Ast {
        self.k(unsafe { Z3_mk_bvslt(self.c, a, b) })
    }
    pub fn vsle(&self, a: Ast, b: Ast) -> Ast {
        self.k(unsafe { Z3_mk_bvsle(self.c, a, b) })
    }
}
