//! Minimal binding to the libz3 C API and translation of the expression pool.
use crate::expr::{Pool, K, NONE};
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};

type P = *mut c_void;

extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_dec_ref(c: P, a: P);
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, h: c_uint, l: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_get_full_version() -> *const c_char;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_set_error_handler(c: P, h: extern "C" fn(P, c_int));
}

extern "C" fn on_err(_c: P, e: c_int) {
    eprintln!("LPSYM-ENGINE-ERROR z3 error code {}", e);
    std::process::exit(3);
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Res {
    Sat,
    Unsat,
    Unknown,
}

pub struct Solver {
    c: P,
    s: P,
    sorts: Vec<P>,
    bits: [P; 2],
    memo: Vec<P>,  // bit-vector translation
    memob: Vec<P>, // boolean translation for width 1
    pub level: u32,
    pub n_sat: u64,
    pub n_unsat: u64,
    pub n_unknown: u64,
    pub time: f64,
    pub max_time: f64,
}

pub fn version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(c, on_err);
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = CString::new("timeout").unwrap();
            let sy = Z3_mk_string_symbol(c, k.as_ptr());
            Z3_params_set_uint(c, p, sy, timeout_ms);
            Z3_solver_set_params(c, s, p);
            let mut sorts = vec![std::ptr::null_mut()];
            for w in 1..=128 {
                let q = Z3_mk_bv_sort(c, w);
                Z3_inc_ref(c, q);
                sorts.push(q);
            }
            let zero = Z3_mk_unsigned_int64(c, 0, sorts[1]);
            Z3_inc_ref(c, zero);
            let one = Z3_mk_unsigned_int64(c, 1, sorts[1]);
            Z3_inc_ref(c, one);
            Solver { c, s, sorts, bits: [zero, one], memo: vec![], memob: vec![], level: 0, n_sat: 0, n_unsat: 0, n_unknown: 0, time: 0.0, max_time: 0.0 }
        }
    }
    pub fn push(&mut self) {
        unsafe { Z3_solver_push(self.c, self.s) };
        self.level += 1;
    }
    pub fn pop(&mut self, n: u32) {
        unsafe { Z3_solver_pop(self.c, self.s, n) };
        self.level -= n;
    }
    pub fn assert(&mut self, p: &Pool, e: u32) {
        let a = self.tb(p, e);
        unsafe { Z3_solver_assert(self.c, self.s, a) };
    }
    pub fn check(&mut self) -> Res {
        let t = std::time::Instant::now();
        let r = unsafe { Z3_solver_check(self.c, self.s) };
        let d = t.elapsed().as_secs_f64();
        self.time += d;
        if d > self.max_time {
            self.max_time = d;
        }
        match r {
            1 => {
                self.n_sat += 1;
                Res::Sat
            }
            -1 => {
                self.n_unsat += 1;
                Res::Unsat
            }
            _ => {
                self.n_unknown += 1;
                Res::Unknown
            }
        }
    }
    pub fn to_smt2(&self) -> String {
        unsafe { CStr::from_ptr(Z3_solver_to_string(self.c, self.s)).to_string_lossy().into_owned() }
    }
    /// values of the variable expressions in the current model
    pub fn model(&mut self, p: &Pool, vars: &[u32]) -> Vec<u64> {
        unsafe {
            let m = Z3_solver_get_model(self.c, self.s);
            Z3_model_inc_ref(self.c, m);
            let mut out = vec![];
            for v in vars {
                let a = self.tv(p, *v);
                let mut r: P = std::ptr::null_mut();
                let ok = Z3_model_eval(self.c, m, a, true, &mut r);
                let mut x = 0u64;
                if ok {
                    Z3_inc_ref(self.c, r);
                    Z3_get_numeral_uint64(self.c, r, &mut x);
                    Z3_dec_ref(self.c, r);
                }
                out.push(x);
            }
            Z3_model_dec_ref(self.c, m);
            out
        }
    }
    fn slot(v: &mut Vec<P>, i: u32) -> &mut P {
        if v.len() <= i as usize {
            v.resize(i as usize + 1, std::ptr::null_mut());
        }
        &mut v[i as usize]
    }
    /// width-1 expression as Bool
    fn tb(&mut self, p: &Pool, e: u32) -> P {
        let q = *Self::slot(&mut self.memob, e);
        if !q.is_null() {
            return q;
        }
        let n = p.nodes[e as usize];
        debug_assert_eq!(n.w, 1);
        let c = self.c;
        let r = unsafe {
            match n.op {
                K::Const => {
                    if n.k != 0 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                K::And => {
                    let v = [self.tb(p, n.a), self.tb(p, n.b)];
                    Z3_mk_and(c, 2, v.as_ptr())
                }
                K::Or => {
                    let v = [self.tb(p, n.a), self.tb(p, n.b)];
                    Z3_mk_or(c, 2, v.as_ptr())
                }
                K::Xor => {
                    let a = self.tb(p, n.a);
                    if p.as_const(n.b) == Some(1) {
                        Z3_mk_not(c, a)
                    } else {
                        let b = self.tb(p, n.b);
                        Z3_mk_xor(c, a, b)
                    }
                }
                K::Ite => {
                    let a = self.tb(p, n.a);
                    let b = self.tb(p, n.b);
                    let d = self.tb(p, n.c);
                    Z3_mk_ite(c, a, b, d)
                }
                K::Eq => {
                    let (a, b) = (self.tv(p, n.a), self.tv(p, n.b));
                    Z3_mk_eq(c, a, b)
                }
                K::Ult => {
                    let (a, b) = (self.tv(p, n.a), self.tv(p, n.b));
                    Z3_mk_bvult(c, a, b)
                }
                K::Ule => {
                    let (a, b) = (self.tv(p, n.a), self.tv(p, n.b));
                    Z3_mk_bvule(c, a, b)
                }
                K::Slt => {
                    let (a, b) = (self.tv(p, n.a), self.tv(p, n.b));
                    Z3_mk_bvslt(c, a, b)
                }
                K::Sle => {
                    let (a, b) = (self.tv(p, n.a), self.tv(p, n.b));
                    Z3_mk_bvsle(c, a, b)
                }
                _ => {
                    let a = self.tv(p, e);
                    Z3_mk_eq(c, a, self.bits[1])
                }
            }
        };
        unsafe { Z3_inc_ref(c, r) };
        *Self::slot(&mut self.memob, e) = r;
        r
    }
    fn tv(&mut self, p: &Pool, e: u32) -> P {
        let q = *Self::slot(&mut self.memo, e);
        if !q.is_null() {
            return q;
        }
        let n = p.nodes[e as usize];
        let c = self.c;
        let w = n.w as u32;
        let a = if n.a != NONE && n.op != K::Ite && !(matches!(n.op, K::Eq | K::Ult | K::Ule | K::Slt | K::Sle)) {
            self.tv(p, n.a)
        } else {
            std::ptr::null_mut()
        };
        let r = unsafe {
            macro_rules! bin {
                ($f:ident) => {{
                    let b = self.tv(p, n.b);
                    $f(c, a, b)
                }};
            }
            match n.op {
                K::Const => Z3_mk_unsigned_int64(c, n.k, self.sorts[w as usize]),
                K::Var => {
                    let name = CString::new(format!("in{}", n.k)).unwrap();
                    let sy = Z3_mk_string_symbol(c, name.as_ptr());
                    Z3_mk_const(c, sy, self.sorts[w as usize])
                }
                K::Add => bin!(Z3_mk_bvadd),
                K::Sub => bin!(Z3_mk_bvsub),
                K::Mul => bin!(Z3_mk_bvmul),
                K::UDiv => bin!(Z3_mk_bvudiv),
                K::SDiv => bin!(Z3_mk_bvsdiv),
                K::URem => bin!(Z3_mk_bvurem),
                K::SRem => bin!(Z3_mk_bvsrem),
                K::Shl => bin!(Z3_mk_bvshl),
                K::LShr => bin!(Z3_mk_bvlshr),
                K::AShr => bin!(Z3_mk_bvashr),
                K::And => bin!(Z3_mk_bvand),
                K::Or => bin!(Z3_mk_bvor),
                K::Xor => bin!(Z3_mk_bvxor),
                K::Zext => {
                    let wa = p.w(n.a);
                    Z3_mk_zero_ext(c, w - wa, a)
                }
                K::Sext => {
                    let wa = p.w(n.a);
                    Z3_mk_sign_ext(c, w - wa, a)
                }
                K::Extract => Z3_mk_extract(c, n.k as u32 + w - 1, n.k as u32, a),
                K::Concat => bin!(Z3_mk_concat),
                K::Ite => {
                    let cc = self.tb(p, n.a);
                    let x = self.tv(p, n.b);
                    let y = self.tv(p, n.c);
                    Z3_mk_ite(c, cc, x, y)
                }
                K::Eq | K::Ult | K::Ule | K::Slt | K::Sle => {
                    let b = self.tb(p, e);
                    Z3_mk_ite(c, b, self.bits[1], self.bits[0])
                }
            }
        };
        unsafe { Z3_inc_ref(c, r) };
        *Self::slot(&mut self.memo, e) = r;
        r
    }
}
