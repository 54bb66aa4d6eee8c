//! Minimal FFI to the Z3 C API (only what the expression translator needs).
#![allow(non_camel_case_types, dead_code)]
use std::ffi::{CStr, CString};
use std::os::raw::{c_char, c_int, c_uint};

pub type P = *mut std::ffi::c_void;
pub type Ast = P;

#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_global_param_set(k: *const c_char, v: *const c_char);
    fn Z3_params_set_bool(c: P, p: P, k: P, v: bool);
    fn Z3_solver_get_reason_unknown(c: P, s: P) -> *const c_char;
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
    fn Z3_inc_ref(c: P, a: Ast);
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_fpa_sort_double(c: P) -> P;
    fn Z3_mk_fpa_sort_single(c: P) -> P;
    fn Z3_mk_fpa_rne(c: P) -> Ast;
    fn Z3_mk_fpa_rtz(c: P) -> Ast;
    fn Z3_mk_fpa_rtp(c: P) -> Ast;
    fn Z3_mk_fpa_rtn(c: P) -> Ast;
    fn Z3_mk_fpa_add(c: P, rm: Ast, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_sub(c: P, rm: Ast, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_mul(c: P, rm: Ast, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_div(c: P, rm: Ast, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_round_to_integral(c: P, rm: Ast, a: Ast) -> Ast;
    fn Z3_mk_fpa_is_nan(c: P, a: Ast) -> Ast;
    fn Z3_mk_fpa_to_fp_bv(c: P, a: Ast, s: P) -> Ast;
    fn Z3_mk_fpa_to_fp_float(c: P, rm: Ast, a: Ast, s: P) -> Ast;
    fn Z3_mk_fpa_to_fp_signed(c: P, rm: Ast, a: Ast, s: P) -> Ast;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, rm: Ast, a: Ast, s: P) -> Ast;
    fn Z3_mk_fpa_to_ubv(c: P, rm: Ast, a: Ast, sz: c_uint) -> Ast;
    fn Z3_mk_fpa_to_sbv(c: P, rm: Ast, a: Ast, sz: c_uint) -> Ast;
    fn Z3_mk_fpa_to_ieee_bv(c: P, a: Ast) -> Ast;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, sort: P) -> Ast;
    fn Z3_mk_numeral(c: P, n: *const c_char, sort: P) -> Ast;
    fn Z3_mk_true(c: P) -> Ast;
    fn Z3_mk_false(c: P) -> Ast;
    fn Z3_mk_eq(c: P, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_not(c: P, a: Ast) -> Ast;
    fn Z3_mk_ite(c: P, a: Ast, b: Ast, d: Ast) -> Ast;
    fn Z3_mk_xor(c: P, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_and(c: P, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_or(c: P, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_bvand(c: P, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvor(c: P, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvxor(c: P, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvadd(c: P, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsub(c: P, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvmul(c: P, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvudiv(c: P, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsdiv(c: P, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvurem(c: P, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsrem(c: P, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvshl(c: P, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvlshr(c: P, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvashr(c: P, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvult(c: P, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvule(c: P, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvslt(c: P, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsle(c: P, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_concat(c: P, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: Ast) -> Ast;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_mk_solver_from_tactic(c: P, t: P) -> P;
    fn Z3_mk_tactic(c: P, n: *const c_char) -> P;
    fn Z3_tactic_inc_ref(c: P, t: P);
    fn Z3_tactic_and_then(c: P, a: P, b: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_assert(c: P, s: P, a: Ast);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: Ast, completion: bool, v: *mut Ast) -> bool;
    fn Z3_get_numeral_binary_string(c: P, a: Ast) -> *const c_char;
    fn Z3_get_numeral_string(c: P, a: Ast) -> *const c_char;
    fn Z3_get_full_version() -> *const c_char;
}

extern "C" fn on_error(_c: P, e: c_int) {
    eprintln!("irsym: z3 error {}", e);
    std::process::exit(4);
}

pub struct Z3 {
    pub c: P,
    pub f64s: P,
    pub f32s: P,
    pub rne: Ast,
    pub rtz: Ast,
    pub rtp: Ast,
    pub rtn: Ast,
    tac_bv: P,
    tac_fp: P,
    params: P,
    k_timeout: P,
}
pub enum Check {
    Sat,
    Unsat,
    Unknown,
}
pub fn version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}
macro_rules! bin {
    ($n:ident, $f:ident) => {
        pub fn $n(&self, a: Ast, b: Ast) -> Ast {
            self.keep(unsafe { $f(self.c, a, b) })
        }
    };
}
impl Z3 {
    pub fn new() -> Z3 {
        unsafe {
            let (k, v) = (CString::new("rewriter.hi_fp_unspecified").unwrap(), CString::new("true").unwrap());
            Z3_global_param_set(k.as_ptr(), v.as_ptr());
            let cfg = Z3_mk_config();
            let c = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(c, Some(on_error));
            let f64s = Z3_mk_fpa_sort_double(c);
            Z3_inc_ref(c, f64s);
            let f32s = Z3_mk_fpa_sort_single(c);
            Z3_inc_ref(c, f32s);
            let k = |f: unsafe extern "C" fn(P) -> Ast| {
                let a = f(c);
                Z3_inc_ref(c, a);
                a
            };
            let tac = |names: &[&str]| {
                let mut t: P = std::ptr::null_mut();
                for n in names {
                    let cs = CString::new(*n).unwrap();
                    let x = Z3_mk_tactic(c, cs.as_ptr());
                    Z3_tactic_inc_ref(c, x);
                    t = if t.is_null() {
                        x
                    } else {
                        let y = Z3_tactic_and_then(c, t, x);
                        Z3_tactic_inc_ref(c, y);
                        y
                    };
                }
                t
            };
            let tac_bv = tac(&["simplify", "propagate-values", "solve-eqs", "simplify", "bit-blast", "sat"]);
            let tac_fp = tac(&["simplify", "propagate-values", "fpa2bv", "simplify", "propagate-values", "solve-eqs", "simplify", "bit-blast", "sat"]);
            let params = Z3_mk_params(c);
            Z3_params_inc_ref(c, params);
            let cs = CString::new("timeout").unwrap();
            let k_timeout = Z3_mk_string_symbol(c, cs.as_ptr());
            Z3 {
                c,
                f64s,
                f32s,
                rne: k(Z3_mk_fpa_rne),
                rtz: k(Z3_mk_fpa_rtz),
                rtp: k(Z3_mk_fpa_rtp),
                rtn: k(Z3_mk_fpa_rtn),
                tac_bv,
                tac_fp,
                params,
                k_timeout,
            }
        }
    }
    fn keep(&self, a: Ast) -> Ast {
        unsafe { Z3_inc_ref(self.c, a) };
        a
    }
    pub fn var(&self, name: &str, w: u32) -> Ast {
        let cs = CString::new(name).unwrap();
        unsafe {
            let s = Z3_mk_string_symbol(self.c, cs.as_ptr());
            self.keep(Z3_mk_const(self.c, s, Z3_mk_bv_sort(self.c, w)))
        }
    }
    pub fn num(&self, v: u128, w: u32) -> Ast {
        let cs = CString::new(v.to_string()).unwrap();
        unsafe { self.keep(Z3_mk_numeral(self.c, cs.as_ptr(), Z3_mk_bv_sort(self.c, w))) }
    }
    pub fn bool(&self, b: bool) -> Ast {
        self.keep(unsafe { if b { Z3_mk_true(self.c) } else { Z3_mk_false(self.c) } })
    }
    bin!(eq, Z3_mk_eq);
    bin!(xor, Z3_mk_xor);
    bin!(bvand, Z3_mk_bvand);
    bin!(bvor, Z3_mk_bvor);
    bin!(bvxor, Z3_mk_bvxor);
    bin!(bvadd, Z3_mk_bvadd);
    bin!(bvsub, Z3_mk_bvsub);
    bin!(bvmul, Z3_mk_bvmul);
    bin!(bvudiv, Z3_mk_bvudiv);
    bin!(bvsdiv, Z3_mk_bvsdiv);
    bin!(bvurem, Z3_mk_bvurem);
    bin!(bvsrem, Z3_mk_bvsrem);
    bin!(bvshl, Z3_mk_bvshl);
    bin!(bvlshr, Z3_mk_bvlshr);
    bin!(bvashr, Z3_mk_bvashr);
    bin!(bvult, Z3_mk_bvult);
    bin!(bvule, Z3_mk_bvule);
    bin!(bvslt, Z3_mk_bvslt);
    bin!(bvsle, Z3_mk_bvsle);
    bin!(concat, Z3_mk_concat);
    pub fn and(&self, a: Ast, b: Ast) -> Ast {
        let v = [a, b];
        self.keep(unsafe { Z3_mk_and(self.c, 2, v.as_ptr()) })
    }
    pub fn or(&self, a: Ast, b: Ast) -> Ast {
        let v = [a, b];
        self.keep(unsafe { Z3_mk_or(self.c, 2, v.as_ptr()) })
    }
    pub fn not(&self, a: Ast) -> Ast {
        self.keep(unsafe { Z3_mk_not(self.c, a) })
    }
    pub fn ite(&self, a: Ast, b: Ast, d: Ast) -> Ast {
        self.keep(unsafe { Z3_mk_ite(self.c, a, b, d) })
    }
    pub fn extract(&self, hi: u32, lo: u32, a: Ast) -> Ast {
        self.keep(unsafe { Z3_mk_extract(self.c, hi, lo, a) })
    }
    pub fn zext(&self, n: u32, a: Ast) -> Ast {
        self.keep(unsafe { Z3_mk_zero_ext(self.c, n, a) })
    }
    pub fn sext(&self, n: u32, a: Ast) -> Ast {
        self.keep(unsafe { Z3_mk_sign_ext(self.c, n, a) })
    }
    fn fsort(&self, w: u32) -> P {
        if w == 64 {
            self.f64s
        } else {
            self.f32s
        }
    }
    pub fn to_fp(&self, a: Ast, w: u32) -> Ast {
        self.keep(unsafe { Z3_mk_fpa_to_fp_bv(self.c, a, self.fsort(w)) })
    }
    /// IEEE bits of a float term, with one fixed NaN pattern.
    pub fn from_fp(&self, f: Ast, w: u32) -> Ast {
        unsafe {
            let isnan = self.keep(Z3_mk_fpa_is_nan(self.c, f));
            let bits = self.keep(Z3_mk_fpa_to_ieee_bv(self.c, f));
            let nan = if w == 64 { self.num(0x7ff8_0000_0000_0000, 64) } else { self.num(0x7fc0_0000, 32) };
            self.ite(isnan, nan, bits)
        }
    }
    pub fn fbin(&self, op: u8, a: Ast, b: Ast) -> Ast {
        self.keep(unsafe {
            match op {
                0 => Z3_mk_fpa_add(self.c, self.rne, a, b),
                1 => Z3_mk_fpa_sub(self.c, self.rne, a, b),
                2 => Z3_mk_fpa_mul(self.c, self.rne, a, b),
                _ => Z3_mk_fpa_div(self.c, self.rne, a, b),
            }
        })
    }
    pub fn fround(&self, mode: u8, a: Ast) -> Ast {
        let rm = match mode {
            0 => self.rtn,
            1 => self.rtp,
            2 => self.rtz,
            _ => self.rne,
        };
        self.keep(unsafe { Z3_mk_fpa_round_to_integral(self.c, rm, a) })
    }
    pub fn fp_to_int(&self, signed: bool, a: Ast, w: u32) -> Ast {
        self.keep(unsafe {
            if signed {
                Z3_mk_fpa_to_sbv(self.c, self.rtz, a, w)
            } else {
                Z3_mk_fpa_to_ubv(self.c, self.rtz, a, w)
            }
        })
    }
    pub fn int_to_fp(&self, signed: bool, a: Ast, w: u32) -> Ast {
        let s = self.fsort(w);
        self.keep(unsafe {
            if signed {
                Z3_mk_fpa_to_fp_signed(self.c, self.rne, a, s)
            } else {
                Z3_mk_fpa_to_fp_unsigned(self.c, self.rne, a, s)
            }
        })
    }
    pub fn fp_conv(&self, a: Ast, w: u32) -> Ast {
        let s = self.fsort(w);
        self.keep(unsafe { Z3_mk_fpa_to_fp_float(self.c, self.rne, a, s) })
    }
    /// Checks a conjunction; on Sat calls `on_model` with an evaluator.
    pub fn check(&self, cs: &[Ast], has_fp: bool, timeout_ms: u32, vars: &[(u32, Ast)]) -> (Check, Vec<(u32, u128)>) {
        unsafe {
            let s = Z3_mk_solver_from_tactic(self.c, if has_fp { self.tac_fp } else { self.tac_bv });
            Z3_solver_inc_ref(self.c, s);
            Z3_params_set_uint(self.c, self.params, self.k_timeout, timeout_ms);
            Z3_solver_set_params(self.c, s, self.params);
            for &a in cs {
                Z3_solver_assert(self.c, s, a);
            }
            let r = Z3_solver_check(self.c, s);
            let mut out = Vec::new();
            let res = match r {
                1 => {
                    let m = Z3_solver_get_model(self.c, s);
                    Z3_model_inc_ref(self.c, m);
                    for &(id, v) in vars {
                        let mut e: Ast = std::ptr::null_mut();
                        if Z3_model_eval(self.c, m, v, true, &mut e) {
                            Z3_inc_ref(self.c, e);
                            let st = CStr::from_ptr(Z3_get_numeral_string(self.c, e)).to_string_lossy().into_owned();
                            if let Ok(x) = st.parse::<u128>() {
                                out.push((id, x));
                            }
                        }
                    }
                    Z3_model_dec_ref(self.c, m);
                    Check::Sat
                }
                -1 => Check::Unsat,
                _ => {
                    if std::env::var("IRSYM_DEBUG").is_ok() {
                        eprintln!("unknown: {}", CStr::from_ptr(Z3_solver_get_reason_unknown(self.c, s)).to_string_lossy());
                        eprintln!("{}", CStr::from_ptr(Z3_solver_to_string(self.c, s)).to_string_lossy());
                    }
                    Check::Unknown
                }
            };
            Z3_solver_dec_ref(self.c, s);
            (res, out)
        }
    }
    pub fn smtlib(&self, cs: &[Ast]) -> String {
        unsafe {
            let s = Z3_mk_solver(self.c);
            Z3_solver_inc_ref(self.c, s);
            for &a in cs {
                Z3_solver_assert(self.c, s, a);
            }
            let r = CStr::from_ptr(Z3_solver_to_string(self.c, s)).to_string_lossy().into_owned();
            Z3_solver_dec_ref(self.c, s);
            r
        }
    }
}
