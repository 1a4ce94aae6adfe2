//! Minimal binding to libz3's C API: satisfiability of conjunctions of polynomial sign conditions
//! over the reals.
use crate::int::Rat;
use crate::poly::{exp, Poly, MAXV};
use std::collections::HashMap;
use std::ffi::{CStr, CString};
use std::os::raw::{c_char, c_int, c_uint};
use std::time::Instant;

#[allow(non_camel_case_types)]
mod ffi {
    use super::*;
    pub enum Opaque {}
    pub type P = *mut Opaque;
    extern "C" {
        pub fn Z3_mk_config() -> P;
        pub fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
        pub fn Z3_del_config(c: P);
        pub fn Z3_mk_context(c: P) -> P;
        pub fn Z3_del_context(c: P);
        pub fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
        pub fn Z3_get_error_code(c: P) -> c_int;
        pub fn Z3_mk_real_sort(c: P) -> P;
        pub fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
        pub fn Z3_mk_const(c: P, s: P, ty: P) -> P;
        pub fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
        pub fn Z3_mk_add(c: P, n: c_uint, a: *const P) -> P;
        pub fn Z3_mk_mul(c: P, n: c_uint, a: *const P) -> P;
        pub fn Z3_mk_lt(c: P, a: P, b: P) -> P;
        pub fn Z3_mk_le(c: P, a: P, b: P) -> P;
        pub fn Z3_mk_gt(c: P, a: P, b: P) -> P;
        pub fn Z3_mk_ge(c: P, a: P, b: P) -> P;
        pub fn Z3_mk_eq(c: P, a: P, b: P) -> P;
        pub fn Z3_mk_not(c: P, a: P) -> P;
        pub fn Z3_mk_tactic(c: P, s: *const c_char) -> P;
        pub fn Z3_tactic_inc_ref(c: P, t: P);
        pub fn Z3_mk_solver_from_tactic(c: P, t: P) -> P;
        pub fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
        pub fn Z3_solver_inc_ref(c: P, s: P);
        pub fn Z3_solver_dec_ref(c: P, s: P);
        pub fn Z3_solver_assert(c: P, s: P, a: P);
        pub fn Z3_solver_check_assumptions(c: P, s: P, n: c_uint, a: *const P) -> c_int;
        pub fn Z3_solver_get_unsat_core(c: P, s: P) -> P;
        pub fn Z3_ast_vector_inc_ref(c: P, v: P);
        pub fn Z3_ast_vector_dec_ref(c: P, v: P);
        pub fn Z3_ast_vector_size(c: P, v: P) -> c_uint;
        pub fn Z3_ast_vector_get(c: P, v: P, i: c_uint) -> P;
        pub fn Z3_mk_bool_sort(c: P) -> P;
        pub fn Z3_mk_implies(c: P, a: P, b: P) -> P;
        pub fn Z3_mk_simple_solver(c: P) -> P;
        pub fn Z3_solver_push(c: P, s: P);
        pub fn Z3_solver_pop(c: P, s: P, n: c_uint);
        pub fn Z3_solver_get_model(c: P, s: P) -> P;
        pub fn Z3_solver_set_params(c: P, s: P, p: P);
        pub fn Z3_mk_params(c: P) -> P;
        pub fn Z3_params_inc_ref(c: P, p: P);
        pub fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
        pub fn Z3_model_inc_ref(c: P, m: P);
        pub fn Z3_model_dec_ref(c: P, m: P);
        pub fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
        pub fn Z3_is_numeral_ast(c: P, a: P) -> bool;
        pub fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
        pub fn Z3_is_algebraic_number(c: P, a: P) -> bool;
        pub fn Z3_get_algebraic_number_lower(c: P, a: P, prec: c_uint) -> P;
        pub fn Z3_get_algebraic_number_upper(c: P, a: P, prec: c_uint) -> P;
        pub fn Z3_get_full_version() -> *const c_char;
    }
}
use ffi::*;

extern "C" fn on_error(_c: P, _e: c_int) {}

pub enum Answer {
    Sat(Option<Vec<Rat>>),
    /// with the indices of the constraints that already contradict each other
    Unsat(Vec<usize>),
    Unknown,
}

pub const NEG: u8 = 1;
pub const ZERO: u8 = 2;
pub const POS: u8 = 4;
pub const ALL: u8 = 7;

pub struct Solver {
    ctx: P,
    real: P,
    zero: P,
    vars: Vec<P>,
    tracks: Vec<P>,
    cache: HashMap<Poly, P>,
    nlsat: P,
    /// reused for linear queries
    lin: P,
    n_in_ctx: u32,
    pub timeout_ms: u32,
    pub stats: Stats,
}
#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub nonlinear: u64,
    pub nanos: u64,
    pub max_nanos: u64,
}

pub fn version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}
fn cs(s: &str) -> CString {
    CString::new(s).unwrap()
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Solver {
        let mut s = Solver {
            ctx: std::ptr::null_mut(),
            real: std::ptr::null_mut(),
            zero: std::ptr::null_mut(),
            vars: vec![],
            tracks: vec![],
            cache: HashMap::new(),
            nlsat: std::ptr::null_mut(),
            lin: std::ptr::null_mut(),
            n_in_ctx: 0,
            timeout_ms,
            stats: Stats::default(),
        };
        s.reset();
        s
    }
    fn reset(&mut self) {
        unsafe {
            if !self.ctx.is_null() {
                Z3_del_context(self.ctx);
            }
            let cfg = Z3_mk_config();
            Z3_set_param_value(cfg, cs("model").as_ptr(), cs("true").as_ptr());
            self.ctx = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(self.ctx, Some(on_error));
            self.real = Z3_mk_real_sort(self.ctx);
            self.zero = Z3_mk_numeral(self.ctx, cs("0").as_ptr(), self.real);
            self.vars = (0..MAXV)
                .map(|i| {
                    let sym = Z3_mk_string_symbol(self.ctx, cs(&format!("v{}", i)).as_ptr());
                    Z3_mk_const(self.ctx, sym, self.real)
                })
                .collect();
            self.nlsat = Z3_mk_tactic(self.ctx, cs("qfnra-nlsat").as_ptr());
            Z3_tactic_inc_ref(self.ctx, self.nlsat);
            self.lin = Z3_mk_simple_solver(self.ctx);
            Z3_solver_inc_ref(self.ctx, self.lin);
            self.set_timeout(self.lin);
            self.cache.clear();
            self.tracks.clear();
            self.n_in_ctx = 0;
        }
    }
    unsafe fn set_timeout(&self, s: P) {
        let c = self.ctx;
        let p = Z3_mk_params(c);
        Z3_params_inc_ref(c, p);
        Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, cs("timeout").as_ptr()), self.timeout_ms);
        Z3_solver_set_params(c, s, p);
    }
    fn ast(&mut self, p: &Poly) -> P {
        if let Some(a) = self.cache.get(p) {
            return *a;
        }
        unsafe {
            let mut ts = vec![];
            for (m, c) in &p.0 {
                let mut fs = vec![Z3_mk_numeral(self.ctx, cs(&c.to_string()).as_ptr(), self.real)];
                for v in 0..MAXV {
                    for _ in 0..exp(*m, v) {
                        fs.push(self.vars[v]);
                    }
                }
                ts.push(if fs.len() == 1 { fs[0] } else { Z3_mk_mul(self.ctx, fs.len() as u32, fs.as_ptr()) });
            }
            let r = match ts.len() {
                0 => self.zero,
                1 => ts[0],
                n => Z3_mk_add(self.ctx, n as u32, ts.as_ptr()),
            };
            self.cache.insert(p.clone(), r);
            r
        }
    }
    fn atom(&mut self, p: &Poly, mask: u8) -> P {
        let a = self.ast(p);
        unsafe {
            match mask {
                NEG => Z3_mk_lt(self.ctx, a, self.zero),
                ZERO => Z3_mk_eq(self.ctx, a, self.zero),
                POS => Z3_mk_gt(self.ctx, a, self.zero),
                3 => Z3_mk_le(self.ctx, a, self.zero),
                6 => Z3_mk_ge(self.ctx, a, self.zero),
                5 => Z3_mk_not(self.ctx, Z3_mk_eq(self.ctx, a, self.zero)),
                _ => panic!("mask {}", mask),
            }
        }
    }
    /// Decide a conjunction of sign conditions. `nv`: number of variables wanted in the model.
    pub fn check(&mut self, cons: &[(&Poly, u8)], nv: usize) -> Answer {
        let t0 = Instant::now();
        if self.n_in_ctx > 2000 {
            self.reset();
        }
        self.n_in_ctx += 1;
        let linear = cons.iter().all(|(p, _)| p.total_degree() <= 1);
        if !linear {
            self.stats.nonlinear += 1;
        }
        let mut ans = self.run(cons, nv, linear, true);
        if matches!(ans, Answer::Unknown) && !linear {
            ans = self.run(cons, nv, linear, false);
        }
        let dt = t0.elapsed().as_nanos() as u64;
        self.stats.nanos += dt;
        self.stats.max_nanos = self.stats.max_nanos.max(dt);
        match ans {
            Answer::Sat(_) => self.stats.sat += 1,
            Answer::Unsat(_) => self.stats.unsat += 1,
            Answer::Unknown => self.stats.unknown += 1,
        }
        ans
    }
    fn run(&mut self, cons: &[(&Poly, u8)], nv: usize, linear: bool, nlsat: bool) -> Answer {
        unsafe {
            let c = self.ctx;
            let s = if linear {
                Z3_solver_push(c, self.lin);
                self.lin
            } else {
                let s = if nlsat {
                    Z3_mk_solver_from_tactic(c, self.nlsat)
                } else {
                    Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, cs("QF_NRA").as_ptr()))
                };
                Z3_solver_inc_ref(c, s);
                self.set_timeout(s);
                s
            };
            while self.tracks.len() < cons.len() {
                let sym = Z3_mk_string_symbol(c, cs(&format!("t{}", self.tracks.len())).as_ptr());
                self.tracks.push(Z3_mk_const(c, sym, Z3_mk_bool_sort(c)));
            }
            for (i, (q, m)) in cons.iter().enumerate() {
                let a = self.atom(q, *m);
                Z3_solver_assert(c, s, Z3_mk_implies(c, self.tracks[i], a));
            }
            let r = Z3_solver_check_assumptions(c, s, cons.len() as u32, self.tracks.as_ptr());
            let ans = match r {
                -1 => {
                    let v = Z3_solver_get_unsat_core(c, s);
                    let mut core = vec![];
                    if !v.is_null() {
                        Z3_ast_vector_inc_ref(c, v);
                        for k in 0..Z3_ast_vector_size(c, v) {
                            let t = Z3_ast_vector_get(c, v, k);
                            core.extend(self.tracks.iter().position(|u| *u == t));
                        }
                        Z3_ast_vector_dec_ref(c, v);
                    }
                    core.sort_unstable();
                    Answer::Unsat(core)
                }
                1 => Answer::Sat(self.model(s, cons, nv)),
                _ => Answer::Unknown,
            };
            let _ = Z3_get_error_code(c);
            if linear {
                Z3_solver_pop(c, s, 1);
            } else {
                Z3_solver_dec_ref(c, s);
            }
            ans
        }
    }
    unsafe fn num(&self, a: P) -> Option<Rat> {
        if a.is_null() || !Z3_is_numeral_ast(self.ctx, a) || Z3_is_algebraic_number(self.ctx, a) {
            return None;
        }
        let s = CStr::from_ptr(Z3_get_numeral_string(self.ctx, a)).to_string_lossy().into_owned();
        Rat::parse(&s)
    }
    unsafe fn model(&mut self, s: P, cons: &[(&Poly, u8)], nv: usize) -> Option<Vec<Rat>> {
        let c = self.ctx;
        let m = Z3_solver_get_model(c, s);
        if m.is_null() {
            return None;
        }
        Z3_model_inc_ref(c, m);
        let mut out: Vec<Result<Rat, P>> = vec![];
        let mut irr = vec![];
        for v in 0..nv {
            let mut a: P = std::ptr::null_mut();
            if !Z3_model_eval(c, m, self.vars[v], true, &mut a) {
                Z3_model_dec_ref(c, m);
                return None;
            }
            match self.num(a) {
                Some(r) => out.push(Ok(r)),
                None => {
                    if !Z3_is_algebraic_number(c, a) {
                        Z3_model_dec_ref(c, m);
                        return None;
                    }
                    irr.push(v);
                    out.push(Err(a));
                }
            }
        }
        let holds = |v: &[Rat]| {
            cons.iter().all(|(p, mask)| {
                let b = match p.sign_at(v) {
                    -1 => NEG,
                    0 => ZERO,
                    _ => POS,
                };
                b & mask != 0
            })
        };
        let mut pad = |mut v: Vec<Rat>| {
            while v.len() < MAXV {
                v.push(Rat::zero());
            }
            v
        };
        let mut res = None;
        if irr.is_empty() {
            let v = pad(out.into_iter().map(|r| r.ok().unwrap()).collect());
            if holds(&v) {
                res = Some(v);
            }
        } else {
            'o: for prec in [4u32, 10, 20] {
                for up in 0..(1u32 << irr.len().min(3)) {
                    let mut v = vec![];
                    let mut k = 0;
                    for o in &out {
                        match o {
                            Ok(r) => v.push(r.clone()),
                            Err(a) => {
                                let q = if up >> k & 1 == 1 {
                                    Z3_get_algebraic_number_upper(c, *a, prec)
                                } else {
                                    Z3_get_algebraic_number_lower(c, *a, prec)
                                };
                                k = (k + 1).min(2);
                                match self.num(q) {
                                    Some(r) => v.push(r),
                                    None => break 'o,
                                }
                            }
                        }
                    }
                    let v = pad(v);
                    if holds(&v) {
                        res = Some(v);
                        break 'o;
                    }
                }
            }
        }
        Z3_model_dec_ref(c, m);
        res
    }
}

/// SMT-LIB text of a query (for cross-checks with a second solver).
pub fn smtlib(cons: &[(&Poly, u8)]) -> String {
    let mut s = String::from("(set-logic QF_NRA)\n");
    let mut vs = 0;
    for (p, _) in cons {
        vs |= p.vars();
    }
    for v in 0..MAXV {
        if vs >> v & 1 == 1 {
            s += &format!("(declare-fun v{} () Real)\n", v);
        }
    }
    for (p, m) in cons {
        let mut t = String::from("(+ 0.0");
        for (mm, c) in &p.0 {
            let cst = if c.sgn() < 0 { format!("(- {}.0)", c.neg()) } else { format!("{}.0", c) };
            t += &format!(" (* {} 1.0", cst);
            for v in 0..MAXV {
                for _ in 0..exp(*mm, v) {
                    t += &format!(" v{}", v);
                }
            }
            t += ")";
        }
        t += ")";
        s += &match *m {
            NEG => format!("(assert (< {} 0.0))\n", t),
            ZERO => format!("(assert (= {} 0.0))\n", t),
            POS => format!("(assert (> {} 0.0))\n", t),
            3 => format!("(assert (<= {} 0.0))\n", t),
            6 => format!("(assert (>= {} 0.0))\n", t),
            _ => format!("(assert (not (= {} 0.0)))\n", t),
        };
    }
    s += "(check-sat)\n";
    s
}
