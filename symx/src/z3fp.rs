//! Queries about IEEE terms to z3's floating-point theory (bit-blasted, decided by its SAT solver).
use crate::int::Rat;
use crate::fp::{Cond, Format, Fx, Op, Step};
use std::collections::HashMap;
use std::ffi::{CStr, CString};
use std::os::raw::{c_char, c_int, c_uint};
use std::collections::HashSet;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::Instant;

enum Opaque {}
type P = *mut Opaque;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_del_config(c: P);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_error_code(c: P) -> c_int;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_real_sort(c: P) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_implies(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_le(c: P, a: P, b: P) -> P;
    fn Z3_mk_add(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_sub(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_mul(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_unary_minus(c: P, a: P) -> P;
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_mk_ite(c: P, b: P, x: P, y: P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_tactic(c: P, s: *const c_char) -> P;
    fn Z3_tactic_inc_ref(c: P, t: P);
    fn Z3_mk_solver_from_tactic(c: P, t: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
}
extern "C" fn on_error(_c: P, _e: c_int) {}
fn cs(s: &str) -> CString {
    CString::new(s).unwrap()
}
pub enum Ans {
    Sat(Vec<f64>),
    Unsat,
    Unknown,
}
#[derive(Default, Clone, Debug)]
pub struct FStats {
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    /// inputs found by local search, without a query
    pub found: u64,
    pub t_search: u64,
    pub t_open: u64,
    pub t_cvc5: u64,
    /// answers by the laws of rounding that were confirmed (refuted) bit by bit
    pub audited: u64,
    pub wrong: u64,
    pub exact: u64,
    pub t_exact: u64,
    /// answers of cvc5 where z3 had none
    pub second: u64,
    /// of the unsat ones, those refuted with the arithmetic left open
    pub open: u64,
    pub nanos: u64,
    pub max_nanos: u64,
}
/// The queries of one path.
pub struct FSolver<'a> {
    x: &'a Fx,
    /// the format the terms are read in
    f: Format,
    c: P,
    pipe: Option<(Child, ChildStdin, BufReader<ChildStdout>)>,
    /// what cvc5 was told: nodes, conditions, everything
    told: HashSet<u32>,
    put: usize,
    log: String,
    /// conditions that could not be stated
    dropped: usize,
    /// Order facts only: a solver for linear real arithmetic in which the result of a rounded
    /// operation is a number about which just the laws of rounding are known.
    lin: P,
    real: P,
    /// value and "is undefined", per node
    order: Vec<Option<(P, P)>>,
    huge: P,
    asserted: usize,
    /// exact conditions only: polynomials over the reals
    nra: P,
    /// ranges that the conditions of a query imply
    known: HashMap<u32, (f64, f64)>,
    pub timeout_ms: u32,
    pub stats: FStats,
    rng: u64,
    /// text of unsat queries
    pub record: Option<Vec<String>>,
}
impl Drop for FSolver<'_> {
    fn drop(&mut self) {
        self.hang_up();
        unsafe { Z3_del_context(self.c) }
    }
}
impl<'a> FSolver<'a> {
    pub fn new(x: &'a Fx, f: Format, timeout_ms: u32) -> FSolver<'a> {
        unsafe {
            let cfg = Z3_mk_config();
            Z3_set_param_value(cfg, cs("model").as_ptr(), cs("true").as_ptr());
            let c = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(c, Some(on_error));
            let lin = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, lin);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, cs("timeout").as_ptr()), 1000);
            Z3_solver_set_params(c, lin, p);
            let real = Z3_mk_real_sort(c);
            let huge = Z3_mk_const(c, Z3_mk_string_symbol(c, cs("huge").as_ptr()), real);
            FSolver { x, f, c, pipe: None, told: HashSet::new(), put: 0, log: String::new(), dropped: 0, lin, real, order: vec![None; x.nodes.len()], huge, asserted: 0, nra: std::ptr::null_mut(), known: HashMap::new(), timeout_ms, stats: FStats::default(), rng: 88172645463325252, record: None }
        }
    }
    unsafe fn and(&self, v: &[P]) -> P {
        Z3_mk_and(self.c, v.len() as u32, v.as_ptr())
    }
    unsafe fn or(&self, v: &[P]) -> P {
        Z3_mk_or(self.c, v.len() as u32, v.as_ptr())
    }
    unsafe fn not(&self, a: P) -> P {
        Z3_mk_not(self.c, a)
    }
    unsafe fn plus(&self, a: P, b: P) -> P {
        Z3_mk_add(self.c, 2, [a, b].as_ptr())
    }
    unsafe fn minus(&self, a: P, b: P) -> P {
        Z3_mk_sub(self.c, 2, [a, b].as_ptr())
    }
    unsafe fn scaled(&self, k: f64, a: P) -> P {
        Z3_mk_mul(self.c, 2, [self.rat(k), a].as_ptr())
    }
    unsafe fn le(&self, a: P, b: P) -> P {
        Z3_mk_le(self.c, a, b)
    }
    unsafe fn lt(&self, a: P, b: P) -> P {
        Z3_mk_lt(self.c, a, b)
    }
    fn rat(&self, v: f64) -> P {
        if v == f64::INFINITY {
            return self.huge;
        }
        if v == f64::NEG_INFINITY {
            return unsafe { Z3_mk_unary_minus(self.c, self.huge) };
        }
        let r = Rat::from_f64(v).unwrap();
        unsafe { Z3_mk_numeral(self.c, cs(&r.to_string()).as_ptr(), self.real) }
    }
    unsafe fn finite(&self, i: u32) -> Option<P> {
        let (v, _) = self.order[i as usize].unwrap();
        match self.x.nodes[i as usize].rng {
            Some((lo, hi)) if lo.is_finite() && hi.is_finite() => None,
            r => {
                let mut w = vec![self.lt(v, self.huge), self.lt(Z3_mk_unary_minus(self.c, self.huge), v)];
                if r.is_none() {
                    w.push(self.not(self.order[i as usize].unwrap().1));
                }
                Some(self.and(&w))
            }
        }
    }
    /// What is known about node `i` without looking at digits.
    fn law(&mut self, i: usize) {
        if self.order[i].is_some() {
            return;
        }
        let n = self.x.nodes[i];
        let c = self.c;
        if !matches!(n.op, Op::Var | Op::Const) {
            self.law(n.a as usize);
            self.law(n.b as usize);
        }
        unsafe {
            let s = self.lin;
            let v = match n.op {
                Op::Const if !n.val.is_nan() => self.rat(n.val),
                _ => Z3_mk_const(c, Z3_mk_string_symbol(c, cs(&format!("r{}", i)).as_ptr()), self.real),
            };
            let nan = match n.rng {
                Some(_) => Z3_mk_false(c),
                None if n.op == Op::Const => Z3_mk_true(c),
                None => Z3_mk_const(c, Z3_mk_string_symbol(c, cs(&format!("u{}", i)).as_ptr()), Z3_mk_bool_sort(c)),
            };
            self.order[i] = Some((v, nan));
            if n.op == Op::Const {
                return;
            }
            let (lo, hi) = n.rng.unwrap_or((f64::NEG_INFINITY, f64::INFINITY));
            Z3_solver_assert(c, s, self.le(self.rat(lo), v));
            Z3_solver_assert(c, s, self.le(v, self.rat(hi)));
            if n.op == Op::Var {
                return;
            }
            let (a, an) = self.order[n.a as usize].unwrap();
            let (b, bn) = self.order[n.b as usize].unwrap();
            let fins: Vec<P> = [n.a, n.b].iter().filter_map(|k| self.finite(*k)).collect();
            let given = |me: &Self, pre: &[P], then: P| {
                let mut w = fins.clone();
                w.extend_from_slice(pre);
                Z3_solver_assert(c, s, Z3_mk_implies(c, me.and(&w), then));
            };
            let zero = self.rat(0.0);
            let one = self.rat(1.0);
            match n.op {
                Op::Neg => {
                    Z3_solver_assert(c, s, Z3_mk_eq(c, v, Z3_mk_unary_minus(c, a)));
                    Z3_solver_assert(c, s, Z3_mk_eq(c, nan, an));
                }
                Op::Min | Op::Max => {
                    let less = if n.op == Op::Min { self.lt(b, a) } else { self.lt(a, b) };
                    let take_b = self.or(&[an, self.and(&[less, self.not(bn)])]);
                    Z3_solver_assert(c, s, Z3_mk_eq(c, v, Z3_mk_ite(c, take_b, b, a)));
                    Z3_solver_assert(c, s, Z3_mk_eq(c, nan, self.and(&[an, bn])));
                }
                Op::Floor => {
                    given(self, &[], self.not(nan));
                    given(self, &[], self.le(v, a));
                    given(self, &[], self.lt(a, self.plus(v, one)));
                    if hi - lo < 40.0 {
                        let w: Vec<P> = (lo as i64..=hi as i64).map(|k| Z3_mk_eq(c, v, self.rat(k as f64))).collect();
                        given(self, &[], self.or(&w));
                    }
                }
                Op::Up => {
                    given(self, &[], self.not(nan));
                    given(self, &[], self.lt(a, v));
                }
                Op::Sqrt => {
                    given(self, &[self.le(zero, a)], self.and(&[self.not(nan), self.le(zero, v)]));
                    given(self, &[self.lt(zero, a)], self.lt(zero, v));
                }
                Op::Add | Op::Sub => {
                    given(self, &[], self.not(nan));
                    let sum = if n.op == Op::Add { self.plus(a, b) } else { self.minus(a, b) };
                    // rounding is monotone and leaves numbers alone
                    for k in 0..self.x.nodes.len() {
                        let m = self.x.nodes[k];
                        if let Some((w, wn)) = self.order[k] {
                            if k != i && (matches!(m.op, Op::Var | Op::Const | Op::Min | Op::Max) || k == n.a as usize || k == n.b as usize) {
                                let ok = self.not(wn);
                                given(self, &[ok, self.le(w, sum)], self.le(w, v));
                                given(self, &[ok, self.le(sum, w)], self.le(v, w));
                            }
                            if k < i && matches!(m.op, Op::Add | Op::Sub) && (m.a == n.a || m.a == n.b || m.b == n.a || m.b == n.b) {
                                let (x, xn) = self.order[m.a as usize].unwrap();
                                let (y, yn) = self.order[m.b as usize].unwrap();
                                let other = if m.op == Op::Add { self.plus(x, y) } else { self.minus(x, y) };
                                let ok = self.and(&[self.not(xn), self.not(yn), self.not(wn)]);
                                given(self, &[ok, self.le(other, sum)], self.le(w, v));
                                given(self, &[ok, self.le(sum, other)], self.le(v, w));
                            }
                        }
                    }
                    // relative error, and exactness of close differences
                    if hi.is_finite() && lo.is_finite() {
                        let u = (2f64).powi(-(self.f.sb as i32));
                        given(self, &[self.le(zero, sum)], self.and(&[self.le(self.scaled(1.0 - u, sum), v), self.le(v, self.scaled(1.0 + u, sum))]));
                        given(self, &[self.le(sum, zero)], self.and(&[self.le(self.scaled(1.0 + u, sum), v), self.le(v, self.scaled(1.0 - u, sum))]));
                        if n.op == Op::Sub {
                            given(self, &[self.le(zero, a), self.le(zero, b), self.le(a, self.scaled(2.0, b)), self.le(b, self.scaled(2.0, a))], Z3_mk_eq(c, v, sum));
                        }
                    }
                }
                Op::Mul => {
                    given(self, &[], self.not(nan));
                    for (p, q) in [(a, b), (b, a)] {
                        given(self, &[self.le(zero, p), self.le(zero, q)], self.le(zero, v));
                        given(self, &[self.le(p, zero), self.le(q, zero)], self.le(zero, v));
                        given(self, &[self.le(zero, p), self.le(q, zero)], self.le(v, zero));
                        given(self, &[self.le(zero, p), self.le(p, one), self.le(zero, q)], self.le(v, q));
                        given(self, &[self.le(zero, p), self.le(p, one), self.le(q, zero)], self.le(q, v));
                        given(self, &[self.le(one, p), self.le(zero, q)], self.le(q, v));
                        given(self, &[self.le(one, p), self.le(q, zero)], self.le(v, q));
                        // a constant factor
                    }
                    for (p, k) in [(a, n.b), (b, n.a)] {
                        let m = self.x.nodes[k as usize];
                        if m.op == Op::Const && m.val.is_finite() {
                            self.between(i, self.scaled(m.val, p), &fins);
                        }
                    }
                    for k in 0..i {
                        let m = self.x.nodes[k];
                        if m.op != Op::Mul || self.order[k].is_none() {
                            continue;
                        }
                        // a common factor
                        for (f, p, q) in [(n.a, n.b, m.b), (n.a, n.b, m.a), (n.b, n.a, m.b), (n.b, n.a, m.a)] {
                            let g = if q == m.b { m.a } else { m.b };
                            if f != g {
                                continue;
                            }
                            let (w, wn) = self.order[k].unwrap();
                            let (f, (p, pn), (q, qn)) = (self.order[f as usize].unwrap().0, self.order[p as usize].unwrap(), self.order[q as usize].unwrap());
                            let ok = self.and(&[self.not(wn), self.not(pn), self.not(qn)]);
                            for (x, y, vx, vy) in [(p, q, v, w), (q, p, w, v)] {
                                given(self, &[ok, self.le(zero, f), self.le(x, y)], self.le(vx, vy));
                                given(self, &[ok, self.le(f, zero), self.le(x, y)], self.le(vy, vx));
                            }
                        }
                    }
                }
                Op::Div => {
                    given(self, &[self.or(&[self.lt(b, zero), self.lt(zero, b)])], self.not(nan));
                    let m = self.x.nodes[n.b as usize];
                    if m.op == Op::Const && m.val.is_finite() && m.val != 0.0 && m.val.log2().fract() == 0.0 {
                        self.between(i, self.scaled(1.0 / m.val, a), &fins);
                    }
                    // comparing the quotient with a constant k is comparing a with k b
                    let mut ks = vec![0.0, 1.0];
                    for m in &self.x.nodes {
                        if m.op == Op::Const && m.val.is_finite() && ks.len() < 12 && !ks.contains(&m.val) {
                            ks.push(m.val);
                        }
                    }
                    for k in ks {
                        let (kb, kk) = (self.scaled(k, b), self.rat(k));
                        given(self, &[self.lt(zero, b), self.le(kb, a)], self.le(kk, v));
                        given(self, &[self.lt(zero, b), self.le(a, kb)], self.le(v, kk));
                        given(self, &[self.lt(b, zero), self.le(a, kb)], self.le(kk, v));
                        given(self, &[self.lt(b, zero), self.le(kb, a)], self.le(v, kk));
                        // k b is a number: then the quotient is on the same side of k
                        let top = self.x.nodes[n.b as usize].rng.map_or(f64::INFINITY, |r| r.0.abs().max(r.1.abs()));
                        if k >= 1.0 && k.log2().fract() == 0.0 && k * top <= self.f.max() {
                            given(self, &[self.lt(zero, b), self.lt(kb, a)], self.lt(kk, v));
                            given(self, &[self.lt(zero, b), self.lt(a, kb)], self.lt(v, kk));
                        }
                    }
                    for k in 0..i {
                        let m = self.x.nodes[k];
                        // a common divisor
                        if m.op == Op::Div && m.b == n.b && self.order[k].is_some() {
                            let (w, wn) = self.order[k].unwrap();
                            let (p, pn) = self.order[m.a as usize].unwrap();
                            let ok = self.and(&[self.not(wn), self.not(pn), self.lt(zero, b)]);
                            given(self, &[ok, self.le(p, a)], self.le(w, v));
                            given(self, &[ok, self.le(a, p)], self.le(v, w));
                        }
                    }
                }
                _ => unreachable!(),
            }
        }
    }
    /// node `i` is the rounded value of the exact term `e`
    unsafe fn between(&self, i: usize, e: P, fins: &[P]) {
        let (v, _) = self.order[i].unwrap();
        for k in 0..self.x.nodes.len() {
            if k == i || !matches!(self.x.nodes[k].op, Op::Var | Op::Const | Op::Min | Op::Max) {
                continue;
            }
            if let Some((w, wn)) = self.order[k] {
                for (p, q) in [(self.le(w, e), self.le(w, v)), (self.le(e, w), self.le(v, w))] {
                    let mut g = fins.to_vec();
                    g.push(self.not(wn));
                    g.push(p);
                    Z3_solver_assert(self.c, self.lin, Z3_mk_implies(self.c, self.and(&g), q));
                }
            }
        }
    }
    unsafe fn order_cond(&mut self, k: &Cond) -> Option<P> {
        let mut two = |a: &u32, b: &u32| {
            self.law(*a as usize);
            self.law(*b as usize);
            (self.order[*a as usize].unwrap(), self.order[*b as usize].unwrap())
        };
        let ((a, an), (b, bn), r) = match k {
            Cond::Lt(a, b) => {
                let (a, b) = two(a, b);
                (a, b, Z3_mk_lt(self.c, a.0, b.0))
            }
            Cond::Le(a, b) => {
                let (a, b) = two(a, b);
                (a, b, Z3_mk_le(self.c, a.0, b.0))
            }
            Cond::Eq(a, b) => {
                let (a, b) = two(a, b);
                (a, b, Z3_mk_eq(self.c, a.0, b.0))
            }
            Cond::Ccw(_) => return None,
        };
        let _ = (a, b);
        Some(self.and(&[self.not(an), self.not(bn), r]))
    }
    /// Refuted by the laws of rounding alone?
    fn refuted(&mut self, steps: &[Step], i: usize) -> bool {
        unsafe {
            if self.asserted == 0 {
                Z3_solver_assert(self.c, self.lin, self.lt(self.rat(self.f.max()), self.huge));
            }
            while self.asserted < i {
                let s = &steps[self.asserted];
                if let Some(p) = self.order_cond(&s.c) {
                    Z3_solver_assert(self.c, self.lin, if s.holds { p } else { self.not(p) });
                }
                self.asserted += 1;
            }
            match self.order_cond(&steps[i].c) {
                None => false,
                Some(p) => {
                    Z3_solver_push(self.c, self.lin);
                    Z3_solver_assert(self.c, self.lin, if steps[i].holds { self.not(p) } else { p });
                    let r = Z3_solver_check(self.c, self.lin);
                    Z3_solver_pop(self.c, self.lin, 1);
                    r == -1
                }
            }
        }
    }
    /// a term without rounding
    fn plain(&mut self, i: u32) -> Option<P> {
        let n = self.x.nodes[i as usize];
        let c = self.c;
        unsafe {
            Some(match n.op {
                Op::Const if n.val.is_finite() => self.rat(n.val),
                Op::Var => Z3_mk_const(c, Z3_mk_string_symbol(c, cs(&format!("r{}", i)).as_ptr()), self.real),
                Op::Neg => Z3_mk_unary_minus(c, self.plain(n.a)?),
                Op::Min | Op::Max => {
                    if self.x.nodes[n.a as usize].rng.is_none() || self.x.nodes[n.b as usize].rng.is_none() {
                        return None;
                    }
                    let (a, b) = (self.plain(n.a)?, self.plain(n.b)?);
                    Z3_mk_ite(c, if n.op == Op::Min { self.lt(b, a) } else { self.lt(a, b) }, b, a)
                }
                _ => return None,
            })
        }
    }
    fn exact_cond(&mut self, k: &Cond) -> Option<P> {
        let c = self.c;
        unsafe {
            Some(match k {
                Cond::Lt(a, b) => Z3_mk_lt(c, self.plain(*a)?, self.plain(*b)?),
                Cond::Le(a, b) => Z3_mk_le(c, self.plain(*a)?, self.plain(*b)?),
                Cond::Eq(a, b) => Z3_mk_eq(c, self.plain(*a)?, self.plain(*b)?),
                Cond::Ccw(p) => {
                    let mut v = vec![];
                    for i in p {
                        v.push(self.plain(*i)?);
                    }
                    let d = |i: usize, j: usize| self.minus(v[i], v[j]);
                    let m = |a, b| Z3_mk_mul(c, 2, [a, b].as_ptr());
                    self.lt(m(d(3, 1), d(4, 0)), m(d(2, 0), d(5, 1)))
                }
            })
        }
    }
    /// Refuted by the conditions that involve no rounding, over the reals?
    fn refuted_exactly(&mut self, list: &[(Cond, bool)]) -> bool {
        let (k, _) = list.last().unwrap();
        let ccw = |k: &Cond| matches!(k, Cond::Ccw(_));
        if self.exact_cond(k).is_none() || !list.iter().any(|l| ccw(&l.0)) {
            return false;
        }
        unsafe {
            let c = self.c;
            if self.nra.is_null() {
                self.nra = Z3_mk_tactic(c, cs("qfnra-nlsat").as_ptr());
                Z3_tactic_inc_ref(c, self.nra);
            }
            let s = Z3_mk_solver_from_tactic(c, self.nra);
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, cs("timeout").as_ptr()), 500);
            Z3_solver_set_params(c, s, p);
            for i in 0..self.x.nodes.len() {
                if self.x.nodes[i].op == Op::Var {
                    let (lo, hi) = self.x.nodes[i].rng.unwrap();
                    let v = self.plain(i as u32).unwrap();
                    Z3_solver_assert(c, s, self.le(self.rat(lo), v));
                    Z3_solver_assert(c, s, self.le(v, self.rat(hi)));
                }
            }
            for (k, h) in list {
                if let Some(p) = self.exact_cond(k) {
                    Z3_solver_assert(c, s, if *h { p } else { self.not(p) });
                }
            }
            let r = Z3_solver_check(c, s);
            let _ = Z3_get_error_code(c);
            Z3_solver_dec_ref(c, s);
            r == -1
        }
    }
    fn learn(&mut self, list: &[(Cond, bool)]) {
        self.known.clear();
        for (k, h) in list {
            let (a, b) = match (k, h) {
                (Cond::Le(a, b), true) | (Cond::Lt(a, b), true) => (*a, *b),
                (Cond::Lt(a, b), false) if self.x.defined(*a, *b) => (*b, *a),
                (Cond::Le(a, b), false) if self.x.defined(*a, *b) => (*b, *a),
                _ => continue,
            };
            let r = |me: &Self, i: u32| me.known.get(&i).copied().or(me.x.nodes[i as usize].rng).unwrap_or((f64::NEG_INFINITY, f64::INFINITY));
            let (ra, rb) = (r(self, a), r(self, b));
            self.known.insert(a, (ra.0, ra.1.min(rb.1)));
            self.known.insert(b, (rb.0.max(ra.0), rb.1));
        }
        self.known.retain(|_, r| r.0 <= r.1);
    }
    /// All values of a term are multiples of 2^-q; bits the scaled value needs.
    fn grid(&self, i: u32) -> Option<(i32, i32)> {
        let (lo, hi) = *self.known.get(&i).or(self.x.nodes[i as usize].rng.as_ref())?;
        let exp = |v: f64| ((v.to_bits() >> 52) & 0x7ff) as i32 - 1023;
        let m = if lo > 0.0 { lo } else if hi < 0.0 { -hi } else { self.f.tiny() };
        let q = (self.f.sb as i32 - 1 - exp(m)).min(-exp(self.f.tiny()));
        let top = lo.abs().max(hi.abs());
        if top.is_infinite() {
            return None;
        }
        Some((q, if top == 0.0 { 1 } else { exp(top) + 1 } + q + 1))
    }
    fn num(&self, v: f64) -> String {
        format!("((_ to_fp {} {}) #b{:0w$b})", self.f.eb, self.f.sb, self.f.encode(v), w = self.f.bits() as usize)
    }
    fn bv(v: i64, bits: u32) -> String {
        format!("#b{:0w$b}", (v as u64) & ((1u64 << bits) - 1), w = bits as usize)
    }
    /// Tells cvc5 about a node; returns its name.
    fn term(&mut self, i: u32) -> Option<String> {
        let name = format!("n{}", i);
        if self.told.contains(&i) {
            return Some(name);
        }
        let n = self.x.nodes[i as usize];
        let (mut a, mut b) = (String::new(), String::new());
        if !matches!(n.op, Op::Var | Op::Const) {
            a = self.term(n.a)?;
            b = self.term(n.b)?;
        }
        let e = match n.op {
            Op::Var => format!("((_ to_fp {} {}) x{})", self.f.eb, self.f.sb, n.a),
            Op::Const => self.num(n.val),
            Op::Add => format!("(fp.add RNE {} {})", a, b),
            Op::Sub => format!("(fp.sub RNE {} {})", a, b),
            Op::Mul => format!("(fp.mul RNE {} {})", a, b),
            Op::Div => format!("(fp.div RNE {} {})", a, b),
            Op::Sqrt => format!("(fp.sqrt RNE {})", a),
            Op::Neg => format!("(fp.neg {})", a),
            Op::Floor => format!("(fp.roundToIntegral RTN {})", a),
            Op::Up => format!("(fp.add RTP {} {})", a, self.num(self.f.tiny())),
            Op::Min => format!("(ite (or (fp.isNaN {a}) (fp.lt {b} {a})) {b} {a})"),
            Op::Max => format!("(ite (or (fp.isNaN {a}) (fp.lt {a} {b})) {b} {a})"),
        };
        self.told.insert(i);
        self.say(&format!("(define-fun {} () (_ FloatingPoint {} {}) {})", name, self.f.eb, self.f.sb, e))?;
        Some(name)
    }
    /// The value of a node times 2^q, in two's complement.
    fn fixed(&mut self, i: u32, q: i32, bits: u32) -> Option<String> {
        let n = self.x.nodes[i as usize];
        if n.op == Op::Const {
            return Some(Self::bv((n.val * (2f64).powi(q)) as i64, bits));
        }
        if let (Op::Var, Some((lo, _))) = (n.op, n.rng) {
            // normal numbers of at least 1: the significand, shifted by the exponent
            let (eb, mb) = (self.f.eb, self.f.sb - 1);
            if lo >= 1.0 && q == mb as i32 && bits > eb && bits > self.f.sb {
                let bias = Self::bv((1 << (eb - 1)) - 1, eb);
                return Some(format!(
                    "(bvshl (concat {} ((_ extract {} 0) x{v})) ((_ zero_extend {}) (bvsub ((_ extract {} {}) x{v}) {})))",
                    Self::bv(1, bits - mb),
                    mb - 1,
                    bits - eb,
                    mb + eb - 1,
                    mb,
                    bias,
                    v = n.a
                ));
            }
        }
        let a = self.term(i)?;
        let wide = Format { eb: 11, sb: self.f.sb.max(8) };
        let k = format!("((_ to_fp 11 {}) #b{:0w$b})", wide.sb, ((q + 1023) as u64) << (wide.sb - 1), w = wide.bits() as usize);
        Some(format!("((_ fp.to_sbv {}) RTZ (fp.mul RNE ((_ to_fp 11 {}) RNE {}) {}))", bits, wide.sb, a, k))
    }
    fn cond(&mut self, k: &Cond) -> Option<String> {
        Some(match k {
            Cond::Lt(a, b) => format!("(fp.lt {} {})", self.term(*a)?, self.term(*b)?),
            Cond::Le(a, b) => format!("(fp.leq {} {})", self.term(*a)?, self.term(*b)?),
            Cond::Eq(a, b) => format!("(fp.eq {} {})", self.term(*a)?, self.term(*b)?),
            Cond::Ccw(p) => {
                let mut q = i32::MIN;
                for i in p {
                    q = q.max(self.grid(*i)?.0);
                }
                let mut w = 0;
                for i in p {
                    let g = self.grid(*i)?;
                    w = w.max(g.1 + q - g.0);
                }
                if w > 60 {
                    return None;
                }
                let w = w as u32 + 1;
                let mut v = vec![];
                for i in p {
                    v.push(self.fixed(*i, q, w)?);
                }
                let d = |i: usize, j: usize| format!("((_ sign_extend {}) (bvsub {} {}))", w, v[i], v[j]);
                format!("(bvslt (bvmul {} {}) (bvmul {} {}))", d(3, 1), d(4, 0), d(2, 0), d(5, 1))
            }
        })
    }
    fn say(&mut self, t: &str) -> Option<()> {
        if self.pipe.is_none() {
            let mut ch = Command::new("cvc5")
                .args(["--fp-exp", "--incremental", "--produce-models", "--lang=smt2", &format!("--tlimit-per={}", self.timeout_ms), "-"])
                .stdin(Stdio::piped())
                .stdout(Stdio::piped())
                .stderr(Stdio::null())
                .spawn()
                .ok()?;
            let i = ch.stdin.take()?;
            let o = BufReader::new(ch.stdout.take()?);
            self.pipe = Some((ch, i, o));
        }
        self.log.push_str(t);
        self.log.push('\n');
        let p = self.pipe.as_mut()?;
        p.1.write_all(t.as_bytes()).ok()?;
        p.1.write_all(b"\n").ok()
    }
    fn hear(&mut self) -> Option<String> {
        let p = self.pipe.as_mut()?;
        p.1.flush().ok()?;
        let mut s = String::new();
        p.2.read_line(&mut s).ok()?;
        Some(s)
    }
    /// The full question, digits and all, to an incremental session of cvc5 (one per path).
    fn solve(&mut self, steps: &[Step], n: usize, flip: Option<usize>) -> Ans {
        match self.ask(steps, n, flip) {
            Some(a) => a,
            None => {
                self.hang_up();
                Ans::Unknown
            }
        }
    }
    fn hang_up(&mut self) {
        if let Some((mut ch, _, _)) = self.pipe.take() {
            let _ = ch.kill();
            let _ = ch.wait();
        }
        self.told.clear();
        self.log.clear();
        self.put = 0;
        self.dropped = 0;
    }
    fn ask(&mut self, steps: &[Step], n: usize, flip: Option<usize>) -> Option<Ans> {
        if self.pipe.is_none() {
            self.say("(set-logic QF_BVFP)")?;
            for i in 0..self.x.bounds.len() {
                self.say(&format!("(declare-const x{} (_ BitVec {}))", i, self.f.bits()))?;
                let (lo, hi) = self.x.bounds[i];
                let w = self.f.bits() as usize;
                if lo > 0.0 {
                    self.say(&format!("(assert (and (bvule #b{:0w$b} x{i}) (bvule x{i} #b{:0w$b})))", self.f.encode(lo), self.f.encode(hi)))?;
                } else {
                    let v = format!("((_ to_fp {} {}) x{})", self.f.eb, self.f.sb, i);
                    self.say(&format!("(assert (and (fp.leq {} {v}) (fp.leq {v} {})))", self.num(lo), self.num(hi)))?;
                }
            }
        }
        while self.put < n {
            let s = &steps[self.put];
            // ranges of the prefix of a condition
            match self.cond(&s.c) {
                Some(p) => self.say(&if s.holds { format!("(assert {})", p) } else { format!("(assert (not {}))", p) })?,
                None => self.dropped += 1,
            }
            self.put += 1;
        }
        let mut q = String::new();
        if let Some(i) = flip {
            match self.cond(&steps[i].c) {
                Some(p) => q = if steps[i].holds { format!("(assert (not {}))", p) } else { format!("(assert {})", p) },
                None => return Some(Ans::Unknown),
            }
        }
        let head = self.log.clone();
        self.say("(push 1)")?;
        self.say(&q)?;
        self.say("(check-sat)")?;
        let r = self.hear()?;
        let ans = match r.trim() {
            "unsat" => {
                if let Some(v) = &mut self.record {
                    v.push(format!("{}{}\n(check-sat)\n", head, q));
                }
                Ans::Unsat
            }
            // (an omitted condition may make a query satisfiable)
            "sat" if self.dropped == 0 => {
                let mut v = vec![];
                for i in 0..self.x.bounds.len() {
                    self.say(&format!("(get-value (x{}))", i))?;
                    let t = self.hear()?;
                    let a = t.find("#b")? + 2;
                    let b = t[a..].find(')')? + a;
                    v.push(self.f.decode(u64::from_str_radix(&t[a..b], 2).ok()?));
                }
                Ans::Sat(v)
            }
            "sat" | "unknown" => Ans::Unknown,
            _ => return None,
        };
        if !matches!(ans, Ans::Unknown) {
            self.stats.second += 1;
        }
        self.say("(pop 1)")?;
        // (definitions made inside stay known: they are made before the push)
        self.log = head;
        Some(ans)
    }
    /// Is there an input that takes the first `n` steps and then the other side of step `n`?
    /// (None for `flip`: that takes them all.)
    pub fn flip(&mut self, steps: &[Step], flip: Option<usize>) -> Ans {
        let t0 = Instant::now();
        let mut list: Vec<(Cond, bool)> = vec![];
        let n = flip.unwrap_or(steps.len());
        for s in &steps[..n] {
            list.push((s.c.clone(), s.holds));
        }
        if let Some(i) = flip {
            list.push((steps[i].c.clone(), !steps[i].holds));
        }
        if let (true, Some(v)) = (self.f == self.x.f, self.x.search(&list, &mut self.rng, 6000)) {
            self.stats.found += 1;
            self.stats.nanos += t0.elapsed().as_nanos() as u64;
            return Ans::Sat(v);
        }
        let mut ans = Ans::Unknown;
        self.stats.t_search += t0.elapsed().as_nanos() as u64;
        if let (Some(i), true) = (flip, self.f == self.x.f) {
            let t1 = Instant::now();
            if self.refuted(steps, i) {
                self.stats.open += 1;
                ans = Ans::Unsat;
                // now and then, the digits are asked too
                if self.f.sb <= 6 && self.stats.open % 8 == 1 {
                    self.learn(&list[..n]);
                    match self.solve(steps, n, flip) {
                        Ans::Unsat => self.stats.audited += 1,
                        Ans::Sat(_) => self.stats.wrong += 1,
                        _ => {}
                    }
                }
            }
            self.stats.t_open += t1.elapsed().as_nanos() as u64;
        }
        if let (Ans::Unknown, Some(_)) = (&ans, flip) {
            let t1 = Instant::now();
            if self.refuted_exactly(&list) {
                self.stats.exact += 1;
                ans = Ans::Unsat;
            }
            self.stats.t_exact += t1.elapsed().as_nanos() as u64;
        }
        if let Ans::Unknown = ans {
            let t1 = Instant::now();
            self.learn(&list[..n]);
            ans = self.solve(steps, n, flip);
            self.stats.t_cvc5 += t1.elapsed().as_nanos() as u64;
            if std::env::var("FPDBG").is_ok() {
                let a = match &ans { Ans::Sat(_) => "sat", Ans::Unsat => "unsat", _ => "unknown" };
                if std::env::var("FPDBG").unwrap() == "2" { for st in &steps[..n] { eprintln!("      {}", self.x.show(st)); } }
                eprintln!("HARD {} {:.1} {} of {}: {}", a, t1.elapsed().as_secs_f64(), n, steps.len(), flip.map_or(String::new(), |i| self.x.show(&steps[i])));
            }
        }
        let dt = t0.elapsed().as_nanos() as u64;
        self.stats.nanos += dt;
        self.stats.max_nanos = self.stats.max_nanos.max(dt);
        match ans {
            Ans::Sat(_) => self.stats.sat += 1,
            Ans::Unsat => self.stats.unsat += 1,
            Ans::Unknown => self.stats.unknown += 1,
        }
        ans
    }
}
