//! C19: the code under IEEE rounding.
//!
//! A second symbolic scalar: a term over IEEE operations of a chosen format. A path is one run of
//! the real code on a concrete input (the model) that records the conditions it branched on; each
//! negated condition, under the conditions before it, is a query to z3's floating-point theory,
//! and each answer "sat" is the input of another path. When no query is left, all paths are done.
use crate::int::Rat;
use crate::run::Outcome;
use float_next_after::NextAfter;
use geo::kernels::{HasKernel, Kernel, Orientation};
use geo::Coordinate;
use num_traits::{Float, Num, NumCast, One, ToPrimitive, Zero};
use std::cell::RefCell;
use std::cmp::Ordering;
use std::collections::HashMap;
use std::fmt;
use std::ops::*;
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Format {
    pub eb: u32,
    pub sb: u32,
}
/// formats small enough for exhaustive arguments about several operations
pub const MINI: Format = Format { eb: 5, sb: 6 };
pub const TINY: Format = Format { eb: 5, sb: 4 };
pub const HALF: Format = Format { eb: 5, sb: 11 };
pub const SINGLE: Format = Format { eb: 8, sb: 24 };
pub const DOUBLE: Format = Format { eb: 11, sb: 53 };
impl Format {
    /// Nearest number of the format, ties to even. The argument is the result of one operation
    /// in double precision, which has more than twice the digits (or is the format itself).
    pub fn round(self, v: f64) -> f64 {
        if self == DOUBLE || v == 0.0 || !v.is_finite() {
            return v;
        }
        if self == SINGLE {
            return v as f32 as f64;
        }
        let bias = (1i32 << (self.eb - 1)) - 1;
        let e = (((v.to_bits() >> 52) & 0x7ff) as i32 - 1023).max(1 - bias);
        let u = (2f64).powi(e - self.sb as i32 + 1);
        let q = v / u;
        let r = q.round();
        let r = if (q - q.trunc()).abs() == 0.5 { 2.0 * (q / 2.0).round() } else { r };
        let w = r * u;
        if w.abs() >= (2f64).powi(bias + 1) {
            return f64::INFINITY.copysign(v);
        }
        w
    }
    /// the next larger number of the format
    pub fn up(self, v: f64) -> f64 {
        let bias = (1i32 << (self.eb - 1)) - 1;
        if v.is_nan() || v == f64::INFINITY {
            return v;
        }
        if v == f64::NEG_INFINITY {
            return -self.max();
        }
        if v.abs() >= (2f64).powi(1 - bias) {
            // scale so that one unit in the last place is a step of the significand
            let e = ((v.to_bits() >> 52) & 0x7ff) as i32 - 1023;
            let u = (2f64).powi(e - self.sb as i32 + 1);
            let w = if v < 0.0 && v == -(2f64).powi(e) && e > 1 - bias { v + u / 2.0 } else { v + u };
            return if w > self.max() { f64::INFINITY } else { w };
        }
        v + self.tiny()
    }
    pub fn tiny(self) -> f64 {
        let bias = (1i32 << (self.eb - 1)) - 1;
        if self == DOUBLE {
            f64::from_bits(1)
        } else {
            (2f64).powi(2 - bias - self.sb as i32)
        }
    }
    pub fn max(self) -> f64 {
        let bias = (1i32 << (self.eb - 1)) - 1;
        (2.0 - (2f64).powi(1 - self.sb as i32)) * (2f64).powi(bias)
    }
    pub fn bits(self) -> u32 {
        self.eb + self.sb
    }
    /// IEEE encoding
    pub fn encode(self, v: f64) -> u64 {
        if self == DOUBLE {
            return v.to_bits();
        }
        let (eb, mb) = (self.eb, self.sb - 1);
        let bias = (1i32 << (eb - 1)) - 1;
        let s = (v.is_sign_negative() as u64) << (eb + mb);
        if v.is_nan() {
            return (((1u64 << eb) - 1) << mb) | 1 << (mb - 1);
        }
        let a = v.abs();
        if a.is_infinite() {
            return s | ((1u64 << eb) - 1) << mb;
        }
        if a < (2f64).powi(1 - bias) {
            return s | (a / self.tiny()) as u64;
        }
        let e = ((a.to_bits() >> 52) & 0x7ff) as i32 - 1023;
        let m = (a / (2f64).powi(e - mb as i32)) as u64;
        s | ((e + bias) as u64) << mb | (m & ((1u64 << mb) - 1))
    }
    pub fn decode(self, b: u64) -> f64 {
        if self == DOUBLE {
            return f64::from_bits(b);
        }
        let (eb, mb) = (self.eb, self.sb - 1);
        let bias = (1i32 << (eb - 1)) - 1;
        let m = b & ((1u64 << mb) - 1);
        let e = (b >> mb & ((1u64 << eb) - 1)) as i32;
        let a = if e == (1 << eb) - 1 {
            if m == 0 {
                f64::INFINITY
            } else {
                f64::NAN
            }
        } else if e == 0 {
            m as f64 * self.tiny()
        } else {
            (m | 1u64 << mb) as f64 * (2f64).powi(e - bias - mb as i32)
        };
        if b >> (eb + mb) & 1 == 1 {
            -a
        } else {
            a
        }
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Var,
    Const,
    Add,
    Sub,
    Mul,
    Div,
    Neg,
    Min,
    Max,
    Floor,
    Sqrt,
    /// the next larger number
    Up,
}
#[derive(Clone, Copy, Debug)]
pub struct Node {
    pub op: Op,
    pub a: u32,
    pub b: u32,
    pub val: f64,
    /// bounds on the value; None if it may be undefined
    pub rng: Option<(f64, f64)>,
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Cond {
    Lt(u32, u32),
    Le(u32, u32),
    Eq(u32, u32),
    /// exact orientation of three points: counter-clockwise
    Ccw([u32; 6]),
}
#[derive(Clone, Debug)]
pub struct Step {
    pub c: Cond,
    pub holds: bool,
    /// the other outcome is of no interest
    pub assumed: bool,
}
pub struct Fx {
    pub f: Format,
    pub nodes: Vec<Node>,
    index: HashMap<(Op, u32, u32, u64), u32>,
    pub input: Vec<f64>,
    pub bounds: Vec<(f64, f64)>,
    pub names: Vec<String>,
    pub symbolic: bool,
    pub choices: Vec<usize>,
    /// choice, number of alternatives, length of the path when it was made
    pub chosen: Vec<(usize, usize, usize)>,
    pub path: Vec<Step>,
    known: HashMap<Cond, bool>,
    pub steps: u64,
    pub by_range: u64,
    pub checked: bool,
}
thread_local! {
    static FX: RefCell<Option<Box<Fx>>> = const { RefCell::new(None) };
}
/// Leaving a path early.
pub enum Out {
    Assume,
    Unsupported(&'static str),
    Steps,
}
fn fx<R>(f: impl FnOnce(&mut Fx) -> R) -> R {
    FX.with(|c| f(c.borrow_mut().as_mut().expect("no run")))
}
impl Fx {
    fn node(&mut self, op: Op, a: u32, b: u32, val: f64, rng: Option<(f64, f64)>) -> u32 {
        let h = (op, a, b, if matches!(op, Op::Const) { val.to_bits() } else { 0 });
        if let Some(i) = self.index.get(&h) {
            return *i;
        }
        self.nodes.push(Node { op, a, b, val, rng });
        let i = self.nodes.len() as u32 - 1;
        self.index.insert(h, i);
        i
    }
    fn cst(&mut self, v: f64) -> u32 {
        let v = self.f.round(v);
        self.node(Op::Const, 0, 0, v, if v.is_nan() { None } else { Some((v, v)) })
    }
    fn apply(&self, op: Op, a: f64, b: f64) -> f64 {
        self.f.round(match op {
            Op::Add => a + b,
            Op::Sub => a - b,
            Op::Mul => a * b,
            Op::Div => a / b,
            Op::Neg => -a,
            Op::Min => {
                if a.is_nan() || b < a {
                    b
                } else {
                    a
                }
            }
            Op::Max => {
                if a.is_nan() || a < b {
                    b
                } else {
                    a
                }
            }
            Op::Floor => a.floor(),
            Op::Sqrt => a.sqrt(),
            Op::Up => return self.f.up(a),
            _ => unreachable!(),
        })
    }
    fn op(&mut self, op: Op, a: u32, b: u32) -> u32 {
        self.steps += 1;
        if self.steps > 200_000 {
            panic_any(Out::Steps);
        }
        let (x, y) = (self.nodes[a as usize], self.nodes[b as usize]);
        let val = self.apply(op, x.val, y.val);
        let konst = |n: &Node| n.op == Op::Const;
        if konst(&x) && konst(&y) {
            return self.cst(val);
        }
        // rounding is monotone, so bounds of the exact result round to bounds of the result
        let rng = match (x.rng, y.rng) {
            (Some((a0, a1)), Some((b0, b1))) => {
                let ends: Vec<f64> = match op {
                    Op::Div if b0 <= 0.0 && b1 >= 0.0 => vec![f64::NAN],
                    Op::Neg => vec![-a0, -a1],
                    Op::Floor | Op::Up | Op::Sqrt => vec![self.apply(op, a0, a0), self.apply(op, a1, a1)],
                    Op::Add => vec![self.apply(op, a0, b0), self.apply(op, a1, b1)],
                    Op::Sub => vec![self.apply(op, a0, b1), self.apply(op, a1, b0)],
                    Op::Min | Op::Max => vec![self.apply(op, a0, b0), self.apply(op, a1, b1)],
                    _ => [(a0, b0), (a0, b1), (a1, b0), (a1, b1)].iter().map(|(p, q)| self.apply(op, *p, *q)).collect(),
                };
                if ends.iter().any(|e| e.is_nan()) {
                    None
                } else {
                    Some((ends.iter().cloned().fold(f64::INFINITY, f64::min), ends.iter().cloned().fold(f64::NEG_INFINITY, f64::max)))
                }
            }
            // an operand that may be undefined gives way to the other
            (Some((k, _)), None) | (None, Some((k, _))) if op == Op::Max => Some((k, f64::INFINITY)),
            (Some((_, k)), None) | (None, Some((_, k))) if op == Op::Min => Some((f64::NEG_INFINITY, k)),
            _ => None,
        };
        self.node(op, a, b, val, rng)
    }
    pub fn show(&self, s: &Step) -> String {
        fn t(x: &Fx, i: u32, d: u32) -> String {
            let n = x.nodes[i as usize];
            match n.op {
                Op::Var => x.names[n.a as usize].clone(),
                Op::Const => format!("{}", n.val),
                _ if d == 0 => format!("#{}", i),
                Op::Neg | Op::Floor | Op::Sqrt | Op::Up => format!("{:?}({})", n.op, t(x, n.a, d - 1)),
                _ => format!("{:?}({},{})", n.op, t(x, n.a, d - 1), t(x, n.b, d - 1)),
            }
        }
        match &s.c {
            Cond::Lt(a, b) => format!("{} < {} {}", t(self, *a, 12), t(self, *b, 12), s.holds),
            Cond::Le(a, b) => format!("{} <= {} {}", t(self, *a, 12), t(self, *b, 12), s.holds),
            Cond::Eq(a, b) => format!("{} = {} {}", t(self, *a, 12), t(self, *b, 12), s.holds),
            Cond::Ccw(p) => format!("ccw {:?} {}", p.iter().map(|i| t(self, *i, 2)).collect::<Vec<_>>(), s.holds),
        }
    }
    pub fn eval(&self, c: &Cond) -> bool {
        let v = |i: &u32| self.nodes[*i as usize].val;
        match c {
            Cond::Lt(a, b) => v(a) < v(b),
            Cond::Le(a, b) => v(a) <= v(b),
            Cond::Eq(a, b) => v(a) == v(b),
            Cond::Ccw(c) => {
                let r = |i: usize| Rat::from_f64(v(&c[i])).unwrap();
                let d = |i: usize, j: usize| r(i).sub(&r(j));
                d(2, 0).mul(&d(5, 1)) > d(3, 1).mul(&d(4, 0))
            }
        }
    }
    /// a <= b by the structure of minima and maxima, ranges and the path
    fn below(&self, a: u32, b: u32, depth: u32) -> bool {
        let (x, y) = (self.nodes[a as usize], self.nodes[b as usize]);
        let (rx, ry) = match (x.rng, y.rng) {
            (Some(p), Some(q)) => (p, q),
            _ => return false,
        };
        if a == b || rx.1 <= ry.0 || self.known.get(&Cond::Le(a, b)) == Some(&true) {
            return true;
        }
        if depth == 0 {
            return false;
        }
        let d = depth - 1;
        let zero = |n: &Node| n.op == Op::Const && n.val == 0.0;
        if zero(&x) && y.op == Op::Sub && self.below(y.b, y.a, d) || zero(&y) && x.op == Op::Sub && self.below(x.a, x.b, d) {
            return true;
        }
        if zero(&x) && matches!(y.op, Op::Add | Op::Mul | Op::Div) && self.below(a, y.a, d) && self.below(a, y.b, d) {
            return true;
        }
        let whole = |n: &Node| self.nodes[n.a as usize].rng.is_some() && self.nodes[n.b as usize].rng.is_some();
        (x.op == Op::Max && whole(&x) && self.below(x.a, b, d) && self.below(x.b, b, d))
            || (y.op == Op::Min && whole(&y) && self.below(a, y.a, d) && self.below(a, y.b, d))
            || (x.op == Op::Min && whole(&x) && (self.below(x.a, b, d) || self.below(x.b, b, d)))
            || (y.op == Op::Max && whole(&y) && (self.below(a, y.a, d) || self.below(a, y.b, d)))
    }
    fn ask(&mut self, c: Cond) -> bool {
        self.ask_as(c, None)
    }
    /// the path is of interest only if the outcome is `want`
    fn ask_assumed(&mut self, c: Cond, want: bool) -> bool {
        self.ask_as(c, Some(want))
    }
    fn ask_as(&mut self, c: Cond, want: Option<bool>) -> bool {
        let holds = self.eval(&c);
        let konst = |i: &u32| self.nodes[*i as usize].op == Op::Const;
        match &c {
            Cond::Ccw(p) => {
                if p.iter().all(konst) {
                    return holds;
                }
            }
            Cond::Lt(a, b) | Cond::Le(a, b) | Cond::Eq(a, b) => {
                if konst(a) && konst(b) {
                    return holds;
                }
                if let (Some((a0, a1)), Some((b0, b1))) = (self.nodes[*a as usize].rng, self.nodes[*b as usize].rng) {
                    let r = match &c {
                        _ if a == b => Some(!matches!(c, Cond::Lt(..))),
                        Cond::Lt(..) if a1 < b0 => Some(true),
                        Cond::Lt(..) if a0 >= b1 => Some(false),
                        Cond::Le(..) if a1 <= b0 => Some(true),
                        Cond::Le(..) if a0 > b1 => Some(false),
                        Cond::Eq(..) if a1 < b0 || a0 > b1 => Some(false),
                        _ => None,
                    };
                    let r = r.or_else(|| match &c {
                        Cond::Lt(a, b) if self.below(*b, *a, 16) => Some(false),
                        Cond::Le(a, b) if self.below(*a, *b, 16) => Some(true),
                        _ => None,
                    });
                    if let Some(r) = r {
                        self.by_range += 1;
                        assert!(r == holds, "engine: range analysis");
                        return r;
                    }
                }
            }
        }
        if let Some(k) = self.known.get(&c) {
            return *k;
        }
        self.known.insert(c.clone(), holds);
        // consequences that need no solver
        match (&c, holds) {
            (Cond::Lt(a, b), true) => {
                self.known.insert(Cond::Le(*a, *b), true);
                self.known.insert(Cond::Eq(*a, *b), false);
                self.known.insert(Cond::Eq(*b, *a), false);
                self.known.insert(Cond::Lt(*b, *a), false);
                self.known.insert(Cond::Le(*b, *a), false);
            }
            (Cond::Le(a, b), true) => {
                self.known.insert(Cond::Lt(*b, *a), false);
            }
            (Cond::Le(a, b), false) if self.defined(*a, *b) => {
                self.known.insert(Cond::Lt(*b, *a), true);
                self.known.insert(Cond::Lt(*a, *b), false);
                self.known.insert(Cond::Le(*b, *a), true);
                self.known.insert(Cond::Eq(*a, *b), false);
                self.known.insert(Cond::Eq(*b, *a), false);
            }
            (Cond::Lt(a, b), false) if self.defined(*a, *b) => {
                self.known.insert(Cond::Le(*b, *a), true);
            }
            (Cond::Eq(a, b), true) => {
                for (a, b) in [(*a, *b), (*b, *a)] {
                    self.known.insert(Cond::Eq(a, b), true);
                    self.known.insert(Cond::Le(a, b), true);
                    self.known.insert(Cond::Lt(a, b), false);
                }
            }
            (Cond::Ccw(p), true) => {
                self.known.insert(ccw([p[0], p[1], p[4], p[5], p[2], p[3]]).unwrap(), false);
            }
            _ => {}
        }
        self.path.push(Step { c, holds, assumed: want == Some(holds) });
        holds
    }
    /// Looks for an input that meets all conditions, near the one of this path. (A hit is only a
    /// hint for the next run, which has to take the very same steps.)
    pub fn search(&self, conds: &[(Cond, bool)], rng: &mut u64, tries: usize) -> Option<Vec<f64>> {
        let mut rnd = move || {
            *rng ^= *rng << 13;
            *rng ^= *rng >> 7;
            *rng ^= *rng << 17;
            *rng
        };
        let n = self.bounds.len();
        if n == 0 {
            return None;
        }
        let mut val: Vec<f64> = vec![];
        let mut score = |inp: &[f64]| -> usize {
            val.clear();
            for d in &self.nodes {
                let v = match d.op {
                    Op::Var => inp[d.a as usize],
                    Op::Const => d.val,
                    _ => self.apply(d.op, val[d.a as usize], val[d.b as usize]),
                };
                val.push(v);
            }
            let v = |i: &u32| val[*i as usize];
            let mut ok = 0;
            for (c, h) in conds {
                let r = match c {
                    Cond::Lt(a, b) => v(a) < v(b),
                    Cond::Le(a, b) => v(a) <= v(b),
                    Cond::Eq(a, b) => v(a) == v(b),
                    Cond::Ccw(c) => {
                        let p = |i: usize| robust::Coord { x: v(&c[i]), y: v(&c[i + 1]) };
                        c.iter().all(|i| v(i).is_finite()) && robust::orient2d(p(0), p(2), p(4)) > 0.0
                    }
                };
                ok += (r == *h) as usize;
            }
            ok
        };
        // (a condition on the orientation is confirmed exactly)
        let sure = |inp: &[f64]| {
            let mut val: Vec<f64> = vec![];
            for d in &self.nodes {
                let v = match d.op {
                    Op::Var => inp[d.a as usize],
                    Op::Const => d.val,
                    _ => self.apply(d.op, val[d.a as usize], val[d.b as usize]),
                };
                val.push(v);
            }
            conds.iter().all(|(c, h)| match c {
                Cond::Ccw(p) => {
                    let r = |i: usize| Rat::from_f64(val[p[i] as usize]).unwrap();
                    let d = |i: usize, j: usize| r(i).sub(&r(j));
                    (d(2, 0).mul(&d(5, 1)) > d(3, 1).mul(&d(4, 0))) == *h
                }
                _ => true,
            })
        };
        let consts: Vec<f64> = self.nodes.iter().filter(|d| d.op == Op::Const && d.val.is_finite()).map(|d| d.val).collect();
        let start = self.input[..n].to_vec();
        let mut cur = start.clone();
        let mut best = score(&cur);
        for k in 0..tries {
            if best == conds.len() {
                return if sure(&cur) { Some(cur) } else { None };
            }
            if k % 2000 == 1999 {
                cur = start.clone();
                best = score(&cur);
            }
            let mut c = cur.clone();
            for _ in 0..1 + rnd() % 3 {
                let i = rnd() as usize % n;
                let (lo, hi) = self.bounds[i];
                let v = match rnd() % 11 {
                    0 => c[rnd() as usize % n],
                    8 => self.f.round((c[i] + c[rnd() as usize % n]) / 2.0),
                    9 => self.f.round(2.0 * c[i] - c[rnd() as usize % n]),
                    10 if !consts.is_empty() => consts[rnd() as usize % consts.len()],
                    1 | 2 => self.f.round(lo + (hi - lo) * ((rnd() >> 11) as f64 / (1u64 << 53) as f64)),
                    3 => [lo, hi][rnd() as usize % 2],
                    4 | 5 => self.f.up(c[i]),
                    _ => -self.f.up(-c[i]),
                };
                c[i] = v.clamp(lo, hi);
            }
            let s = score(&c);
            if s >= best || rnd() % 64 == 0 {
                best = s;
                cur = c;
            }
        }
        None
    }
    pub fn defined(&self, a: u32, b: u32) -> bool {
        self.nodes[a as usize].rng.is_some() && self.nodes[b as usize].rng.is_some()
    }
}

#[derive(Clone, Copy)]
pub struct Fp(u32);
fn cst(v: f64) -> Fp {
    Fp(fx(|x| x.cst(v)))
}
fn op2(op: Op, a: Fp, b: Fp) -> Fp {
    Fp(fx(|x| x.op(op, a.0, b.0)))
}
fn ask(c: Cond) -> bool {
    fx(|x| x.ask(c))
}
fn no<R>(s: &'static str) -> R {
    panic_any(Out::Unsupported(s))
}
impl fmt::Debug for Fp {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}", fx(|x| x.nodes[self.0 as usize].val))
    }
}
impl fmt::Display for Fp {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}", self)
    }
}
impl PartialEq for Fp {
    fn eq(&self, o: &Fp) -> bool {
        ask(Cond::Eq(self.0, o.0))
    }
}
impl PartialOrd for Fp {
    fn partial_cmp(&self, o: &Fp) -> Option<Ordering> {
        if self.lt(o) {
            Some(Ordering::Less)
        } else if self.eq(o) {
            Some(Ordering::Equal)
        } else if o.lt(self) {
            Some(Ordering::Greater)
        } else {
            None
        }
    }
    fn lt(&self, o: &Fp) -> bool {
        ask(Cond::Lt(self.0, o.0))
    }
    fn le(&self, o: &Fp) -> bool {
        ask(Cond::Le(self.0, o.0))
    }
    fn gt(&self, o: &Fp) -> bool {
        o.lt(self)
    }
    fn ge(&self, o: &Fp) -> bool {
        o.le(self)
    }
}
macro_rules! binop {
    ($($t:ident $f:ident $o:ident),*) => {$(impl $t for Fp { type Output = Fp; fn $f(self, o: Fp) -> Fp { op2(Op::$o, self, o) } })*};
}
binop!(Add add Add, Sub sub Sub, Mul mul Mul, Div div Div);
impl Rem for Fp {
    type Output = Fp;
    fn rem(self, _o: Fp) -> Fp {
        no("rem")
    }
}
impl Neg for Fp {
    type Output = Fp;
    fn neg(self) -> Fp {
        op2(Op::Neg, self, self)
    }
}
macro_rules! assign {
    ($($t:ident $f:ident $o:tt),*) => {$(impl $t for Fp { fn $f(&mut self, o: Fp) { *self = *self $o o; } })*};
}
assign!(AddAssign add_assign +, SubAssign sub_assign -, MulAssign mul_assign *, DivAssign div_assign /, RemAssign rem_assign %);
impl Default for Fp {
    fn default() -> Fp {
        cst(0.0)
    }
}
impl Zero for Fp {
    fn zero() -> Fp {
        cst(0.0)
    }
    fn is_zero(&self) -> bool {
        *self == cst(0.0)
    }
}
impl One for Fp {
    fn one() -> Fp {
        cst(1.0)
    }
}
impl Num for Fp {
    type FromStrRadixErr = ();
    fn from_str_radix(_: &str, _: u32) -> Result<Fp, ()> {
        Err(())
    }
}
impl std::iter::Sum for Fp {
    fn sum<I: Iterator<Item = Fp>>(i: I) -> Fp {
        i.fold(cst(0.0), |a, b| a + b)
    }
}
impl num_traits::Bounded for Fp {
    fn min_value() -> Fp {
        <Fp as Float>::min_value()
    }
    fn max_value() -> Fp {
        <Fp as Float>::max_value()
    }
}
macro_rules! from {
    ($($t:ty),*) => {$(impl From<$t> for Fp { fn from(v: $t) -> Fp { cst(v as f64) } })*};
}
from!(i8, u8, i16, u16, i32, u32, f32);
impl From<f64> for Fp {
    fn from(v: f64) -> Fp {
        unboxed(v).unwrap_or_else(|| cst(v))
    }
}
impl From<Fp> for f64 {
    fn from(s: Fp) -> f64 {
        boxed(s)
    }
}
impl std::iter::Product for Fp {
    fn product<I: Iterator<Item = Fp>>(it: I) -> Fp {
        it.fold(cst(1.0), |a, b| a * b)
    }
}
impl<'a> std::iter::Sum<&'a Fp> for Fp {
    fn sum<I: Iterator<Item = &'a Fp>>(it: I) -> Fp {
        it.fold(cst(0.0), |a, b| a + *b)
    }
}
impl num_traits::Signed for Fp {
    fn abs(&self) -> Fp {
        Float::abs(*self)
    }
    fn abs_sub(&self, _o: &Fp) -> Fp {
        no("abs_sub")
    }
    fn signum(&self) -> Fp {
        Float::signum(*self)
    }
    fn is_positive(&self) -> bool {
        *self > cst(0.0)
    }
    fn is_negative(&self) -> bool {
        *self < cst(0.0)
    }
}
impl num_traits::FromPrimitive for Fp {
    fn from_i64(n: i64) -> Option<Fp> {
        Some(cst(n as f64))
    }
    fn from_u64(n: u64) -> Option<Fp> {
        Some(cst(n as f64))
    }
    fn from_f64(n: f64) -> Option<Fp> {
        Some(cst(n))
    }
}
impl ToPrimitive for Fp {
    fn to_i64(&self) -> Option<i64> {
        let t = self.trunc();
        // by increasing values, so that every path asks the same questions
        if let Some((lo, hi)) = fx(|x| x.nodes[t.0 as usize].rng) {
            if hi - lo < 64.0 {
                for k in lo as i64..=hi as i64 {
                    if t == cst(k as f64) {
                        return Some(k);
                    }
                }
                return None;
            }
        }
        no("to_i64")
    }
    fn to_u64(&self) -> Option<u64> {
        self.to_i64().and_then(|v| u64::try_from(v).ok())
    }
    fn to_f64(&self) -> Option<f64> {
        Some(boxed(*self))
    }
}
impl NumCast for Fp {
    fn from<N: ToPrimitive>(n: N) -> Option<Fp> {
        n.to_f64().map(|v| unboxed(v).unwrap_or_else(|| cst(v)))
    }
}
macro_rules! unsup {
    ($($f:ident)*) => {$(fn $f(self) -> Self { no(stringify!($f)) })*};
}
impl Float for Fp {
    fn nan() -> Self {
        cst(f64::NAN)
    }
    fn infinity() -> Self {
        cst(f64::INFINITY)
    }
    fn neg_infinity() -> Self {
        cst(f64::NEG_INFINITY)
    }
    fn neg_zero() -> Self {
        cst(-0.0)
    }
    fn min_value() -> Self {
        cst(fx(|x| -x.f.max()))
    }
    fn min_positive_value() -> Self {
        cst(fx(|x| (2f64).powi(2 - (1i32 << (x.f.eb - 1)))))
    }
    fn epsilon() -> Self {
        let s = fx(|x| x.f.sb);
        cst((2f64).powi(1 - s as i32))
    }
    fn max_value() -> Self {
        cst(fx(|x| x.f.max()))
    }
    fn is_nan(self) -> bool {
        // only NaN differs from itself
        !(self == self)
    }
    fn is_infinite(self) -> bool {
        Float::abs(self) == cst(f64::INFINITY)
    }
    fn is_finite(self) -> bool {
        Float::abs(self) < cst(f64::INFINITY)
    }
    fn is_normal(self) -> bool {
        no("is_normal")
    }
    fn classify(self) -> std::num::FpCategory {
        no("classify")
    }
    fn floor(self) -> Self {
        op2(Op::Floor, self, self)
    }
    fn ceil(self) -> Self {
        -(-self).floor()
    }
    fn round(self) -> Self {
        no("round")
    }
    fn trunc(self) -> Self {
        if self < cst(0.0) {
            self.ceil()
        } else {
            self.floor()
        }
    }
    fn fract(self) -> Self {
        self - self.trunc()
    }
    fn abs(self) -> Self {
        if self < cst(0.0) {
            -self
        } else {
            self
        }
    }
    fn signum(self) -> Self {
        if self < cst(0.0) {
            cst(-1.0)
        } else {
            cst(1.0)
        }
    }
    fn is_sign_positive(self) -> bool {
        self >= cst(0.0)
    }
    fn is_sign_negative(self) -> bool {
        self < cst(0.0)
    }
    fn mul_add(self, _a: Self, _b: Self) -> Self {
        no("mul_add")
    }
    fn recip(self) -> Self {
        cst(1.0) / self
    }
    fn powi(self, n: i32) -> Self {
        let mut r = cst(1.0);
        for _ in 0..n.abs() {
            r = r * self;
        }
        if n < 0 {
            r.recip()
        } else {
            r
        }
    }
    fn powf(self, _n: Self) -> Self {
        no("powf")
    }
    fn log(self, _b: Self) -> Self {
        no("log")
    }
    fn max(self, o: Self) -> Self {
        op2(Op::Max, self, o)
    }
    fn min(self, o: Self) -> Self {
        op2(Op::Min, self, o)
    }
    fn abs_sub(self, _o: Self) -> Self {
        no("abs_sub")
    }
    fn hypot(self, o: Self) -> Self {
        (self * self + o * o).sqrt()
    }
    fn sqrt(self) -> Self {
        op2(Op::Sqrt, self, self)
    }
    fn atan2(self, _o: Self) -> Self {
        no("atan2")
    }
    fn sin_cos(self) -> (Self, Self) {
        no("sin_cos")
    }
    fn integer_decode(self) -> (u64, i16, i8) {
        no("integer_decode")
    }
    unsup!(exp exp2 ln log2 log10 cbrt sin cos tan asin acos atan exp_m1 ln_1p sinh cosh tanh asinh acosh atanh);
}
impl NextAfter<Fp> for Fp {
    fn next_after(self, y: Fp) -> Fp {
        if y > self {
            op2(Op::Up, self, self)
        } else if y < self {
            -op2(Op::Up, -self, -self)
        } else {
            self
        }
    }
}
pub struct FpKernel;
impl Kernel<Fp> for FpKernel {
    fn orient2d(p: Coordinate<Fp>, q: Coordinate<Fp>, r: Coordinate<Fp>) -> Orientation {
        match orient([p.x.0, p.y.0, q.x.0, q.y.0, r.x.0, r.y.0]) {
            1 => Orientation::CounterClockwise,
            -1 => Orientation::Clockwise,
            _ => Orientation::Collinear,
        }
    }
}
/// One name per orientation question: the smallest point first. None if two points are the same.
fn ccw(c: [u32; 6]) -> Option<Cond> {
    let p = [(c[0], c[1]), (c[2], c[3]), (c[4], c[5])];
    if p[0] == p[1] || p[1] == p[2] || p[0] == p[2] {
        return None;
    }
    let k = (0..3).min_by_key(|i| p[*i]).unwrap();
    let (a, b, d) = (p[k], p[(k + 1) % 3], p[(k + 2) % 3]);
    Some(Cond::Ccw([a.0, a.1, b.0, b.1, d.0, d.1]))
}
/// Exact sign of the orientation (what the robust predicates compute).
pub fn orient(c: [u32; 6]) -> i32 {
    let (l, r) = match (ccw(c), ccw([c[0], c[1], c[4], c[5], c[2], c[3]])) {
        (Some(l), Some(r)) => (l, r),
        _ => return 0,
    };
    if ask(l) {
        1
    } else if ask(r) {
        -1
    } else {
        0
    }
}
/// entered from the patched `robust` crate
pub fn orient_hook(c: [f64; 6]) -> f64 {
    orient(c.map(|v| match unboxed(v) {
        Some(f) => f.0,
        None => cst(v).0,
    })) as f64
}
const FLAG: u32 = 1 << 31;
pub fn is_boxed(v: f64) -> bool {
    v.to_bits() >> 32 == robust::SYMX_TAG >> 32 && v.to_bits() as u32 & FLAG != 0
}
fn boxed(f: Fp) -> f64 {
    f64::from_bits(robust::SYMX_TAG | (f.0 | FLAG) as u64)
}
fn unboxed(v: f64) -> Option<Fp> {
    if is_boxed(v) {
        Some(Fp(v.to_bits() as u32 & !FLAG))
    } else {
        None
    }
}
impl HasKernel for Fp {
    type Ker = FpKernel;
}

/// The domain of a scene: symbolic IEEE terms, or a native type for the replay.
pub trait FDom: geo_crossings::Float + fmt::Debug + 'static {
    fn var(name: &str, lo: f64, hi: f64) -> Self;
    fn choose(n: usize) -> usize;
    fn c(v: f64) -> Self;
    fn assume_lt(a: Self, b: Self);
    /// exact orientation
    fn turn(p: Coordinate<Self>, q: Coordinate<Self>, r: Coordinate<Self>) -> i32;
    /// only inputs with r strictly to the left of p -> q
    fn assume_left(p: Coordinate<Self>, q: Coordinate<Self>, r: Coordinate<Self>);
    fn done();
}
fn assume(c: Cond) {
    if !fx(|x| x.ask_assumed(c, true)) {
        panic_any(Out::Assume);
    }
}
impl FDom for Fp {
    fn var(name: &str, lo: f64, hi: f64) -> Fp {
        fx(|x| {
            let i = x.bounds.len();
            x.bounds.push((lo, hi));
            x.names.push(name.to_string());
            if x.input.len() <= i {
                // a first guess
                let g = x.f.round(lo + (hi - lo) * [0.3, 0.6, 0.45, 0.8, 0.2, 0.7][i % 6]);
                x.input.push(g);
            }
            let v = x.input[i];
            Fp(if x.symbolic { x.node(Op::Var, i as u32, 0, v, Some((lo, hi))) } else { x.cst(v) })
        })
    }
    fn choose(n: usize) -> usize {
        fx(|x| {
            let c = x.choices.get(x.chosen.len()).copied().unwrap_or(0);
            let at = x.path.len();
            x.chosen.push((c, n, at));
            c
        })
    }
    fn c(v: f64) -> Fp {
        cst(v)
    }
    fn assume_lt(a: Fp, b: Fp) {
        assume(Cond::Lt(a.0, b.0))
    }
    fn turn(p: Coordinate<Fp>, q: Coordinate<Fp>, r: Coordinate<Fp>) -> i32 {
        orient([p.x.0, p.y.0, q.x.0, q.y.0, r.x.0, r.y.0])
    }
    fn assume_left(p: Coordinate<Fp>, q: Coordinate<Fp>, r: Coordinate<Fp>) {
        match ccw([p.x.0, p.y.0, q.x.0, q.y.0, r.x.0, r.y.0]) {
            Some(c) => assume(c),
            None => panic_any(Out::Assume),
        }
    }
    fn done() {
        fx(|x| x.checked = true)
    }
}
thread_local! {
    static NATIVE: RefCell<(Vec<f64>, usize, Vec<usize>, usize)> = const { RefCell::new((vec![], 0, vec![], 0)) };
}
macro_rules! native {
    ($t:ty) => {
        impl FDom for $t {
            fn var(_: &str, lo: f64, _: f64) -> $t {
                NATIVE.with(|c| {
                    let mut c = c.borrow_mut();
                    let i = c.1;
                    c.1 += 1;
                    c.0.get(i).copied().unwrap_or(lo) as $t
                })
            }
            fn choose(_n: usize) -> usize {
                NATIVE.with(|c| {
                    let mut c = c.borrow_mut();
                    let i = c.3;
                    c.3 += 1;
                    c.2.get(i).copied().unwrap_or(0)
                })
            }
            fn c(v: f64) -> $t {
                v as $t
            }
            fn assume_lt(a: $t, b: $t) {
                if !(a < b) {
                    panic_any(Out::Assume)
                }
            }
            fn turn(p: Coordinate<$t>, q: Coordinate<$t>, r: Coordinate<$t>) -> i32 {
                match <$t as HasKernel>::Ker::orient2d(p, q, r) {
                    Orientation::CounterClockwise => 1,
                    Orientation::Clockwise => -1,
                    _ => 0,
                }
            }
            fn assume_left(p: Coordinate<$t>, q: Coordinate<$t>, r: Coordinate<$t>) {
                if Self::turn(p, q, r) != 1 {
                    panic_any(Out::Assume)
                }
            }
            fn done() {}
        }
    };
}
native!(f32);
native!(f64);

fn outcome(r: std::thread::Result<()>) -> Outcome {
    match r {
        Ok(()) => Outcome::Ok,
        Err(e) => match e.downcast::<Out>() {
            Ok(o) => match *o {
                Out::Assume => Outcome::Assume,
                Out::Unsupported(s) => Outcome::Unsupported(s.to_string()),
                Out::Steps => Outcome::Steps,
            },
            Err(_) => Outcome::Fail(crate::run::last_panic()),
        },
    }
}
/// Run one path.
pub fn run(f: Format, s: &dyn DynFScene, input: Vec<f64>, choices: Vec<usize>, symbolic: bool) -> (Outcome, Box<Fx>) {
    FX.with(|c| {
        *c.borrow_mut() = Some(Box::new(Fx {
            f,
            nodes: vec![],
            index: HashMap::new(),
            input,
            bounds: vec![],
            names: vec![],
            symbolic,
            choices,
            chosen: vec![],
            path: vec![],
            known: HashMap::new(),
            steps: 0,
            by_range: 0,
            checked: false,
        }))
    });
    let r = catch_unwind(AssertUnwindSafe(|| s.sym()));
    let o = outcome(r);
    (o, FX.with(|c| c.borrow_mut().take().unwrap()))
}
pub fn run_native(f: Format, s: &dyn DynFScene, input: Vec<f64>, choices: Vec<usize>) -> Outcome {
    NATIVE.with(|c| *c.borrow_mut() = (input, 0, choices, 0));
    outcome(catch_unwind(AssertUnwindSafe(|| if f == DOUBLE { s.double() } else { s.single() })))
}
pub trait FSceneFn: Send + Sync {
    fn run<T: FDom>(&self);
}
pub trait DynFScene: Send + Sync {
    fn sym(&self);
    fn single(&self);
    fn double(&self);
}
impl<S: FSceneFn> DynFScene for S {
    fn sym(&self) {
        self.run::<Fp>()
    }
    fn single(&self) {
        self.run::<f32>()
    }
    fn double(&self) {
        self.run::<f64>()
    }
}
pub struct FScene {
    pub prop: &'static str,
    pub name: &'static str,
    pub tier: u8,
    pub format: Format,
    pub f: Box<dyn DynFScene>,
}
