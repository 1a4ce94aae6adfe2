//! Scenes are generic over the number domain: symbolic (exact reals, also used for exact concrete
//! replays) and `f64` (the floating point replay that accompanies a counterexample).
use crate::engine::{cx, Leave};
use crate::int::Rat;
use crate::sym::{k, Sym};
use crate::z3::{NEG, POS, ZERO};
use std::cell::RefCell;
use std::fmt::Debug;

pub trait Dom: geo_crossings::Float + Debug + 'static {
    const EXACT: bool;
    fn rat(r: Rat) -> Self;
    fn var(name: &str, lo: Rat, hi: Rat) -> Self;
    /// only inputs with a < b are considered
    fn assume_lt(a: Self, b: Self);
    fn assume_le(a: Self, b: Self);
    fn assume_ne(a: Self, b: Self);
    fn assume_eq(a: Self, b: Self);
    /// equality as the property demands it (tolerance only in the f64 replay)
    fn same(a: Self, b: Self) -> bool;
    fn no_more(a: Self, b: Self) -> bool;
    fn i(v: i64) -> Self {
        Self::rat(Rat::int(v))
    }
    fn q(a: i64, b: i64) -> Self {
        Self::rat(Rat::frac(a, b))
    }
    fn choose(n: usize) -> usize;
    fn cover(l: &'static str);
    /// a deviation that may be listed in known_findings.txt; the run goes on
    fn finding(l: &'static str);
    fn show(self) -> String;
    /// the very same value (no solver involved); false says nothing
    fn same_bits(self, o: Self) -> bool;
}
impl Dom for Sym {
    const EXACT: bool = true;
    fn rat(r: Rat) -> Sym {
        k(r)
    }
    fn var(name: &str, lo: Rat, hi: Rat) -> Sym {
        Sym(cx().var(name, lo, hi))
    }
    fn assume_lt(a: Sym, b: Sym) {
        let d = cx().diff(a.0, b.0);
        cx().assume(&d, NEG)
    }
    fn assume_le(a: Sym, b: Sym) {
        let d = cx().diff(a.0, b.0);
        cx().assume(&d, NEG | ZERO)
    }
    fn assume_ne(a: Sym, b: Sym) {
        let d = cx().diff(a.0, b.0);
        cx().assume(&d, NEG | POS)
    }
    fn assume_eq(a: Sym, b: Sym) {
        let d = cx().diff(a.0, b.0);
        cx().assume(&d, ZERO)
    }
    fn same(a: Sym, b: Sym) -> bool {
        a == b
    }
    fn no_more(a: Sym, b: Sym) -> bool {
        a <= b
    }
    fn choose(n: usize) -> usize {
        cx().choose(n)
    }
    fn cover(l: &'static str) {
        cx().cover(l)
    }
    fn finding(l: &'static str) {
        let f = &mut cx().findings;
        if !f.contains(&l) {
            f.push(l)
        }
    }
    fn show(self) -> String {
        format!("{:?}", self)
    }
    fn same_bits(self, o: Sym) -> bool {
        self.0 == o.0
    }
}

thread_local! {
    pub static F64_IN: RefCell<(Vec<f64>, usize, Vec<usize>, usize)> = const { RefCell::new((vec![], 0, vec![], 0)) };
}
fn need(b: bool) {
    if !b {
        std::panic::panic_any(Leave::Assume);
    }
}
impl Dom for f64 {
    const EXACT: bool = false;
    fn rat(r: Rat) -> f64 {
        r.to_f64()
    }
    fn var(_n: &str, lo: Rat, _hi: Rat) -> f64 {
        F64_IN.with(|c| {
            let mut c = c.borrow_mut();
            let i = c.1;
            c.1 += 1;
            c.0.get(i).copied().unwrap_or(lo.to_f64())
        })
    }
    fn assume_lt(a: f64, b: f64) {
        need(a < b)
    }
    fn assume_le(a: f64, b: f64) {
        need(a <= b)
    }
    fn assume_ne(a: f64, b: f64) {
        need(a != b)
    }
    fn assume_eq(a: f64, b: f64) {
        need(a == b)
    }
    fn same(a: f64, b: f64) -> bool {
        (a - b).abs() <= 1e-7
    }
    fn no_more(a: f64, b: f64) -> bool {
        a <= b + 1e-7
    }
    fn choose(n: usize) -> usize {
        F64_IN.with(|c| {
            let mut c = c.borrow_mut();
            let i = c.3;
            c.3 += 1;
            c.2.get(i).copied().unwrap_or(0).min(n - 1)
        })
    }
    fn cover(_l: &'static str) {}
    fn finding(l: &'static str) {
        println!("f64 run: {}", l);
    }
    fn show(self) -> String {
        format!("{:?}", self)
    }
    fn same_bits(self, o: f64) -> bool {
        self == o
    }
}
