//! Sparse multivariate polynomials with integer coefficients (lexicographic order on packed
//! exponent vectors: 16 variables x 8 bits).
use crate::int::{Int, Rat};
use std::collections::BTreeMap;
use std::fmt;

pub type Mono = u128;
pub const MAXV: usize = 16;
const GUARD: u128 = 0x80808080_80808080_80808080_80808080;

#[inline]
pub fn exp(m: Mono, v: usize) -> u32 {
    ((m >> (8 * v)) & 0xff) as u32
}
#[inline]
fn mono_mul(a: Mono, b: Mono) -> Mono {
    let r = a + b;
    if r & GUARD != 0 {
        crate::engine::unsupported("polynomial degree overflow");
    }
    r
}
#[inline]
fn mono_div(a: Mono, b: Mono) -> Option<Mono> {
    // every byte of a >= byte of b (bytes < 128)
    let r = (a | GUARD).wrapping_sub(b);
    if r & GUARD == GUARD {
        Some(r & !GUARD)
    } else {
        None
    }
}

/// Terms sorted by decreasing monomial.
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Poly(pub Vec<(Mono, Int)>);

impl Poly {
    pub fn zero() -> Poly {
        Poly(vec![])
    }
    pub fn cst(c: Int) -> Poly {
        if c.is_zero() {
            Poly(vec![])
        } else {
            Poly(vec![(0, c)])
        }
    }
    pub fn one() -> Poly {
        Poly::cst(Int::ONE)
    }
    pub fn var(v: usize) -> Poly {
        assert!(v < MAXV);
        Poly(vec![(1u128 << (8 * v), Int::ONE)])
    }
    pub fn is_zero(&self) -> bool {
        self.0.is_empty()
    }
    pub fn as_const(&self) -> Option<Int> {
        match self.0.len() {
            0 => Some(Int::ZERO),
            1 if self.0[0].0 == 0 => Some(self.0[0].1.clone()),
            _ => None,
        }
    }
    pub fn is_const(&self) -> bool {
        self.0.is_empty() || (self.0.len() == 1 && self.0[0].0 == 0)
    }
    pub fn neg(&self) -> Poly {
        Poly(self.0.iter().map(|(m, c)| (*m, c.neg())).collect())
    }
    fn merge(&self, o: &Poly, sub: bool) -> Poly {
        let mut r = Vec::with_capacity(self.0.len() + o.0.len());
        let (mut i, mut j) = (0, 0);
        while i < self.0.len() && j < o.0.len() {
            let (a, b) = (&self.0[i], &o.0[j]);
            if a.0 > b.0 {
                r.push(a.clone());
                i += 1;
            } else if a.0 < b.0 {
                r.push((b.0, if sub { b.1.neg() } else { b.1.clone() }));
                j += 1;
            } else {
                let c = if sub { a.1.sub(&b.1) } else { a.1.add(&b.1) };
                if !c.is_zero() {
                    r.push((a.0, c));
                }
                i += 1;
                j += 1;
            }
        }
        r.extend_from_slice(&self.0[i..]);
        for b in &o.0[j..] {
            r.push((b.0, if sub { b.1.neg() } else { b.1.clone() }));
        }
        Poly(r)
    }
    pub fn add(&self, o: &Poly) -> Poly {
        self.merge(o, false)
    }
    pub fn sub(&self, o: &Poly) -> Poly {
        self.merge(o, true)
    }
    pub fn scale(&self, c: &Int) -> Poly {
        if c.is_zero() {
            return Poly::zero();
        }
        if c.is_one() {
            return self.clone();
        }
        Poly(self.0.iter().map(|(m, k)| (*m, k.mul(c))).collect())
    }
    pub fn mul(&self, o: &Poly) -> Poly {
        if self.is_zero() || o.is_zero() {
            return Poly::zero();
        }
        if let Some(c) = o.as_const() {
            return self.scale(&c);
        }
        if let Some(c) = self.as_const() {
            return o.scale(&c);
        }
        if self.0.len() * o.0.len() > 4_000_000 {
            crate::engine::unsupported("polynomial too large");
        }
        let mut v: Vec<(Mono, Int)> = Vec::with_capacity(self.0.len() * o.0.len());
        for (a, ca) in &self.0 {
            for (b, cb) in &o.0 {
                v.push((mono_mul(*a, *b), ca.mul(cb)));
            }
        }
        Poly::from_terms(v)
    }
    pub fn from_terms(mut v: Vec<(Mono, Int)>) -> Poly {
        v.sort_unstable_by(|a, b| b.0.cmp(&a.0));
        let mut r: Vec<(Mono, Int)> = Vec::with_capacity(v.len());
        for (m, c) in v {
            match r.last_mut() {
                Some(l) if l.0 == m => l.1 = l.1.add(&c),
                _ => {
                    if let Some(l) = r.last() {
                        if l.1.is_zero() {
                            r.pop();
                        }
                    }
                    r.push((m, c))
                }
            }
        }
        if let Some(l) = r.last() {
            if l.1.is_zero() {
                r.pop();
            }
        }
        Poly(r)
    }
    pub fn pow(&self, e: u32) -> Poly {
        let mut r = Poly::one();
        for _ in 0..e {
            r = r.mul(self);
        }
        r
    }
    pub fn content(&self) -> Int {
        let mut g = Int::ZERO;
        for (_, c) in &self.0 {
            g = g.gcd(c);
            if g.is_one() {
                break;
            }
        }
        g
    }
    pub fn div_int(&self, g: &Int) -> Poly {
        if g.is_one() {
            return self.clone();
        }
        Poly(self.0.iter().map(|(m, c)| (*m, c.div_exact(g))).collect())
    }
    pub fn lead_sgn(&self) -> i32 {
        self.0.first().map_or(0, |t| t.1.sgn())
    }
    /// (signed content, primitive part with positive leading coefficient)
    pub fn primitive(&self) -> (Int, Poly) {
        if self.is_zero() {
            return (Int::ZERO, Poly::zero());
        }
        let mut g = self.content();
        if self.lead_sgn() < 0 {
            g = g.neg();
        }
        if g.is_one() {
            return (g, self.clone());
        }
        let p = self.div_int(&g);
        (g, p)
    }
    pub fn vars(&self) -> u32 {
        let mut o: u128 = 0;
        for (m, _) in &self.0 {
            o |= m;
        }
        let mut r = 0;
        for v in 0..MAXV {
            if (o >> (8 * v)) & 0xff != 0 {
                r |= 1 << v;
            }
        }
        r
    }
    pub fn degree_in(&self, v: usize) -> u32 {
        self.0.iter().map(|(m, _)| exp(*m, v)).max().unwrap_or(0)
    }
    pub fn total_degree(&self) -> u32 {
        self.0.iter().map(|(m, _)| (0..MAXV).map(|v| exp(*m, v)).sum()).max().unwrap_or(0)
    }
    /// Exact division (None if not divisible over the rationals with an integer quotient after
    /// the divisor being primitive).
    pub fn div_exact(&self, d: &Poly) -> Option<Poly> {
        if d.is_zero() {
            return None;
        }
        if self.is_zero() {
            return Some(Poly::zero());
        }
        if d.0.len() == 1 {
            let (dm, dc) = &d.0[0];
            let mut r = Vec::with_capacity(self.0.len());
            for (m, c) in &self.0 {
                let qm = mono_div(*m, *dm)?;
                let (q, rem) = c.divrem(dc);
                if !rem.is_zero() {
                    return None;
                }
                r.push((qm, q));
            }
            return Some(Poly(r));
        }
        // fast rejection on leading and trailing terms
        let (sl, dl) = (&self.0[0], &d.0[0]);
        let (st, dt) = (&self.0[self.0.len() - 1], &d.0[d.0.len() - 1]);
        mono_div(sl.0, dl.0)?;
        mono_div(st.0, dt.0)?;
        if !sl.1.divrem(&dl.1).1.is_zero() || !st.1.divrem(&dt.1).1.is_zero() {
            return None;
        }
        let mut rem: BTreeMap<Mono, Int> = self.0.iter().cloned().collect();
        let mut q = vec![];
        while let Some((m, c)) = rem.pop_last() {
            let qm = mono_div(m, dl.0)?;
            let (qc, r) = c.divrem(&dl.1);
            if !r.is_zero() {
                return None;
            }
            for (dm, dc) in &d.0[1..] {
                let t = mono_mul(qm, *dm);
                let sub = dc.mul(&qc);
                use std::collections::btree_map::Entry::*;
                match rem.entry(t) {
                    Occupied(mut e) => {
                        let n = e.get().sub(&sub);
                        if n.is_zero() {
                            e.remove();
                        } else {
                            *e.get_mut() = n;
                        }
                    }
                    Vacant(e) => {
                        e.insert(sub.neg());
                    }
                }
            }
            q.push((qm, qc));
        }
        Some(Poly(q))
    }
    /// Coefficients as polynomials in the other variables, index = power of v.
    pub fn coeffs_in(&self, v: usize) -> Vec<Poly> {
        let n = self.degree_in(v) as usize;
        let mut r: Vec<Vec<(Mono, Int)>> = vec![vec![]; n + 1];
        for (m, c) in &self.0 {
            let e = exp(*m, v);
            r[e as usize].push((m - ((e as u128) << (8 * v)), c.clone()));
        }
        r.into_iter().map(Poly::from_terms).collect()
    }
    /// Numerator of P(v := n/d) over d^deg; returns (poly, deg).
    pub fn subst(&self, v: usize, n: &Poly, d: &Poly) -> (Poly, u32) {
        let cs = self.coeffs_in(v);
        let deg = cs.len() - 1;
        let mut r = Poly::zero();
        let mut npow = Poly::one();
        let mut dp = vec![Poly::one()];
        for _ in 0..deg {
            let l = dp.last().unwrap().mul(d);
            dp.push(l);
        }
        for (k, c) in cs.iter().enumerate() {
            if !c.is_zero() {
                r = r.add(&c.mul(&npow).mul(&dp[deg - k]));
            }
            if k < deg {
                npow = npow.mul(n);
            }
        }
        (r, deg as u32)
    }
    pub fn eval(&self, m: &[Rat]) -> Rat {
        // evaluate with a common denominator per variable to avoid gcds
        let mut num = Int::ZERO;
        let mut degs = [0u32; MAXV];
        let vs = self.vars();
        for v in 0..MAXV {
            if vs >> v & 1 == 1 {
                degs[v] = self.degree_in(v);
            }
        }
        let mut den = Int::ONE;
        for v in 0..MAXV {
            if degs[v] > 0 && !m[v].d.is_one() {
                den = den.mul(&m[v].d.pow(degs[v]));
            }
        }
        for (mm, c) in &self.0 {
            let mut t = c.clone();
            for v in 0..MAXV {
                if degs[v] > 0 {
                    let e = exp(*mm, v);
                    if e > 0 {
                        t = t.mul(&m[v].n.pow(e));
                    }
                    if e < degs[v] && !m[v].d.is_one() {
                        t = t.mul(&m[v].d.pow(degs[v] - e));
                    }
                }
            }
            num = num.add(&t);
        }
        Rat::new(num, den)
    }
    pub fn sign_at(&self, m: &[Rat]) -> i32 {
        self.eval(m).sgn()
    }
}

impl fmt::Display for Poly {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if self.0.is_empty() {
            return write!(f, "0");
        }
        for (i, (m, c)) in self.0.iter().enumerate() {
            if i > 0 && c.sgn() > 0 {
                write!(f, "+")?;
            }
            write!(f, "{}", c)?;
            for v in 0..MAXV {
                let e = exp(*m, v);
                if e == 1 {
                    write!(f, "*v{}", v)?;
                } else if e > 1 {
                    write!(f, "*v{}^{}", v, e)?;
                }
            }
        }
        Ok(())
    }
}
impl fmt::Debug for Poly {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(self, f)
    }
}
