//! Arbitrary precision integers and rationals (hand written: the sandbox has no bignum crate).
use std::cmp::Ordering;
use std::fmt;

#[derive(Clone, PartialEq, Eq, Hash)]
pub enum Int {
    S(i128),
    /// sign (true = negative), magnitude (little endian u32 limbs, normalised, does not fit i128)
    B(bool, Box<Vec<u32>>),
}
use Int::*;

fn mag_from_u128(mut v: u128) -> Vec<u32> {
    let mut r = vec![];
    while v > 0 {
        r.push(v as u32);
        v >>= 32;
    }
    r
}
fn mag_norm(v: &mut Vec<u32>) {
    while let Some(0) = v.last() {
        v.pop();
    }
}
fn mag_cmp(a: &[u32], b: &[u32]) -> Ordering {
    a.len().cmp(&b.len()).then_with(|| a.iter().rev().cmp(b.iter().rev()))
}
fn mag_add(a: &[u32], b: &[u32]) -> Vec<u32> {
    let (a, b) = if a.len() >= b.len() { (a, b) } else { (b, a) };
    let mut r = Vec::with_capacity(a.len() + 1);
    let mut c = 0u64;
    for i in 0..a.len() {
        let s = a[i] as u64 + *b.get(i).unwrap_or(&0) as u64 + c;
        r.push(s as u32);
        c = s >> 32;
    }
    if c > 0 {
        r.push(c as u32);
    }
    r
}
/// a >= b
fn mag_sub(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut r = Vec::with_capacity(a.len());
    let mut bo = 0i64;
    for i in 0..a.len() {
        let mut s = a[i] as i64 - *b.get(i).unwrap_or(&0) as i64 - bo;
        if s < 0 {
            s += 1 << 32;
            bo = 1
        } else {
            bo = 0
        }
        r.push(s as u32);
    }
    mag_norm(&mut r);
    r
}
fn mag_mul(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut r = vec![0u32; a.len() + b.len()];
    for i in 0..a.len() {
        let mut c = 0u64;
        for j in 0..b.len() {
            let t = a[i] as u64 * b[j] as u64 + r[i + j] as u64 + c;
            r[i + j] = t as u32;
            c = t >> 32;
        }
        r[i + b.len()] = c as u32;
    }
    mag_norm(&mut r);
    r
}
fn mag_shl(a: &[u32], s: u32) -> Vec<u32> {
    let mut r = Vec::with_capacity(a.len() + 1);
    let mut c = 0u32;
    for &x in a {
        r.push((x << s) | c);
        c = if s == 0 { 0 } else { x >> (32 - s) };
    }
    r.push(c);
    r
}
fn mag_divrem(a: &[u32], b: &[u32]) -> (Vec<u32>, Vec<u32>) {
    assert!(!b.is_empty(), "division by zero");
    if mag_cmp(a, b) == Ordering::Less {
        return (vec![], a.to_vec());
    }
    if b.len() == 1 {
        let d = b[0] as u64;
        let mut q = vec![0; a.len()];
        let mut r = 0u64;
        for i in (0..a.len()).rev() {
            let t = (r << 32) | a[i] as u64;
            q[i] = (t / d) as u32;
            r = t % d;
        }
        mag_norm(&mut q);
        return (q, mag_from_u128(r as u128));
    }
    let s = b[b.len() - 1].leading_zeros();
    let mut u = mag_shl(a, s);
    let mut v = mag_shl(b, s);
    mag_norm(&mut v);
    let n = v.len();
    let m = u.len() - n;
    let mut q = vec![0u32; m];
    for j in (0..m).rev() {
        let num = ((u[j + n] as u64) << 32) | u[j + n - 1] as u64;
        let mut qh = num / v[n - 1] as u64;
        let mut rh = num % v[n - 1] as u64;
        while qh >= 1 << 32 || qh * v[n - 2] as u64 > ((rh << 32) | u[j + n - 2] as u64) {
            qh -= 1;
            rh += v[n - 1] as u64;
            if rh >= 1 << 32 {
                break;
            }
        }
        let mut bo = 0i64;
        let mut c = 0u64;
        for i in 0..n {
            let p = qh * v[i] as u64 + c;
            c = p >> 32;
            let t = u[i + j] as i64 - bo - (p & 0xffff_ffff) as i64;
            u[i + j] = t as u32;
            bo = if t < 0 { 1 } else { 0 };
        }
        let t = u[j + n] as i64 - bo - c as i64;
        u[j + n] = t as u32;
        if t < 0 {
            qh -= 1;
            let mut c = 0u64;
            for i in 0..n {
                let t = u[i + j] as u64 + v[i] as u64 + c;
                u[i + j] = t as u32;
                c = t >> 32;
            }
            u[j + n] = (u[j + n] as u64 + c) as u32;
        }
        q[j] = qh as u32;
    }
    mag_norm(&mut q);
    let mut r = vec![0u32; n];
    for i in 0..n {
        r[i] = (u[i] >> s) | if s == 0 { 0 } else { ((u[i + 1] as u64) << (32 - s)) as u32 };
    }
    mag_norm(&mut r);
    (q, r)
}

impl Int {
    pub const ZERO: Int = S(0);
    pub const ONE: Int = S(1);
    fn from_mag(neg: bool, mut m: Vec<u32>) -> Int {
        mag_norm(&mut m);
        if m.len() <= 4 {
            let mut v = 0u128;
            for &x in m.iter().rev() {
                v = (v << 32) | x as u128;
            }
            if v <= i128::MAX as u128 {
                return S(if neg { -(v as i128) } else { v as i128 });
            }
        }
        B(neg, Box::new(m))
    }
    fn mag(&self) -> (bool, Vec<u32>) {
        match self {
            S(v) => (*v < 0, mag_from_u128(v.unsigned_abs())),
            B(n, m) => (*n, (**m).clone()),
        }
    }
    pub fn is_zero(&self) -> bool {
        matches!(self, S(0))
    }
    pub fn is_one(&self) -> bool {
        matches!(self, S(1))
    }
    pub fn sgn(&self) -> i32 {
        match self {
            S(v) => v.signum() as i32,
            B(n, _) => {
                if *n {
                    -1
                } else {
                    1
                }
            }
        }
    }
    pub fn neg(&self) -> Int {
        match self {
            S(v) if *v != i128::MIN => S(-v),
            _ => {
                let (n, m) = self.mag();
                Int::from_mag(!n, m)
            }
        }
    }
    pub fn abs(&self) -> Int {
        if self.sgn() < 0 {
            self.neg()
        } else {
            self.clone()
        }
    }
    pub fn add(&self, o: &Int) -> Int {
        if let (S(a), S(b)) = (self, o) {
            if let Some(c) = a.checked_add(*b) {
                return S(c);
            }
        }
        let (na, a) = self.mag();
        let (nb, b) = o.mag();
        if na == nb {
            Int::from_mag(na, mag_add(&a, &b))
        } else {
            match mag_cmp(&a, &b) {
                Ordering::Less => Int::from_mag(nb, mag_sub(&b, &a)),
                _ => Int::from_mag(na, mag_sub(&a, &b)),
            }
        }
    }
    pub fn sub(&self, o: &Int) -> Int {
        if let (S(a), S(b)) = (self, o) {
            if let Some(c) = a.checked_sub(*b) {
                return S(c);
            }
        }
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &Int) -> Int {
        if let (S(a), S(b)) = (self, o) {
            if let Some(c) = a.checked_mul(*b) {
                return S(c);
            }
        }
        let (na, a) = self.mag();
        let (nb, b) = o.mag();
        Int::from_mag(na != nb, mag_mul(&a, &b))
    }
    /// truncated division
    pub fn divrem(&self, o: &Int) -> (Int, Int) {
        if let (S(a), S(b)) = (self, o) {
            if let Some(c) = a.checked_div(*b) {
                return (S(c), S(a % b));
            }
        }
        let (na, a) = self.mag();
        let (nb, b) = o.mag();
        let (q, r) = mag_divrem(&a, &b);
        (Int::from_mag(na != nb, q), Int::from_mag(na, r))
    }
    pub fn div_exact(&self, o: &Int) -> Int {
        if o.is_one() {
            return self.clone();
        }
        self.divrem(o).0
    }
    pub fn gcd(&self, o: &Int) -> Int {
        let mut a = self.abs();
        let mut b = o.abs();
        while !b.is_zero() {
            if let (S(x), S(y)) = (&a, &b) {
                let (mut x, mut y) = (*x as u128, *y as u128);
                while y != 0 {
                    if x <= u64::MAX as u128 && y <= u64::MAX as u128 {
                        let (mut p, mut q) = (x as u64, y as u64);
                        while q != 0 {
                            let t = p % q;
                            p = q;
                            q = t;
                        }
                        return S(p as i128);
                    }
                    let t = x % y;
                    x = y;
                    y = t;
                }
                return S(x as i128);
            }
            let r = a.divrem(&b).1;
            a = b;
            b = r.abs();
        }
        a
    }
    pub fn pow(&self, e: u32) -> Int {
        let mut r = Int::ONE;
        for _ in 0..e {
            r = r.mul(self);
        }
        r
    }
    pub fn parse(s: &str) -> Option<Int> {
        let (neg, d) = match s.strip_prefix('-') {
            Some(r) => (true, r),
            None => (false, s),
        };
        if d.is_empty() || !d.bytes().all(|c| c.is_ascii_digit()) {
            return None;
        }
        let mut r = Int::ZERO;
        for chunk in d.as_bytes().chunks(18) {
            let t: i128 = std::str::from_utf8(chunk).unwrap().parse().unwrap();
            r = r.mul(&S(10i128.pow(chunk.len() as u32))).add(&S(t));
        }
        Some(if neg { r.neg() } else { r })
    }
    pub fn bits(&self) -> usize {
        match self {
            S(v) => 128 - v.unsigned_abs().leading_zeros() as usize,
            B(_, m) => m.len() * 32 - m[m.len() - 1].leading_zeros() as usize,
        }
    }
    /// shift right by n bits (towards zero)
    fn shr(&self, n: usize) -> Int {
        let d = S(2).pow_big(n);
        self.divrem(&d).0
    }
    pub fn pow_big(&self, n: usize) -> Int {
        let mut r = Int::ONE;
        let mut b = self.clone();
        let mut n = n;
        while n > 0 {
            if n & 1 == 1 {
                r = r.mul(&b);
            }
            b = b.mul(&b);
            n >>= 1;
        }
        r
    }
    pub fn to_f64(&self) -> f64 {
        match self {
            S(v) => *v as f64,
            B(n, m) => {
                let mut r = 0f64;
                for &x in m.iter().rev() {
                    r = r * 4294967296.0 + x as f64;
                }
                if *n {
                    -r
                } else {
                    r
                }
            }
        }
    }
    pub fn to_i64(&self) -> Option<i64> {
        match self {
            S(v) => i64::try_from(*v).ok(),
            _ => None,
        }
    }
}
impl From<i64> for Int {
    fn from(v: i64) -> Int {
        S(v as i128)
    }
}
impl PartialOrd for Int {
    fn partial_cmp(&self, o: &Int) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Int {
    fn cmp(&self, o: &Int) -> Ordering {
        if let (S(a), S(b)) = (self, o) {
            return a.cmp(b);
        }
        let s = self.sub(o).sgn();
        s.cmp(&0)
    }
}
impl fmt::Display for Int {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            S(v) => write!(f, "{}", v),
            B(n, m) => {
                let mut parts = vec![];
                let mut cur = (**m).clone();
                while !cur.is_empty() {
                    let (q, r) = mag_divrem(&cur, &[1_000_000_000]);
                    parts.push(r.first().copied().unwrap_or(0));
                    cur = q;
                }
                if *n {
                    write!(f, "-")?;
                }
                write!(f, "{}", parts.pop().unwrap())?;
                for p in parts.iter().rev() {
                    write!(f, "{:09}", p)?;
                }
                Ok(())
            }
        }
    }
}
impl fmt::Debug for Int {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(self, f)
    }
}

/// Exact rational, den > 0, lowest terms.
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Rat {
    pub n: Int,
    pub d: Int,
}
impl Rat {
    pub fn new(n: Int, d: Int) -> Rat {
        assert!(!d.is_zero());
        if d.is_one() {
            return Rat { n, d };
        }
        let g = n.gcd(&d);
        let (mut n, mut d) = (n.div_exact(&g), d.div_exact(&g));
        if d.sgn() < 0 {
            n = n.neg();
            d = d.neg();
        }
        Rat { n, d }
    }
    pub fn int(v: i64) -> Rat {
        Rat { n: Int::from(v), d: Int::ONE }
    }
    pub fn frac(a: i64, b: i64) -> Rat {
        Rat::new(Int::from(a), Int::from(b))
    }
    pub fn zero() -> Rat {
        Rat::int(0)
    }
    pub fn sgn(&self) -> i32 {
        self.n.sgn()
    }
    pub fn add(&self, o: &Rat) -> Rat {
        if self.d == o.d {
            return Rat::new(self.n.add(&o.n), self.d.clone());
        }
        Rat::new(self.n.mul(&o.d).add(&o.n.mul(&self.d)), self.d.mul(&o.d))
    }
    pub fn neg(&self) -> Rat {
        Rat { n: self.n.neg(), d: self.d.clone() }
    }
    pub fn sub(&self, o: &Rat) -> Rat {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &Rat) -> Rat {
        Rat::new(self.n.mul(&o.n), self.d.mul(&o.d))
    }
    pub fn div(&self, o: &Rat) -> Rat {
        Rat::new(self.n.mul(&o.d), self.d.mul(&o.n))
    }
    pub fn floor(&self) -> Int {
        let (q, r) = self.n.divrem(&self.d);
        if r.sgn() < 0 {
            q.sub(&Int::ONE)
        } else {
            q
        }
    }
    pub fn from_f64(v: f64) -> Option<Rat> {
        if !v.is_finite() {
            return None;
        }
        if v == 0.0 {
            return Some(Rat::zero());
        }
        let b = v.to_bits();
        let neg = b >> 63 == 1;
        let e = ((b >> 52) & 0x7ff) as i64;
        let m = b & ((1 << 52) - 1);
        let (m, e) = if e == 0 { (m, -1074) } else { (m | (1 << 52), e - 1075) };
        let mut n = Int::from(m as i64);
        if neg {
            n = n.neg();
        }
        Some(if e >= 0 {
            Rat { n: n.mul(&Int::from(2).pow_big(e as usize)), d: Int::ONE }
        } else {
            Rat::new(n, Int::from(2).pow_big((-e) as usize))
        })
    }
    pub fn to_f64(&self) -> f64 {
        let (nb, db) = (self.n.bits(), self.d.bits());
        if nb < 1000 && db < 1000 {
            return self.n.to_f64() / self.d.to_f64();
        }
        let sh = nb.max(db) - 900;
        self.n.shr(sh).to_f64() / self.d.shr(sh).to_f64()
    }
    pub fn parse(s: &str) -> Option<Rat> {
        match s.split_once('/') {
            Some((a, b)) => {
                let d = Int::parse(b)?;
                if d.is_zero() {
                    return None;
                }
                Some(Rat::new(Int::parse(a)?, d))
            }
            None => match s.split_once('.') {
                Some((a, b)) => {
                    let n = Int::parse(&format!("{}{}", a, b))?;
                    Some(Rat::new(n, Int::from(10).pow_big(b.len())))
                }
                None => Some(Rat { n: Int::parse(s)?, d: Int::ONE }),
            },
        }
    }
}
impl PartialOrd for Rat {
    fn partial_cmp(&self, o: &Rat) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Rat {
    fn cmp(&self, o: &Rat) -> Ordering {
        self.n.mul(&o.d).cmp(&o.n.mul(&self.d))
    }
}
impl fmt::Display for Rat {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if self.d.is_one() {
            write!(f, "{}", self.n)
        } else {
            write!(f, "{}/{}", self.n, self.d)
        }
    }
}
impl fmt::Debug for Rat {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(self, f)
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn big() {
        let mut seed = 12345u64;
        let mut rnd = || {
            seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            (seed >> 11) as i64
        };
        for i in 0..2000 {
            let mut a = Int::from(rnd() - (1 << 52));
            let mut b = Int::from(rnd() - (1 << 52));
            for _ in 0..(i % 9) {
                a = a.mul(&Int::from(rnd())).add(&Int::from(rnd()));
            }
            for _ in 0..(i % 5) {
                b = b.mul(&Int::from(rnd())).sub(&Int::from(rnd()));
            }
            let (q, r) = a.divrem(&b);
            assert_eq!(q.mul(&b).add(&r), a);
            assert!(r.abs() < b.abs());
            assert_eq!(a.mul(&b).div_exact(&b), a);
            assert_eq!(Int::parse(&a.to_string()).unwrap(), a);
            assert_eq!(a.add(&b).sub(&b), a);
            let g = a.gcd(&b);
            assert!(a.divrem(&g).1.is_zero() && b.divrem(&g).1.is_zero());
        }
        for v in [0.1, -3.75, 1e100, 1e-30] {
            assert_eq!(Rat::from_f64(v).unwrap().to_f64(), v);
        }
    }
}
