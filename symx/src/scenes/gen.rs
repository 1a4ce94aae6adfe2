//! Reproducible catalogues of small integer configurations.
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

pub struct Lcg(pub u64);
impl Lcg {
    pub fn new(s: usize) -> Lcg {
        let mut l = Lcg(s as u64 * 2654435761 + 12345);
        for _ in 0..4 {
            l.below(2);
        }
        l
    }
    pub fn below(&mut self, n: usize) -> usize {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        ((self.0 >> 33) % n as u64) as usize
    }
    pub fn range(&mut self, a: i64, b: i64) -> i64 {
        a + self.below((b - a + 1) as usize) as i64
    }
    pub fn coin(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
}
pub type C = (i64, i64);
/// the first ring is the exterior
pub type Poly = Vec<Vec<C>>;

fn orient(a: C, b: C, c: C) -> i64 {
    ((b.0 - a.0) * (c.1 - a.1) - (b.1 - a.1) * (c.0 - a.0)).signum()
}
fn on(p: C, a: C, b: C) -> bool {
    orient(a, b, p) == 0 && p.0 >= a.0.min(b.0) && p.0 <= a.0.max(b.0) && p.1 >= a.1.min(b.1) && p.1 <= a.1.max(b.1)
}
fn meet(a: C, b: C, c: C, d: C) -> bool {
    let (o1, o2, o3, o4) = (orient(a, b, c), orient(a, b, d), orient(c, d, a), orient(c, d, b));
    (o1 * o2 < 0 && o3 * o4 < 0) || on(c, a, b) || on(d, a, b) || on(a, c, d) || on(b, c, d)
}
fn proper(a: C, b: C, c: C, d: C) -> bool {
    orient(a, b, c) * orient(a, b, d) < 0 && orient(c, d, a) * orient(c, d, b) < 0
}
pub fn simple(r: &[C]) -> bool {
    let n = r.len();
    for i in 0..n {
        let (a, b) = (r[i], r[(i + 1) % n]);
        if a == b {
            return false;
        }
        let c = r[(i + 2) % n];
        if orient(a, b, c) == 0 && (b.0 - a.0) * (c.0 - b.0) + (b.1 - a.1) * (c.1 - b.1) < 0 {
            return false;
        }
        for j in i + 2..n {
            if (j + 1) % n != i && meet(a, b, r[j], r[(j + 1) % n]) {
                return false;
            }
        }
    }
    area2(r) != 0
}
pub fn area2(r: &[C]) -> i64 {
    (0..r.len()).map(|i| r[i].0 * r[(i + 1) % r.len()].1 - r[(i + 1) % r.len()].0 * r[i].1).sum()
}
/// even-odd; the point must not be on the ring
fn inside(p: C, r: &[C]) -> bool {
    let mut odd = false;
    for i in 0..r.len() {
        let (a, b) = (r[i], r[(i + 1) % r.len()]);
        if (a.0 <= p.0) != (b.0 <= p.0) {
            let (l, h) = if a.0 <= p.0 { (a, b) } else { (b, a) };
            if orient(l, h, p) < 0 {
                odd = !odd;
            }
        }
    }
    odd
}
/// Where s lies relative to r: Some(inside), if they have at most `touch` points in common and
/// neither crosses the other.
fn place(s: &[C], r: &[C], touch: usize) -> Option<bool> {
    let mut common: Vec<C> = vec![];
    for i in 0..r.len() {
        for j in 0..s.len() {
            let (a, b, c, d) = (r[i], r[(i + 1) % r.len()], s[j], s[(j + 1) % s.len()]);
            if proper(a, b, c, d) {
                return None;
            }
            for (p, e, f) in [(a, c, d), (b, c, d), (c, a, b), (d, a, b)] {
                if on(p, e, f) && !common.contains(&p) {
                    common.push(p);
                }
            }
        }
    }
    if common.len() > touch {
        return None;
    }
    let mut side = None;
    for p in s.iter().filter(|p| !common.contains(p)) {
        let i = inside(*p, r);
        if side.is_some_and(|s| s != i) {
            return None;
        }
        side = Some(i);
    }
    side
}
/// A simple ring of n vertices with coordinates in [-b, b]^2.
pub fn ring(r: &mut Lcg, n: usize, b: i64) -> Vec<C> {
    loop {
        let mut v: Vec<C> = vec![];
        while v.len() < n {
            let p = (r.range(-b, b), r.range(-b, b));
            if !v.contains(&p) {
                v.push(p);
            }
        }
        for _ in 0..40 {
            let mut done = true;
            for i in 0..n {
                for j in i + 2..n {
                    if (j + 1) % n != i && proper(v[i], v[i + 1], v[j], v[(j + 1) % n]) {
                        v[i + 1..=j].reverse();
                        done = false;
                    }
                }
            }
            if done {
                break;
            }
        }
        if simple(&v) {
            return v;
        }
    }
}
/// A valid polygon of n exterior vertices and up to `holes` holes; a ring has at most `touch`
/// points in common with another.
pub fn poly(r: &mut Lcg, n: usize, holes: usize, b: i64, touch: usize) -> Poly {
    let mut p = vec![ring(r, n, b)];
    for _ in 0..holes * 16 {
        if p.len() > holes {
            break;
        }
        let k = 3 + r.below(2);
        let (m, ox, oy) = (1 + r.below(2) as i64, r.range(-b + 1, b - 1), r.range(-b + 1, b - 1));
        let h: Vec<C> = ring(r, k, m).iter().map(|c| (c.0 + ox, c.1 + oy)).collect();
        // only one of several holes may touch, or the interior might fall apart
        let t = if p.len() == 1 { touch } else { 0 };
        if place(&h, &p[0], t) == Some(true) && p[1..].iter().all(|q| place(&h, q, 0) == Some(false) && place(q, &h, 0) == Some(false)) {
            p.push(h);
        }
    }
    p
}
/// Up to `parts` polygons whose interiors are disjoint (a part may lie in a hole of another).
pub fn multi(r: &mut Lcg, parts: usize, b: i64, touch: usize) -> Vec<Poly> {
    let mut v: Vec<Poly> = vec![];
    if r.coin(1, 4) {
        // a frame, so that islands have somewhere to go
        let o = r.range(-1, 1);
        let w = r.range(1, b - 2);
        v.push(vec![vec![(-b, -b), (b, -b), (b, b), (-b, b)], vec![(o - w, o - w), (o - w, o + w), (o + w, o + w), (o + w, o - w)]]);
    }
    for _ in 0..parts * 16 {
        if v.len() >= parts {
            break;
        }
        let n = 3 + r.below(2);
        let (m, ox, oy) = (1 + r.below(2) as i64, r.range(-b + 1, b - 1), r.range(-b + 1, b - 1));
        let h: Vec<C> = ring(r, n, m).iter().map(|c| (c.0 + ox, c.1 + oy)).collect();
        let free = v.iter().all(|p| {
            let out = |q: &Vec<C>| place(q, &h, touch) == Some(false);
            match place(&h, &p[0], touch) {
                Some(false) => out(&p[0]),
                Some(true) => p[1..].iter().any(|q| place(&h, q, touch) == Some(true)),
                None => false,
            }
        });
        if free {
            v.push(vec![h]);
        }
    }
    v
}
/// The two chains of a monotone polygon, with vertical edges, sheared.
pub fn chains(r: &mut Lcg) -> (Vec<C>, Vec<C>) {
    let k = r.range(2, 5);
    let (s, e) = (r.range(-1, 1), r.range(-1, 1));
    let (mut top, mut bot) = (vec![(0, s)], vec![(0, s)]);
    if r.coin(1, 3) {
        top.push((0, r.range(2, 4)));
    }
    for x in 1..k {
        for (c, up) in [(&mut top, true), (&mut bot, false)] {
            if r.coin(3, 5) {
                let n = 1 + r.coin(1, 3) as usize + r.coin(1, 6) as usize;
                let mut ys: Vec<i64> = (0..n).map(|_| if up { r.range(2, 5) } else { r.range(-5, -2) }).collect();
                ys.sort();
                ys.dedup();
                c.extend(ys.into_iter().map(|y| (x, y)));
            }
        }
    }
    if r.coin(1, 3) {
        bot.push((k, r.range(-4, -2)));
    }
    if top.len() + bot.len() == 2 {
        top.push((1, r.range(2, 5)));
    }
    top.push((k, e));
    bot.push((k, e));
    let sh = r.range(-1, 1);
    for c in top.iter_mut().chain(bot.iter_mut()) {
        c.1 += sh * c.0;
    }
    (top, bot)
}
thread_local! {
    static CACHE: RefCell<HashMap<(&'static str, usize), Rc<dyn std::any::Any>>> = RefCell::new(HashMap::new());
}
/// Each entry of a catalogue is generated once per process.
pub fn cached<V: 'static>(name: &'static str, seed: usize, f: impl FnOnce(&mut Lcg) -> V) -> Rc<V> {
    if let Some(v) = CACHE.with(|c| c.borrow().get(&(name, seed)).cloned()) {
        return v.downcast::<V>().unwrap();
    }
    let v: Rc<V> = Rc::new(f(&mut Lcg::new(seed)));
    CACHE.with(|c| c.borrow_mut().insert((name, seed), v.clone()));
    v
}
