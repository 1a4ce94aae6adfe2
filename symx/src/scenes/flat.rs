//! C22: where no point has to be computed, rounding changes nothing.
use super::round::{lt, point, P, R};
use crate::fp::*;
use geo::{Coordinate, Line, LineString, MultiPolygon, Polygon};
use geo_crossings::{monotone_chains, BooleanOp, Crossable, CrossingsIter, Intersections, LineOrPoint, MonotoneSweep};
use std::cmp::Ordering;

fn pt<T: FDom>(p: [f64; 2]) -> P<T> {
    Coordinate { x: T::c(p[0]), y: T::c(p[1]) }
}
fn same<T: FDom>(p: P<T>, q: P<T>) -> bool {
    p.x == q.x && p.y == q.y
}
/// on the closed segment
fn on<T: FDom>(p: P<T>, s: (P<T>, P<T>)) -> bool {
    let (a, b) = if lt(s.1, s.0) { (s.1, s.0) } else { s };
    !lt(p, a) && !lt(b, p) && (same(p, a) || same(p, b) || T::turn(a, b, p) == 0)
}
/// a common point that is inside of both
fn cross<T: FDom>(s: (P<T>, P<T>), t: (P<T>, P<T>)) -> bool {
    T::turn(s.0, s.1, t.0) * T::turn(s.0, s.1, t.1) < 0 && T::turn(t.0, t.1, s.0) * T::turn(t.0, t.1, s.1) < 0
}
/// The order of lines and points, one of which is free.
pub struct Order {
    pub r: R,
    pub menu: &'static [[f64; 4]],
}
impl FSceneFn for Order {
    fn run<T: FDom>(&self) {
        let m = self.menu[T::choose(self.menu.len())];
        let (a, b): (P<T>, P<T>) = (pt([m[0], m[1]]), pt([m[2], m[3]]));
        let l = LineOrPoint::from(Line::new(a, b));
        let (a, b) = if lt(a, b) { (a, b) } else { (b, a) };
        if T::choose(2) == 0 {
            let p: P<T> = point("p", self.r);
            let q = LineOrPoint::from(Line::new(p, p));
            let want = if lt(p, a) || lt(b, p) {
                None
            } else {
                Some(if T::turn(a, b, p) > 0 { Ordering::Less } else { Ordering::Greater })
            };
            assert_eq!(l.partial_cmp(&q), want, "order of a line and a point");
            assert_eq!(q.partial_cmp(&l), want.map(Ordering::reverse), "order of a point and a line");
            let want = on(p, (a, b));
            for got in [q.intersect_line(&l), q.intersect_line_ordered(&l)] {
                match got {
                    None => assert!(!want, "a point on the line is missed"),
                    Some(x) => assert!(want && !x.is_line() && same(x.line().start, p), "a point that is not on the line is taken for {:?}", x),
                }
            }
            return T::done();
        }
        let (c, d): (P<T>, P<T>) = (point("c", self.r), point("d", self.r));
        if !lt(c, d) || !lt(a, d) || !lt(c, b) {
            return;
        }
        let m = LineOrPoint::from(Line::new(c, d));
        let o = if !lt(c, a) {
            match T::turn(a, b, c) {
                0 => T::turn(a, b, d),
                s => s,
            }
        } else {
            -match T::turn(c, d, a) {
                0 => T::turn(c, d, b),
                s => s,
            }
        };
        let want = 0.cmp(&o);
        assert_eq!(l.partial_cmp(&m), Some(want), "order of two lines");
        assert_eq!(m.partial_cmp(&l), Some(want.reverse()), "order of two lines, exchanged");
        T::done();
    }
}
#[derive(Clone, Debug)]
struct Tag<T: FDom>(usize, Line<T>);
impl<T: FDom> Crossable for Tag<T> {
    type Scalar = T;
    fn line(&self) -> Line<T> {
        self.1
    }
}
/// A sweep over segments of which none crosses another inside of both.
pub struct Flat {
    pub r: R,
    /// sets of given segments
    pub menu: &'static [&'static [[f64; 4]]],
    /// the free segment begins at the begin of the first one
    pub hang: bool,
    /// it is a point
    pub dot: bool,
}
impl FSceneFn for Flat {
    fn run<T: FDom>(&self) {
        let m = self.menu[T::choose(self.menu.len())];
        let mut s: Vec<(P<T>, P<T>)> = m.iter().map(|l| (pt([l[0], l[1]]), pt([l[2], l[3]]))).collect();
        let c = if self.hang { s[0].0 } else { point("c", self.r) };
        let d: P<T> = if self.dot { c } else { point("d", self.r) };
        if !self.dot && same(c, d) {
            return;
        }
        if s.iter().any(|x| cross(*x, (c, d))) {
            return;
        }
        let at = T::choose(2) * s.len();
        let dot = self.dot.then_some(at);
        let met = s.iter().filter(|s| on(c, **s)).count();
        s.insert(at, (c, d));
        // every end point, and those on each segment, in order
        let mut all: Vec<P<T>> = vec![];
        for p in s.iter().flat_map(|s| [s.0, s.1]) {
            if !all.iter().any(|q| same(*q, p)) {
                let i = all.iter().position(|q| lt(p, *q)).unwrap_or(all.len());
                all.insert(i, p);
            }
        }
        let cuts: Vec<Vec<P<T>>> = s.iter().map(|s| all.iter().cloned().filter(|p| on(*p, *s)).collect()).collect();
        let mut next = vec![0; s.len()];
        let tags: Vec<Tag<T>> = s.iter().enumerate().map(|(i, s)| Tag(i, Line::new(s.0, s.1))).collect();
        if self.dot && s.len() == 2 {
            let n = tags.iter().cloned().collect::<Intersections<_>>().count();
            assert_eq!(n, met, "reports of a segment and a point");
        }
        let mut it: CrossingsIter<Tag<T>> = tags.into_iter().collect();
        let mut k = 0;
        while let Some(p) = it.next() {
            assert!(k < all.len() && same(p, all[k]), "point {:?} where {:?} is due", p, all.get(k));
            let mut ends = vec![0; s.len()];
            for c in it.intersections() {
                let (id, l) = (c.crossable.0, c.line.line());
                if Some(id) == dot {
                    assert!(!c.line.is_line() && same(l.start, p), "the point turns up elsewhere");
                    next[id] = 1;
                    continue;
                }
                if c.at_left {
                    assert!(same(l.start, p), "a piece that starts here starts elsewhere");
                    continue;
                }
                ends[id] += 1;
                let n = next[id] + 1;
                assert!(n < cuts[id].len() && same(cuts[id][n], p), "segment {} is cut at {:?}", id, p);
                assert!(same(l.start, cuts[id][n - 1]) && same(l.end, p), "segment {}: piece {:?}", id, l);
                next[id] = n;
            }
            assert!(ends.iter().all(|n| *n < 2), "a piece ends twice");
            k += 1;
        }
        assert_eq!(k, all.len(), "points");
        for i in 0..s.len() {
            assert_eq!(next[i] + (Some(i) != dot) as usize, cuts[i].len(), "pieces of segment {}", i);
        }
        T::done();
    }
}
type Rings = &'static [&'static [[f64; 2]]];
/// Rings of which one vertex is free, not on a line with any two others.
fn rings<T: FDom>(m: Rings, ring: usize, k: usize, r: R, others: &[P<T>]) -> Option<Vec<Vec<P<T>>>> {
    let mut v: Vec<Vec<P<T>>> = m.iter().map(|r| r.iter().map(|p| pt(*p)).collect()).collect();
    let f: P<T> = point("f", r);
    let mut rest: Vec<P<T>> = others.to_vec();
    for (i, w) in v.iter().enumerate() {
        for (j, p) in w.iter().enumerate() {
            if (i, j) != (ring, k) && !rest.iter().any(|q| same(*p, *q)) {
                rest.push(*p);
            }
        }
    }
    v[ring][k] = f;
    for i in 0..rest.len() {
        for j in 0..i {
            if T::turn(rest[i], rest[j], f) == 0 {
                return None;
            }
        }
    }
    Some(v)
}
fn edges<T: FDom>(rings: &[Vec<P<T>>]) -> Vec<(P<T>, P<T>)> {
    rings.iter().flat_map(|r| (0..r.len()).map(move |i| (r[i], r[(i + 1) % r.len()]))).collect()
}
/// is the ring counter-clockwise?
fn ccw_ring<T: FDom>(r: &[P<T>]) -> bool {
    // the lowest edge at the first point (which may be passed several times) leaves it
    let n = r.len();
    let p = r.iter().copied().reduce(|p, q| if lt(q, p) { q } else { p }).unwrap();
    let mut low: Option<(P<T>, bool)> = None;
    for i in 0..n {
        let (a, b) = (r[i], r[(i + 1) % n]);
        let (q, out) = if same(a, p) { (b, true) } else { (a, false) };
        if (out || same(b, p)) && low.map_or(true, |l| T::turn(p, l.0, q) < 0) {
            low = Some((q, out));
        }
    }
    low.unwrap().1
}
/// is a point that is on no edge inside of the rings?
fn inside<T: FDom>(p: P<T>, e: &[(P<T>, P<T>)]) -> bool {
    let mut odd = false;
    for (a, b) in e {
        if (a.y > p.y) != (b.y > p.y) {
            let up = b.y > a.y;
            if (T::turn(*a, *b, p) > 0) == up {
                odd = !odd;
            }
        }
    }
    odd
}
/// The first ring counter-clockwise, the others clockwise; None if this is no polygon.
fn polygon<T: FDom>(mut r: Vec<Vec<P<T>>>) -> Option<Vec<Vec<P<T>>>> {
    let e = edges(&r);
    for i in 0..e.len() {
        for j in 0..i {
            if cross(e[i], e[j]) {
                return None;
            }
        }
    }
    let outer = edges(&r[..1]);
    for k in 1..r.len() {
        if !inside(r[k][0], &outer) || (1..r.len()).any(|j| j != k && inside(r[k][0], &edges(&r[j..j + 1]))) {
            return None;
        }
    }
    for (k, r) in r.iter_mut().enumerate() {
        if ccw_ring(r) != (k == 0) {
            r.reverse();
        }
    }
    Some(r)
}
fn closed<T: FDom>(r: &[P<T>], from: usize, back: bool) -> LineString<T> {
    let n = r.len();
    let mut v: Vec<P<T>> = (0..=n).map(|i| r[(i + from) % n]).collect();
    if back {
        v.reverse();
    }
    LineString(v)
}
fn geo_polygon<T: FDom>(r: &[Vec<P<T>>], from: usize, back: bool) -> Polygon<T> {
    Polygon::new(closed(&r[0], from, back), r[1..].iter().map(|r| closed(r, from, back)).collect())
}
/// Directed edges between known points, counted with their sign.
struct Chain<T: FDom> {
    v: Vec<P<T>>,
    n: Vec<i32>,
}
impl<T: FDom> Chain<T> {
    fn new(e: &[(P<T>, P<T>)]) -> Self {
        let mut v: Vec<P<T>> = vec![];
        for (p, _) in e {
            if !v.iter().any(|q| same(*q, *p)) {
                v.push(*p);
            }
        }
        let n = vec![0; v.len() * v.len()];
        Chain { v, n }
    }
    fn add(&mut self, a: P<T>, b: P<T>, s: i32) {
        let find = |p: P<T>| self.v.iter().position(|q| same(*q, p)).unwrap_or_else(|| panic!("{:?} is a point of no operand", p));
        let (i, j, n) = (find(a), find(b), self.v.len());
        assert!(i != j, "an edge of no length");
        self.n[i * n + j] += s;
        self.n[j * n + i] -= s;
    }
}
/// The pieces of a polygon with a free vertex, and the events of its decomposition.
pub struct Mono {
    pub r: R,
    /// rings, and which vertex of which ring is free
    pub menu: &'static [(Rings, usize, usize)],
}
impl FSceneFn for Mono {
    fn run<T: FDom>(&self) {
        let (m, ring, k) = self.menu[T::choose(self.menu.len())];
        let Some(r) = rings::<T>(m, ring, k, self.r, &[]).and_then(polygon) else {
            return;
        };
        let back = T::choose(2) == 1;
        let poly = geo_polygon(&r, 0, back);
        let e = edges(&r);
        if T::choose(2) == 0 {
            let mut c = Chain::new(&e);
            for m in monotone_chains(&poly) {
                let (t, b) = (&m.top().0, &m.bot().0);
                for w in t.windows(2).chain(b.windows(2)) {
                    assert!(lt(w[0], w[1]), "a chain is not monotone");
                }
                assert!(t.len() + b.len() > 4 && same(t[0], b[0]) && same(t[t.len() - 1], b[b.len() - 1]), "chains {:?} {:?}", t, b);
                for (p, q, s) in [(t, b, 1), (b, t, -1)] {
                    for v in &p[1..p.len() - 1] {
                        let w = q.windows(2).find(|w| lt(w[0], *v) && lt(*v, w[1])).expect("a vertex of both chains");
                        assert!(T::turn(w[0], w[1], *v) == s, "top and bottom are exchanged");
                    }
                }
                for w in b.windows(2) {
                    c.add(w[0], w[1], 1);
                }
                for w in t.windows(2) {
                    c.add(w[1], w[0], 1);
                }
            }
            for (a, b) in e {
                c.add(a, b, -1);
            }
            assert!(c.n.iter().all(|n| *n == 0), "the pieces do not make up the polygon");
        } else {
            let mut last: Option<P<T>> = None;
            let mut left: Vec<[P<T>; 3]> = r.iter().flat_map(|r| (0..r.len()).map(move |i| [r[(i + r.len() - 1) % r.len()], r[i], r[(i + 1) % r.len()]])).collect();
            for e in Box::pin(MonotoneSweep::from_polygon(&poly)) {
                let p = e.pt.coord();
                assert!(last.map_or(true, |l| lt(l, p)), "events out of order");
                last = Some(p);
                let i = left.iter().position(|v| same(v[1], p)).expect("an event at no vertex");
                let [a, v, b] = left.remove(i);
                let turn = T::turn(a, v, b) > 0;
                let want = match (lt(a, v), lt(b, v)) {
                    (true, true) => ["Merge", "End"][turn as usize],
                    (false, false) => ["Split", "Start"][turn as usize],
                    _ => "Continue",
                };
                assert_eq!(format!("{:?}", e.ty), want, "kind of the vertex {:?}", p);
            }
            assert!(left.is_empty(), "a vertex without event");
        }
        T::done();
    }
}
/// Boolean operations on operands whose boundaries do not cross.
pub struct Apart {
    pub r: R,
    /// both operands; which vertex of which ring of the second is free
    pub menu: &'static [(Rings, Rings, usize, usize)],
}
impl FSceneFn for Apart {
    fn run<T: FDom>(&self) {
        let (a, b, ring, k) = self.menu[T::choose(self.menu.len())];
        let a: Vec<Vec<P<T>>> = a.iter().map(|r| r.iter().map(|p| pt(*p)).collect()).collect();
        let va: Vec<P<T>> = a.iter().flatten().cloned().collect();
        let Some(b) = rings::<T>(b, ring, k, self.r, &va).and_then(polygon) else {
            return;
        };
        let a = polygon(a).expect("the first operand");
        let (ea, eb) = (edges(&a), edges(&b));
        if ea.iter().any(|x| eb.iter().any(|y| cross(*x, *y))) {
            return;
        }
        let op = T::choose(4);
        let f = |x: bool, y: bool| match op {
            0 => x && y,
            1 => x || y,
            2 => x && !y,
            _ => x != y,
        };
        let mut want = Chain::new(&[&ea[..], &eb[..]].concat());
        for (first, e, o) in [(true, &ea, &eb), (false, &eb, &ea)] {
            for (p, q) in e {
                let both = |x: bool, y: bool| if first { f(x, y) } else { f(y, x) };
                // what the other one is to the left and to the right
                let (l, r) = if o.iter().any(|(u, v)| same(*u, *p) && same(*v, *q)) {
                    (true, false)
                } else if o.iter().any(|(u, v)| same(*u, *q) && same(*v, *p)) {
                    (false, true)
                } else {
                    let z = [p, q].into_iter().find(|z| !o.iter().any(|(u, _)| same(*u, **z)));
                    let Some(z) = z else { return };
                    let i = inside(*z, o);
                    (i, i)
                };
                if l != r && !first {
                    // counted with the first operand
                    continue;
                }
                want.add(*p, *q, both(true, l) as i32 - both(false, r) as i32);
            }
        }
        let mp = |r: &[Vec<P<T>>], back| MultiPolygon(vec![geo_polygon(r, 0, back)]);
        let back = T::choose(2) == 1;
        let (x, y) = (mp(&a, back), mp(&b, back));
        let got = match op {
            0 => x.intersection(&y),
            1 => x.union(&y),
            2 => x.difference(&y),
            _ => x.xor(&y),
        };
        for p in &got.0 {
            for (ring, hole) in std::iter::once((p.exterior(), false)).chain(p.interiors().iter().map(|h| (h, true))) {
                let v = &ring.0;
                assert!(v.len() > 3 && same(v[0], v[v.len() - 1]), "ring {:?}", v);
                let s = if ccw_ring(&v[1..]) != hole { 1 } else { -1 };
                for w in v.windows(2) {
                    want.add(w[0], w[1], -s);
                }
            }
        }
        assert!(want.n.iter().all(|n| *n == 0), "the boundary of the result is wrong");
        T::done();
    }
}
const LINES: &[[f64; 4]] = &[[1.25, 2.0, 3.5, 2.0], [2.0, 1.25, 2.0, 3.5], [1.125, 1.25, 3.75, 2.75], [1.25, 3.75, 3.5, 1.125], [1.75, 1.125, 1.875, 3.75], [1.75, 3.5, 1.875, 1.125]];
const SETS: &[&[[f64; 4]]] = &[
    &[[1.125, 1.25, 3.75, 2.75], [1.25, 3.5, 3.5, 2.75]],
    &[[1.75, 1.125, 1.875, 3.75], [1.875, 3.75, 3.5, 1.125]],
    &[[1.25, 2.0, 3.5, 2.0], [2.0, 2.0, 2.25, 3.75]],
];
const ONE: &[&[[f64; 4]]] = &[&[[1.125, 1.25, 3.75, 2.75]], &[[1.75, 1.125, 1.875, 3.75]], &[[1.25, 3.75, 3.5, 1.125]]];
const POLYS: &[(Rings, usize, usize)] = &[
    // a split that sees the start
    (&[&[[1.0, 2.0], [3.75, 1.125], [2.0, 2.5], [3.5, 3.75]]], 0, 2),
    (&[&[[1.0, 1.25], [3.5, 1.0], [2.25, 2.25], [3.75, 3.5], [1.25, 3.75]]], 0, 2),
    (&[&[[1.0, 1.25], [3.5, 1.0], [2.25, 2.25], [3.75, 3.5], [1.25, 3.75]]], 0, 1),
    (&[&[[1.0, 2.5], [1.875, 1.0], [3.75, 1.25], [2.75, 2.0], [3.5, 3.75], [1.75, 3.5]]], 0, 3),
    (&[&[[1.0, 1.0], [4.0, 1.25], [3.75, 4.0], [1.125, 3.75]], &[[1.75, 2.0], [2.75, 1.75], [2.5, 3.25]]], 1, 2),
    (&[&[[1.0, 1.0], [4.0, 1.25], [3.75, 4.0], [1.125, 3.75]], &[[1.75, 2.0], [2.75, 1.75], [2.5, 3.25]]], 0, 3),
];
const PAIRS: &[(Rings, Rings, usize, usize)] = &[
    (&[&[[1.0, 1.0], [4.0, 1.25], [3.75, 4.0], [1.125, 3.75]]], &[&[[1.75, 2.0], [2.75, 1.75], [2.5, 3.25]]], 0, 2),
    // a common vertex
    (&[&[[1.0, 1.0], [4.0, 1.25], [3.75, 4.0], [1.125, 3.75]]], &[&[[1.0, 1.0], [2.75, 1.75], [2.5, 3.25]]], 0, 2),
    // a common edge
    (&[&[[1.25, 2.0], [3.5, 1.75], [2.5, 3.25]]], &[&[[1.25, 2.0], [3.5, 1.75], [2.75, 1.0]]], 0, 2),
    // next to a hole
    (&[&[[1.0, 1.0], [4.0, 1.25], [3.75, 4.0], [1.125, 3.75]], &[[1.75, 2.0], [2.75, 1.75], [2.5, 3.25]]], &[&[[1.75, 2.0], [2.75, 1.75], [2.25, 2.25]]], 0, 2),
];
pub fn scenes(v: &mut Vec<FScene>) {
    let mut add = |name, tier, format, f: Box<dyn DynFScene>| v.push(FScene { prop: "C22", name, tier, format, f });
    let r = (1.0, 4.0);
    add("order, 4 digits", 0, TINY, Box::new(Order { r, menu: LINES }));
    add("sweep: a free segment and another, 4 digits", 0, TINY, Box::new(Flat { r, menu: ONE, hang: false, dot: false }));
    add("sweep: a segment and a free point, 4 digits", 0, TINY, Box::new(Flat { r, menu: ONE, hang: false, dot: true }));
    add("sweep: two segments and a free point, 4 digits", 0, TINY, Box::new(Flat { r, menu: SETS, hang: false, dot: true }));
    add("sweep: two segments and one with a free end, 4 digits", 0, TINY, Box::new(Flat { r, menu: SETS, hang: true, dot: false }));
    add("pieces of a polygon, 4 digits", 0, TINY, Box::new(Mono { r, menu: POLYS }));
    add("operations, 4 digits", 0, TINY, Box::new(Apart { r, menu: PAIRS }));
    add("order, f64", 1, DOUBLE, Box::new(Order { r, menu: LINES }));
    add("sweep: a free segment and another, 6 digits", 1, MINI, Box::new(Flat { r, menu: ONE, hang: false, dot: false }));
    add("sweep: two segments and one with a free end, f64", 0, DOUBLE, Box::new(Flat { r, menu: SETS, hang: true, dot: false }));
    add("sweep: two segments and a free one, 4 digits", 1, TINY, Box::new(Flat { r, menu: SETS, hang: false, dot: false }));
    add("pieces of a polygon, f64", 1, DOUBLE, Box::new(Mono { r, menu: POLYS }));
    add("operations, f64", 1, DOUBLE, Box::new(Apart { r, menu: PAIRS }));
}
