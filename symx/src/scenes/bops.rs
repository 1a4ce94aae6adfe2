//! C06, C07, C08: boolean operations.
use super::gen::{self, cached, Poly};
use super::geom::*;
use crate::dom::Dom;
use crate::int::Rat;
use crate::run::{Scene, SceneFn};
use geo::{LineString, MultiPolygon, Polygon};
use geo_crossings::{bops::OpType, BooleanOp};

fn var<T: Dom>(n: String, lo: i64, hi: i64) -> T {
    T::var(&n, Rat::int(lo), Rat::int(hi))
}
/// Edges with the interior on their left.
type Edges<T> = Vec<(P<T>, P<T>)>;

pub fn edges<T: Dom>(polys: &[Polygon<T>]) -> Edges<T> {
    let mut v = vec![];
    for p in polys {
        for (k, r) in std::iter::once(p.exterior()).chain(p.interiors()).enumerate() {
            let ccw = sign(ring_area2(&r.0)) > 0;
            for w in r.0.windows(2) {
                if w[0] == w[1] {
                    continue;
                }
                v.push(if ccw == (k == 0) { (w[0], w[1]) } else { (w[1], w[0]) });
            }
        }
    }
    v
}
fn mid<T: Dom>(p: P<T>, q: P<T>) -> P<T> {
    let h = T::q(1, 2);
    pt((p.x + q.x) * h, (p.y + q.y) * h)
}
/// on_seg with the cheap questions first
fn on<T: Dom>(p: P<T>, e: &(P<T>, P<T>)) -> bool {
    between(p.x, e.0.x, e.1.x) && between(p.y, e.0.y, e.1.y) && orient(e.0, e.1, p) == 0
}
/// Is e directed like p->q (both collinear)?
fn along<T: Dom>(e: &(P<T>, P<T>), p: P<T>, q: P<T>) -> bool {
    (lex(e.0, e.1) < 0) == (lex(p, q) < 0)
}
fn holds(op: OpType, a: bool, b: bool) -> i32 {
    (match op {
        OpType::Intersection => a && b,
        OpType::Union => a || b,
        OpType::Difference => a && !b,
        OpType::Xor => a != b,
    }) as i32
}
/// Where e is met by the edges of the other operand, or touched by its own.
fn cut_points<T: Dom>(e: &(P<T>, P<T>), own: &Edges<T>, all: &Edges<T>) -> Vec<P<T>> {
    let up = lex(e.0, e.1) < 0;
    let mut v = vec![e.0];
    let mut add = |q: P<T>| {
        if same(q, e.0) || same(q, e.1) {
            return;
        }
        let mut i = v.len();
        while i > 1 {
            let o = lex(v[i - 1], q);
            if o == 0 {
                return;
            }
            if (o < 0) == up {
                break;
            }
            i -= 1;
        }
        v.insert(i, q);
    };
    for f in all {
        let (o1, o2) = (orient(e.0, e.1, f.0), orient(e.0, e.1, f.1));
        if o1 * o2 > 0 {
            continue;
        }
        if o1 == 0 || o2 == 0 {
            for (o, q) in [(o1, f.0), (o2, f.1)] {
                if o == 0 && between(q.x, e.0.x, e.1.x) && between(q.y, e.0.y, e.1.y) {
                    add(q)
                }
            }
        } else if orient(f.0, f.1, e.0) * orient(f.0, f.1, e.1) < 0 {
            add(line_cross(e.0, e.1, f.0, f.1));
        }
    }
    for f in own {
        if on(f.0, e) {
            add(f.0);
        }
    }
    v.push(e.1);
    v
}
/// The region covered by `out` is exactly `op` applied to the regions of `a` and `b`.
pub fn check_region<T: Dom>(op: OpType, a: &[Polygon<T>], b: &[Polygon<T>], out: &MultiPolygon<T>) {
    let res = edges(&out.0);
    let (ea, eb) = (edges(a), edges(b));
    // twice the expected area
    let mut want = T::i(0);
    let (mpa, mpb) = (MultiPolygon(a.to_vec()), MultiPolygon(b.to_vec()));
    for first in [true, false] {
        let (own, other, mp) = if first { (&ea, &eb, &mpb) } else { (&eb, &ea, &mpa) };
        for e in own {
            for w in cut_points(e, own, other).windows(2) {
                let (p, q) = (w[0], w[1]);
                let m = mid(p, q);
                // the other operand to the left and to the right of p->q
                let shared = other.iter().find(|f| on(m, f));
                let (l, r) = match shared {
                    Some(f) => {
                        let s = along(f, p, q);
                        (s, !s)
                    }
                    None => {
                        let s = in_mp(m, mp) > 0;
                        (s, s)
                    }
                };
                let k = if first { holds(op, true, l) - holds(op, false, r) } else { holds(op, l, true) - holds(op, r, false) };
                let mut c = 0;
                for f in &res {
                    if on(m, f) {
                        c += if along(f, p, q) { 1 } else { -1 };
                    }
                }
                assert!(c == k, "{:?}: at {:?} on an edge of the {} operand the result has boundary {} instead of {}", op, m, if first { "first" } else { "second" }, c, k);
                if (first || shared.is_none()) && k != 0 {
                    let z = p.x * q.y - p.y * q.x;
                    want = if k > 0 { want + z } else { want - z };
                }
            }
        }
    }
    for f in &res {
        let m = mid(f.0, f.1);
        assert!(ea.iter().chain(eb.iter()).any(|e| on(m, e)), "{:?}: an edge of the result follows no edge of the operands", op);
    }
    let got = res.iter().fold(T::i(0), |s, e| s + (e.0.x * e.1.y - e.0.y * e.1.x));
    assert!(T::same(got, want), "{:?}: twice the area of the result is {} instead of {}", op, got.show(), want.show());
    if !res.is_empty() {
        T::cover("non-empty result");
    }
}
/// The result is made of valid polygons.
pub fn check_shape<T: Dom>(out: &MultiPolygon<T>) {
    let mut all: Vec<(usize, usize, Vec<P<T>>)> = vec![];
    for (i, p) in out.0.iter().enumerate() {
        for (k, r) in std::iter::once(p.exterior()).chain(p.interiors()).enumerate() {
            let c = &r.0;
            assert!(c.len() >= 4, "ring with {} coordinates", c.len());
            assert!(same(c[0], c[c.len() - 1]), "ring is not closed");
            for x in 0..c.len() - 1 {
                for y in 0..x {
                    assert!(!same(c[x], c[y]), "ring visits {:?} twice", c[x]);
                }
            }
            assert!(sign(ring_area2(c)) != 0, "ring without area");
            all.push((i, k, c.clone()));
        }
    }
    // edges meet at common end points only, or an end point touches another ring
    for x in 0..all.len() {
        for y in 0..=x {
            let (rx, ry) = (&all[x].2, &all[y].2);
            for i in 0..rx.len() - 1 {
                for j in 0..if x == y { i } else { ry.len() - 1 } {
                    let (a, b, c, d) = (rx[i], rx[i + 1], ry[j], ry[j + 1]);
                    let (o1, o2) = (orient(a, b, c), orient(a, b, d));
                    if o1 * o2 > 0 {
                        continue;
                    }
                    if o1 == 0 && o2 == 0 {
                        assert!(!overlap(a, b, c, d), "two edges of the result overlap");
                    } else if o1 * o2 < 0 {
                        assert!(orient(c, d, a) * orient(c, d, b) >= 0, "two edges of the result cross");
                    }
                }
            }
        }
    }
    for (i, k, h) in &all {
        if *k == 0 {
            continue;
        }
        // a hole lies in its own exterior and in no other hole of the same polygon
        for (j, l, r) in &all {
            if i != j || k == l {
                continue;
            }
            for w in h.windows(2) {
                let s = in_ring(mid(w[0], w[1]), r);
                if *l == 0 {
                    assert!(s >= 0, "a hole leaves the exterior of its polygon");
                } else {
                    assert!(s <= 0, "a hole lies in another hole of its polygon");
                }
            }
        }
    }
}
#[derive(Clone, Copy, PartialEq)]
pub enum What {
    Region,
    Shape,
    Multi,
}
pub const OPS: [OpType; 4] = [OpType::Intersection, OpType::Union, OpType::Difference, OpType::Xor];
pub fn apply<T: Dom, G: BooleanOp<Scalar = T>>(op: OpType, a: &G, b: &G) -> MultiPolygon<T> {
    match op {
        OpType::Intersection => a.intersection(b),
        OpType::Union => a.union(b),
        OpType::Difference => a.difference(b),
        OpType::Xor => a.xor(b),
    }
}
pub fn judge<T: Dom>(w: What, a: Vec<Polygon<T>>, b: Vec<Polygon<T>>) {
    let op = OPS[T::choose(4)];
    let multi = w == What::Multi || a.len() != 1 || b.len() != 1;
    let out = if multi {
        apply(op, &MultiPolygon(a.clone()), &MultiPolygon(b.clone()))
    } else {
        apply(op, &a[0], &b[0])
    };
    match w {
        What::Region | What::Multi => check_region(op, &a, &b, &out),
        What::Shape => check_shape(&out),
    }
    T::cover("checked");
}
type Co = &'static [(i64, i64)];
/// polygons: rings, the first one the exterior
type Shape = &'static [&'static [Co]];
pub fn place<T: Dom>(s: Shape, o: P<T>) -> Vec<Polygon<T>> {
    let ls = |r: &Co| -> LineString<T> { ring(&r.iter().map(|c| at(o, c.0, c.1)).collect::<Vec<_>>()) };
    s.iter().map(|p| Polygon::new(ls(&p[0]), p[1..].iter().map(ls).collect())).collect()
}
/// The first operand fixed, the second translated by a symbolic vector.
pub struct Translate {
    pub what: What,
    pub pairs: &'static [(Shape, Shape)],
    pub r: i64,
}
impl SceneFn for Translate {
    fn run<T: Dom>(&self) {
        let (a, b) = self.pairs[T::choose(self.pairs.len())];
        let o: P<T> = pt(var("u".into(), -self.r, self.r), var("v".into(), -self.r, self.r));
        let (a, b) = (place(a, ip(0, 0)), place(b, o));
        if T::choose(2) == 0 {
            judge(self.what, a, b)
        } else {
            judge(self.what, b, a)
        }
    }
}
/// A reproducible catalogue of operand pairs; the second operand moves along a line, or freely.
pub struct Catalogue {
    pub what: What,
    pub multi: bool,
    pub from: usize,
    pub count: usize,
    /// vertices of the larger exterior, and coordinates up to
    pub size: (usize, i64),
    pub along: bool,
}
pub fn put<T: Dom>(s: &[Poly], o: P<T>) -> Vec<Polygon<T>> {
    let ls = |r: &Vec<gen::C>| -> LineString<T> { ring(&r.iter().map(|c| at(o, c.0, c.1)).collect::<Vec<_>>()) };
    s.iter().map(|p| Polygon::new(ls(&p[0]), p[1..].iter().map(ls).collect())).collect()
}
impl SceneFn for Catalogue {
    fn run<T: Dom>(&self) {
        let seed = self.from + T::choose(self.count);
        let e = cached(if self.multi { "multi" } else { "bops" }, seed, |r| {
            let (n, b) = self.size;
            let t = r.coin(1, 3) as usize;
            let (a, c) = if self.multi {
                (gen::multi(r, 3, b + 2, t), if r.coin(1, 12) { vec![] } else { gen::multi(r, 2, b, t) })
            } else {
                let n = 3 + r.below(n - 2);
                let h = r.below(3);
                let m = 3 + r.below(2);
                let g = r.coin(1, 6) as usize;
                (vec![gen::poly(r, n, h, b, t)], vec![gen::poly(r, m, g, 2 + g as i64, t)])
            };
            let d = [(1, 0), (0, 1), (1, 1), (1, -1), (2, 1), (0, 0), (0, 0)][r.below(7)];
            let (mut a, c) = (a, c);
            if r.coin(1, 6) {
                // a repeated vertex
                let g = &mut a[0][0];
                let i = r.below(g.len());
                let q = g[i];
                g.insert(i, q);
            }
            (a, c, (r.range(-2, 2), r.range(-2, 2)), d, r.coin(1, 2))
        });
        let (a, b, o, d, swap) = &*e;
        if super::show() {
            println!("operands {:?} and {:?}, the latter at {:?} + t*{:?}, exchanged: {}", a, b, o, d, swap);
        }
        let v = |n: &str| -> T { var(n.into(), -4, 4) };
        let o = if self.along {
            let t = v("t");
            pt(T::i(o.0) + T::i(d.0) * t, T::i(o.1) + T::i(d.1) * t)
        } else {
            pt(v("u"), v("v"))
        };
        let (mut a, mut b) = (put(a, ip(0, 0)), put(b, o));
        if self.along && *d == (0, 0) {
            // shear both instead
            let t = v("s");
            use geo::map_coords::MapCoordsInplace;
            for p in a.iter_mut().chain(b.iter_mut()) {
                p.map_coords_inplace(|c| (c.0 + t * c.1, c.1));
            }
        }
        if *swap {
            judge(self.what, b, a)
        } else {
            judge(self.what, a, b)
        }
    }
}
/// Axis-parallel rectangles, the second with four symbolic sides.
pub struct Rects {
    pub what: What,
    pub hole: bool,
}
impl SceneFn for Rects {
    fn run<T: Dom>(&self) {
        let a: Vec<Polygon<T>> = place(if self.hole { FRAME } else { SQUARE }, ip(0, 0));
        let v = |n: &str| -> T { var(n.into(), -4, 4) };
        let (x0, x1, y0, y1) = (v("x0"), v("x1"), v("y0"), v("y1"));
        T::assume_lt(x0, x1);
        T::assume_lt(y0, y1);
        let b = vec![Polygon::new(ring(&[pt(x0, y0), pt(x1, y0), pt(x1, y1), pt(x0, y1)]), vec![])];
        judge(self.what, a, b)
    }
}
/// The second operand is a triangle with a free vertex.
pub struct Vertex {
    pub what: What,
    pub a: &'static [Shape],
    pub bases: &'static [[(i64, i64); 2]],
}
impl SceneFn for Vertex {
    fn run<T: Dom>(&self) {
        let a = place(self.a[T::choose(self.a.len())], ip(0, 0));
        let e = self.bases[T::choose(self.bases.len())];
        let (p, q): (P<T>, P<T>) = (ip(e[0].0, e[0].1), ip(e[1].0, e[1].1));
        let c = pt(var("x".into(), -5, 5), var("y".into(), -5, 5));
        if orient(p, q, c) == 0 {
            return;
        }
        let b = vec![Polygon::new(ring(&[p, q, c]), vec![])];
        judge(self.what, a, b)
    }
}
const SQUARE: Shape = &[&[&[(-2, -2), (2, -2), (2, 2), (-2, 2)]]];
const FRAME: Shape = &[&[&[(-3, -3), (3, -3), (3, 3), (-3, 3)], &[(-1, -1), (-1, 1), (1, 1), (1, -1)]]];
const TRI: Shape = &[&[&[(0, 0), (3, 1), (1, 3)]]];
const TRI2: Shape = &[&[&[(0, 0), (-1, 3), (-3, -1)]]];
const DIAMOND: Shape = &[&[&[(-2, 0), (0, -2), (2, 0), (0, 2)]]];
const UNIT: Shape = &[&[&[(0, 0), (2, 0), (2, 2), (0, 2)]]];
const ELL: Shape = &[&[&[(0, 0), (4, 0), (4, 2), (2, 2), (2, 4), (0, 4)]]];
const YOU: Shape = &[&[&[(0, 0), (5, 0), (5, 3), (4, 3), (4, 1), (1, 1), (1, 3), (0, 3)]]];
const BOW: Shape = &[&[&[(0, 0), (2, 1), (4, 0), (3, 2), (4, 4), (2, 3), (0, 4), (1, 2)]]];
const DHOLE: Shape = &[&[&[(-3, 0), (0, -3), (3, 0), (0, 3)], &[(-1, 0), (0, 1), (1, 0), (0, -1)]]];
const TWO: Shape = &[&[&[(-3, -1), (-1, -1), (-1, 1), (-3, 1)]], &[&[(1, -1), (3, -1), (3, 1), (1, 1)]]];
const TWOT: Shape = &[&[&[(0, 0), (2, 0), (0, 2)]], &[&[(3, 0), (3, 3), (1, 3)]]];
const NEST: Shape = &[
    &[&[(-4, -4), (4, -4), (4, 4), (-4, 4)], &[(-3, -3), (-3, 3), (3, 3), (3, -3)]],
    &[&[(-1, -1), (1, -1), (1, 1), (-1, 1)]],
];
const NONE: Shape = &[];
pub fn scenes(v: &mut Vec<Scene>) {
    for (p, what) in [("C06", What::Region), ("C08", What::Shape)] {
        v.push(Scene::new(p, "rects", 0, Rects { what, hole: false }));
        v.push(Scene::new(p, "vertex", 0, Vertex { what, a: &[SQUARE], bases: &[[(-3, 0), (3, 0)], [(-2, 2), (0, -3)], [(0, 0), (1, 1)]] }));
        v.push(Scene::new(p, "catalogue-line", 0, Catalogue { what, multi: false, from: 0, count: 200, size: (6, 3), along: true }));
        v.push(Scene::new(p, "translate-convex", 0, Translate { what, pairs: &[(SQUARE, UNIT), (TRI, DIAMOND)], r: 5 }));
        v.push(Scene::new(p, "translate-concave", 0, Translate { what, pairs: &[(ELL, UNIT)], r: 5 }));
        v.push(Scene::new(p, "translate-more", 1, Translate { what, pairs: &[(TRI, TRI2), (TRI, TRI), (SQUARE, DIAMOND), (YOU, DIAMOND), (ELL, TRI), (FRAME, UNIT), (FRAME, DIAMOND), (DHOLE, TRI)], r: 5 }));
        v.push(Scene::new(p, "catalogue-line-more", 1, Catalogue { what, multi: false, from: 1000, count: 1500, size: (8, 4), along: true }));
        v.push(Scene::new(p, "catalogue", 1, Catalogue { what, multi: false, from: 10000, count: 200, size: (6, 3), along: false }));
        v.push(Scene::new(p, "rects-hole", 1, Rects { what, hole: true }));
        v.push(Scene::new(p, "translate-large", 1, Translate { what, pairs: &[(YOU, ELL), (BOW, DIAMOND), (FRAME, DHOLE), (FRAME, FRAME), (BOW, ELL)], r: 6 }));
        v.push(Scene::new(p, "vertex-hole", 1, Vertex { what, a: &[FRAME, ELL], bases: &[[(-3, 0), (3, 0)], [(-2, 2), (0, -3)], [(0, 0), (1, 1)]] }));
    }
    v.push(Scene::new("C08", "multi-line", 0, Catalogue { what: What::Shape, multi: true, from: 5000, count: 100, size: (4, 3), along: true }));
    v.push(Scene::new("C08", "multi-line-more", 1, Catalogue { what: What::Shape, multi: true, from: 6000, count: 600, size: (4, 3), along: true }));
    v.push(Scene::new("C07", "multi-line", 0, Catalogue { what: What::Multi, multi: true, from: 5000, count: 100, size: (4, 3), along: true }));
    v.push(Scene::new("C07", "multi-line-more", 1, Catalogue { what: What::Multi, multi: true, from: 6000, count: 1000, size: (4, 3), along: true }));
    v.push(Scene::new("C07", "translate-multi", 0, Translate { what: What::Multi, pairs: &[(TWO, UNIT), (TWO, DIAMOND), (TWO, NONE)], r: 5 }));
    v.push(Scene::new("C07", "translate-multi-2", 0, Translate { what: What::Multi, pairs: &[(TWO, TWO), (TWO, TWOT), (NEST, UNIT)], r: 5 }));
    v.push(Scene::new("C07", "translate-nest", 1, Translate { what: What::Multi, pairs: &[(NEST, FRAME), (NEST, TWO)], r: 5 }));
}
