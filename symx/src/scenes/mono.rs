//! C09: decomposition into monotone pieces.
use super::gen::{self, cached};
use super::geom::*;
use crate::dom::Dom;
use crate::int::Rat;
use crate::run::{Scene, SceneFn};
use geo::{LineString, Polygon};
use geo_crossings::{monotone_chains, MonotoneSweep};

fn var<T: Dom>(n: String, lo: i64, hi: i64) -> T {
    T::var(&n, Rat::int(lo), Rat::int(hi))
}
type Ring<T> = Vec<P<T>>;

/// Rings (open vertex lists) of one valid polygon: all vertices distinct, edges meet only at common vertices.
fn valid<T: Dom>(rings: &[Ring<T>]) -> bool {
    let mut e: Vec<(usize, usize, P<T>, P<T>)> = vec![];
    for (k, r) in rings.iter().enumerate() {
        for i in 0..r.len() {
            e.push((k, i, r[i], r[(i + 1) % r.len()]));
        }
    }
    for a in 0..e.len() {
        for b in 0..a {
            let (ea, eb) = (e[a], e[b]);
            let n = rings[ea.0].len();
            if ea.0 == eb.0 && ((eb.1 + 1) % n == ea.1 || (ea.1 + 1) % n == eb.1) {
                // neighbours: must not fold back
                let (p, q, s) = if (eb.1 + 1) % n == ea.1 { (eb.2, ea.2, ea.3) } else { (ea.2, eb.2, eb.3) };
                if same(p, q) || same(q, s) {
                    return false;
                }
                if orient(p, q, s) == 0 && sign((q.x - p.x) * (s.x - q.x) + (q.y - p.y) * (s.y - q.y)) < 0 {
                    return false;
                }
            } else if segs_meet(ea.2, ea.3, eb.2, eb.3) {
                return false;
            }
        }
    }
    // holes inside the exterior and outside each other
    for k in 1..rings.len() {
        if in_ring(rings[k][0], &ring(&rings[0]).0) != 1 {
            return false;
        }
        for j in 1..rings.len() {
            if j != k && in_ring(rings[k][0], &ring(&rings[j]).0) == 1 {
                return false;
            }
        }
    }
    true
}
/// C15: the events of the decomposition sweep.
fn check_events<T: Dom>(rings: &[Ring<T>], poly: &Polygon<T>) {
    let mut left: Vec<(P<T>, P<T>, P<T>)> = vec![];
    for (k, r) in rings.iter().enumerate() {
        let n = r.len();
        let inside_left = (sign(ring_area2(&ring(r).0)) > 0) == (k == 0);
        for i in 0..n {
            let (a, b) = (r[(i + n - 1) % n], r[(i + 1) % n]);
            left.push(if inside_left { (a, r[i], b) } else { (b, r[i], a) });
        }
    }
    let mut last: Option<P<T>> = None;
    for e in Box::pin(MonotoneSweep::from_polygon(poly)) {
        let p = e.pt.coord();
        if let Some(l) = last {
            assert!(lex(l, p) < 0, "events out of order: {:?} then {:?}", l, p);
        }
        last = Some(p);
        let i = left.iter().position(|v| same(v.1, p)).unwrap_or_else(|| panic!("event at {:?}, which is no vertex", p));
        let (a, v, b) = left.remove(i);
        // interior to the left of a->v->b
        let (oa, ob) = (lex(a, v), lex(b, v));
        let convex = orient(a, v, b) > 0;
        let want = match (oa < 0, ob < 0) {
            (true, true) => ["Merge", "End"][convex as usize],
            (false, false) => ["Split", "Start"][convex as usize],
            _ => "Continue",
        };
        assert_eq!(format!("{:?}", e.ty), want, "kind of the vertex {:?}", p);
    }
    assert!(left.is_empty(), "no event at {} of the vertices", left.len());
    T::cover("checked");
}
pub fn check<T: Dom>(events: bool, rings: &[Ring<T>], turn: usize) {
    let ls = |i: usize| {
        let mut r = rings[i].clone();
        if turn >> (i.min(1)) & 1 == 1 {
            r.reverse();
        }
        if turn & 4 != 0 {
            // a repeated vertex
            let q = r[r.len() / 2];
            r.insert(r.len() / 2, q);
        }
        ring(&r)
    };
    let poly: Polygon<T> = Polygon::new(ls(0), (1..rings.len()).map(ls).collect());
    if events {
        return check_events(rings, &poly);
    }
    let verts: Vec<P<T>> = rings.iter().flatten().cloned().collect();
    let n = verts.len();
    let pieces = monotone_chains(&poly);
    // directed edges between input vertices, counted with sign; left of an edge is inside
    let mut count = vec![0i32; n * n];
    let mut total = T::i(0);
    let find = |p: P<T>| -> usize {
        verts.iter().position(|v| v.x.same_bits(p.x) && v.y.same_bits(p.y)).or_else(|| verts.iter().position(|v| same(*v, p))).expect("a piece has a vertex that the polygon does not have")
    };
    for m in &pieces {
        let (t, b): (&LineString<T>, &LineString<T>) = (m.top(), m.bot());
        for c in [t, b] {
            for w in c.0.windows(2) {
                assert!(lex(w[0], w[1]) < 0, "a chain is not monotone");
            }
        }
        let mut ring: Vec<P<T>> = b.0.clone();
        ring.extend(t.0.iter().rev().skip(1).cloned());
        let a = ring_area2(&ring);
        assert!(sign(a) > 0, "a piece without area, or top and bottom exchanged");
        total = total + a;
        // top nowhere below bottom
        for (c, d, s) in [(t, b, 1), (b, t, -1)] {
            for v in &c.0 {
                for w in d.0.windows(2) {
                    if lex(w[0], *v) <= 0 && lex(*v, w[1]) <= 0 {
                        assert!(orient(w[0], w[1], *v) * s >= 0, "top chain passes below the bottom chain");
                    }
                }
            }
        }
        for w in ring.windows(2) {
            let (i, j) = (find(w[0]), find(w[1]));
            // cut the edge at the input vertices on it
            let mut on: Vec<usize> = (0..n).filter(|k| *k != i && *k != j && on_seg(verts[*k], w[0], w[1])).collect();
            let up = lex(w[0], w[1]) < 0;
            on.sort_by(|x, y| {
                let o = lex(verts[*x], verts[*y]).cmp(&0);
                if up {
                    o
                } else {
                    o.reverse()
                }
            });
            on.insert(0, i);
            on.push(j);
            for e in on.windows(2) {
                count[e[0] * n + e[1]] += 1;
                count[e[1] * n + e[0]] -= 1;
            }
        }
    }
    let mut base = 0;
    let mut area = T::i(0);
    for (k, r) in rings.iter().enumerate() {
        let l = r.len();
        let a = ring_area2(&ring(r).0);
        let ccw = sign(a) > 0;
        area = if k == 0 { area + abs(a) } else { area - abs(a) };
        for i in 0..l {
            let (p, q) = (base + i, base + (i + 1) % l);
            let (p, q) = if ccw == (k == 0) { (p, q) } else { (q, p) };
            count[p * n + q] -= 1;
            count[q * n + p] += 1;
        }
        base += l;
    }
    assert!(T::same(total, area), "areas of the pieces sum to {}, the polygon has {} (twice the areas)", total.show(), area.show());
    assert!(count.iter().all(|c| *c == 0), "the boundaries of the pieces do not add up to the boundary of the polygon");
    if pieces.len() > 1 {
        T::cover("several pieces");
    }
    T::cover("checked");
}

/// Vertices at heights 0,1,2,..; abscissae symbolic, each on the left or the right side.
pub struct Heights {
    pub events: bool,
    /// sides from bottom to top, 'l' or 'r'
    pub sides: &'static [&'static str],
    pub hole: bool,
}
impl SceneFn for Heights {
    fn run<T: Dom>(&self) {
        let s = self.sides[T::choose(self.sides.len())];
        let turn = T::choose(if self.hole { 4 } else { 2 });
        let n = s.len() as i64;
        let top: P<T> = pt(T::i(0), T::i(n + 1));
        let bot: P<T> = pt(T::i(0), T::i(0));
        let mut right = vec![bot];
        let mut left = vec![];
        for (i, c) in s.chars().enumerate() {
            let h = T::i(i as i64 + 1);
            if c == 'l' {
                left.push(pt(var(format!("x{}", i + 1), -4, -1), h));
            } else {
                right.push(pt(var(format!("x{}", i + 1), 1, 4), h));
            }
        }
        right.push(top);
        left.reverse();
        right.extend(left);
        let mut rings = vec![right];
        if self.hole {
            let m = T::i((n + 1) / 2);
            let q = T::q(1, 2);
            rings.push(match T::choose(3) {
                0 => vec![pt(-q, m), pt(T::i(0), m - q), pt(q, m), pt(T::i(0), m + q)],
                1 => vec![pt(-q, m - q), pt(q, m - q), pt(q, m + q), pt(-q, m + q)],
                _ => vec![pt(-q, m - q), pt(q, m), pt(-q, m + q), pt(T::i(0), m)],
            });
            if !valid(&rings) {
                return;
            }
        }
        check(self.events, &rings, turn);
    }
}
type Co = &'static [(i64, i64)];
/// A concrete polygon of which some vertices move freely, as far as it stays valid.
pub struct Move {
    pub events: bool,
    pub polys: &'static [&'static [Co]],
    pub n: usize,
    pub r: i64,
}
impl SceneFn for Move {
    fn run<T: Dom>(&self) {
        let p = self.polys[T::choose(self.polys.len())];
        let turn = T::choose(if p.len() > 1 { 4 } else { 2 });
        let mut rings: Vec<Ring<T>> = p.iter().map(|r| r.iter().map(|c| ip(c.0, c.1)).collect()).collect();
        let total: usize = p.iter().map(|r| r.len()).sum();
        let first = T::choose(total);
        for k in 0..self.n {
            let mut i = (first + k) % total;
            let mut j = 0;
            while i >= rings[j].len() {
                i -= rings[j].len();
                j += 1;
            }
            let c = p[j][i];
            rings[j][i] = pt(var(format!("x{}", k), c.0 - self.r, c.0 + self.r), var(format!("y{}", k), c.1 - self.r, c.1 + self.r));
        }
        if !valid(&rings) {
            return;
        }
        check(self.events, &rings, turn);
    }
}
/// Concrete exterior, holes that move as a whole.
pub struct Holes {
    pub events: bool,
    pub ext: &'static [Co],
    pub holes: &'static [&'static [Co]],
    pub r: i64,
}
impl SceneFn for Holes {
    fn run<T: Dom>(&self) {
        let e = self.ext[T::choose(self.ext.len())];
        let hs = self.holes[T::choose(self.holes.len())];
        let turn = T::choose(4);
        let mut rings: Vec<Ring<T>> = vec![e.iter().map(|c| ip(c.0, c.1)).collect()];
        for (k, h) in hs.iter().enumerate() {
            let o: P<T> = pt(var(format!("u{}", k), -self.r, self.r), var(format!("v{}", k), -self.r, self.r));
            rings.push(h.iter().map(|c| at(o, c.0, c.1)).collect());
        }
        if !valid(&rings) {
            return;
        }
        check(self.events, &rings, turn);
    }
}
/// Vertices on fixed rays with symbolic distance.
pub struct Star {
    pub events: bool,
    pub dirs: &'static [Co],
}
impl SceneFn for Star {
    fn run<T: Dom>(&self) {
        let d = self.dirs[T::choose(self.dirs.len())];
        let r: Vec<P<T>> = d
            .iter()
            .enumerate()
            .map(|(i, c)| {
                let s: T = var(format!("r{}", i), 1, 3);
                pt(s * T::i(c.0), s * T::i(c.1))
            })
            .collect();
        check(self.events, &[r], T::choose(2));
    }
}
/// A reproducible catalogue of polygons with up to two holes, deformed by one parameter.
pub struct Catalogue {
    pub events: bool,
    pub from: usize,
    pub count: usize,
    pub size: (usize, i64),
}
impl SceneFn for Catalogue {
    fn run<T: Dom>(&self) {
        let seed = self.from + T::choose(self.count);
        let e = cached("mono", seed, |r| {
            let n = 4 + r.below(self.size.0 - 3);
            let h = if n <= 8 { r.below(3) } else { 0 };
            let p = gen::poly(r, n, h, self.size.1, 0);
            let total: usize = p.iter().map(|r| r.len()).sum();
            let mode = if p.len() > 1 { r.below(3) } else { r.below(2) };
            let d = [(1, 0), (0, 1), (1, 1), (1, -1), (2, 1), (1, 2)][r.below(6)];
            (p, mode, r.below(total), d, r.below(4) + 4 * r.coin(1, 6) as usize)
        });
        let (p, mode, which, d, turn) = &*e;
        if super::show() {
            println!("rings {:?}, mode {}, vertex {}, direction {:?}, turn {}", p, mode, which, d, turn);
        }
        let t: T = var("t".into(), -3, 3);
        let mut rings: Vec<Ring<T>> = p.iter().map(|r| r.iter().map(|c| ip(c.0, c.1)).collect()).collect();
        let go = |p: P<T>| pt(p.x + T::i(d.0) * t, p.y + T::i(d.1) * t);
        match mode {
            0 => {
                for r in rings.iter_mut() {
                    for p in r.iter_mut() {
                        p.x = p.x + t * p.y;
                    }
                }
            }
            1 => {
                let mut i = *which;
                for r in rings.iter_mut() {
                    if i < r.len() {
                        r[i] = go(r[i]);
                        break;
                    }
                    i -= r.len();
                }
            }
            _ => {
                for p in rings[1].iter_mut() {
                    *p = go(*p);
                }
            }
        }
        if *mode != 0 && !valid(&rings) {
            return;
        }
        check(self.events, &rings, *turn);
    }
}
const POLYS: &[&[Co]] = &[
    // zig-zag on both sides
    &[&[(0, 0), (6, -2), (3, 1), (7, 3), (2, 3), (4, 6), (-1, 5), (1, 2)]],
    // comb
    &[&[(0, 0), (8, 0), (8, 4), (6, 1), (5, 5), (3, 1), (2, 4), (0, 3)]],
    // spiral
    &[&[(0, 0), (8, 0), (8, 6), (2, 6), (2, 2), (5, 2), (5, 4), (6, 4), (6, 1), (0, 1)]],
    // with a hole
    &[&[(0, 0), (8, -1), (7, 7), (3, 5), (-1, 7)], &[(2, 1), (5, 1), (4, 3), (3, 2)]],
    // square with a square hole
    &[&[(0, 0), (6, 0), (6, 6), (0, 6)], &[(2, 2), (4, 2), (4, 4), (2, 4)]],
];
pub fn scenes(v: &mut Vec<Scene>) {
    for (p, events) in [("C09", false), ("C15", true)] {
    v.push(Scene::new(p, "heights-5", 0, Heights { events, sides: &["lrlrl", "llrrl"], hole: false }));
    v.push(Scene::new(p, "heights-5-more", 1, Heights { events, sides: &["lllll", "rrlrr", "lrrlr"], hole: false }));
    v.push(Scene::new(p, "catalogue", 0, Catalogue { events, from: 0, count: 1500, size: (11, 4) }));
    v.push(Scene::new(p, "catalogue-more", 1, Catalogue { events, from: 10000, count: 20000, size: (14, 5) }));
    v.push(Scene::new(p, "heights-hole", 0, Heights { events, sides: &["lrl", "llrr", "rrll"], hole: true }));
    v.push(Scene::new(p, "move-1", 0, Move { events, polys: POLYS, n: 1, r: 3 }));
    v.push(Scene::new(p, "move-2", 1, Move { events, polys: POLYS, n: 2, r: 3 }));
    v.push(Scene::new(
        p,
        "holes",
        0,
        Holes {
            events,
            ext: &[&[(-4, -4), (4, -4), (4, 4), (-4, 4)], &[(-5, 0), (0, -5), (5, 0), (2, 2), (0, 5)], &[(-5, -3), (5, -4), (2, 0), (5, 4), (-5, 3), (-2, 0)]],
            holes: &[&[&[(0, 0), (2, 0), (1, 2)]], &[&[(0, 0), (2, 2), (0, 1), (-2, 2)]]],
            r: 5,
        },
    ));
    v.push(Scene::new(
        p,
        "holes-2",
        1,
        Holes {
            events,
            ext: &[&[(-4, -4), (4, -4), (4, 4), (-4, 4)]],
            holes: &[&[&[(0, 0), (2, 0), (1, 2)], &[(0, 0), (2, 1), (0, 2)]]],
            r: 4,
        },
    ));
    v.push(Scene::new(p, "star-6", 0, Star { events, dirs: &[&[(2, 0), (1, 2), (-1, 2), (-2, 0), (-1, -2), (1, -2)], &[(2, 1), (0, 2), (-2, 1), (-2, -1), (0, -2), (2, -1)]] }));
    v.push(Scene::new(p, "heights-7", 1, Heights { events, sides: &["lrlrlrl", "llrrllr", "lllllll", "rrrlrrr"], hole: false }));
    }
}
