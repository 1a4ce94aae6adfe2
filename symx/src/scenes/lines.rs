//! C04, C05: the `LineOrPoint` / `SweepPoint` leaf operations.
use super::geom::*;
use crate::dom::Dom;
use crate::int::Rat;
use crate::run::{Scene, SceneFn};
use geo::Line;
use geo_crossings::{LineOrPoint, SweepPoint};
use std::cmp::Ordering;

fn v<T: Dom>(n: &str, r: i64) -> T {
    T::var(n, Rat::int(-r), Rat::int(r))
}
fn vp<T: Dom>(n: &str, r: i64) -> P<T> {
    pt(v(&format!("{}x", n), r), v(&format!("{}y", n), r))
}
fn ends<T: Dom>(l: &LineOrPoint<T>) -> (P<T>, P<T>) {
    let l = l.line();
    (l.start, l.end)
}

/// C05: two segments, the first over a menu of concrete directions (or free), the second free.
pub struct Isect {
    pub free: bool,
}
const DIRS: [(i64, i64); 8] = [(3, 0), (0, 3), (3, 3), (2, -3), (4, 1), (-1, 3), (-3, 0), (-2, -4)];
impl SceneFn for Isect {
    fn run<T: Dom>(&self) {
        let a = if self.free { vp("a", 4) } else { ip(0, 0) };
        let b = if self.free {
            vp("b", 4)
        } else {
            let d = DIRS[T::choose(DIRS.len())];
            ip(d.0, d.1)
        };
        let c: P<T> = vp("c", 5);
        let d: P<T> = vp("d", 5);
        let l1 = LineOrPoint::from(Line { start: a, end: b });
        let l2 = LineOrPoint::from(Line { start: c, end: d });
        if !l1.is_line() && !l2.is_line() {
            return;
        }
        let (l1, l2) = if l2.is_line() { (l1, l2) } else { (l2, l1) };
        check_isect(&l1, &l2);
        if l1.is_line() {
            check_isect(&l2, &l1);
        }
        T::cover("checked");
    }
}
fn check_isect<T: Dom>(l1: &LineOrPoint<T>, l2: &LineOrPoint<T>) {
    let ((a, b), (c, d)) = (ends(l1), ends(l2));
    let exp = segs_meet(a, b, c, d);
    for ordered in [false, true] {
        let r = if ordered { l1.intersect_line_ordered(l2) } else { l1.intersect_line(l2) };
        match r {
            None => assert!(!exp, "intersecting segments reported as disjoint"),
            Some(x) => {
                assert!(exp, "disjoint segments reported as intersecting");
                let (s, e) = ends(&x);
                for q in [s, e] {
                    assert!(on_seg(q, a, b), "reported intersection {:?} is off the first segment", q);
                    assert!(on_seg(q, c, d), "reported intersection {:?} is off the second segment", q);
                }
                assert_eq!(x.is_line(), overlap(a, b, c, d), "kind of intersection");
                if x.is_line() {
                    T::cover("overlap");
                    // the overlap ends where one of the inputs ends, on both sides
                    assert!(lex(s, e) < 0, "overlap end points out of order");
                    assert!(same(s, a) || same(s, c), "overlap starts inside both segments");
                    assert!(same(e, b) || same(e, d), "overlap ends inside both segments");
                } else {
                    T::cover("point");
                    assert!(same(s, e));
                }
            }
        }
    }
}

/// C04a: construction.
pub struct Normal;
impl SceneFn for Normal {
    fn run<T: Dom>(&self) {
        let (a, b): (P<T>, P<T>) = (vp("a", 4), vp("b", 4));
        let l = LineOrPoint::from(Line { start: a, end: b });
        let (s, e) = ends(&l);
        assert_eq!(l.is_line(), !same(a, b), "variant");
        assert!(same(s, a) && same(e, b) || same(s, b) && same(e, a), "end points changed");
        assert!(lex(s, e) <= 0, "end points out of order");
        assert!(same(l.second().coord(), e), "second()");
        let m = LineOrPoint::from(Line { start: b, end: a });
        let (s2, e2) = ends(&m);
        assert!(same(s, s2) && same(e, e2), "direction of the input matters");
        let p = LineOrPoint::from(a);
        assert!(!p.is_line() && same(p.line().start, a) && same(p.line().end, a));
        T::cover("checked");
    }
}
/// C04b: SweepPoint is lexicographically ordered, totally.
pub struct Points;
impl SceneFn for Points {
    fn run<T: Dom>(&self) {
        let c: Vec<P<T>> = ["a", "b", "c"].iter().map(|n| vp(n, 2)).collect();
        let s: Vec<SweepPoint<T>> = c.iter().map(|c| SweepPoint::from(*c)).collect();
        for i in 0..3 {
            assert!(same(s[i].coord(), c[i]), "coord()");
            for j in 0..3 {
                let o = match lex(c[i], c[j]) {
                    -1 => Ordering::Less,
                    0 => Ordering::Equal,
                    _ => Ordering::Greater,
                };
                assert_eq!(s[i].cmp(&s[j]), o, "cmp");
                assert_eq!(s[i].partial_cmp(&s[j]), Some(o), "partial_cmp");
                assert_eq!(s[i] == s[j], o == Ordering::Equal, "eq");
            }
        }
        T::cover("checked");
    }
}
/// value of the segment at abscissa x for a non-vertical segment, or the y of the left end
fn below<T: Dom>(l: (P<T>, P<T>), m: (P<T>, P<T>)) -> Option<Ordering> {
    // the documented order: both left ends strictly smaller than both right ends
    let ((a, b), (c, d)) = (l, m);
    if lex(a, d) >= 0 || lex(c, b) >= 0 {
        return None;
    }
    // compare at the later left end, then (if equal there) right after it
    let o = if lex(a, c) <= 0 {
        match orient(a, b, c) {
            0 => orient(a, b, d),
            s => s,
        }
    } else {
        match orient(c, d, a) {
            0 => -orient(c, d, b),
            s => -s,
        }
    };
    Some(match o {
        1 => Ordering::Less,
        0 => Ordering::Equal,
        _ => Ordering::Greater,
    })
}
/// C04c: sweep order of two lines.
pub struct Order2;
impl SceneFn for Order2 {
    fn run<T: Dom>(&self) {
        let d = DIRS[T::choose(DIRS.len())];
        let l = LineOrPoint::from(Line { start: ip::<T>(0, 0), end: ip(d.0, d.1) });
        let m = LineOrPoint::from(Line { start: vp("c", 5), end: vp("d", 5) });
        let (o1, o2) = (l.partial_cmp(&m), m.partial_cmp(&l));
        assert_eq!(o1.map(Ordering::reverse), o2, "order is not antisymmetric");
        assert_eq!(l == m, o1 == Some(Ordering::Equal), "== disagrees with the order");
        if m.is_line() {
            // outside the documented precondition nothing is promised beyond antisymmetry
            if let Some(o) = below(ends(&l), ends(&m)) {
                assert_eq!(o1, Some(o), "order of two lines");
                T::cover("lines");
            }
        } else {
            let ((a, b), (p, _)) = (ends(&l), ends(&m));
            let e = if lex(p, a) < 0 || lex(p, b) > 0 {
                None
            } else {
                // a point is an infinitesimal vertical segment: on the line, it comes first
                Some(if orient(a, b, p) > 0 { Ordering::Less } else { Ordering::Greater })
            };
            assert_eq!(o1, e, "order of a line and a point");
            T::cover("point");
        }
        T::cover("checked");
    }
}
/// C04d: transitivity among pairwise non-crossing, mutually comparable lines.
pub struct Trans;
impl SceneFn for Trans {
    fn run<T: Dom>(&self) {
        const D: [(i64, i64); 4] = [(4, 0), (0, 4), (4, 2), (2, -4)];
        let n = T::choose(D.len());
        let m = T::choose(D.len());
        let o: P<T> = vp("o", 5);
        let l = LineOrPoint::from(line(ip::<T>(0, 0), ip(D[n].0, D[n].1)));
        let k = LineOrPoint::from(line(o, at(o, D[m].0, D[m].1)));
        let j = LineOrPoint::from(line(vp("c", 5), vp("d", 5)));
        let s = [l, k, j];
        for x in 0..3 {
            for y in 0..x {
                let ((a, b), (c, d)) = (ends(&s[x]), ends(&s[y]));
                if lex(a, d) >= 0 || lex(c, b) >= 0 {
                    return;
                }
                // crossing in both interiors: not simultaneously ordered by the sweep
                if orient(a, b, c) * orient(a, b, d) < 0 && orient(c, d, a) * orient(c, d, b) < 0 {
                    return;
                }
            }
        }
        for p in [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]] {
            let f = |x: usize, y: usize| s[p[x]].partial_cmp(&s[p[y]]);
            if f(0, 1) != Some(Ordering::Greater) && f(1, 2) != Some(Ordering::Greater) {
                assert!(f(0, 2).is_some() && f(0, 2) != Some(Ordering::Greater), "order is not transitive");
            }
        }
        T::cover("checked");
    }
}

pub fn scenes(v: &mut Vec<Scene>) {
    v.push(Scene::new("C05", "segment-vs-menu", 0, Isect { free: false }));
    v.push(Scene::new("C05", "two-free-segments", 1, Isect { free: true }));
    v.push(Scene::new("C04", "normalise", 0, Normal));
    v.push(Scene::new("C04", "points", 0, Points));
    v.push(Scene::new("C04", "order2", 0, Order2));
    v.push(Scene::new("C04", "transitive", 0, Trans));
}
