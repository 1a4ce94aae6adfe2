//! C19, C20: what has to hold although every operation rounds.
use crate::fp::*;
use geo::{Coordinate, Line, LineString};
use geo_crossings::monotone::MonoPoly;
use geo_crossings::{Intersections, LineOrPoint, SweepPoint};

pub type P<T> = Coordinate<T>;
pub type R = (f64, f64);
fn v<T: FDom>(n: &str, r: R) -> T {
    T::var(n, r.0, r.1)
}
pub fn point<T: FDom>(n: &str, r: R) -> P<T> {
    Coordinate { x: v(&format!("{}.x", n), r), y: v(&format!("{}.y", n), r) }
}
pub fn lt<T: FDom>(a: P<T>, b: P<T>) -> bool {
    a.x < b.x || a.x == b.x && a.y < b.y
}
/// A monotone polygon, however thin, given by exact conditions: the inner corners of its chains are
/// free, and so are its ends, unless they come from a menu.
#[derive(Clone, Copy)]
pub struct Shape {
    pub r: R,
    pub top: usize,
    pub bot: usize,
    pub ends: &'static [[f64; 4]],
    /// the first (the last) edge of the top (of the bottom) is vertical
    pub upright: bool,
}
impl Shape {
    fn poly<T: FDom>(&self) -> MonoPoly<T> {
        let (a, z): (P<T>, P<T>) = from_menu(self.ends, self.r);
        T::assume_lt(a.x, z.x);
        let mut top = vec![a];
        let mut bot = vec![a];
        for (c, n, s) in [(&mut top, self.top, "t"), (&mut bot, self.bot, "b")] {
            for i in 0..n {
                let mut p: P<T> = point(&format!("{}{}", s, i), self.r);
                if self.upright && s == "t" && i == 0 {
                    p.x = a.x;
                    T::assume_lt(a.y, p.y);
                } else if self.upright && s == "b" && i + 1 == n {
                    p.x = z.x;
                    T::assume_lt(p.y, z.y);
                } else {
                    T::assume_lt(c[i].x, p.x);
                }
                c.push(p);
            }
            if !(self.upright && s == "b") {
                T::assume_lt(c[n].x, z.x);
            }
            c.push(z);
        }
        // every inner corner is strictly on its side of the other chain
        for (c, o, up) in [(&top, &bot, true), (&bot, &top, false)] {
            for p in &c[1..c.len() - 1] {
                for w in o.windows(2) {
                    if w[0].x <= p.x && p.x <= w[1].x && w[0].x < w[1].x {
                        if up {
                            T::assume_left(w[0], w[1], *p);
                        } else {
                            T::assume_left(*p, w[1], w[0]);
                        }
                    }
                }
            }
        }
        MonoPoly::new(LineString(top), LineString(bot))
    }
}
fn bbox<T: FDom>(m: &MonoPoly<T>) -> (T, T) {
    let (mut lo, mut hi) = (m.top().0[0].y, m.top().0[0].y);
    for c in m.top().0.iter().chain(m.bot().0.iter()) {
        lo = lo.min(c.y);
        hi = hi.max(c.y);
    }
    (lo, hi)
}
pub struct Scan {
    pub s: Shape,
    pub untils: usize,
}
impl FSceneFn for Scan {
    fn run<T: FDom>(&self) {
        let m: MonoPoly<T> = self.s.poly();
        let by_fn = T::choose(2) == 1;
        let (lo, hi) = bbox(&m);
        let (x0, x1) = (m.top().0[0].x, m.top().0[m.top().0.len() - 1].x);
        let mut sc = m.scan_lines(T::c(self.s.r.0));
        let mut cur = x0;
        for i in 0..self.untils {
            let u: T = v(&format!("u{}", i), self.s.r);
            let mut got = vec![];
            if by_fn {
                sc.advance_upto(u, |t| got.push(t));
            } else {
                got.extend(sc.advance_to(u));
            }
            let target = if u < cur {
                cur
            } else if x1 < u {
                x1
            } else {
                u
            };
            for t in &got {
                assert!(t.left.x == cur && t.left.x < t.right.x && t.right.x <= target, "abscissae of a trapezoid");
                cur = t.right.x;
                for s in [t.left, t.right] {
                    assert!(s.bot <= s.top, "the bottom of a trapezoid is above its top");
                    assert!(lo <= s.bot && s.top <= hi, "a trapezoid leaves the bounding box");
                    for (c, y, up) in [(m.top(), s.top, true), (m.bot(), s.bot, false)] {
                        let mut at: Option<T> = None;
                        for p in &c.0 {
                            if p.x == s.x {
                                at = Some(at.map_or(p.y, |q| if up { q.max(p.y) } else { q.min(p.y) }));
                            }
                        }
                        if let Some(q) = at {
                            assert!(y == q, "a vertex is not met exactly");
                        }
                    }
                }
                assert!(t.area() >= T::c(0.0), "negative area");
            }
            assert!(cur == target, "the trapezoids end elsewhere");
            let c = sc.curr();
            assert!(c.x == target && c.bot <= c.top, "curr()");
        }
        T::done();
    }
}
pub struct Cells {
    pub s: Shape,
    pub area: bool,
    pub strips: usize,
    pub heights: &'static [usize],
    /// the grid: one of these, or free
    pub boxes: &'static [(f64, f64)],
}
impl FSceneFn for Cells {
    fn run<T: FDom>(&self) {
        let m: MonoPoly<T> = self.s.poly();
        let (lo, hi) = bbox(&m);
        let h = self.heights[T::choose(self.heights.len())];
        let (c0, c1): (T, T) = if self.boxes.is_empty() {
            (v("c0", self.s.r), v("c1", self.s.r))
        } else {
            let (c0, c1) = self.boxes[T::choose(self.boxes.len())];
            (T::c(c0), T::c(c1))
        };
        if !(c0 < c1) {
            return;
        }
        let mut sc = m.scan_lines(T::c(self.s.r.0));
        let mut sc2 = m.scan_lines(T::c(self.s.r.0));
        for i in 0..self.strips {
            let u: T = if i + 1 == self.strips { T::c(self.s.r.1) } else { v(&format!("u{}", i), self.s.r) };
            if self.area {
                let mut arr = vec![T::c(0.0); h];
                sc.cross_area(u, c0, c1, &mut arr);
                for a in arr {
                    assert!(a >= T::c(0.0), "negative or undefined area");
                    assert!(a <= T::max_value(), "infinite area");
                }
            } else {
                let b = sc.cross_bounds(u, c0, c1, h);
                let w = sc2.cross_ubounds(u, c0, c1, h);
                match b {
                    None => assert!(w == (h, 0), "cross_ubounds without cross_bounds"),
                    Some((j0, j1, bm, tm)) => {
                        assert!(w == (j0, j1), "cross_ubounds and cross_bounds differ");
                        assert!(j0 <= j1 && j1 < h, "cell range");
                        assert!(lo <= bm && bm <= hi && lo <= tm && tm <= hi, "innermost bounds outside the polygon");
                    }
                }
            }
        }
        T::done();
    }
}
pub struct Meet {
    pub r: R,
    /// the first line: one of these, or free
    pub menu: &'static [[f64; 4]],
}
/// by multiples of 1/16, so that they are numbers of every format
const LINES: &[[f64; 4]] = &[
    [1.25, 2.0, 3.5, 2.0],
    [2.0, 1.25, 2.0, 3.5],
    [1.125, 1.25, 3.75, 2.75],
    [1.25, 3.75, 3.5, 1.125],
    [1.75, 1.125, 1.875, 3.75],
    [1.75, 3.5, 1.875, 1.125],
];
fn from_menu<T: FDom>(menu: &[[f64; 4]], hi: R) -> (P<T>, P<T>) {
    if menu.is_empty() {
        return (point("a", hi), point("b", hi));
    }
    let l = menu[T::choose(menu.len())].map(T::c);
    (Coordinate { x: l[0], y: l[1] }, Coordinate { x: l[2], y: l[3] })
}
fn sign_opposite(a: i32, b: i32) -> bool {
    a * b <= 0
}
/// do the closed segments share a point? (exact)
fn meet<T: FDom>(a: P<T>, b: P<T>, c: P<T>, d: P<T>) -> bool {
    let (s, t) = (T::turn(a, b, c), T::turn(a, b, d));
    if s == 0 && t == 0 {
        // on one line: the sorted ends decide
        return !lt(b, c) && !lt(d, a);
    }
    sign_opposite(s, t) && sign_opposite(T::turn(c, d, a), T::turn(c, d, b))
}
impl FSceneFn for Meet {
    fn run<T: FDom>(&self) {
        let (a, b): (P<T>, P<T>) = from_menu(self.menu, self.r);
        let (c, d): (P<T>, P<T>) = (point("c", self.r), point("d", self.r));
        if !lt(a, b) || !lt(c, d) {
            return;
        }
        let p: LineOrPoint<T> = Line::new(a, b).into();
        let q: LineOrPoint<T> = Line::new(c, d).into();
        let r = if T::choose(2) == 0 { p.intersect_line_ordered(&q) } else { q.intersect_line_ordered(&p) };
        assert!(r.is_some() == meet(a, b, c, d), "met exactly: {}", r.is_none());
        let (f, s) = (if lt(a, c) { c } else { a }, if lt(b, d) { b } else { d });
        match r {
            None => {}
            Some(LineOrPoint::Point(x)) => {
                let x: SweepPoint<T> = x;
                assert!(x >= f.into(), "the intersection is before the begin of one of the lines");
            }
            Some(l) => {
                let l = l.line();
                assert!((l.start == f && l.end == s) || (l.start == s && l.end == f), "overlap");
            }
        }
        T::done();
    }
}
pub struct Sweep2 {
    pub r: R,
    pub menu: &'static [[f64; 4]],
}
impl FSceneFn for Sweep2 {
    fn run<T: FDom>(&self) {
        let (a, b): (P<T>, P<T>) = from_menu(self.menu, self.r);
        let (c, d): (P<T>, P<T>) = (point("c", self.r), point("d", self.r));
        if !lt(a, b) || !lt(c, d) {
            return;
        }
        let mut n = 0;
        for (_, _, _) in Intersections::from_iter([Line::new(a, b), Line::new(c, d)]) {
            n += 1;
            assert!(n < 20, "endless reports");
        }
        if T::turn(a, b, c) == 0 && T::turn(a, b, d) == 0 && lt(a, d) && lt(c, b) {
            // on top of each other: a known finding of C01
            return;
        }
        let m = meet(a, b, c, d);
        assert!((n > 0) == m, "{} reports, met exactly: {}", n, m);
        T::done();
    }
}
pub fn scenes(v: &mut Vec<FScene>) {
    let mut add = |prop, name, tier, format, f: Box<dyn DynFScene>| v.push(FScene { prop, name, tier, format, f });
    const INNER: &[(f64, f64)] = &[(1.5, 2.25)];
    const BOTH: &[(f64, f64)] = &[(1.5, 2.25), (1.0, 4.0)];
    const ENDS: &[[f64; 4]] = &[[1.0, 1.25, 3.5, 2.5], [1.25, 2.0, 4.0, 1.75]];
    let r = (1.0, 4.0);
    let wide = (-1024.0, 1024.0);
    let sh = |r, top, bot| Shape { r, top, bot, ends: &[], upright: false };
    let scan = |r, t, b, untils| Box::new(Scan { s: sh(r, t, b), untils });
    add("C19", "scan: one corner on top, f64", 0, DOUBLE, scan(wide, 1, 0, 1));
    add("C19", "scan: one corner on top, 6 digits", 0, MINI, scan(r, 1, 0, 1));
    add("C19", "scan: one corner below, f32", 0, SINGLE, scan(wide, 0, 1, 1));
    add("C19", "scan: one corner on top, two steps, f64", 0, DOUBLE, scan(wide, 1, 0, 2));
    add("C19", "scan: a corner on each side, f64", 0, DOUBLE, scan(wide, 1, 1, 1));
    add("C19", "scan: two corners on top, f64", 0, DOUBLE, scan(wide, 2, 0, 1));
    add("C19", "scan: two corners below, f64", 0, DOUBLE, scan(wide, 0, 2, 1));
    add("C19", "scan: upright left edge, f64", 0, DOUBLE, Box::new(Scan { s: Shape { r: wide, top: 1, bot: 0, ends: &[], upright: true }, untils: 1 }));
    add("C19", "scan: upright right edge, f64", 0, DOUBLE, Box::new(Scan { s: Shape { r: wide, top: 0, bot: 1, ends: &[], upright: true }, untils: 1 }));
    add("C19", "scan: upright edges, f64", 0, DOUBLE, Box::new(Scan { s: Shape { r: wide, top: 1, bot: 1, ends: &[], upright: true }, untils: 1 }));
    add("C19", "scan: three corners, f64", 0, DOUBLE, scan(wide, 2, 1, 1));
    add("C19", "scan: three corners the other way, f64", 0, DOUBLE, scan(wide, 1, 2, 1));
    let huge = (-1e300, 1e300);
    add("C19", "scan: one corner on top, up to 1e300, f64", 0, DOUBLE, scan(huge, 1, 0, 2));
    add("C19", "scan: a corner on each side, up to 1e300, f64", 0, DOUBLE, scan(huge, 1, 1, 1));
    add("C19", "scan: a corner on each side, two steps, f64", 1, DOUBLE, scan(wide, 1, 1, 2));
    add("C19", "scan: two corners on each side, f64", 1, DOUBLE, scan(wide, 2, 2, 1));
    add("C19", "scan: three corners on top, two steps, f64", 1, DOUBLE, scan(wide, 3, 0, 2));
    add("C19", "scan: three corners below, three steps, f32", 1, SINGLE, scan((-8.0, 1e6), 0, 3, 3));
    for (area, name) in [(true, "area"), (false, "bounds")] {
        for (k, tier, t, b, strips, heights, boxes, ends) in [
            ("one cell, corner on top", 0, 1, 0, 1, &[1usize][..], INNER, ENDS),
            ("two cells, corner on top", 0, 1, 0, 1, &[2][..], INNER, ENDS),
            ("two cells, corner below", 0, 0, 1, 1, &[2][..], INNER, ENDS),
            ("two cells, two strips", 1, 1, 0, 2, &[2][..], BOTH, ENDS),
            ("three cells, free ends", 1, 1, 0, 1, &[3][..], BOTH, &[][..]),
        ] {
            add("C19", Box::leak(format!("{}: {}, f64", name, k).into_boxed_str()), tier, DOUBLE, Box::new(Cells { s: Shape { r, top: t, bot: b, ends, upright: false }, area, strips, heights, boxes }));
        }
    }
    // cells of a free range: whether their borders round alike
    let range = |t, b, heights, ends| Cells { s: Shape { r, top: t, bot: b, ends, upright: false }, area: false, strips: 1, heights, boxes: &[] };
    add("C19", "bounds: three cells of a free range, 4 digits", 0, TINY, Box::new(range(1, 0, &[3], ENDS)));
    add("C19", "bounds: three cells of a free range, corner below, 6 digits", 0, MINI, Box::new(range(0, 1, &[3], ENDS)));
    add("C20", "two lines, 4 digits", 0, TINY, Box::new(Meet { r, menu: LINES }));
    add("C20", "sweep, 4 digits", 0, TINY, Box::new(Sweep2 { r, menu: &LINES[2..] }));
    add("C20", "two lines, 6 digits", 1, MINI, Box::new(Meet { r, menu: LINES }));
    add("C20", "two lines, f32", 1, SINGLE, Box::new(Meet { r, menu: LINES }));
    add("C20", "two lines, f64", 1, DOUBLE, Box::new(Meet { r, menu: LINES }));
    add("C20", "sweep, 6 digits", 1, MINI, Box::new(Sweep2 { r, menu: LINES }));
}
