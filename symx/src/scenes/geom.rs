//! Oracle geometry, written independently of the code under test.
use crate::dom::Dom;
use geo::{Coordinate, Line, LineString, MultiPolygon, Polygon};
use std::cmp::Ordering;

pub type P<T> = Coordinate<T>;

pub fn pt<T: Dom>(x: T, y: T) -> P<T> {
    Coordinate { x, y }
}
pub fn ip<T: Dom>(x: i64, y: i64) -> P<T> {
    pt(T::i(x), T::i(y))
}
pub fn at<T: Dom>(p: P<T>, x: i64, y: i64) -> P<T> {
    pt(p.x + T::i(x), p.y + T::i(y))
}
pub fn line<T: Dom>(a: P<T>, b: P<T>) -> Line<T> {
    Line { start: a, end: b }
}
/// (b-a) x (c-a)
pub fn cross<T: Dom>(a: P<T>, b: P<T>, c: P<T>) -> T {
    (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x)
}
pub fn sign<T: Dom>(v: T) -> i32 {
    if T::EXACT {
        match v.partial_cmp(&T::i(0)) {
            Some(Ordering::Less) => -1,
            Some(Ordering::Equal) => 0,
            Some(Ordering::Greater) => 1,
            None => panic!("oracle: undefined value"),
        }
    } else if T::same(v, T::i(0)) {
        0
    } else if v < T::i(0) {
        -1
    } else {
        1
    }
}
pub fn orient<T: Dom>(a: P<T>, b: P<T>, c: P<T>) -> i32 {
    sign(cross(a, b, c))
}
pub fn same<T: Dom>(a: P<T>, b: P<T>) -> bool {
    T::same(a.x, b.x) && T::same(a.y, b.y)
}
/// lexicographic
pub fn lex<T: Dom>(a: P<T>, b: P<T>) -> i32 {
    match sign(a.x - b.x) {
        0 => sign(a.y - b.y),
        s => s,
    }
}
pub fn between<T: Dom>(v: T, a: T, b: T) -> bool {
    (T::no_more(a, v) && T::no_more(v, b)) || (T::no_more(b, v) && T::no_more(v, a))
}
/// p on the closed segment ab
pub fn on_seg<T: Dom>(p: P<T>, a: P<T>, b: P<T>) -> bool {
    orient(a, b, p) == 0 && between(p.x, a.x, b.x) && between(p.y, a.y, b.y)
}
pub fn segs_meet<T: Dom>(a: P<T>, b: P<T>, c: P<T>, d: P<T>) -> bool {
    let (o1, o2) = (orient(a, b, c), orient(a, b, d));
    if o1 * o2 > 0 {
        return false;
    }
    let (o3, o4) = (orient(c, d, a), orient(c, d, b));
    if o3 * o4 > 0 {
        return false;
    }
    if o1 * o2 < 0 && o3 * o4 < 0 {
        return true;
    }
    on_seg(c, a, b) || on_seg(d, a, b) || on_seg(a, c, d) || on_seg(b, c, d)
}
/// collinear and sharing more than a point
pub fn overlap<T: Dom>(a: P<T>, b: P<T>, c: P<T>, d: P<T>) -> bool {
    if same(a, b) || same(c, d) || orient(a, b, c) != 0 || orient(a, b, d) != 0 {
        return false;
    }
    let (a, b) = if lex(a, b) <= 0 { (a, b) } else { (b, a) };
    let (c, d) = if lex(c, d) <= 0 { (c, d) } else { (d, c) };
    lex(a, d) < 0 && lex(c, b) < 0
}
/// the crossing point of two non-parallel lines
pub fn line_cross<T: Dom>(a: P<T>, b: P<T>, c: P<T>, d: P<T>) -> P<T> {
    let den = (b.x - a.x) * (d.y - c.y) - (b.y - a.y) * (d.x - c.x);
    let t = ((c.x - a.x) * (d.y - c.y) - (c.y - a.y) * (d.x - c.x)) / den;
    pt(a.x + t * (b.x - a.x), a.y + t * (b.y - a.y))
}

/// Twice the signed area of a closed ring (first = last).
pub fn ring_area2<T: Dom>(r: &[P<T>]) -> T {
    let mut s = T::i(0);
    if r.is_empty() {
        return s;
    }
    let o = r[0];
    for w in r.windows(2) {
        s = s + ((w[0].x - o.x) * (w[1].y - o.y) - (w[1].x - o.x) * (w[0].y - o.y));
    }
    s
}
/// Signed moments: 6*integral of x and of y over the ring interior.
pub fn ring_moments<T: Dom>(r: &[P<T>]) -> (T, T) {
    let (mut sx, mut sy) = (T::i(0), T::i(0));
    for w in r.windows(2) {
        let c = w[0].x * w[1].y - w[1].x * w[0].y;
        sx = sx + (w[0].x + w[1].x) * c;
        sy = sy + (w[0].y + w[1].y) * c;
    }
    (sx, sy)
}
pub fn abs<T: Dom>(v: T) -> T {
    if v < T::i(0) {
        -v
    } else {
        v
    }
}
/// Twice the area of a polygon with holes.
pub fn poly_area2<T: Dom>(p: &Polygon<T>) -> T {
    let mut s = abs(ring_area2(&p.exterior().0));
    for h in p.interiors() {
        s = s - abs(ring_area2(&h.0));
    }
    s
}
pub fn mp_area2<T: Dom>(p: &MultiPolygon<T>) -> T {
    p.0.iter().fold(T::i(0), |s, p| s + poly_area2(p))
}
/// Place of a point relative to a closed ring: -1 outside, 0 on it, 1 inside (even-odd).
pub fn in_ring<T: Dom>(q: P<T>, r: &[P<T>]) -> i32 {
    let mut odd = false;
    for w in r.windows(2) {
        let (a, b) = (w[0], w[1]);
        let (ca, cb) = (a.x <= q.x, b.x <= q.x);
        if ca == cb {
            // both on one side of the vertical through q; only a vertical edge through q matters
            if ca && !T::EXACT || (ca && a.x == q.x && b.x == q.x) {
                if T::same(a.x, q.x) && T::same(b.x, q.x) && between(q.y, a.y, b.y) {
                    return 0;
                }
            }
            if ca && same(a, q) || ca && same(b, q) {
                return 0;
            }
            continue;
        }
        let (l, h) = if ca { (a, b) } else { (b, a) };
        match orient(l, h, q) {
            0 => return 0,
            s if s < 0 => odd = !odd,
            _ => {}
        }
    }
    if odd {
        1
    } else {
        -1
    }
}
pub fn in_poly<T: Dom>(q: P<T>, p: &Polygon<T>) -> i32 {
    let mut r = in_ring(q, &p.exterior().0);
    for h in p.interiors() {
        match in_ring(q, &h.0) {
            0 => return 0,
            1 => r = -1,
            _ => {}
        }
    }
    r
}
/// -1: in none, 0: on some boundary, 1: strictly inside some
pub fn in_mp<T: Dom>(q: P<T>, mp: &MultiPolygon<T>) -> i32 {
    let mut r = -1;
    for p in &mp.0 {
        match in_poly(q, p) {
            1 => return 1,
            0 => r = 0,
            _ => {}
        }
    }
    r
}
pub fn ring<T: Dom>(v: &[P<T>]) -> LineString<T> {
    let mut v = v.to_vec();
    v.push(v[0]);
    LineString(v)
}
/// A polygon given as integer offsets from p.
pub fn poly_at<T: Dom>(p: P<T>, s: f64, ext: &[(i64, i64)], holes: &[&[(i64, i64)]]) -> Polygon<T> {
    let _ = s;
    let f = |r: &[(i64, i64)]| ring(&r.iter().map(|c| at(p, c.0, c.1)).collect::<Vec<_>>());
    Polygon::new(f(ext), holes.iter().map(|h| f(h)).collect())
}
/// Part of a convex polygon (open vertex list) to the left of, or on, the line a->b.
pub fn clip_half<T: Dom>(q: &[P<T>], a: P<T>, b: P<T>) -> Vec<P<T>> {
    let n = q.len();
    let mut out: Vec<P<T>> = vec![];
    let s: Vec<i32> = q.iter().map(|p| orient(a, b, *p)).collect();
    for i in 0..n {
        let j = (i + 1) % n;
        if s[i] >= 0 {
            out.push(q[i]);
        }
        if s[i] * s[j] < 0 {
            out.push(line_cross(a, b, q[i], q[j]));
        }
    }
    out
}
/// Twice the signed area of an open vertex list.
pub fn open_area2<T: Dom>(q: &[P<T>]) -> T {
    if q.len() < 3 {
        return T::i(0);
    }
    let mut v = q.to_vec();
    v.push(q[0]);
    ring_area2(&v)
}
