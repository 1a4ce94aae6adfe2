//! C10, C11, C13: monotone polygons, the scanner over them and rasterisation.
use super::gen::{self, cached};
use super::geom::*;
use crate::dom::Dom;
use crate::engine::Leave;
use crate::int::Rat;
use crate::run::{Scene, SceneFn};
use geo::prelude::BoundingRect;
use geo::LineString;
use geo_crossings::monotone::{MonoPoly, Trapz};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

fn var<T: Dom>(n: String, lo: i64, hi: i64) -> T {
    T::var(&n, Rat::int(lo), Rat::int(hi))
}
/// One-sided value of a chain: the limit from the right or from the left.
pub fn value<T: Dom>(c: &[P<T>], x: T, right: bool) -> T {
    for w in c.windows(2) {
        let (p, q) = (w[0], w[1]);
        if sign(q.x - p.x) <= 0 {
            continue;
        }
        let (a, b) = (sign(x - p.x), sign(q.x - x));
        if if right { a >= 0 && b > 0 } else { a > 0 && b >= 0 } {
            return p.y + (x - p.x) * (q.y - p.y) / (q.x - p.x);
        }
    }
    panic!("oracle: abscissa outside the chain")
}
/// the interior vertices of both chains, by abscissa
fn inner<T: Dom>(m: &MonoPoly<T>, a: T, b: T) -> Vec<T> {
    let mut v: Vec<T> = vec![];
    for c in m.top().0.iter().chain(m.bot().0.iter()) {
        if sign(c.x - a) > 0 && sign(b - c.x) > 0 {
            let mut i = v.len();
            while i > 0 && sign(v[i - 1] - c.x) > 0 {
                i -= 1;
            }
            if i == 0 || sign(v[i - 1] - c.x) != 0 {
                v.insert(i, c.x);
            }
        }
    }
    v
}
/// polygon between the chains over [a,b], as convex quadrilaterals
fn slabs<T: Dom>(m: &MonoPoly<T>, a: T, b: T) -> Vec<Vec<P<T>>> {
    let mut xs = vec![a];
    xs.extend(inner(m, a, b));
    xs.push(b);
    let (t, u) = (&m.top().0, &m.bot().0);
    xs.windows(2)
        .map(|w| {
            vec![
                pt(w[0], value(u, w[0], true)),
                pt(w[1], value(u, w[1], false)),
                pt(w[1], value(t, w[1], false)),
                pt(w[0], value(t, w[0], true)),
            ]
        })
        .collect()
}
fn above_area2<T: Dom>(q: &[P<T>], lo: T, hi: T) -> T {
    let f = clip_half(q, pt(T::i(0), lo), pt(T::i(1), lo));
    let f = clip_half(&f, pt(T::i(1), hi), pt(T::i(0), hi));
    abs(open_area2(&f))
}

/// abscissae of the top and the bottom chain; repeated = vertical edge
type Shape = (&'static [i64], &'static [i64]);
pub const SHAPES: &[Shape] = &[
    (&[0, 1, 3, 4], &[0, 2, 4]),
    (&[0, 2, 2, 4], &[0, 1, 4]),
    (&[0, 0, 3, 4], &[0, 2, 4, 4]),
    (&[0, 2, 2, 4], &[0, 2, 2, 4]),
    (&[0, 4], &[0, 1, 1, 1, 3, 4]),
    (&[0, 2, 4], &[0, 2, 4]),
    (&[0, 0, 4], &[0, 4]),
];
/// concrete ordinates for the shapes above
const YS: &[(&[i64], &[i64])] = &[
    (&[0, 3, 1, 0], &[0, -2, 0]),
    (&[0, 1, 3, 1], &[0, -1, 1]),
    (&[-1, 2, 1, 3], &[-1, -2, 1, 3]),
    (&[0, 1, 2, 0], &[0, -3, -1, 0]),
    (&[1, 2], &[1, -2, -1, 0, -3, 2]),
    (&[0, 0, 4], &[0, -2, 4]),
    (&[-1, 2, 1], &[-1, 1]),
];
pub fn mono<T: Dom>(k: usize, symbolic: bool) -> MonoPoly<T> {
    let (tx, bx) = SHAPES[k];
    let chain = |xs: &[i64], ys: &[i64], top: bool, ends: (T, T)| -> Vec<P<T>> {
        let n = xs.len();
        let mut v: Vec<P<T>> = vec![];
        for i in 0..n {
            let y = if i == 0 {
                ends.0
            } else if i + 1 == n {
                ends.1
            } else if !symbolic {
                T::i(ys[i])
            } else if top {
                var(format!("t{}", i), 1, 4)
            } else {
                var(format!("b{}", i), -4, -1)
            };
            if i > 0 && xs[i] == xs[i - 1] {
                T::assume_lt(v[i - 1].y, y);
            }
            v.push(pt(T::i(xs[i]), y));
        }
        v
    };
    let (ty, by) = YS[k];
    let e = if symbolic { (var("s".into(), -1, 1), var("e".into(), -1, 1)) } else { (T::i(ty[0]), T::i(ty[ty.len() - 1])) };
    MonoPoly::new(LineString(chain(tx, ty, true, e)), LineString(chain(bx, by, false, e)))
}
fn check_trapz<T: Dom>(m: &MonoPoly<T>, tz: &Trapz<T>) {
    let (l, r) = (tz.left, tz.right);
    assert!(sign(r.x - l.x) > 0, "trapezoid without width");
    let (t, b) = (&m.top().0, &m.bot().0);
    assert!(T::same(l.top, value(t, l.x, true)), "top left of a trapezoid is off the top chain");
    assert!(T::same(r.top, value(t, r.x, false)), "top right of a trapezoid is off the top chain");
    assert!(T::same(l.bot, value(b, l.x, true)), "bottom left of a trapezoid is off the bottom chain");
    assert!(T::same(r.bot, value(b, r.x, false)), "bottom right of a trapezoid is off the bottom chain");
    for (c, top) in [(t, true), (b, false)] {
        for v in c.iter() {
            if sign(v.x - l.x) > 0 && sign(r.x - v.x) > 0 {
                let (p, q) = if top { (l.top, r.top) } else { (l.bot, r.bot) };
                assert!(orient(pt(l.x, p), pt(r.x, q), *v) == 0, "trapezoid skips a vertex");
            }
        }
    }
    let a = tz.area();
    assert!(T::same(a + a, (r.x - l.x) * (l.top - l.bot + r.top - r.bot)), "area of a trapezoid");
}
fn min<T: Dom>(a: T, b: T) -> T {
    if sign(b - a) < 0 {
        b
    } else {
        a
    }
}

/// A reproducible catalogue of monotone polygons, scanned from a free start to free targets.
pub struct ScanMore {
    pub from: usize,
    pub count: usize,
    pub free_start: bool,
    pub untils: usize,
}
pub fn from_catalogue<T: Dom>(seed: usize) -> (MonoPoly<T>, T) {
    let c = cached("chains", seed, gen::chains);
    let ls = |v: &[gen::C]| LineString(v.iter().map(|c| ip(c.0, c.1)).collect());
    if super::show() {
        println!("top {:?}, bottom {:?}", c.0, c.1);
    }
    (MonoPoly::new(ls(&c.0), ls(&c.1)), T::i(c.0[c.0.len() - 1].0))
}
impl SceneFn for ScanMore {
    fn run<T: Dom>(&self) {
        let (m, hi): (MonoPoly<T>, T) = from_catalogue(self.from + T::choose(self.count));
        let by_fn = T::choose(2) == 1;
        let left: T = if self.free_start { var("left".into(), -1, 6) } else { T::i(-1) };
        scan_check(&m, hi, by_fn, left, self.untils);
    }
}
/// C10
pub struct Scan {
    pub sym_y: bool,
    pub shapes: &'static [usize],
    pub untils: usize,
}
impl SceneFn for Scan {
    fn run<T: Dom>(&self) {
        let m: MonoPoly<T> = mono(self.shapes[T::choose(self.shapes.len())], self.sym_y);
        let by_fn = T::choose(2) == 1;
        let left: T = var("left".into(), -1, 5);
        scan_check(&m, T::i(4), by_fn, left, self.untils);
    }
}
fn scan_check<T: Dom>(m: &MonoPoly<T>, hi: T, by_fn: bool, left: T, untils: usize) {
        let mut sc = m.scan_lines(left);
        let lo = T::i(0);
        let mut cur = if sign(left - lo) > 0 { min(left, hi) } else { lo };
        assert!(T::same(sc.curr().x, cur), "scan_lines({}) starts at {:?}", left.show(), sc.curr());
        for i in 0..untils {
            let u: T = var(format!("u{}", i), -1, 6);
            let mut got: Vec<Trapz<T>> = vec![];
            if by_fn {
                sc.advance_upto(u, |t| got.push(t));
            } else {
                got.extend(sc.advance_to(u));
            }
            assert!(got.len() <= 20, "too many trapezoids");
            let target = if sign(u - cur) > 0 { min(u, hi) } else { cur };
            let mut at = cur;
            for t in &got {
                assert!(T::same(t.left.x, at), "trapezoids leave a gap or overlap at {}", at.show());
                check_trapz(m, t);
                at = t.right.x;
            }
            assert!(T::same(at, target), "trapezoids end at {} instead of {}", at.show(), target.show());
            let c = sc.curr();
            assert!(T::same(c.x, target), "curr() is at {} instead of {}", c.x.show(), target.show());
            // at the far end vertical edges may or may not have been passed
            if sign(target - lo) > 0 && sign(hi - target) > 0 {
                assert!(T::same(c.top, value(&m.top().0, target, false)) && T::same(c.bot, value(&m.bot().0, target, false)), "curr() is off the chains");
            }
            cur = target;
        }
        T::cover("checked");
}

/// C11
pub struct Raster {
    pub sym_y: bool,
    pub shapes: &'static [usize],
    /// 0: concrete strips and cells, 1: symbolic strips, 2: symbolic cells, 3: both
    pub mode: u8,
    pub area: bool,
}
impl SceneFn for Raster {
    fn run<T: Dom>(&self) {
        let m: MonoPoly<T> = mono(self.shapes[T::choose(self.shapes.len())], self.sym_y);
        let h = [3, 2, 1][T::choose(3)];
        let (left, strips): (T, Vec<T>) = if self.mode & 1 != 0 {
            (var("left".into(), -1, 5), vec![var("r0".into(), -1, 5), var("r1".into(), -1, 5)])
        } else {
            (T::i(0), vec![T::q(3, 2), T::i(4)])
        };
        let (cmin, cmax): (T, T) = if self.mode & 2 != 0 {
            let (a, b) = (var("cmin".into(), -6, 6), var("cmax".into(), -6, 6));
            T::assume_lt(a, b);
            (a, b)
        } else {
            [(T::i(-2), T::i(2)), (T::i(-6), T::i(6)), (T::i(0), T::i(3))][T::choose(3)]
        };
        raster_check(&m, T::i(4), h, left, strips, cmin, cmax, self.area);
    }
}
/// The catalogue of chains, with one free parameter: the strip border or the cells' offset.
pub struct RasterMore {
    pub from: usize,
    pub count: usize,
    pub area: bool,
}
impl SceneFn for RasterMore {
    fn run<T: Dom>(&self) {
        let seed = self.from + T::choose(self.count);
        let (m, hi): (MonoPoly<T>, T) = from_catalogue(seed);
        let c = *cached("raster", seed, |r| (1 + r.below(4), r.range(-1, 2), r.range(-6, 1), r.range(2, 7), r.coin(1, 2)));
        let (h, left, lo, width, strips_free) = c;
        let (mut strips, mut cmin) = (vec![T::i(left + 1), hi], T::i(lo));
        if strips_free {
            strips[0] = var("r".into(), -1, 6);
        } else {
            cmin = cmin + var("c".into(), -2, 4);
        }
        raster_check(&m, hi, h, T::i(left), strips, cmin, cmin + T::i(width), self.area);
    }
}
#[allow(clippy::too_many_arguments)]
fn raster_check<T: Dom>(m: &MonoPoly<T>, hi: T, h: usize, left: T, strips: Vec<T>, cmin: T, cmax: T, area: bool) {
        let step = (cmax - cmin) / T::i(h as i64);
        let cell = |j: usize| cmin + T::i(j as i64) * step;
        let lo = T::i(0);
        let mut cur = if sign(left - lo) > 0 { min(left, hi) } else { lo };
        let mut sc = m.scan_lines(left);
        let mut sc2 = m.scan_lines(left);
        let mut arr = vec![T::i(7); h];
        for r in strips {
            let target = if sign(r - cur) > 0 { min(r, hi) } else { cur };
            let empty = sign(target - cur) == 0;
            let sl = if empty { vec![] } else { slabs(m, cur, target) };
            if area {
                let mut arr2 = arr.clone();
                sc.cross_area(r, cmin, cmax, &mut arr2);
                for j in 0..h {
                    let want = sl.iter().fold(T::i(0), |s, q| s + above_area2(q, cell(j), cell(j + 1)));
                    let got = arr2[j] - arr[j];
                    assert!(T::same(got + got, want), "area added to cell {} is {}, twice the true area is {}", j, got.show(), want.show());
                }
                arr = arr2;
            } else {
                let b = sc.cross_bounds(r, cmin, cmax, h);
                let (u0, u1) = sc2.cross_ubounds(r, cmin, cmax, h);
                // extreme ordinates met in the strip
                let mut ext: Option<[T; 4]> = None;
                for q in &sl {
                    let mm = |a: T, b: T| if sign(a - b) < 0 { (a, b) } else { (b, a) };
                    let (b0, b1) = mm(q[0].y, q[1].y);
                    let (t0, t1) = mm(q[2].y, q[3].y);
                    ext = Some(match ext {
                        None => [b0, b1, t0, t1],
                        Some(e) => [mm(e[0], b0).0, mm(e[1], b1).1, mm(e[2], t0).0, mm(e[3], t1).1],
                    });
                }
                let hit = match ext {
                    Some(e) => sign(e[3] - e[0]) > 0 && sign(e[3] - cmin) > 0 && sign(cmax - e[0]) > 0,
                    None => false,
                };
                assert_eq!(b.is_some(), hit, "cross_bounds: strip met");
                if !hit {
                    assert_eq!((u0, u1), (h, 0), "cross_ubounds of an empty strip");
                } else {
                    T::cover("hit");
                    let e = ext.unwrap();
                    let (j0, j1, bm, tm) = b.unwrap();
                    assert_eq!((u0, u1), (j0, j1), "cross_ubounds and cross_bounds differ");
                    assert!(j0 <= j1 && j1 < h, "cell range");
                    assert!(T::same(bm, e[1]) && T::same(tm, e[2]), "bot_max or top_min");
                    let inside = |y: T, j: usize| T::no_more(cell(j), y) && T::no_more(y, cell(j + 1));
                    let b0 = if sign(e[0] - cmin) < 0 { cmin } else { e[0] };
                    let t1 = min(e[3], cmax);
                    assert!(inside(b0, j0), "lowest cell {} does not hold {}", j0, b0.show());
                    assert!(inside(t1, j1), "highest cell {} does not hold {}", j1, t1.show());
                }
                assert!(T::same(sc.curr().x, target) && T::same(sc2.curr().x, target), "scanner left at {:?}", sc.curr());
            }
            cur = target;
        }
        T::cover("checked");
}

/// C13: views of valid pieces.
pub struct Views {
    pub shapes: &'static [usize],
}
impl SceneFn for Views {
    fn run<T: Dom>(&self) {
        view_check::<T>(mono(self.shapes[T::choose(self.shapes.len())], true))
    }
}
/// Catalogue chains, shifted freely.
pub struct ViewsMore {
    pub count: usize,
}
impl SceneFn for ViewsMore {
    fn run<T: Dom>(&self) {
        let (m, _): (MonoPoly<T>, T) = from_catalogue(T::choose(self.count));
        let (t, b) = m.into_ls_pair();
        let s: T = var("s".into(), -4, 4);
        let f = |l: LineString<T>| LineString(l.0.into_iter().map(|c| pt(c.x, c.y + s * c.x)).collect());
        view_check(MonoPoly::new(f(t), f(b)))
    }
}
fn view_check<T: Dom>(m: MonoPoly<T>) {
        let (t, b) = (m.top().0.clone(), m.bot().0.clone());
        let r = m.bounding_rect();
        let (lo, hi) = (r.min(), r.max());
        for (e, s) in [(lo, 1), (hi, -1)] {
            let mut tx = false;
            let mut ty = false;
            for v in t.iter().chain(b.iter()) {
                let (dx, dy) = (sign(v.x - e.x) * s, sign(v.y - e.y) * s);
                assert!(dx >= 0 && dy >= 0, "a vertex leaves the bounding rectangle");
                tx |= dx == 0;
                ty |= dy == 0;
            }
            assert!(tx && ty, "bounding rectangle is not tight");
        }
        let (t2, b2) = m.clone().into_ls_pair();
        let eq = |a: &[P<T>], b: &[P<T>]| a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same(*a, *b));
        assert!(eq(&t2.0, &t) && eq(&b2.0, &b), "into_ls_pair changes the chains");
        let p = m.into_polygon();
        assert!(p.interiors().is_empty());
        let ring = &p.exterior().0;
        assert!(same(ring[0], ring[ring.len() - 1]), "ring is open");
        let mut want: Vec<P<T>> = t.clone();
        want.extend(b.iter().rev().skip(1).cloned());
        assert_eq!(ring.len(), want.len(), "number of vertices of the ring");
        // the same closed ring, up to direction and first vertex
        let n = want.len() - 1;
        let ok = (0..n).any(|s| (0..n).all(|i| same(ring[i], want[(s + i) % n])) || (0..n).all(|i| same(ring[i], want[(s + n - i) % n])));
        assert!(ok, "into_polygon changes the vertices");
        T::cover("checked");
}
/// C13: the constructor takes exactly pairs of monotone chains with common ends.
pub struct Build;
impl SceneFn for Build {
    fn run<T: Dom>(&self) {
        let p = |n: &str| pt::<T>(var(format!("{}x", n), -1, 2), var(format!("{}y", n), -1, 2));
        let (a, b): (P<T>, P<T>) = (ip(0, 0), p("e"));
        let kind = T::choose(4);
        let mut top = vec![a];
        let mut bot = vec![a];
        match kind {
            0 => top.push(p("m")),
            1 => bot.push(p("m")),
            2 => {}
            _ => bot[0] = p("m"),
        }
        top.push(b);
        bot.push(b);
        let mono = |c: &[P<T>]| c.windows(2).all(|w| lex(w[0], w[1]) < 0);
        let ok = same(top[0], bot[0]) && mono(&top) && mono(&bot);
        let r = catch_unwind(AssertUnwindSafe(|| MonoPoly::new(LineString(top), LineString(bot))));
        match r {
            Ok(_) => assert!(ok, "accepted chains that are not monotone or do not share their ends"),
            Err(e) => {
                if e.is::<Leave>() {
                    resume_unwind(e)
                }
                assert!(!ok, "rejected a pair of monotone chains with common ends");
            }
        }
        T::cover("checked");
    }
}
pub fn scenes(v: &mut Vec<Scene>) {
    const A: &[usize] = &[0, 1, 2, 3, 4, 5, 6];
    const B: &[usize] = &[1, 2, 5];
    v.push(Scene::new("C10", "strips", 0, Scan { sym_y: false, shapes: A, untils: 2 }));
    v.push(Scene::new("C10", "strips-and-heights", 0, Scan { sym_y: true, shapes: A, untils: 1 }));
    v.push(Scene::new("C10", "catalogue", 0, ScanMore { from: 0, count: 60, free_start: true, untils: 1 }));
    v.push(Scene::new("C10", "catalogue-2", 0, ScanMore { from: 1000, count: 60, free_start: false, untils: 2 }));
    v.push(Scene::new("C10", "catalogue-more", 1, ScanMore { from: 2000, count: 400, free_start: true, untils: 2 }));
    v.push(Scene::new("C10", "strips-3", 1, Scan { sym_y: false, shapes: A, untils: 3 }));
    v.push(Scene::new("C10", "strips-and-heights-2", 1, Scan { sym_y: true, shapes: A, untils: 2 }));
    for (p, area) in [("C11", true)] {
        v.push(Scene::new(p, "area: strips", 0, Raster { sym_y: false, shapes: A, mode: 1, area }));
        v.push(Scene::new(p, "area: cells", 0, Raster { sym_y: false, shapes: A, mode: 2, area }));
        v.push(Scene::new(p, "area: heights", 0, Raster { sym_y: true, shapes: B, mode: 0, area }));
        v.push(Scene::new(p, "area: catalogue", 0, RasterMore { from: 3000, count: 150, area }));
        v.push(Scene::new(p, "area: catalogue-more", 1, RasterMore { from: 10000, count: 5000, area }));
        v.push(Scene::new(p, "area: strips and cells", 1, Raster { sym_y: false, shapes: A, mode: 3, area }));
        v.push(Scene::new(p, "area: all heights", 1, Raster { sym_y: true, shapes: A, mode: 0, area }));
    }
    for (p, area) in [("C14", false)] {
        v.push(Scene::new(p, "bounds: strips", 0, Raster { sym_y: false, shapes: A, mode: 1, area }));
        v.push(Scene::new(p, "bounds: cells", 0, Raster { sym_y: false, shapes: A, mode: 2, area }));
        v.push(Scene::new(p, "bounds: heights", 0, Raster { sym_y: true, shapes: B, mode: 0, area }));
        v.push(Scene::new(p, "bounds: catalogue", 0, RasterMore { from: 3000, count: 150, area }));
        v.push(Scene::new(p, "bounds: catalogue-more", 1, RasterMore { from: 10000, count: 5000, area }));
        v.push(Scene::new(p, "bounds: strips and cells", 1, Raster { sym_y: false, shapes: A, mode: 3, area }));
        v.push(Scene::new(p, "bounds: all heights", 1, Raster { sym_y: true, shapes: A, mode: 0, area }));
    }
    v.push(Scene::new("C13", "views", 0, Views { shapes: A }));
    v.push(Scene::new("C13", "catalogue", 0, ViewsMore { count: 100 }));
    v.push(Scene::new("C13", "constructor", 0, Build));
}
