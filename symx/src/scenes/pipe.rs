//! C16, C17: results of one part of the library handed to another.
use super::bops::{apply, check_region, check_shape, put, OPS};
use super::gen::{self, cached};
use super::geom::*;
use crate::dom::Dom;
use crate::int::Rat;
use crate::run::{Scene, SceneFn};
use geo::{MultiPolygon, Polygon};
use geo_crossings::monotone_chains;

fn var<T: Dom>(n: &str, lo: i64, hi: i64) -> T {
    T::var(n, Rat::int(lo), Rat::int(hi))
}
/// C16: a polygon is cut into monotone pieces, every piece is scanned column by column, and the
/// covered areas of all pieces are added up.
pub struct Raster {
    pub from: usize,
    pub count: usize,
    pub size: (usize, i64),
    /// 0: the columns move, 1: the rows move, 2: the polygon is sheared
    pub mode: usize,
}
impl SceneFn for Raster {
    fn run<T: Dom>(&self) {
        let seed = self.from + T::choose(self.count);
        let e = cached("pipe", seed, |r| {
            let n = 3 + r.below(self.size.0 - 2);
            let h = if n <= 6 { r.below(3) } else { r.below(2) };
            let b = self.size.1;
            let p = gen::poly(r, n, h, b, 0);
            let cols = 1 + r.below(3);
            let rows = 1 + r.below(4);
            (p, (cols, r.range(-b, 0), 1 + r.below(3) as i64), (rows, r.range(-b - 1, 0), r.range(1, b + 1)))
        });
        let (p, (cols, x0, w), (rows, y0, y1)) = &*e;
        if super::show() {
            println!("rings {:?}, {} columns of width {} from {}, {} rows from {} to {}", p, cols, w, x0, rows, y0, y1);
        }
        let t: T = var("t", -2, 2);
        let (mut poly, mut dx, mut dy) = (put(&[p.clone()], ip(0, 0)).remove(0), T::i(0), T::i(0));
        match self.mode {
            0 => dx = t,
            1 => dy = t,
            _ => {
                use geo::map_coords::MapCoordsInplace;
                poly.map_coords_inplace(|c| (c.0, c.1 + t * c.0));
            }
        }
        let x = |i: usize| dx + T::i(x0 + w * i as i64);
        let (lo, hi) = (dy + T::i(*y0), dy + T::i(*y1));
        let step = (hi - lo) / T::i(*rows as i64);
        let mut got = vec![vec![T::i(0); *rows]; *cols];
        for m in monotone_chains(&poly) {
            let mut sc = m.scan_lines(x(0));
            for (i, col) in got.iter_mut().enumerate() {
                sc.cross_area(x(i + 1), lo, hi, col);
            }
        }
        for i in 0..*cols {
            for j in 0..*rows {
                let (a, b) = (lo + T::i(j as i64) * step, lo + T::i(j as i64 + 1) * step);
                let mut want = T::i(0);
                for (k, r) in std::iter::once(poly.exterior()).chain(poly.interiors()).enumerate() {
                    let mut q = r.0[1..].to_vec();
                    for (s, e) in [((x(i + 1), a), (x(i + 1), b)), ((x(i), b), (x(i), a)), ((x(i), a), (x(i + 1), a)), ((x(i + 1), b), (x(i), b))] {
                        q = clip_half(&q, pt(s.0, s.1), pt(e.0, e.1));
                    }
                    let c = abs(open_area2(&q));
                    want = if k == 0 { want + c } else { want - c };
                }
                let g = got[i][j] + got[i][j];
                assert!(T::same(g, want), "twice the area in column {} row {} is {} instead of {}", i, j, g.show(), want.show());
                if i == 0 && j == 0 && sign(want) != 0 {
                    T::cover("covered");
                }
            }
        }
        T::cover("checked");
    }
}
/// C17: the result of a boolean operation is an operand of the next one.
pub struct Compose {
    pub from: usize,
    pub count: usize,
    /// the third operand is the first or the second one again
    pub again: bool,
}
impl SceneFn for Compose {
    fn run<T: Dom>(&self) {
        let seed = self.from + T::choose(self.count);
        let e = cached("compose", seed, |r| {
            let mut p = |n: usize, h: usize, b: i64| {
                let k = 3 + r.below(n - 2);
                gen::poly(r, k, h, b, 0)
            };
            let (a, b, c) = (p(5, 1, 3), p(4, 0, 3), p(4, 0, 2));
            let d = [(1, 0), (0, 1), (1, 1), (1, -1), (2, 1)][r.below(5)];
            (a, b, c, d, r.below(4), r.coin(1, 2), r.coin(1, 2))
        });
        let (a, b, c, d, first, which, swap) = &*e;
        if super::show() {
            println!("operands {:?}, {:?}, {:?}, moving along {:?}, first {:?}", a, b, c, d, OPS[*first]);
        }
        let t: T = var("t", -3, 3);
        let o = pt(T::i(d.0) * t, T::i(d.1) * t);
        let fixed = |p: &gen::Poly| -> Vec<Polygon<T>> { put(&[p.clone()], ip(0, 0)) };
        let moved = |p: &gen::Poly| -> Vec<Polygon<T>> { put(&[p.clone()], o) };
        let (a, b, c) = if self.again {
            let (a, b) = (fixed(a), moved(b));
            let c = if *which { a.clone() } else { b.clone() };
            (a, b, c)
        } else {
            (fixed(a), fixed(b), moved(c))
        };
        let r1 = apply(OPS[*first], &MultiPolygon(a), &MultiPolygon(b));
        let op = OPS[T::choose(4)];
        let c = MultiPolygon(c);
        let (x, y) = if *swap { (&c, &r1) } else { (&r1, &c) };
        let r2 = apply(op, x, y);
        check_shape(&r2);
        check_region(op, &x.0, &y.0, &r2);
        T::cover("checked");
    }
}
pub fn scenes(v: &mut Vec<Scene>) {
    let size = (7, 3);
    v.push(Scene::new("C16", "columns", 0, Raster { from: 0, count: 150, size, mode: 0 }));
    v.push(Scene::new("C16", "rows", 0, Raster { from: 1000, count: 150, size, mode: 1 }));
    v.push(Scene::new("C16", "shear", 0, Raster { from: 2000, count: 60, size: (6, 3), mode: 2 }));
    v.push(Scene::new("C16", "columns-more", 1, Raster { from: 10000, count: 3000, size: (9, 4), mode: 0 }));
    v.push(Scene::new("C16", "rows-more", 1, Raster { from: 20000, count: 3000, size: (9, 4), mode: 1 }));
    v.push(Scene::new("C16", "shear-more", 1, Raster { from: 30000, count: 2000, size, mode: 2 }));
    v.push(Scene::new("C17", "third", 0, Compose { from: 0, count: 40, again: false }));
    v.push(Scene::new("C17", "again", 0, Compose { from: 1000, count: 50, again: true }));
    v.push(Scene::new("C17", "third-more", 1, Compose { from: 10000, count: 1500, again: false }));
    v.push(Scene::new("C17", "again-more", 1, Compose { from: 20000, count: 1500, again: true }));
}
