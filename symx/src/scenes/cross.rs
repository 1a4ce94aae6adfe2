//! C01, C02, C03: the line sweep.
use super::gen::{cached, Lcg};
use super::geom::*;
use crate::dom::Dom;
use crate::int::Rat;
use crate::run::{Scene, SceneFn};
use geo::line_intersection::LineIntersection;
use geo::Line;
use geo_crossings::{Crossable, CrossingsIter, Intersections, LineOrPoint};

#[derive(Clone, Debug)]
pub struct Tag<T: Dom> {
    pub id: usize,
    pub line: Line<T>,
}
impl<T: Dom> Crossable for Tag<T> {
    type Scalar = T;
    fn line(&self) -> Line<T> {
        self.line
    }
}
pub type Segs<T> = Vec<(P<T>, P<T>)>;

fn tags<T: Dom>(s: &Segs<T>) -> Vec<Tag<T>> {
    s.iter().enumerate().map(|(id, s)| Tag { id, line: line(s.0, s.1) }).collect()
}
fn sorted<T: Dom>(s: &Segs<T>) -> Segs<T> {
    s.iter().map(|s| if lex(s.0, s.1) <= 0 { *s } else { (s.1, s.0) }).collect()
}

/// C01: the pairs found are exactly the pairs that meet, each once, with the right intersection.
pub fn check_pairs<T: Dom>(segs: &Segs<T>) {
    let n = segs.len();
    let mut got = vec![0; n * n];
    let it: Intersections<Tag<T>> = tags(segs).into_iter().collect();
    for (a, b, x) in it {
        let (i, j) = (a.id.min(b.id), a.id.max(b.id));
        assert!(i != j, "a segment reported against itself");
        got[i * n + j] += 1;
        let (sa, sb) = (segs[a.id], segs[b.id]);
        let whole = overlap(sa.0, sa.1, sb.0, sb.1);
        match x {
            LineIntersection::SinglePoint { intersection: q, is_proper } => {
                assert!(!whole, "overlap of {} and {} reported as the single point {:?}", i, j, q);
                assert!(on_seg(q, sa.0, sa.1) && on_seg(q, sb.0, sb.1), "intersection {:?} of {} and {} is off a segment", q, i, j);
                let at_end = [sa.0, sa.1, sb.0, sb.1].iter().any(|e| same(*e, q));
                assert_eq!(is_proper, !at_end, "is_proper of the intersection of {} and {}", i, j);
            }
            LineIntersection::Collinear { intersection: l } => {
                let mut m = [l.start, l.end];
                for q in m {
                    assert!(on_seg(q, sa.0, sa.1) && on_seg(q, sb.0, sb.1), "overlap {:?} of {} and {} is off a segment", q, i, j);
                }
                if lex(m[0], m[1]) > 0 {
                    m.swap(0, 1);
                }
                if whole {
                    let s = sorted(&vec![sa, sb]);
                    let lo = if lex(s[0].0, s[1].0) > 0 { s[0].0 } else { s[1].0 };
                    let hi = if lex(s[0].1, s[1].1) < 0 { s[0].1 } else { s[1].1 };
                    assert!(same(m[0], lo) && same(m[1], hi), "overlap {:?} of {} and {} is not all they have in common", l, i, j);
                } else {
                    assert!(same(m[0], m[1]), "{} and {} reported as overlapping", i, j);
                }
            }
        }
    }
    let mut flags: Option<Vec<Option<bool>>> = None;
    for i in 0..n {
        for j in i + 1..n {
            let meet = segs_meet(segs[i].0, segs[i].1, segs[j].0, segs[j].1);
            let c = got[i * n + j];
            if meet && c == 0 {
                // Known: a pair is lost if the piece that would report it starts at the common
                // point and lost its first_segment flag because it was cut further along.
                let fl = flags.get_or_insert_with(|| start_flags(segs));
                let s = sorted(segs);
                let cut = |k: usize, p: P<T>| same(s[k].0, p) && fl[k] == Some(false);
                let uncut = |k: usize, p: P<T>| same(s[k].0, p) && fl[k] != Some(false);
                let lost = if overlap(s[i].0, s[i].1, s[j].0, s[j].1) {
                    let p = if lex(s[i].0, s[j].0) > 0 { s[i].0 } else { s[j].0 };
                    (cut(i, p) || cut(j, p)) && !uncut(i, p) && !uncut(j, p)
                } else {
                    (cut(i, s[i].0) && on_seg(s[i].0, s[j].0, s[j].1)) || (cut(j, s[j].0) && on_seg(s[j].0, s[i].0, s[i].1))
                };
                if lost {
                    T::finding("intersection lost: the piece starting there was cut and lost its first_segment flag");
                    continue;
                }
            }
            assert!(!(meet && c == 0), "pair {} {} meets but was not reported", i, j);
            assert!(meet || c == 0, "pair {} {} was reported but does not meet", i, j);
            assert!(c <= 1, "pair {} {} was reported {} times", i, j, c);
        }
    }
}

struct Rec<T: Dom> {
    id: usize,
    l: LineOrPoint<T>,
    first: bool,
    overlap: bool,
    left: bool,
}
fn sweep<T: Dom>(segs: &Segs<T>) -> Vec<(P<T>, Vec<Rec<T>>)> {
    let mut it: CrossingsIter<Tag<T>> = tags(segs).into_iter().collect();
    let mut out = vec![];
    let n = segs.len();
    while let Some(p) = it.next() {
        let v = it
            .intersections()
            .iter()
            .map(|c| Rec { id: c.crossable.id, l: c.line, first: c.first_segment, overlap: c.has_overlap, left: c.at_left })
            .collect();
        out.push((p, v));
        assert!(out.len() <= n * n + 3 * n, "more points than possible");
    }
    assert!(it.next().is_none(), "iterator resumed after its end");
    out
}
/// The first_segment flag of the piece with which each input starts.
fn start_flags<T: Dom>(segs: &Segs<T>) -> Vec<Option<bool>> {
    let s = sorted(segs);
    let mut f = vec![None; s.len()];
    for (p, recs) in sweep(segs) {
        for r in recs {
            if r.left && same(p, s[r.id].0) {
                f[r.id] = Some(r.first);
            }
        }
    }
    f
}
/// every point the sweep must stop at
fn special<T: Dom>(s: &Segs<T>) -> Vec<P<T>> {
    let mut v = vec![];
    for a in s {
        v.push(a.0);
        v.push(a.1);
    }
    for i in 0..s.len() {
        for j in 0..i {
            let (a, b) = (s[i], s[j]);
            if same(a.0, a.1) || same(b.0, b.1) {
                continue;
            }
            let d = (a.1.x - a.0.x) * (b.1.y - b.0.y) - (a.1.y - a.0.y) * (b.1.x - b.0.x);
            if sign(d) != 0 && segs_meet(a.0, a.1, b.0, b.1) {
                v.push(line_cross(a.0, a.1, b.0, b.1));
            }
        }
    }
    v
}
/// C02: the points yielded are exactly the special points, in increasing order, once each.
pub fn check_points<T: Dom>(segs: &Segs<T>) {
    let s = sorted(segs);
    let out = sweep(segs);
    for w in out.windows(2) {
        assert!(lex(w[0].0, w[1].0) < 0, "points out of order: {:?} then {:?}", w[0].0, w[1].0);
    }
    let sp = special(&s);
    let mut hit = vec![false; out.len()];
    for q in &sp {
        let mut f = false;
        for (i, o) in out.iter().enumerate() {
            if same(*q, o.0) {
                hit[i] = true;
                f = true;
                break;
            }
        }
        assert!(f, "end point or crossing {:?} was not yielded", q);
    }
    assert!(hit.iter().all(|h| *h), "a point that is neither end point nor crossing was yielded");
}
/// C03: what is reported at each point.
pub fn check_crossings<T: Dom>(segs: &Segs<T>) {
    let s = sorted(segs);
    let out = sweep(segs);
    // last point at which each input was cut so far
    let mut cut: Vec<Option<P<T>>> = vec![None; s.len()];
    for (p, recs) in &out {
        let p = *p;
        for (i, a) in s.iter().enumerate() {
            let mine: Vec<&Rec<T>> = recs.iter().filter(|r| r.id == i).collect();
            let here = on_seg(p, a.0, a.1);
            if !here {
                assert!(mine.is_empty(), "input {} reported at {:?}, which it does not touch", i, p);
                continue;
            }
            let (st, en) = (same(p, a.0), same(p, a.1));
            let ends: Vec<&&Rec<T>> = mine.iter().filter(|r| !r.left).collect();
            let starts: Vec<&&Rec<T>> = mine.iter().filter(|r| r.left).collect();
            let want_e = if st && en { ends.len() } else { !st as usize };
            let want_s = if st && en { starts.len() } else { !en as usize };
            assert_eq!(ends.len(), want_e, "input {}: pieces ending at {:?}", i, p);
            assert_eq!(starts.len(), want_s, "input {}: pieces starting at {:?}", i, p);
            if st && en {
                assert!(!mine.is_empty(), "point input {} not reported at {:?}", i, p);
            }
            for r in &mine {
                let l = r.l.line();
                assert_eq!(r.l.is_line(), !(st && en), "input {}: piece variant", i);
                if st && en {
                    assert!(same(l.start, p), "input {}: point piece moved", i);
                    assert!(!r.overlap, "point flagged as overlapping");
                    continue;
                }
                assert!(on_seg(l.start, a.0, a.1) && on_seg(l.end, a.0, a.1), "input {}: piece {:?} leaves the input", i, l);
                if r.left {
                    assert!(same(l.start, p) && lex(l.end, p) > 0, "input {}: piece at {:?} does not start there", i, p);
                } else {
                    assert!(same(l.end, p), "input {}: piece at {:?} does not end there", i, p);
                    let c = cut[i].expect("piece ended before it started");
                    assert!(same(l.start, c), "input {}: piece ending at {:?} starts at {:?}, not at the last cut {:?}", i, p, l.start, c);
                }
                let first = if r.left { st } else { same(l.start, a.0) };
                if first && !r.first && !same(l.end, a.1) {
                    T::finding("first_segment is false on the first piece of an input that was cut further along");
                } else {
                    assert_eq!(r.first, first, "input {}: first_segment of a piece {} at {:?}", i, if r.left { "starting" } else { "ending" }, p);
                }
            }
            cut[i] = Some(p);
        }
        for (k, r) in recs.iter().enumerate() {
            if r.overlap {
                assert!(k + 1 < recs.len(), "has_overlap on the last entry");
                let (l, m) = (r.l.line(), recs[k + 1].l.line());
                assert!(overlap(l.start, l.end, m.start, m.end), "has_overlap but the next entry does not overlap");
            }
        }
    }
    for (i, a) in s.iter().enumerate() {
        match cut[i] {
            Some(c) => assert!(same(c, a.1), "input {} not followed to its end", i),
            None => panic!("input {} never reported", i),
        }
    }
}
#[derive(Clone, Copy)]
pub enum What {
    Pairs,
    Points,
    Crossings,
}
pub fn judge<T: Dom>(w: What, s: &Segs<T>) {
    match w {
        What::Pairs => check_pairs(s),
        What::Points => check_points(s),
        What::Crossings => check_crossings(s),
    }
    T::cover("checked");
}

/// The first segment fixed, the others translates of given directions by symbolic vectors.
pub struct Trans {
    pub what: What,
    pub n: usize,
    pub dirs: &'static [(i64, i64)],
    pub r: i64,
}
impl SceneFn for Trans {
    fn run<T: Dom>(&self) {
        let mut s: Segs<T> = vec![];
        for i in 0..self.n {
            let d = self.dirs[T::choose(self.dirs.len())];
            let o = if i == 0 {
                ip(0, 0)
            } else {
                let r = Rat::int(self.r);
                pt(T::var(&format!("u{}", i), r.neg(), r.clone()), T::var(&format!("v{}", i), r.neg(), r.clone()))
            };
            s.push((o, at(o, d.0, d.1)));
        }
        judge(self.what, &s)
    }
}
/// One or two menu segments and one with both end points symbolic.
pub struct Free {
    pub what: What,
    pub base: &'static [&'static [[i64; 4]]],
}
impl SceneFn for Free {
    fn run<T: Dom>(&self) {
        let b = self.base[T::choose(self.base.len())];
        let mut s: Segs<T> = b.iter().map(|l| (ip(l[0], l[1]), ip(l[2], l[3]))).collect();
        let r = Rat::int(3);
        let mut v = |n: &str| T::var(n, r.neg(), r.clone());
        let (a, b) = (pt(v("ax"), v("ay")), pt(v("bx"), v("by")));
        s.push((a, b));
        judge(self.what, &s)
    }
}
/// Several concrete segments and one translated freely, given first or last.
pub struct Field {
    pub what: What,
    pub base: &'static [&'static [[i64; 4]]],
    pub dirs: &'static [(i64, i64)],
}
impl SceneFn for Field {
    fn run<T: Dom>(&self) {
        let b = self.base[T::choose(self.base.len())];
        let mut s: Segs<T> = b.iter().map(|l| (ip(l[0], l[1]), ip(l[2], l[3]))).collect();
        let d = self.dirs[T::choose(self.dirs.len())];
        let o = pt(T::var("u", Rat::int(-5), Rat::int(5)), T::var("v", Rat::int(-5), Rat::int(5)));
        let at_front = T::choose(2) == 1;
        s.insert(if at_front { 0 } else { s.len() }, (o, at(o, d.0, d.1)));
        judge(self.what, &s)
    }
}
/// A reproducible catalogue of small configurations with many coincidences, and a group of one to
/// three segments translated freely, given before or after them.
pub struct Catalogue {
    pub what: What,
    pub from: usize,
    pub count: usize,
    pub max: usize,
    /// translated along a line instead of freely
    pub along: bool,
}
/// (fixed segments, moving segments, moving ones come first)
pub fn configuration(r: &mut Lcg, max: usize) -> (Vec<[i64; 4]>, Vec<[i64; 4]>, bool) {
    let mut fixed: Vec<[i64; 4]> = vec![];
    let n = r.range(2, max as i64) as usize;
    while fixed.len() < n {
        let kind = r.below(8);
        let s = match kind {
            // collinear with an earlier one: shifted along it, or a part of it
            0 | 1 if !fixed.is_empty() => {
                let b = fixed[r.below(fixed.len())];
                let (dx, dy) = (b[2] - b[0], b[3] - b[1]);
                match r.below(4) {
                    0 => b,
                    1 => [b[0] + dx, b[1] + dy, b[0], b[1]],
                    2 => [b[0], b[1], b[0] + 2 * dx, b[1] + 2 * dy],
                    _ => [b[0] - dx, b[1] - dy, b[0] + 2 * dx, b[1] + 2 * dy],
                }
            }
            // shares an end point
            2 | 3 if !fixed.is_empty() => {
                let b = fixed[r.below(fixed.len())];
                let (x, y) = if r.coin(1, 2) { (b[0], b[1]) } else { (b[2], b[3]) };
                [x, y, r.range(-3, 3), r.range(-3, 3)]
            }
            // a point, or a point at an end
            4 if !fixed.is_empty() && r.coin(1, 2) => {
                let b = fixed[r.below(fixed.len())];
                [b[0], b[1], b[0], b[1]]
            }
            5 => {
                let x = r.range(-2, 2);
                [x, r.range(-3, 0), x, r.range(0, 3)]
            }
            _ => [r.range(-3, 0), r.range(-3, 3), r.range(-1, 3), r.range(-3, 3)],
        };
        fixed.push(s);
    }
    const D: [(i64, i64); 6] = [(2, 0), (2, 1), (1, 2), (0, 2), (2, -1), (1, -2)];
    let d = D[r.below(6)];
    let e = D[r.below(6)];
    let seg = |ox: i64, oy: i64, a: i64, b: i64, d: (i64, i64)| [ox + a * d.0, oy + a * d.1, ox + b * d.0, oy + b * d.1];
    let mut group = match r.below(8) {
        0 => vec![seg(0, 0, 0, 1, d)],
        1 => vec![seg(0, 0, -1, 1, d), seg(0, 0, 0, 2, d)],
        2 => vec![seg(0, 0, 0, 1, d), seg(0, 0, 0, 1, d)],
        3 => vec![seg(0, 0, -1, 1, d), seg(0, 0, 0, 1, d)],
        4 => vec![seg(0, 0, 0, 1, d), seg(0, 0, 0, 1, e)],
        5 => vec![seg(0, 0, -1, 1, d), [0, 0, 0, 0]],
        6 => vec![seg(0, 0, -1, 0, d), seg(0, 0, 0, 1, e)],
        _ => vec![seg(0, 0, -1, 1, d), seg(0, 0, -1, 1, e)],
    };
    for s in fixed.iter_mut().chain(group.iter_mut()) {
        if r.coin(1, 4) {
            *s = [s[2], s[3], s[0], s[1]];
        }
    }
    (fixed, group, r.coin(1, 2))
}
impl SceneFn for Catalogue {
    fn run<T: Dom>(&self) {
        let seed = self.from + T::choose(self.count);
        let c = cached("cross", seed, |r| {
            let c = configuration(r, self.max);
            (c, (r.range(-2, 2), r.range(-2, 2)), [(1, 0), (0, 1), (1, 1), (1, -2), (0, 0), (0, 0)][r.below(6)])
        });
        let ((fixed, group, front), o, d) = &*c;
        let front = *front;
        let var = |n: &str| -> T { T::var(n, Rat::int(-4), Rat::int(4)) };
        let o = if self.along {
            let t = var("t");
            pt(T::i(o.0) + T::i(d.0) * t, T::i(o.1) + T::i(d.1) * t)
        } else {
            pt(var("u"), var("v"))
        };
        let mut s: Segs<T> = fixed.iter().map(|l| (ip(l[0], l[1]), ip(l[2], l[3]))).collect();
        let g: Segs<T> = group.iter().map(|l| (at(o, l[0], l[1]), at(o, l[2], l[3]))).collect();
        let mut g = g;
        if self.along && *d == (0, 0) {
            // shear everything instead
            let t = var("s");
            for l in s.iter_mut().chain(g.iter_mut()) {
                l.0.x = l.0.x + t * l.0.y;
                l.1.x = l.1.x + t * l.1.y;
            }
        }
        if super::show() {
            println!("segments {:?}, moving {:?} from {:?} along {:?}, first: {}", fixed, group, o, d, front);
        }
        if front {
            s.splice(0..0, g);
        } else {
            s.extend(g);
        }
        judge(self.what, &s)
    }
}
pub const FIELDS: &[&[[i64; 4]]] = &[
    // star: all cross at the origin
    &[[-2, 0, 2, 0], [0, -2, 0, 2], [-2, -2, 2, 2], [-2, 1, 2, -1]],
    // all start at the origin, or end there
    &[[0, 0, 3, 0], [0, 0, 3, 2], [0, 0, 0, 3], [-2, 1, 0, 0], [-2, -3, 0, 0]],
    // overlapping stack
    &[[-3, 0, 1, 0], [-1, 0, 3, 0], [0, 0, 2, 0]],
    // identical inputs, and one reversed
    &[[-2, -1, 2, 1], [2, 1, -2, -1], [-2, -1, 2, 1]],
    // vertical stack
    &[[0, -3, 0, 1], [0, -1, 0, 3], [0, 2, 0, -2]],
    // grid
    &[[-2, -1, 2, -1], [-2, 1, 2, 1], [-1, -2, -1, 2], [1, -2, 1, 2]],
    // fence, in no order
    &[[-2, 2, 2, 2], [-2, -2, 2, -2], [-2, 0, 2, 0], [-2, 1, 2, 1], [-2, -1, 2, -1]],
    // points
    &[[0, 0, 0, 0], [1, 1, 1, 1], [0, 1, 0, 1], [0, 0, 0, 0]],
];
pub const D6: &[(i64, i64)] = &[(2, 0), (0, 2), (2, 2), (2, -3), (-3, -1), (0, 0)];
pub const D5: &[(i64, i64)] = &[(2, 0), (0, 2), (2, 2), (2, -3), (0, 0)];
pub const D4: &[(i64, i64)] = &[(2, 0), (0, 2), (3, 3), (-2, 1)];
pub const ONE: &[&[[i64; 4]]] = &[&[[-1, 0, 2, 0]], &[[0, -1, 0, 2]], &[[-1, -1, 1, 2]], &[[-1, 1, 2, -1]]];
pub const TWO: &[&[[i64; 4]]] = &[
    &[[-1, 0, 2, 0], [0, -1, 0, 2]],
    &[[-1, -1, 2, 2], [-1, 1, 2, -1]],
    &[[-1, 0, 1, 0], [0, 0, 2, 0]],
    &[[-1, 0, 2, 0], [-1, 0, 2, 2]],
];
/// Everything the two iterators tell, without the inputs' identity.
struct Told<T: Dom> {
    points: Vec<P<T>>,
    /// per point: start, end, [line, first, overlap, left]
    pieces: Vec<Vec<(P<T>, P<T>, [bool; 4])>>,
    /// both inputs as given, the intersection's extent, proper
    pairs: Vec<([P<T>; 6], bool)>,
}
/// An iterator that tells a given (true) size hint.
struct Hinted<I>(I, (usize, Option<usize>));
impl<I: Iterator> Iterator for Hinted<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.1
    }
}
fn told<T: Dom, C: Crossable<Scalar = T> + Clone>(input: Vec<C>) -> Told<T> {
    let n = input.len();
    told_by(input, (n, Some(n)))
}
fn told_by<T: Dom, C: Crossable<Scalar = T> + Clone>(input: Vec<C>, hint: (usize, Option<usize>)) -> Told<T> {
    let mut t = Told { points: vec![], pieces: vec![], pairs: vec![] };
    let mut it: CrossingsIter<C> = Hinted(input.iter().cloned(), hint).collect();
    while let Some(p) = it.next() {
        t.points.push(p);
        let n = it.intersections().len();
        assert_eq!(n, it.intersections_mut().len());
        t.pieces.push(
            it.intersections()
                .iter()
                .map(|c| {
                    let l = c.line.line();
                    (l.start, l.end, [c.line.is_line(), c.first_segment, c.has_overlap, c.at_left])
                })
                .collect(),
        );
    }
    for (a, b, x) in Hinted(input.into_iter(), hint).collect::<Intersections<C>>() {
        let (a, b) = (a.line(), b.line());
        let (s, e, k) = match x {
            LineIntersection::SinglePoint { intersection: q, is_proper } => (q, q, is_proper),
            LineIntersection::Collinear { intersection: l } => (l.start, l.end, false),
        };
        t.pairs.push(([a.start, a.end, b.start, b.end, s, e], k));
    }
    t
}
/// The inputs as plain lines, borrowed, boxed, counted, tagged and nested.
pub struct Kinds {
    pub from: usize,
    pub count: usize,
    pub max: usize,
}
impl SceneFn for Kinds {
    fn run<T: Dom>(&self) {
        use std::rc::Rc;
        use std::sync::Arc;
        let seed = self.from + T::choose(self.count);
        let c = cached("cross", seed, |r| {
            let c = configuration(r, self.max);
            (c, (r.range(-2, 2), r.range(-2, 2)), [(1, 0), (0, 1), (1, 1), (1, -2), (0, 0), (0, 0)][r.below(6)])
        });
        let ((fixed, group, _), o, d) = &*c;
        let t = T::var("t", Rat::int(-4), Rat::int(4));
        let o = pt(T::i(o.0) + T::i(d.0) * t, T::i(o.1) + T::i(d.1) * t);
        let mut s: Segs<T> = fixed.iter().map(|l| (ip(l[0], l[1]), ip(l[2], l[3]))).collect();
        s.extend(group.iter().map(|l| (at(o, l[0], l[1]), at(o, l[2], l[3]))));
        let lines: Vec<Line<T>> = s.iter().map(|s| line(s.0, s.1)).collect();
        let want = told(tags(&s));
        let got = match T::choose(13) {
            0 => told(lines),
            // the same lines from iterators that know less about their number
            7 => told_by(lines, (0, None)),
            8 => told_by(lines, (0, Some(s.len()))),
            9 => told_by(lines, (s.len().min(1), Some(s.len() * 16 + 5))),
            10 => told_by(lines, (s.len(), None)),
            11 => told_by(lines, (0, Some(usize::MAX))),
            12 => told_by(lines, (s.len().saturating_sub(1), Some(usize::MAX / 16 + 1))),
            1 => told(lines.iter().collect::<Vec<&Line<T>>>()),
            2 => told(lines.into_iter().map(Box::new).collect::<Vec<_>>()),
            3 => told(lines.into_iter().map(Rc::new).collect::<Vec<_>>()),
            4 => told(lines.into_iter().map(Arc::new).collect::<Vec<_>>()),
            5 => {
                let t = tags(&s);
                let u: Vec<Rc<&Tag<T>>> = t.iter().map(Rc::new).collect();
                told(u.iter().collect::<Vec<&Rc<&Tag<T>>>>())
            }
            _ => told(tags(&s).into_iter().map(|t| Arc::new(Box::new(t))).collect::<Vec<_>>()),
        };
        assert_eq!(got.points.len(), want.points.len(), "number of points");
        for (a, b) in got.points.iter().zip(&want.points) {
            assert!(same(*a, *b), "point {:?} instead of {:?}", a, b);
        }
        for (i, (a, b)) in got.pieces.iter().zip(&want.pieces).enumerate() {
            assert_eq!(a.len(), b.len(), "number of pieces at {:?}", want.points[i]);
            for (x, y) in a.iter().zip(b) {
                assert!(same(x.0, y.0) && same(x.1, y.1) && x.2 == y.2, "piece {:?} instead of {:?}", x, y);
            }
        }
        assert_eq!(got.pairs.len(), want.pairs.len(), "number of pairs");
        for (a, b) in got.pairs.iter().zip(&want.pairs) {
            assert!(a.1 == b.1 && a.0.iter().zip(&b.0).all(|(p, q)| same(*p, *q)), "pair {:?} instead of {:?}", a.0, b.0);
        }
        T::cover("checked");
    }
}
pub fn scenes(v: &mut Vec<Scene>) {
    v.push(Scene::new("C18", "kinds", 0, Kinds { from: 40000, count: 60, max: 5 }));
    v.push(Scene::new("C18", "kinds-more", 1, Kinds { from: 50000, count: 1000, max: 6 }));
    for (p, what) in [("C01", What::Pairs), ("C02", What::Points), ("C03", What::Crossings)] {
        v.push(Scene::new(p, "translates-2", 0, Trans { what, n: 2, dirs: D6, r: 5 }));
        v.push(Scene::new(p, "free-vs-1", 0, Free { what, base: ONE }));
        v.push(Scene::new(p, "free-vs-2", 0, Free { what, base: TWO }));
        v.push(Scene::new(p, "field", 0, Field { what, base: FIELDS, dirs: &[(3, 0), (0, 3), (2, 3), (-3, 1), (0, 0)] }));
        v.push(Scene::new(p, "translates-3", 0, Trans { what, n: 3, dirs: D5, r: 4 }));
        v.push(Scene::new(p, "catalogue", 0, Catalogue { what, from: 0, count: 160, max: 5, along: false }));
        v.push(Scene::new(p, "catalogue-line", 0, Catalogue { what, from: 5000, count: 1500, max: 7, along: true }));
        v.push(Scene::new(p, "translates-3-points", 1, Trans { what, n: 3, dirs: D6, r: 4 }));
        v.push(Scene::new(p, "catalogue-line-more", 1, Catalogue { what, from: 10000, count: 20000, max: 9, along: true }));
        v.push(Scene::new(p, "catalogue-more", 1, Catalogue { what, from: 1000, count: 1500, max: 6, along: false }));
        v.push(Scene::new(p, "translates-4", 1, Trans { what, n: 4, dirs: D4, r: 4 }));
    }
}
