//! C12: the splay tree against a sorted vector, keys symbolic.
use crate::dom::Dom;
use crate::int::Rat;
use crate::run::{Scene, SceneFn};
use geo_crossings::{SplaySet, SplayTree};
use std::cmp::Ordering;

fn cmp<T: Dom>(a: &T, b: &T) -> Ordering {
    a.partial_cmp(b).expect("ordered keys")
}
/// the reference: sorted by key
struct Model<T>(Vec<(T, usize)>);
impl<T: Dom> Model<T> {
    fn find(&self, k: T) -> Result<usize, usize> {
        for (i, e) in self.0.iter().enumerate() {
            match cmp(&k, &e.0) {
                Ordering::Less => return Err(i),
                Ordering::Equal => return Ok(i),
                Ordering::Greater => {}
            }
        }
        Err(self.0.len())
    }
}
type Cmp<T> = fn(&T, &T) -> Ordering;
struct Pair<T: Dom> {
    tree: SplayTree<T, usize, Cmp<T>>,
    m: Model<T>,
    fresh: usize,
}
pub const INSERT: usize = 0;
pub const REMOVE: usize = 1;
const NOPS: usize = 7;
impl<T: Dom> Pair<T> {
    fn new() -> Self {
        Pair { tree: SplayTree::new(cmp::<T>), m: Model(vec![]), fresh: 100 }
    }
    fn step(&mut self, op: usize, k: T) {
        let at = self.m.find(k);
        match op {
            INSERT => {
                self.fresh += 1;
                let v = self.fresh;
                let old = self.tree.insert(k, v);
                match at {
                    Ok(i) => {
                        assert_eq!(old, Some(self.m.0[i].1), "insert over a key returns the old value");
                        self.m.0[i].1 = v;
                    }
                    Err(i) => {
                        assert_eq!(old, None, "insert of a new key returns a value");
                        self.m.0.insert(i, (k, v));
                    }
                }
            }
            REMOVE => {
                let old = self.tree.remove(&k);
                match at {
                    Ok(i) => {
                        assert_eq!(old, Some(self.m.0[i].1), "remove returns the value");
                        self.m.0.remove(i);
                    }
                    Err(_) => assert_eq!(old, None, "remove of an absent key"),
                }
            }
            2 => {
                assert_eq!(self.tree.get(&k).copied(), at.ok().map(|i| self.m.0[i].1), "get");
                assert_eq!(self.tree.contains(&k), at.is_ok(), "contains");
            }
            3 => {
                let n = self.tree.next(&k).map(|(k, v)| (*k, *v));
                let i = match at {
                    Ok(i) => i + 1,
                    Err(i) => i,
                };
                self.same(n, i, "next");
            }
            4 => {
                let n = self.tree.prev(&k).map(|(k, v)| (*k, *v));
                let i = match at {
                    Ok(i) | Err(i) => i,
                };
                self.same(n, i.wrapping_sub(1), "prev");
            }
            5 => {
                self.fresh += 1;
                let v = self.fresh;
                let r = self.tree.get_mut(&k);
                assert_eq!(r.is_some(), at.is_ok(), "get_mut");
                if let (Some(r), Ok(i)) = (r, at) {
                    assert_eq!(*r, self.m.0[i].1, "get_mut value");
                    *r = v;
                    self.m.0[i].1 = v;
                    assert_eq!(self.tree[&k], v, "index after get_mut");
                }
            }
            _ => {
                let f = self.tree.find_key(&k).copied();
                assert_eq!(f.is_some(), at.is_ok(), "find_key");
                if let Some(f) = f {
                    assert!(cmp(&f, &k) == Ordering::Equal, "find_key returns another key");
                }
            }
        }
        self.light();
    }
    fn same(&self, got: Option<(T, usize)>, i: usize, what: &str) {
        match (got, self.m.0.get(i)) {
            (None, None) => {}
            (Some((k, v)), Some((mk, mv))) => {
                assert_eq!(v, *mv, "{} finds the wrong entry", what);
                assert!(cmp(&k, mk) == Ordering::Equal, "{} returns the wrong key", what);
            }
            (g, e) => panic!("{}: got {:?}, expected {:?}", what, g.is_some(), e.is_some()),
        }
    }
    fn light(&self) {
        assert_eq!(self.tree.len(), self.m.0.len(), "len");
        assert_eq!(self.tree.is_empty(), self.m.0.is_empty(), "is_empty");
        let (mn, mx) = (self.tree.min().copied(), self.tree.max().copied());
        assert_eq!(mn.is_some(), !self.m.0.is_empty(), "min");
        if let (Some(a), Some(b)) = (mn, mx) {
            assert!(cmp(&a, &self.m.0[0].0) == Ordering::Equal, "min");
            assert!(cmp(&b, &self.m.0.last().unwrap().0) == Ordering::Equal, "max");
        }
    }
    fn drain(self, back: impl Fn(usize) -> bool) {
        let Pair { tree, m, .. } = self;
        let mut it = tree.into_iter();
        let mut rest: std::collections::VecDeque<(T, usize)> = m.0.into_iter().collect();
        let mut i = 0;
        loop {
            assert_eq!(it.size_hint(), (rest.len(), Some(rest.len())), "size_hint");
            let (g, e) = if back(i) { (it.next_back(), rest.pop_back()) } else { (it.next(), rest.pop_front()) };
            match (g, e) {
                (None, None) => break,
                (Some((k, v)), Some((mk, mv))) => {
                    assert_eq!(v, mv, "iteration order");
                    assert!(cmp(&k, &mk) == Ordering::Equal, "iteration key");
                }
                _ => panic!("iteration length"),
            }
            i += 1;
        }
        assert!(it.next().is_none() && it.next_back().is_none(), "iterator resumed");
    }
}
fn key<T: Dom>(i: usize) -> T {
    T::var(&format!("k{}", i), Rat::int(0), Rat::int(20))
}
/// Any history of n operations on an empty tree.
pub struct History {
    pub n: usize,
    pub ops: usize,
}
impl SceneFn for History {
    fn run<T: Dom>(&self) {
        let mut p = Pair::<T>::new();
        for i in 0..self.n {
            // operations on an empty tree are covered by the shortest prefixes
            let op = if i == 0 { INSERT } else { T::choose(self.ops) };
            p.step(op, key(i));
        }
        p.drain(|_| false);
        T::cover("checked");
    }
}
const BUILDS: [&[i64]; 7] = [
    &[2, 4, 6, 8, 10, 12, 14],
    &[14, 12, 10, 8, 6, 4, 2],
    &[8, 4, 12, 2, 6, 10, 14],
    &[2, 14, 4, 12, 6, 10, 8],
    &[6, 2, 4, 14, 12, 8, 10],
    &[10, 8, 14, 2, 12, 4, 6],
    &[4, 8, 6, 2, 12, 14, 10, 16, 9],
];
/// n operations with symbolic keys on trees built from concrete keys.
pub struct Built {
    pub n: usize,
}
impl SceneFn for Built {
    fn run<T: Dom>(&self) {
        let mut p = Pair::<T>::new();
        for k in BUILDS[T::choose(BUILDS.len())] {
            p.step(INSERT, T::i(*k));
        }
        for i in 0..self.n {
            let op = T::choose(NOPS);
            p.step(op, key(i));
        }
        p.drain(|i| i % 2 == 1);
        T::cover("checked");
    }
}
/// Iteration from both ends in any pattern, after a splaying lookup.
pub struct Iterate;
impl SceneFn for Iterate {
    fn run<T: Dom>(&self) {
        let mut p = Pair::<T>::new();
        for k in BUILDS[T::choose(BUILDS.len())] {
            p.step(INSERT, T::i(*k));
        }
        p.step(2, key(0));
        let pat: Vec<bool> = (0..4).map(|_| T::choose(2) == 1).collect();
        p.drain(|i| pat[i % 4]);
        T::cover("checked");
    }
}
/// The set wrapper, extend and clear.
pub struct Sets {
    pub n: usize,
}
impl SceneFn for Sets {
    fn run<T: Dom>(&self) {
        let mut s: SplaySet<T, Cmp<T>> = SplaySet::new(cmp::<T>);
        let mut m = Model::<T>(vec![]);
        let ks: Vec<T> = (0..self.n).map(key).collect();
        if T::choose(2) == 0 {
            s.extend(ks.iter().copied());
            for k in &ks {
                if let Err(i) = m.find(*k) {
                    m.0.insert(i, (*k, 0));
                }
            }
        } else {
            for k in &ks {
                let at = m.find(*k);
                assert_eq!(s.insert(*k), at.is_err(), "set insert");
                if let Err(i) = at {
                    m.0.insert(i, (*k, 0));
                }
            }
        }
        let k: T = key(self.n);
        let at = m.find(k);
        let eq = |a: Option<T>, b: Option<T>, w: &str| match (a, b) {
            (None, None) => {}
            (Some(a), Some(b)) => assert!(cmp(&a, &b) == Ordering::Equal, "set {}: wrong element", w),
            _ => panic!("set {}: presence", w),
        };
        let get = |i: usize| m.0.get(i).map(|e| e.0);
        match T::choose(7) {
            0 => assert_eq!(s.contains(&k), at.is_ok(), "set contains"),
            1 => eq(s.find(&k).copied(), at.ok().and_then(get), "find"),
            2 => eq(s.next(&k).copied(), get(at.map_or_else(|i| i, |i| i + 1)), "next"),
            3 => eq(s.prev(&k).copied(), get(at.unwrap_or_else(|i| i).wrapping_sub(1)), "prev"),
            4 => {
                assert_eq!(s.remove(&k), at.is_ok(), "set remove");
                if let Ok(i) = at {
                    m.0.remove(i);
                }
            }
            5 => {
                s.clear();
                m.0.clear();
                assert!(s.is_empty() && s.len() == 0 && s.min().is_none() && !s.contains(&k), "clear");
                assert!(s.insert(k), "insert after clear");
                m.0.push((k, 0));
            }
            _ => {
                eq(s.min().copied(), m.0.first().map(|e| e.0), "min");
                eq(s.max().copied(), m.0.last().map(|e| e.0), "max");
            }
        }
        assert_eq!(s.len(), m.0.len(), "set len");
        let mut it = s.into_iter();
        let fwd = T::choose(2) == 0;
        if !fwd {
            m.0.reverse();
        }
        for e in &m.0 {
            let g = if fwd { it.next() } else { it.next_back() };
            match g {
                Some(g) => assert!(cmp(&g, &e.0) == Ordering::Equal, "set iteration"),
                None => panic!("set iteration ended early"),
            }
        }
        assert!(it.next().is_none(), "set iteration too long");
        T::cover("checked");
    }
}
// ---- C21: what happens to the entries ----
#[derive(Default)]
struct Reg {
    /// per token: how often it was dropped
    dropped: Vec<u32>,
    lowest: usize,
}
thread_local! {
    static REG: std::cell::RefCell<Reg> = std::cell::RefCell::new(Reg::default());
}
/// Something whose end is noticed.
struct Tok(usize);
impl Tok {
    fn new() -> Tok {
        REG.with(|r| {
            let mut r = r.borrow_mut();
            r.dropped.push(0);
            Tok(r.dropped.len() - 1)
        })
    }
    fn ended(id: usize) -> u32 {
        REG.with(|r| r.borrow().dropped[id])
    }
}
#[inline(never)]
fn here() -> usize {
    let x = 0u8;
    std::hint::black_box(&x) as *const u8 as usize
}
impl Drop for Tok {
    fn drop(&mut self) {
        let at = here();
        let id = self.0;
        let _ = REG.try_with(|r| {
            let mut r = r.borrow_mut();
            r.dropped[id] += 1;
            r.lowest = r.lowest.min(at);
        });
    }
}
struct Key<T: Dom> {
    k: T,
    t: Tok,
}
fn kcmp<T: Dom>(a: &Key<T>, b: &Key<T>) -> Ordering {
    cmp(&a.k, &b.k)
}
type KCmp<T> = fn(&Key<T>, &Key<T>) -> Ordering;
struct Owned<T: Dom> {
    tree: SplayTree<Key<T>, Tok, KCmp<T>>,
    /// key, token of the value
    m: Vec<(T, usize)>,
    keys: Vec<usize>,
    values: Vec<usize>,
}
impl<T: Dom> Owned<T> {
    fn new() -> Self {
        REG.with(|r| *r.borrow_mut() = Reg { dropped: vec![], lowest: usize::MAX });
        Owned { tree: SplayTree::new(kcmp::<T>), m: vec![], keys: vec![], values: vec![] }
    }
    fn at(&self, k: T) -> Option<usize> {
        self.m.iter().position(|e| cmp(&e.0, &k) == Ordering::Equal)
    }
    fn insert(&mut self, k: T) {
        let (kt, vt) = (Tok::new(), Tok::new());
        self.keys.push(kt.0);
        self.values.push(vt.0);
        let v = vt.0;
        let at = self.at(k);
        let old = self.tree.insert(Key { k, t: kt }, vt);
        match at {
            None => {
                assert!(old.is_none(), "insert of a new key returns a value");
                self.m.push((k, v));
            }
            Some(i) => {
                assert_eq!(old.map(|o| o.0), Some(self.m[i].1), "insert over a key gives the old value back");
                self.m[i].1 = v;
            }
        }
    }
    fn probe(&self, k: T) -> Key<T> {
        Key { k, t: Tok::new() }
    }
    fn step(&mut self, op: usize, k: T) {
        match op {
            0 => self.insert(k),
            1 => {
                let at = self.at(k);
                let old = self.tree.remove(&self.probe(k));
                assert_eq!(old.map(|o| o.0), at.map(|i| self.m[i].1), "remove gives the value back");
                if let Some(i) = at {
                    self.m.remove(i);
                }
            }
            2 => {
                let at = self.at(k);
                let old = self.tree.get(&self.probe(k)).map(|o| o.0);
                assert_eq!(old, at.map(|i| self.m[i].1), "get");
            }
            3 => {
                self.tree.clear();
                self.m.clear();
                assert!(self.tree.is_empty() && self.tree.min().is_none(), "clear");
            }
            _ => {
                // another tree takes the place of this one
                self.tree = SplayTree::new(kcmp::<T>);
                self.m.clear();
            }
        }
        self.alive(0);
    }
    /// The entries of the tree are the ones that live, and the others ended once.
    fn alive(&self, given: usize) {
        let n = self.keys.iter().filter(|k| Tok::ended(**k) == 0).count();
        assert_eq!(n, self.m.len() + given, "as many keys live as there are entries");
        for v in &self.values {
            let want = if self.m.iter().any(|e| e.1 == *v) { 0 } else { 1 };
            assert_eq!(Tok::ended(*v), want, "a value is dropped when its entry ends, and once");
        }
        for k in &self.keys {
            assert!(Tok::ended(*k) < 2, "a key is dropped twice");
        }
    }
    #[inline(never)]
    fn end(mut self, how: usize) {
        let top = here();
        REG.with(|r| r.borrow_mut().lowest = usize::MAX);
        let n = self.m.len();
        self.m.sort_by(|a, b| cmp(&a.0, &b.0));
        let Owned { tree, m, keys, values } = self;
        match how {
            0 => drop(tree),
            1 => {
                let mut t = tree;
                t.clear();
                assert_eq!(t.len(), 0, "clear");
            }
            2 => drop(tree.into_iter()),
            _ => {
                let mut it = tree.into_iter();
                let f = it.next();
                let b = it.next_back();
                assert_eq!(f.as_ref().map(|e| e.1 .0), m.first().map(|e| e.1), "first entry");
                assert_eq!(b.as_ref().map(|e| e.1 .0), if n > 1 { m.last().map(|e| e.1) } else { None }, "last entry");
                if let Some((k, v)) = &f {
                    assert!(Tok::ended(k.t.0) == 0 && Tok::ended(v.0) == 0, "an entry taken out is alive");
                }
                drop(it);
                if let Some((k, v)) = &b {
                    assert!(Tok::ended(k.t.0) == 0 && Tok::ended(v.0) == 0, "an entry taken out is alive");
                }
            }
        }
        for t in keys.iter().chain(&values) {
            assert_eq!(Tok::ended(*t), 1, "every key and value ends exactly once");
        }
        REG.with(|r| {
            let low = r.borrow().lowest;
            if low != usize::MAX {
                // a frame per level of a tree this high would need more
                assert!(top.saturating_sub(low) < 1024 + 8 * HIGH, "the stack needed to drop a tree grows with its height");
            }
        });
    }
}
const HIGH: usize = 200;
/// Any history of operations, ended in any way.
pub struct Ends {
    pub n: usize,
}
impl SceneFn for Ends {
    fn run<T: Dom>(&self) {
        let mut p = Owned::<T>::new();
        for i in 0..self.n {
            let op = if i == 0 { 0 } else { T::choose(5) };
            p.step(op, key(i));
        }
        p.end(T::choose(4));
        T::cover("checked");
    }
}
/// A tree as high as it has entries, reached by an operation anywhere.
pub struct High {
    pub n: usize,
}
impl SceneFn for High {
    fn run<T: Dom>(&self) {
        let mut p = Owned::<T>::new();
        let h = HIGH as i64;
        let up = T::choose(2) == 0;
        for i in 0..h {
            p.insert(T::i(if up { i } else { h - i }));
        }
        for i in 0..self.n {
            let k = T::var(&format!("k{}", i), Rat::int(-2), Rat::int(h + 2));
            p.step(T::choose(3), k);
        }
        p.end(T::choose(4));
        T::cover("checked");
    }
}
pub fn scenes(v: &mut Vec<Scene>) {
    v.push(Scene::new("C21", "ends-4", 0, Ends { n: 4 }));
    v.push(Scene::new("C21", "high-0", 0, High { n: 0 }));
    v.push(Scene::new("C21", "high-1", 0, High { n: 1 }));
    v.push(Scene::new("C21", "ends-5", 1, Ends { n: 5 }));
    v.push(Scene::new("C21", "high-2", 1, High { n: 2 }));
    v.push(Scene::new("C12", "history-4", 0, History { n: 4, ops: 6 }));
    v.push(Scene::new("C12", "built-2", 0, Built { n: 2 }));
    v.push(Scene::new("C12", "iterate", 0, Iterate));
    v.push(Scene::new("C12", "set-3", 0, Sets { n: 3 }));
    v.push(Scene::new("C12", "history-5", 1, History { n: 5, ops: 6 }));
    v.push(Scene::new("C12", "built-3", 1, Built { n: 3 }));
    v.push(Scene::new("C12", "set-4", 1, Sets { n: 4 }));
}
