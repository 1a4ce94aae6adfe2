//! Path-exploring symbolic execution engine.
//!
//! The code under test is generic over its scalar type. It is instantiated at [`crate::sym::Sym`],
//! whose values are exact rational functions of symbolic real variables, and run natively. Every
//! comparison it makes ends in [`Ctx::decide`]: the sign of a polynomial. Where the sign is not
//! already fixed on the current path, the SMT solver is asked which of the outcomes are feasible;
//! the run continues along one and a task is queued for each other one.
use crate::int::{Int, Rat};
use crate::poly::{Poly, MAXV};
use crate::z3::{Answer, Solver, ALL, NEG, POS, ZERO};
use std::cell::UnsafeCell;
use std::collections::HashMap;
use std::hash::{Hash, Hasher};
use std::rc::Rc;

/// Payloads of the panics by which the engine leaves a path.
pub enum Leave {
    /// the path violates an assumption of the scene
    Assume,
    /// the engine cannot represent something the code did
    Unsupported(String),
    /// the path executed more scalar operations than the bound
    Steps,
    /// solver gave up where a verdict was needed to continue
    Undecided,
    /// prefix did not replay (nondeterminism)
    Diverged(String),
}
pub fn unsupported(s: &str) -> ! {
    std::panic::panic_any(Leave::Unsupported(s.to_string()))
}

#[derive(Clone, Debug)]
pub struct RatFn {
    pub num: Poly,
    /// positive integer part of the denominator
    pub dc: Int,
    /// denominator factors (ids into `Ctx::factors`, each positive on this path)
    pub den: Vec<(u32, u32)>,
}
#[derive(Clone, Debug)]
pub enum Val {
    Nan,
    Inf(bool),
    C(Rc<Rat>),
    R(Rc<RatFn>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Task {
    pub scene: usize,
    /// decisions, each packed: kind/value in the low bits, check hash above
    pub prefix: Vec<u32>,
    pub model: Option<Vec<Rat>>,
}

#[derive(Default, Clone, Debug)]
pub struct PathStats {
    pub decisions: u64,
    pub forced: u64,
    pub undecided: u64,
    pub sym_compares: u64,
    pub const_compares: u64,
}

#[derive(Clone)]
pub enum Mode {
    Symbolic,
    /// values for the variables, choices for `choose`
    Concrete { vals: Vec<Rat>, choices: Vec<usize>, rng: Option<u64> },
}

pub struct Ctx {
    pub mode: Mode,
    pub vals: Vec<Val>,
    pub factors: Vec<Poly>,
    factor_ids: HashMap<Poly, u32>,
    pub nvars: usize,
    pub var_names: Vec<String>,
    pub bounds: Vec<(Rat, Rat)>,
    /// canonical polynomial -> allowed signs on this path
    known: HashMap<Poly, u8>,
    /// definite-sign polynomials usable as factors
    definite: Vec<(Poly, bool)>,
    /// constraints handed to the solver: (poly, mask), in decision order
    cons: Vec<(Poly, u8)>,
    /// eliminated variables: v := n/d with sign of d
    subst: Vec<(usize, Poly, Poly, i32)>,
    pub model: Option<Vec<Rat>>,
    pub log: Vec<u32>,
    prefix: Vec<u32>,
    pub choices: Vec<usize>,
    pub new_tasks: Vec<Task>,
    pub scene: usize,
    pub solver: Solver,
    pub steps: u64,
    pub max_steps: u64,
    pub stats: PathStats,
    pub covers: Vec<(&'static str, u64)>,
    pub findings: Vec<&'static str>,
    cmp_cache: HashMap<(u32, u32), u8>,
    pub nudged: bool,
    pub notes: Vec<String>,
    pub var_cursor: usize,
    pub record_unsat: Option<Vec<String>>,
    pub unsat_sample_rate: u64,
    /// atom -> sets of atoms that the solver found to contradict it
    lemmas: HashMap<(Poly, u8), Vec<Rc<Vec<(Poly, u8)>>>>,
    n_lemmas: usize,
    pub lemma_hits: u64,
}

thread_local! {
    static CTX: UnsafeCell<Option<Box<Ctx>>> = const { UnsafeCell::new(None) };
}
#[allow(clippy::mut_from_ref)]
pub fn cx() -> &'static mut Ctx {
    CTX.with(|c| unsafe {
        let o = &mut *c.get();
        if o.is_none() {
            *o = Some(Box::new(Ctx::new()));
        }
        let p: *mut Ctx = o.as_mut().unwrap().as_mut();
        &mut *p
    })
}

fn sbit(s: i32) -> u8 {
    match s {
        -1 => NEG,
        0 => ZERO,
        _ => POS,
    }
}
fn flip(m: u8) -> u8 {
    (m & ZERO) | if m & NEG != 0 { POS } else { 0 } | if m & POS != 0 { NEG } else { 0 }
}
fn phash(p: &Poly) -> u32 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    p.hash(&mut h);
    (h.finish() as u32) & 0xffff
}
const K_SIGN: u32 = 0;
const K_CHOICE: u32 = 1;
const K_HINT: u32 = 2;
fn pack(kind: u32, v: u32, h: u32) -> u32 {
    kind | (v << 2) | (h << 16)
}
fn unpack(e: u32) -> (u32, u32, u32) {
    (e & 3, (e >> 2) & 0x3fff, e >> 16)
}

impl Ctx {
    fn new() -> Ctx {
        Ctx {
            mode: Mode::Symbolic,
            vals: vec![],
            factors: vec![],
            factor_ids: HashMap::new(),
            nvars: 0,
            var_names: vec![],
            bounds: vec![],
            known: HashMap::new(),
            definite: vec![],
            cons: vec![],
            subst: vec![],
            model: None,
            log: vec![],
            prefix: vec![],
            choices: vec![],
            new_tasks: vec![],
            scene: 0,
            solver: Solver::new(3000),
            steps: 0,
            max_steps: 20_000_000,
            stats: PathStats::default(),
            covers: vec![],
            findings: vec![],
            cmp_cache: HashMap::new(),
            nudged: false,
            notes: vec![],
            var_cursor: 0,
            record_unsat: None,
            unsat_sample_rate: 0,
            lemmas: HashMap::new(),
            n_lemmas: 0,
            lemma_hits: 0,
        }
    }
    pub fn start(&mut self, mode: Mode, task: Option<Task>) {
        self.mode = mode;
        self.vals.clear();
        self.factors.clear();
        self.factor_ids.clear();
        self.nvars = 0;
        self.var_names.clear();
        self.bounds.clear();
        self.known.clear();
        self.definite.clear();
        self.cons.clear();
        self.subst.clear();
        self.log.clear();
        self.choices.clear();
        self.new_tasks.clear();
        self.covers.clear();
        self.findings.clear();
        self.cmp_cache.clear();
        self.notes.clear();
        self.steps = 0;
        self.nudged = false;
        self.var_cursor = 0;
        self.stats = PathStats::default();
        let t = task.unwrap_or(Task { scene: 0, prefix: vec![], model: None });
        self.model = t.model;
        self.prefix = t.prefix;
        self.scene = t.scene;
    }
    pub fn concrete(&self) -> bool {
        !matches!(self.mode, Mode::Symbolic)
    }
    #[inline]
    fn push(&mut self, v: Val) -> u32 {
        self.vals.push(v);
        (self.vals.len() - 1) as u32
    }
    #[inline]
    pub fn tick(&mut self) {
        self.steps += 1;
        if self.steps > self.max_steps {
            std::panic::panic_any(Leave::Steps);
        }
    }
    pub fn cst(&mut self, r: Rat) -> u32 {
        self.push(Val::C(Rc::new(r)))
    }
    pub fn nan(&mut self) -> u32 {
        self.push(Val::Nan)
    }
    pub fn inf(&mut self, neg: bool) -> u32 {
        self.push(Val::Inf(neg))
    }

    // ---------------------------------------------------------------- variables
    pub fn var(&mut self, name: &str, lo: Rat, hi: Rat) -> u32 {
        let i = self.nvars;
        self.nvars += 1;
        self.var_names.push(name.to_string());
        self.bounds.push((lo.clone(), hi.clone()));
        if let Mode::Concrete { vals, rng, .. } = &mut self.mode {
            if i >= vals.len() {
                if let Some(s) = rng {
                    // random grid value in range (exploration aid only)
                    let k = 12i64;
                    *s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                    let r = ((*s >> 33) as i64).rem_euclid(k * 2 + 1);
                    let v = lo.add(&hi.sub(&lo).mul(&Rat::frac(r, k * 2)));
                    vals.push(v);
                } else {
                    vals.push(lo.add(&hi).mul(&Rat::frac(1, 2)));
                }
            }
            let v = vals[i].clone();
            return self.cst(v);
        }
        if i >= MAXV {
            unsupported("too many symbolic variables");
        }
        if let Some(m) = &mut self.model {
            if m.len() < MAXV {
                m.resize(MAXV, Rat::zero());
            }
        }
        if self.log.len() >= self.prefix.len() {
            // fresh part of the path: give the model a value inside the bounds
            let third = Rat::frac(377 + 211 * i as i64, 1000 + 631 * i as i64);
            let v = lo.add(&hi.sub(&lo).mul(&third));
            let m = self.model.get_or_insert_with(|| vec![Rat::zero(); MAXV]);
            m[i] = v;
        }
        let p = Poly::var(i);
        let lo_p = p.scale(&lo.d).sub(&Poly::cst(lo.n.clone()));
        let hi_p = p.scale(&hi.d).sub(&Poly::cst(hi.n.clone()));
        self.constrain(&lo_p, POS | ZERO);
        self.constrain(&hi_p, NEG | ZERO);
        let id = self.push(Val::R(Rc::new(RatFn { num: p, dc: Int::ONE, den: vec![] })));
        id
    }
    /// A fresh existential variable (e.g. a square root); the caller constrains it.
    fn fresh(&mut self) -> usize {
        let i = self.nvars;
        self.nvars += 1;
        self.var_names.push(format!("aux{}", i));
        if i >= MAXV {
            unsupported("too many symbolic variables");
        }
        i
    }
    /// Record a constraint that needs no feasibility query (bounds of a new variable).
    fn constrain(&mut self, p: &Poly, mask: u8) {
        if let Some((q, m, _)) = self.canon(p, mask) {
            let k = *self.known.get(&q).unwrap_or(&ALL);
            self.set_known(q.clone(), k & m);
            self.cons.push((q, m));
        }
    }

    // ---------------------------------------------------------------- decisions
    /// Discrete choice: all of 0..n are explored.
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0 && n < 0x3fff);
        if let Mode::Concrete { choices, rng, .. } = &mut self.mode {
            let k = self.choices.len();
            if k >= choices.len() {
                let c = match rng {
                    Some(s) => {
                        *s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                        (*s >> 33) as usize % n
                    }
                    None => 0,
                };
                choices.push(c);
            }
            let c = choices[k].min(n - 1);
            self.choices.push(c);
            return c;
        }
        if n == 1 {
            self.choices.push(0);
            return 0;
        }
        let c = match self.next_prefix(K_CHOICE, n as u32) {
            Some(c) => c as usize,
            None => {
                for c in (1..n).rev() {
                    let mut p = self.log.clone();
                    p.push(pack(K_CHOICE, c as u32, n as u32));
                    self.new_tasks.push(Task { scene: self.scene, prefix: p, model: self.model.clone() });
                }
                0
            }
        };
        self.log.push(pack(K_CHOICE, c as u32, n as u32));
        self.choices.push(c);
        c
    }
    fn next_prefix(&mut self, kind: u32, h: u32) -> Option<u32> {
        let i = self.log.len();
        if i < self.prefix.len() {
            let (k, v, hh) = unpack(self.prefix[i]);
            if k != kind || hh != h {
                std::panic::panic_any(Leave::Diverged(format!("decision {} kind {}/{} hash {}/{}", i, k, kind, hh, h)));
            }
            Some(v)
        } else {
            None
        }
    }
    fn strip(&self, mut p: Poly) -> (Poly, i32) {
        // remove known-sign factors; returns the rest and the sign of what was removed
        let mut s = 1;
        // (a linear p is a multiple of f only if its primitive part is f, which `known` finds)
        if p.is_const() || p.total_degree() <= 1 {
            return (p, s);
        }
        for (f, neg) in self.definite.iter() {
            while !p.is_const() {
                match p.div_exact(f) {
                    Some(q) => {
                        p = q;
                        if *neg {
                            s = -s;
                        }
                    }
                    None => break,
                }
            }
        }
        (p, s)
    }
    fn apply_subst(&self, p: &Poly) -> (Poly, i32) {
        let mut p = p.clone();
        let mut s = 1;
        for (v, n, d, ds) in &self.subst {
            if p.vars() >> v & 1 == 1 {
                let (q, deg) = p.subst(*v, n, d);
                if *ds < 0 && deg % 2 == 1 {
                    s = -s;
                }
                p = q;
            }
        }
        (p, s)
    }
    /// Canonical form: None if constant-decided is not representable; returns (poly, mask, sign)
    /// such that sign(p) in mask <=> sign(poly) in mask'. For constants poly is constant 1/0.
    fn canon(&self, p: &Poly, mask: u8) -> Option<(Poly, u8, i32)> {
        let (p, s1) = self.apply_subst(p);
        let (c, p) = p.primitive();
        if p.is_zero() {
            return None;
        }
        let mut s = s1 * c.sgn();
        let (p, s2) = self.strip(p);
        s *= s2;
        let (c, p) = p.primitive();
        s *= c.sgn();
        if p.is_const() {
            return None;
        }
        Some((p, if s < 0 { flip(mask) } else { mask }, s))
    }
    fn set_known(&mut self, q: Poly, m: u8) {
        if m == POS || m == NEG {
            if !self.definite.iter().any(|(f, _)| *f == q) {
                self.definite.push((q.clone(), m == NEG));
            }
        }
        self.known.insert(q, m);
    }
    /// Sign of p if it is fixed on this path without a query.
    fn fixed_sign(&self, p: &Poly) -> Option<i32> {
        let (p, s1) = self.apply_subst(p);
        let (c, p) = p.primitive();
        if p.is_zero() {
            return Some(0);
        }
        let mut s = s1 * c.sgn();
        let (p, s2) = self.strip(p);
        s *= s2;
        let (c, p) = p.primitive();
        s *= c.sgn();
        if p.is_const() {
            return Some(s);
        }
        match self.known.get(&p) {
            Some(&ZERO) => Some(0),
            Some(&POS) => Some(s),
            Some(&NEG) => Some(-s),
            _ => None,
        }
    }
    /// Which of `parts` (disjoint masks covering the sign of p) holds; queries the solver.
    pub fn decide(&mut self, p: &Poly, parts: &[u8]) -> usize {
        self.tick();
        if let Some(c) = p.as_const() {
            self.stats.const_compares += 1;
            let b = sbit(c.sgn());
            return parts.iter().position(|m| m & b != 0).unwrap();
        }
        self.stats.sym_compares += 1;
        let (p, s1) = self.apply_subst(p);
        let (c, p) = p.primitive();
        if p.is_zero() {
            return parts.iter().position(|m| m & ZERO != 0).unwrap();
        }
        let mut s = s1 * c.sgn();
        let (p, s2) = self.strip(p);
        s *= s2;
        let (c, p) = p.primitive();
        s *= c.sgn();
        if p.is_const() {
            let b = sbit(s);
            return parts.iter().position(|m| m & b != 0).unwrap();
        }
        let pm: Vec<u8> = parts.iter().map(|&m| if s < 0 { flip(m) } else { m }).collect();
        let k = *self.known.get(&p).unwrap_or(&ALL);
        if let Some(i) = pm.iter().position(|m| k & !m == 0) {
            return i;
        }
        let h = phash(&p);
        let replay = self.next_prefix(K_SIGN, h);
        let (mask, free) = match replay {
            Some(v) => ((v & 7) as u8, v & 8 != 0),
            None => self.fresh_decision(&p, k, &pm, h),
        };
        self.stats.decisions += 1;
        if !free {
            self.stats.forced += 1;
        }
        self.log.push(pack(K_SIGN, mask as u32 | if free { 8 } else { 0 }, h));
        self.learn(p, mask, free);
        pm.iter().position(|m| m & mask != 0).unwrap()
    }
    fn model_mask(&self, p: &Poly) -> Option<u8> {
        self.model.as_ref().map(|m| sbit(p.sign_at(m)))
    }
    fn fresh_decision(&mut self, p: &Poly, k: u8, pm: &[u8], h: u32) -> (u8, bool) {
        let here = self.model_mask(p);
        if let Some(b) = here {
            if b & k == 0 {
                // the model left the path (can only happen if a recorded mask was wrong)
                std::panic::panic_any(Leave::Diverged("model outside its path".into()));
            }
        }
        let mut chosen: Option<u8> = None;
        let mut others: Vec<(u8, Option<Vec<Rat>>)> = vec![];
        let mut unknown = 0;
        for &part in pm {
            let m = part & k;
            if m == 0 {
                continue;
            }
            if let Some(b) = here {
                if b & m != 0 {
                    chosen = Some(m);
                    continue;
                }
            }
            match self.query(p, m) {
                Answer::Sat(model) => others.push((m, model)),
                Answer::Unsat(_) => {}
                Answer::Unknown => unknown += 1,
            }
        }
        if chosen.is_none() {
            if others.is_empty() {
                if unknown == 0 {
                    std::panic::panic_any(Leave::Diverged("no feasible sign".into()));
                }
                self.stats.undecided += 1;
                std::panic::panic_any(Leave::Undecided);
            }
            let i = others.iter().position(|o| o.1.is_some()).unwrap_or(0);
            let (m, model) = others.remove(i);
            chosen = Some(m);
            self.model = model;
        }
        let m = chosen.unwrap();
        self.stats.undecided += unknown;
        let free = !others.is_empty() || unknown > 0;
        for (om, model) in others {
            let mut pre = self.log.clone();
            pre.push(pack(K_SIGN, om as u32 | 8, h));
            self.new_tasks.push(Task { scene: self.scene, prefix: pre, model });
        }
        (m, free)
    }
    /// Is path /\ sign(p) in mask feasible?
    fn query(&mut self, p: &Poly, mask: u8) -> Answer {
        // a contradiction the solver has found before
        if let Some(ls) = self.lemmas.get(&(p.clone(), mask)) {
            if ls.iter().any(|l| l.iter().all(|(q, m)| self.known.get(q).map_or(false, |k| k & !m == 0))) {
                self.lemma_hits += 1;
                return Answer::Unsat(vec![]);
            }
        }
        // only constraints connected to p through shared variables
        let mut vs = p.vars();
        let cv: Vec<u32> = self.cons.iter().map(|(q, _)| q.vars()).collect();
        let mut sel = vec![false; cv.len()];
        loop {
            let mut grown = false;
            for i in 0..cv.len() {
                if !sel[i] && cv[i] & vs != 0 {
                    sel[i] = true;
                    if cv[i] & !vs != 0 {
                        vs |= cv[i];
                    }
                    grown = true;
                }
            }
            if !grown {
                break;
            }
        }
        let mut cons: Vec<(&Poly, u8)> = vec![];
        for (i, (q, m)) in self.cons.iter().enumerate() {
            if sel[i] && *m != ALL {
                cons.push((q, *m));
            }
        }
        cons.push((p, mask));
        let a = self.solver.check(&cons, self.nvars);
        if let Answer::Unsat(core) = &a {
            let last = cons.len() - 1;
            if core.len() <= 12 && core.contains(&last) && self.n_lemmas < 400_000 {
                let l: Vec<(Poly, u8)> = core.iter().filter(|i| **i != last).map(|i| (cons[*i].0.clone(), cons[*i].1)).collect();
                self.n_lemmas += 1;
                self.lemmas.entry((p.clone(), mask)).or_default().push(Rc::new(l));
            }
        }
        if let (Answer::Unsat(_), Some(rec)) = (&a, &mut self.record_unsat) {
            if (phash(p) as u64) % 64 < self.unsat_sample_rate {
                rec.push(crate::z3::smtlib(&cons));
            }
        }
        match a {
            Answer::Sat(Some(mut m)) => {
                if vs.count_ones() as usize != self.nvars - self.subst.len() || !self.subst.is_empty() {
                    // variables outside the slice keep their values
                    match &self.model {
                        Some(old) => {
                            for v in 0..self.nvars {
                                if vs >> v & 1 == 0 {
                                    m[v] = old[v].clone();
                                }
                            }
                        }
                        None => {
                            let elim: u32 = self.subst.iter().map(|s| 1u32 << s.0).sum();
                            let need = ((1u64 << self.nvars) - 1) as u32 & !elim & !vs;
                            if need != 0 {
                                return Answer::Sat(None);
                            }
                        }
                    }
                    for (v, n, d, _) in self.subst.iter().rev() {
                        let dv = d.eval(&m);
                        if dv.sgn() == 0 {
                            return Answer::Sat(None);
                        }
                        m[*v] = n.eval(&m).div(&dv);
                    }
                }
                Answer::Sat(Some(m))
            }
            o => o,
        }
    }
    /// sign(p) in mask holds on this path from now on.
    fn learn(&mut self, p: Poly, mask: u8, free: bool) {
        self.set_known(p.clone(), mask);
        if free {
            self.cons.push((p.clone(), mask));
        }
        if mask == ZERO {
            self.eliminate(p);
        }
    }
    fn eliminate(&mut self, p: Poly) {
        // p = 0: solve for a variable that occurs linearly
        let vs = p.vars();
        let mut best: Option<(usize, Poly, Poly, i32, usize)> = None;
        let mut undecided: Option<(usize, Poly, Poly, usize)> = None;
        for v in (0..self.nvars).rev() {
            if vs >> v & 1 == 0 || p.degree_in(v) != 1 {
                continue;
            }
            let cs = p.coeffs_in(v);
            let (b, a) = (cs[0].clone(), cs[1].clone());
            let size = a.0.len() * 4 + b.0.len() + a.total_degree() as usize * 3;
            match self.fixed_sign(&a) {
                Some(0) | None => {
                    if undecided.as_ref().map_or(true, |u| size < u.3) {
                        undecided = Some((v, a, b, size));
                    }
                }
                Some(s) => {
                    if best.as_ref().map_or(true, |u| size < u.4) {
                        best = Some((v, a, b, s, size));
                    }
                }
            }
        }
        if best.is_none() {
            if let Some((v, a, b, size)) = undecided {
                let r = self.decide(&a, &[NEG, ZERO, POS]);
                if r != 1 {
                    best = Some((v, a, b, r as i32 - 1, size));
                } else {
                    // a = 0 and therefore b = 0
                    let (q, _) = self.apply_subst(&b);
                    let (_, q) = q.primitive();
                    let (q, _) = self.strip(q);
                    let (_, q) = q.primitive();
                    if !q.is_const() && self.known.get(&q) != Some(&ZERO) {
                        self.learn(q, ZERO, true);
                    }
                    return;
                }
            }
        }
        if let Some((v, a, b, s, _)) = best {
            let n = b.neg();
            // the chosen coefficients may mention variables eliminated meanwhile
            if self.subst.iter().any(|t| t.0 == v) {
                return;
            }
            self.subst.push((v, n, a, s));
            self.rewrite();
        }
    }
    /// Re-express what is known after a substitution.
    fn rewrite(&mut self) {
        let old_known: Vec<(Poly, u8)> = {
            let mut k: Vec<(Poly, u8)> = self.known.drain().collect();
            k.sort_by(|a, b| a.0 .0.len().cmp(&b.0 .0.len()).then_with(|| cmp_poly(&a.0, &b.0)));
            k
        };
        let old_cons = std::mem::take(&mut self.cons);
        self.definite.clear();
        let mut zero = vec![];
        // definite ones first so that they strip the others
        for pass in 0..2 {
            for (q, m) in &old_known {
                let def = *m == POS || *m == NEG;
                if (pass == 0) != def {
                    continue;
                }
                if let Some((r, m2, _)) = self.canon(q, *m) {
                    let k = *self.known.get(&r).unwrap_or(&ALL);
                    let nm = k & m2;
                    if nm == 0 {
                        std::panic::panic_any(Leave::Diverged("contradiction after elimination".into()));
                    }
                    if nm == ZERO && *m != ZERO {
                        zero.push(r.clone());
                    }
                    self.set_known(r, nm);
                }
            }
        }
        for (q, m) in old_cons {
            // no stripping by factors here: each constraint must stay equivalent given the others
            let (r, s1) = self.apply_subst(&q);
            let (c, r) = r.primitive();
            if r.is_const() {
                continue;
            }
            let s = s1 * c.sgn();
            let m2 = if s < 0 { flip(m) } else { m };
            if !self.cons.iter().any(|(a, b)| *a == r && *b == m2) {
                self.cons.push((r, m2));
            }
        }
        let _ = zero;
    }

    // ---------------------------------------------------------------- assumptions
    /// Restrict the path to sign(p) in mask (no alternatives are explored).
    pub fn assume(&mut self, p: &Poly, mask: u8) {
        if self.concrete() || p.is_const() {
            let c = p.as_const().expect("constant");
            if sbit(c.sgn()) & mask == 0 {
                std::panic::panic_any(Leave::Assume);
            }
            return;
        }
        let (q, m, _) = match self.canon(p, mask) {
            Some(t) => t,
            None => {
                if sbit(self.fixed_sign(p).unwrap()) & mask == 0 {
                    std::panic::panic_any(Leave::Assume);
                }
                return;
            }
        };
        let k = *self.known.get(&q).unwrap_or(&ALL);
        if k & !m == 0 {
            return;
        }
        if k & m == 0 {
            std::panic::panic_any(Leave::Assume);
        }
        let m = k & m;
        let h = phash(&q);
        if self.next_prefix(K_SIGN, h).is_none() {
            let ok = matches!(self.model_mask(&q), Some(b) if b & m != 0);
            if !ok {
                match self.query(&q, m) {
                    Answer::Sat(model) => self.model = model,
                    Answer::Unsat(_) => std::panic::panic_any(Leave::Assume),
                    Answer::Unknown => {
                        self.stats.undecided += 1;
                        std::panic::panic_any(Leave::Undecided)
                    }
                }
            }
        }
        self.log.push(pack(K_SIGN, m as u32 | 8, h));
        self.learn(q, m, true);
    }
    pub fn cover(&mut self, l: &'static str) {
        match self.covers.iter_mut().find(|c| c.0 == l) {
            Some(c) => c.1 += 1,
            None => self.covers.push((l, 1)),
        }
    }
    /// A model of the path so far (for reporting).
    pub fn path_model(&mut self) -> Option<Vec<Rat>> {
        if self.model.is_some() {
            return self.model.clone();
        }
        None
    }
    pub fn path_text(&self) -> Vec<String> {
        self.cons
            .iter()
            .map(|(p, m)| {
                let op = match *m {
                    NEG => "< 0",
                    ZERO => "= 0",
                    POS => "> 0",
                    3 => "<= 0",
                    6 => ">= 0",
                    _ => "!= 0",
                };
                format!("{} {}", p, op)
            })
            .collect()
    }

    // ---------------------------------------------------------------- arithmetic
    fn fid(&mut self, p: &Poly) -> u32 {
        if let Some(i) = self.factor_ids.get(p) {
            return *i;
        }
        let i = self.factors.len() as u32;
        self.factors.push(p.clone());
        self.factor_ids.insert(p.clone(), i);
        i
    }
    fn rf(&self, v: &Val) -> Rc<RatFn> {
        match v {
            Val::R(r) => r.clone(),
            Val::C(c) => Rc::new(RatFn { num: Poly::cst(c.n.clone()), dc: c.d.clone(), den: vec![] }),
            _ => unreachable!(),
        }
    }
    fn norm(&mut self, mut num: Poly, mut dc: Int, den: Vec<(u32, u32)>) -> Val {
        if num.is_zero() {
            return Val::C(Rc::new(Rat::zero()));
        }
        let mut out = vec![];
        for (f, mut e) in den {
            while e > 0 {
                match num.div_exact(&self.factors[f as usize]) {
                    Some(q) => {
                        num = q;
                        e -= 1;
                    }
                    None => break,
                }
            }
            if e > 0 {
                out.push((f, e));
            }
        }
        let g = num.content().gcd(&dc);
        if !g.is_one() {
            num = num.div_int(&g);
            dc = dc.div_exact(&g);
        }
        if out.is_empty() {
            if let Some(c) = num.as_const() {
                return Val::C(Rc::new(Rat::new(c, dc)));
            }
        }
        Val::R(Rc::new(RatFn { num, dc, den: out }))
    }
    fn den_mul(&self, have: &[(u32, u32)], want: &[(u32, u32)]) -> Poly {
        // product of factors in `want` missing from `have`
        let mut r = Poly::one();
        for (f, e) in want {
            let h = have.iter().find(|x| x.0 == *f).map_or(0, |x| x.1);
            for _ in h..*e {
                r = r.mul(&self.factors[*f as usize]);
            }
        }
        r
    }
    fn den_lcm(a: &[(u32, u32)], b: &[(u32, u32)]) -> Vec<(u32, u32)> {
        let mut r = a.to_vec();
        for (f, e) in b {
            match r.iter_mut().find(|x| x.0 == *f) {
                Some(x) => x.1 = x.1.max(*e),
                None => r.push((*f, *e)),
            }
        }
        r.sort_unstable();
        r
    }
    /// (num_a', num_b', dc, den) over a common denominator
    fn common(&self, a: &RatFn, b: &RatFn) -> (Poly, Poly, Int, Vec<(u32, u32)>) {
        let (da, db, dc) = if a.dc == b.dc {
            (Int::ONE, Int::ONE, a.dc.clone())
        } else {
            let g = a.dc.gcd(&b.dc);
            let fa = b.dc.div_exact(&g);
            let fb = a.dc.div_exact(&g);
            let dc = a.dc.mul(&fa);
            (fa, fb, dc)
        };
        if a.den == b.den {
            return (a.num.scale(&da), b.num.scale(&db), dc, a.den.clone());
        }
        let l = Self::den_lcm(&a.den, &b.den);
        let pa = self.den_mul(&a.den, &l);
        let pb = self.den_mul(&b.den, &l);
        (a.num.scale(&da).mul(&pa), b.num.scale(&db).mul(&pb), dc, l)
    }
    pub fn addsub(&mut self, a: u32, b: u32, sub: bool) -> u32 {
        self.tick();
        let (va, vb) = (self.vals[a as usize].clone(), self.vals[b as usize].clone());
        let r = match (&va, &vb) {
            (Val::C(x), Val::C(y)) => Val::C(Rc::new(if sub { x.sub(y) } else { x.add(y) })),
            (Val::Nan, _) | (_, Val::Nan) => Val::Nan,
            (Val::Inf(x), Val::Inf(y)) => {
                if *x == (*y != sub) {
                    Val::Inf(*x)
                } else {
                    Val::Nan
                }
            }
            (Val::Inf(x), _) => Val::Inf(*x),
            (_, Val::Inf(y)) => Val::Inf(*y != sub),
            _ => {
                if let Val::C(c) = &vb {
                    if c.sgn() == 0 {
                        return a;
                    }
                }
                let (x, y) = (self.rf(&va), self.rf(&vb));
                let (nx, ny, dc, den) = self.common(&x, &y);
                let n = if sub { nx.sub(&ny) } else { nx.add(&ny) };
                self.norm(n, dc, den)
            }
        };
        self.push(r)
    }
    fn val_sign(&mut self, v: &Val) -> i32 {
        match v {
            Val::C(c) => c.sgn(),
            Val::Inf(n) => {
                if *n {
                    -1
                } else {
                    1
                }
            }
            Val::R(r) => {
                let r = r.clone();
                self.decide(&r.num, &[NEG, ZERO, POS]) as i32 - 1
            }
            Val::Nan => 0,
        }
    }
    pub fn mul(&mut self, a: u32, b: u32) -> u32 {
        self.tick();
        let (va, vb) = (self.vals[a as usize].clone(), self.vals[b as usize].clone());
        let r = match (&va, &vb) {
            (Val::C(x), Val::C(y)) => Val::C(Rc::new(x.mul(y))),
            (Val::Nan, _) | (_, Val::Nan) => Val::Nan,
            (Val::Inf(_), _) | (_, Val::Inf(_)) => {
                let s = self.val_sign(&va) * self.val_sign(&vb);
                match s {
                    0 => Val::Nan,
                    s => Val::Inf(s < 0),
                }
            }
            _ => {
                let (x, y) = (self.rf(&va), self.rf(&vb));
                let mut den = x.den.clone();
                for (f, e) in &y.den {
                    match den.iter_mut().find(|t| t.0 == *f) {
                        Some(t) => t.1 += e,
                        None => den.push((*f, *e)),
                    }
                }
                den.sort_unstable();
                // cancel crosswise before multiplying
                let (mut xn, mut yn) = (x.num.clone(), y.num.clone());
                let mut out = vec![];
                for (f, mut e) in den {
                    let fp = self.factors[f as usize].clone();
                    while e > 0 {
                        if let Some(q) = xn.div_exact(&fp) {
                            xn = q;
                            e -= 1;
                        } else if let Some(q) = yn.div_exact(&fp) {
                            yn = q;
                            e -= 1;
                        } else {
                            break;
                        }
                    }
                    if e > 0 {
                        out.push((f, e));
                    }
                }
                let n = xn.mul(&yn);
                self.norm(n, x.dc.mul(&y.dc), out)
            }
        };
        self.push(r)
    }
    pub fn div(&mut self, a: u32, b: u32) -> u32 {
        self.tick();
        let (va, vb) = (self.vals[a as usize].clone(), self.vals[b as usize].clone());
        let r = match (&va, &vb) {
            (Val::Nan, _) | (_, Val::Nan) => Val::Nan,
            (Val::Inf(_), Val::Inf(_)) => Val::Nan,
            (_, Val::Inf(_)) => Val::C(Rc::new(Rat::zero())),
            (Val::Inf(x), _) => {
                let s = self.val_sign(&vb);
                Val::Inf(*x != (s < 0))
            }
            (_, Val::C(c)) if c.sgn() != 0 => match &va {
                Val::C(x) => Val::C(Rc::new(x.div(c))),
                _ => {
                    let x = self.rf(&va);
                    let (mut k, mut d) = (c.d.clone(), c.n.clone());
                    if d.sgn() < 0 {
                        k = k.neg();
                        d = d.neg();
                    }
                    self.norm(x.num.scale(&k), x.dc.mul(&d), x.den.clone())
                }
            },
            _ => {
                let s = self.val_sign(&vb);
                if s == 0 {
                    match self.val_sign(&va) {
                        0 => Val::Nan,
                        t => Val::Inf(t < 0),
                    }
                } else {
                    let (x, y) = (self.rf(&va), self.rf(&vb));
                    // x.num/x.D * y.D/y.num ; y.num has sign s
                    let (c, mut rest) = y.num.primitive();
                    let mut sg = s * c.sgn(); // sign of the primitive part
                    let mut ydc = c.abs();
                    // split off known factors
                    let mut den = x.den.clone();
                    let add = |den: &mut Vec<(u32, u32)>, f: u32, e: u32| match den.iter_mut().find(|t| t.0 == f) {
                        Some(t) => t.1 += e,
                        None => den.push((f, e)),
                    };
                    for i in 0..self.factors.len() {
                        if rest.is_const() {
                            break;
                        }
                        let mut e = 0;
                        while let Some(q) = rest.div_exact(&self.factors[i]) {
                            rest = q;
                            e += 1;
                            if rest.is_const() {
                                break;
                            }
                        }
                        if e > 0 {
                            add(&mut den, i as u32, e);
                        }
                    }
                    // known definite polynomials are factors too
                    let defs = self.definite.clone();
                    for (f, neg) in defs {
                        if rest.is_const() {
                            break;
                        }
                        let mut e = 0;
                        while let Some(q) = rest.div_exact(&f) {
                            rest = q;
                            e += 1;
                            if neg {
                                sg = -sg;
                            }
                            if rest.is_const() {
                                break;
                            }
                        }
                        if e > 0 {
                            let fp = if neg { f.neg() } else { f };
                            let id = self.fid(&fp);
                            add(&mut den, id, e);
                            if neg && e % 2 == 1 {
                                // f^e = (-1)^e |f|^e, sg already adjusted
                            }
                        }
                    }
                    // now y.num = c * prod(...) * rest with sign(rest) = sg
                    let (c2, rest) = rest.primitive();
                    ydc = ydc.mul(&c2.abs());
                    if !rest.is_const() {
                        let sr = sg * c2.sgn();
                        let fp = if sr < 0 { rest.neg() } else { rest };
                        let id = self.fid(&fp);
                        add(&mut den, id, 1);
                    }
                    den.sort_unstable();
                    let mut num = x.num.scale(&y.dc);
                    if s < 0 {
                        num = num.neg();
                    }
                    for (f, e) in &y.den {
                        let mut e = *e;
                        // cancel against den
                        if let Some(t) = den.iter_mut().find(|t| t.0 == *f) {
                            let k = t.1.min(e);
                            t.1 -= k;
                            e -= k;
                        }
                        for _ in 0..e {
                            num = num.mul(&self.factors[*f as usize]);
                        }
                    }
                    den.retain(|t| t.1 > 0);
                    self.norm(num, x.dc.mul(&ydc), den)
                }
            }
        };
        self.push(r)
    }
    pub fn neg(&mut self, a: u32) -> u32 {
        let v = match &self.vals[a as usize] {
            Val::Nan => Val::Nan,
            Val::Inf(n) => Val::Inf(!n),
            Val::C(c) => Val::C(Rc::new(c.neg())),
            Val::R(r) => Val::R(Rc::new(RatFn { num: r.num.neg(), dc: r.dc.clone(), den: r.den.clone() })),
        };
        self.push(v)
    }
    /// numerator of a-b over a positive denominator
    pub fn diff(&self, a: u32, b: u32) -> Poly {
        let (va, vb) = (&self.vals[a as usize], &self.vals[b as usize]);
        let (x, y) = (self.rf(va), self.rf(vb));
        let (nx, ny, _, _) = self.common(&x, &y);
        nx.sub(&ny)
    }
    pub fn num(&self, a: u32) -> Poly {
        self.rf(&self.vals[a as usize]).num.clone()
    }
    /// Which part holds for sign(a-b); None if NaN is involved.
    pub fn compare(&mut self, a: u32, b: u32, parts: &[u8]) -> Option<usize> {
        self.tick();
        let part = |m: u8| Some(parts.iter().position(|p| p & m != 0).unwrap());
        if a == b {
            if let Val::Nan = self.vals[a as usize] {
                return None;
            }
            return part(ZERO);
        }
        match (&self.vals[a as usize], &self.vals[b as usize]) {
            (Val::C(x), Val::C(y)) => {
                self.stats.const_compares += 1;
                return part(sbit(match x.cmp(y) {
                    std::cmp::Ordering::Less => -1,
                    std::cmp::Ordering::Equal => 0,
                    _ => 1,
                }));
            }
            (Val::Nan, _) | (_, Val::Nan) => return None,
            (Val::Inf(x), Val::Inf(y)) => {
                return part(if x == y {
                    ZERO
                } else if *x {
                    NEG
                } else {
                    POS
                })
            }
            (Val::Inf(x), _) => return part(if *x { NEG } else { POS }),
            (_, Val::Inf(y)) => return part(if *y { POS } else { NEG }),
            _ => {}
        }
        let (lo, hi, sw) = if a < b { (a, b, false) } else { (b, a, true) };
        if let Some(&m) = self.cmp_cache.get(&(lo, hi)) {
            let m = if sw { flip(m) } else { m };
            if let Some(i) = parts.iter().position(|p| m & !p == 0) {
                return Some(i);
            }
        }
        let d = self.diff(a, b);
        let r = self.decide(&d, parts);
        let m = parts[r];
        let old = self.cmp_cache.get(&(lo, hi)).copied().unwrap_or(ALL);
        let new = old & if sw { flip(m) } else { m };
        if new != 0 {
            self.cmp_cache.insert((lo, hi), new);
        }
        Some(r)
    }
    pub fn orient(&mut self, c: [u32; 6]) -> i32 {
        // sign of (q-p) x (r-p)
        self.tick();
        let [px, py, qx, qy, rx, ry] = c;
        for h in c {
            match self.vals[h as usize] {
                Val::Nan | Val::Inf(_) => return 0,
                _ => {}
            }
        }
        if (px == qx && py == qy) || (px == rx && py == ry) || (qx == rx && qy == ry) {
            return 0;
        }
        let ax = self.addsub(qx, px, true);
        let ay = self.addsub(qy, py, true);
        let bx = self.addsub(rx, px, true);
        let by = self.addsub(ry, py, true);
        let l = self.mul(ax, by);
        let r = self.mul(ay, bx);
        if l == r {
            return 0;
        }
        self.compare(l, r, &[NEG, ZERO, POS]).unwrap() as i32 - 1
    }
    /// Largest integer <= a (explores every possible value).
    pub fn floor(&mut self, a: u32) -> u32 {
        match self.vals[a as usize].clone() {
            Val::C(c) => {
                let f = c.floor();
                self.cst(Rat { n: f, d: Int::ONE })
            }
            Val::R(r) => {
                // where to start looking: recorded, so that replays follow the same comparisons
                let k0 = match self.next_prefix(K_HINT, 1) {
                    Some(v) => v as i64 - 8000,
                    None => {
                        let g = match &self.model {
                            Some(m) => {
                                let mut d = Rat { n: r.dc.clone(), d: Int::ONE };
                                for (f, e) in &r.den {
                                    for _ in 0..*e {
                                        d = d.mul(&self.factors[*f as usize].eval(m));
                                    }
                                }
                                r.num.eval(m).div(&d).floor().to_i64().unwrap_or(0)
                            }
                            None => 0,
                        };
                        if g.abs() > 7000 {
                            unsupported("floor out of range");
                        }
                        g
                    }
                };
                self.log.push(pack(K_HINT, (k0 + 8000) as u32, 1));
                let mut k = k0;
                loop {
                    if (k - k0).abs() > 4096 {
                        unsupported("floor search");
                    }
                    let c = self.cst(Rat::int(k));
                    if self.compare(a, c, &[NEG, ZERO | POS]) == Some(0) {
                        k -= 1;
                        continue;
                    }
                    let c1 = self.cst(Rat::int(k + 1));
                    if self.compare(a, c1, &[NEG, ZERO | POS]) == Some(1) {
                        k += 1;
                        continue;
                    }
                    return c;
                }
            }
            _ => a,
        }
    }
    pub fn sqrt(&mut self, a: u32) -> u32 {
        let v = self.vals[a as usize].clone();
        match &v {
            Val::Nan => return a,
            Val::Inf(n) => return if *n { self.nan() } else { a },
            _ => {}
        }
        let s = self.val_sign(&v);
        if s < 0 {
            return self.nan();
        }
        if s == 0 {
            return self.cst(Rat::zero());
        }
        if let Val::C(c) = &v {
            let isq = |x: &Int| -> Option<Int> {
                let f = x.to_f64().sqrt().round();
                let r = Rat::from_f64(f)?.floor();
                if r.mul(&r) == *x {
                    Some(r)
                } else {
                    None
                }
            };
            if let (Some(n), Some(d)) = (isq(&c.n), isq(&c.d)) {
                return self.cst(Rat::new(n, d));
            }
        }
        if self.concrete() {
            unsupported("irrational square root in a concrete run");
        }
        let r = self.rf(&v);
        let i = self.fresh();
        let x = Poly::var(i);
        // x^2 * den = num, x > 0
        let mut d = Poly::cst(r.dc.clone());
        for (f, e) in &r.den {
            for _ in 0..*e {
                d = d.mul(&self.factors[*f as usize]);
            }
        }
        let eq = x.mul(&x).mul(&d).sub(&r.num);
        self.model = None;
        self.constrain(&x, POS);
        self.constrain(&eq, ZERO);
        self.push(Val::R(Rc::new(RatFn { num: x, dc: Int::ONE, den: vec![] })))
    }
    pub fn show(&self, a: u32) -> String {
        match &self.vals[a as usize] {
            Val::Nan => "NaN".into(),
            Val::Inf(n) => if *n { "-inf" } else { "inf" }.into(),
            Val::C(c) => format!("{}", c),
            Val::R(r) => {
                let mut s = format!("({})", r.num);
                if !r.dc.is_one() {
                    s += &format!("/{}", r.dc);
                }
                for (f, e) in &r.den {
                    s += &format!("/({})^{}", self.factors[*f as usize], e);
                }
                if s.len() > 200 {
                    s.truncate(200);
                    s += "...";
                }
                s
            }
        }
    }
    pub fn approx(&self, a: u32) -> f64 {
        match &self.vals[a as usize] {
            Val::Nan => f64::NAN,
            Val::Inf(n) => {
                if *n {
                    f64::NEG_INFINITY
                } else {
                    f64::INFINITY
                }
            }
            Val::C(c) => c.to_f64(),
            Val::R(r) => match &self.model {
                Some(m) => {
                    let mut d = Rat { n: r.dc.clone(), d: Int::ONE };
                    for (f, e) in &r.den {
                        for _ in 0..*e {
                            d = d.mul(&self.factors[*f as usize].eval(m));
                        }
                    }
                    r.num.eval(m).div(&d).to_f64()
                }
                None => f64::NAN,
            },
        }
    }
    pub fn as_const(&self, a: u32) -> Option<Rat> {
        match &self.vals[a as usize] {
            Val::C(c) => Some((**c).clone()),
            _ => None,
        }
    }
}
fn cmp_poly(a: &Poly, b: &Poly) -> std::cmp::Ordering {
    for (x, y) in a.0.iter().zip(b.0.iter()) {
        let o = x.0.cmp(&y.0).then_with(|| x.1.cmp(&y.1));
        if o != std::cmp::Ordering::Equal {
            return o;
        }
    }
    a.0.len().cmp(&b.0.len())
}
