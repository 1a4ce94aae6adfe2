//! Running one path, and the registry types.
use crate::dom::{Dom, F64_IN};
use crate::engine::{cx, Leave, Mode, Task};
use crate::int::Rat;
use crate::sym::Sym;
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// One parametric family of inputs together with the assertions made about it.
pub trait SceneFn {
    fn run<T: Dom>(&self);
}
pub trait DynScene {
    fn sym(&self);
    fn float(&self);
}
impl<S: SceneFn> DynScene for S {
    fn sym(&self) {
        self.run::<Sym>()
    }
    fn float(&self) {
        self.run::<f64>()
    }
}
pub struct Scene {
    pub prop: &'static str,
    pub name: String,
    /// 0: quick and thorough, 1: thorough only
    pub tier: u8,
    pub f: Box<dyn DynScene>,
}
impl Scene {
    pub fn new<S: SceneFn + 'static>(prop: &'static str, name: impl Into<String>, tier: u8, f: S) -> Scene {
        Scene { prop, name: name.into(), tier, f: Box::new(f) }
    }
}

#[derive(Debug, Clone, PartialEq)]
pub enum Outcome {
    Ok,
    Assume,
    Fail(String),
    Steps,
    Undecided,
    Unsupported(String),
    Diverged(String),
}

thread_local! {
    static LAST: RefCell<String> = const { RefCell::new(String::new()) };
}
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            return;
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST.with(|l| {
            if let Ok(mut l) = l.try_borrow_mut() {
                *l = format!("{} [{}]", msg, loc)
            }
        });
    }));
}
pub fn last_panic() -> String {
    LAST.with(|l| l.borrow().clone())
}
fn caught(f: impl FnOnce()) -> Outcome {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(()) => Outcome::Ok,
        Err(e) => match e.downcast::<Leave>() {
            Ok(l) => match *l {
                Leave::Assume => Outcome::Assume,
                Leave::Unsupported(s) => Outcome::Unsupported(s),
                Leave::Steps => Outcome::Steps,
                Leave::Undecided => Outcome::Undecided,
                Leave::Diverged(s) => Outcome::Diverged(s),
            },
            Err(_) => Outcome::Fail(LAST.with(|l| l.borrow().clone())),
        },
    }
}
pub fn run_task(s: &Scene, t: Task) -> Outcome {
    cx().start(Mode::Symbolic, Some(t));
    caught(|| s.f.sym())
}
pub fn run_concrete(s: &Scene, vals: Vec<Rat>, choices: Vec<usize>, rng: Option<u64>) -> Outcome {
    cx().start(Mode::Concrete { vals, choices, rng }, None);
    caught(|| s.f.sym())
}
pub fn run_f64(s: &Scene, vals: Vec<f64>, choices: Vec<usize>) -> Outcome {
    F64_IN.with(|c| *c.borrow_mut() = (vals, 0, choices, 0));
    caught(|| s.f.float())
}
