//! Path-exploring symbolic execution of natively compiled generic Rust code.
//!
//! The code under test is generic over its index type and its value type. It is
//! instantiated with `SI` (a term over SMT integers, with checked machine-integer
//! semantics) and `SV` (a term over bit-vectors, wrapping). Whenever the code
//! branches on a symbolic comparison, or needs a symbolic index as a machine
//! integer (to address a slice), the engine asks z3 which outcomes are feasible
//! under the current path condition and explores all of them, depth first, by
//! re-execution. The solver's assertion stack mirrors the decision stack.
use crate::z3::{Ast, Sat, P, Z3};
use std::cell::UnsafeCell;
use std::panic;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};

#[allow(dead_code)]
pub struct Kill(pub &'static str);
/// A path that exceeded the step budget (possible non-termination).
pub struct Budget;

#[derive(Clone)]
pub enum Input {
    Int(Ast),
    Val(Ast),
    Pick(usize),
}

enum Dec {
    Forced(bool),
    Branch { cond: Ast, taken: bool, other: Option<Option<P>> }, // other: pending flip with its model
    Multi { x: Ast, tried: Vec<i128>, cur: i128 },
    Pick { n: usize, cur: usize },
}

pub struct INode {
    pub lo: i128,
    pub hi: i128,
    pub c: Option<i128>,
    pub ast: Option<Ast>,
}
pub struct VNode {
    pub c: Option<i64>,
    pub ast: Option<Ast>,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub paths: u64,
    pub killed: u64,
    pub decisions: u64,
    pub branches: u64,
    pub forced: u64,
    pub obligations: u64,
    pub obligation_queries: u64,
    pub discharged: u64,
    pub inconclusive: u64,
    pub witnesses: u64,
    pub validated: u64,
    pub validation_failures: u64,
    pub max_depth: u64,
    pub nondet: u64,
    pub folded: u64,
}

pub struct Engine {
    pub z: Z3,
    pub bits: u32,
    pub imin: i128,
    pub imax: i128,
    pub ints: Vec<INode>,
    pub vals: Vec<VNode>,
    pub small: Vec<u32>,
    trace: Vec<Dec>,
    pos: usize,
    levels: u32,
    model: Option<P>,
    pub inputs: Vec<Input>,
    pub obls: Vec<(Ast, &'static str)>,
    pub st: Stats,
    pub fuel: u64,
    pub pure_depth: u32,
    part: (u64, u64, usize),
    part_checked: bool,
}

thread_local! {
    static ENG: UnsafeCell<Option<Box<Engine>>> = const { UnsafeCell::new(None) };
}
/// Steps (index/value operations) allowed on one path.
pub const STEP_BUDGET: u64 = 100_000_000;
pub static IN_Z3: AtomicBool = AtomicBool::new(false);
pub static PROGRESS: AtomicU64 = AtomicU64::new(0);
/// For the watchdog and the allocator guard only.
pub static mut ENG_PTR: *mut Engine = std::ptr::null_mut();

pub fn install(e: Engine) {
    ENG.with(|c| unsafe {
        *c.get() = Some(Box::new(e));
        ENG_PTR = (&mut **(*c.get()).as_mut().unwrap()) as *mut Engine;
    })
}

#[inline]
pub fn eng() -> &'static mut Engine {
    ENG.with(|c| unsafe { &mut *(&mut **(*c.get()).as_mut().expect("engine") as *mut Engine) })
}

fn z3guard<R>(f: impl FnOnce() -> R) -> R {
    IN_Z3.store(true, Ordering::SeqCst);
    let r = f();
    IN_Z3.store(false, Ordering::SeqCst);
    PROGRESS.fetch_add(1, Ordering::SeqCst);
    r
}

fn kill(why: &'static str) -> ! {
    panic::panic_any(Kill(why))
}

#[derive(Clone, Debug)]
pub struct Found {
    pub label: String,
    pub inputs: Vec<i64>,
    pub kind: &'static str,
}

/// Bits that hold every intermediate index value before its range check.
fn index_width(imin: i128, imax: i128) -> u32 {
    let top = imax.max(-imin);
    (128 - top.leading_zeros()) + 4
}

impl Engine {
    pub fn new(bits: u32, imin: i128, imax: i128, timeout_ms: u32, part: (u64, u64, usize)) -> Self {
        Engine {
            z: Z3::new(bits, index_width(imin, imax), timeout_ms),
            bits,
            imin,
            imax,
            ints: vec![],
            vals: vec![],
            small: vec![],
            trace: vec![],
            pos: 0,
            levels: 0,
            model: None,
            inputs: vec![],
            obls: vec![],
            st: Stats::default(),
            fuel: 0,
            pure_depth: 0,
            part,
            part_checked: false,
        }
    }

    pub fn hold(&mut self, a: Ast) -> Ast {
        a
    }

    fn set_model(&mut self, m: Option<P>) {
        if let Some(o) = self.model.take() {
            self.z.model_dec(o);
        }
        self.model = m;
    }

    fn fresh_model(&mut self) -> P {
        if let Some(m) = self.model {
            return m;
        }
        match z3guard(|| self.z.check()) {
            Sat::Sat => {
                let m = self.z.model();
                self.model = Some(m);
                m
            }
            Sat::Unsat => kill("infeasible"),
            Sat::Unknown => {
                self.st.inconclusive += 1;
                kill("unknown")
            }
        }
    }

    pub fn tick(&mut self) {
        self.fuel += 1;
        if self.fuel > STEP_BUDGET {
            panic::panic_any(Budget);
        }
    }

    /// Add a fact to the path condition.
    pub fn assume(&mut self, a: Ast) {
        if self.pos < self.trace.len() {
            return; // replaying: still on the solver stack
        }
        self.z.assert(a);
        if let Some(m) = self.model {
            if self.z.eval_bool(m, a) != Some(true) {
                self.set_model(None);
            }
        }
        self.fresh_model();
    }

    fn on_new_decision(&mut self) {
        self.st.decisions += 1;
        self.st.max_depth = self.st.max_depth.max(self.trace.len() as u64);
    }

    /// Partitioning of one job over several processes: the subtree below the first
    /// `depth` genuine decisions is kept only if its hash belongs to this part.
    fn part_gate(&mut self) {
        if self.part.1 <= 1 || self.part_checked {
            return;
        }
        let mut h: u64 = 0xcbf29ce484222325;
        let mut k = 0;
        for d in &self.trace[..self.pos] {
            let v = match d {
                Dec::Forced(_) => continue,
                Dec::Branch { taken, .. } => *taken as i128,
                Dec::Multi { cur, .. } => *cur,
                Dec::Pick { cur, .. } => *cur as i128,
            };
            k += 1;
            h = (h ^ (v as u64).wrapping_add(0x9e3779b97f4a7c15)).wrapping_mul(0x100000001b3);
            h ^= h >> 29;
        }
        if k >= self.part.2 {
            self.part_checked = true;
            if (h >> 7) % self.part.1 != self.part.0 {
                kill("other part");
            }
        }
    }

    pub fn branch(&mut self, cond: Ast) -> bool {
        self.tick();
        if self.pure_depth > 0 {
            panic!("engine: fork inside a pure oracle");
        }
        if self.pos < self.trace.len() {
            let r = match &self.trace[self.pos] {
                Dec::Forced(b) => *b,
                Dec::Branch { cond: c, taken, .. } => {
                    if *c != cond {
                        self.st.nondet += 1;
                        kill("nondeterministic replay");
                    }
                    *taken
                }
                _ => {
                    self.st.nondet += 1;
                    kill("nondeterministic replay")
                }
            };
            self.pos += 1;
            self.part_gate();
            return r;
        }
        let m = self.fresh_model();
        let ncond = self.hold_not(cond);
        let side = self.z.eval_bool(m, cond);
        let (side, other_ast) = match side {
            Some(true) => (true, ncond),
            Some(false) => (false, cond),
            None => kill("model evaluation"),
        };
        let r = z3guard(|| self.z.check_with(&[other_ast]));
        match r {
            Sat::Unsat => {
                self.st.forced += 1;
                self.trace.push(Dec::Forced(side));
                self.pos += 1;
                return side;
            }
            Sat::Unknown => {
                self.st.inconclusive += 1;
            }
            Sat::Sat => {}
        }
        let om = if r == Sat::Sat { Some(self.z.model()) } else { None };
        self.z.inc(cond);
        self.trace.push(Dec::Branch { cond, taken: side, other: Some(om) });
        self.pos += 1;
        self.levels += 1;
        self.z.push();
        self.z.assert(if side { cond } else { ncond });
        self.st.branches += 2;
        self.on_new_decision();
        self.part_gate();
        side
    }

    fn hold_not(&mut self, a: Ast) -> Ast {
        let n = self.z.not(a);
        self.hold(n)
    }

    /// Fork over every feasible value of an integer term.
    pub fn concretize(&mut self, id: u32) -> i128 {
        self.tick();
        if let Some(c) = self.ints[id as usize].c {
            return c;
        }
        if self.pure_depth > 0 {
            panic!("engine: fork inside a pure oracle");
        }
        let x = self.ints[id as usize].ast.unwrap();
        let v = if self.pos < self.trace.len() {
            match &self.trace[self.pos] {
                Dec::Multi { x: y, cur, .. } if *y == x => {
                    let v = *cur;
                    self.pos += 1;
                    self.part_gate();
                    v
                }
                _ => {
                    self.st.nondet += 1;
                    kill("nondeterministic replay")
                }
            }
        } else {
            let m = self.fresh_model();
            let v = match self.z.eval_int(m, x) {
                Some(v) => v,
                None => kill("model evaluation"),
            };
            self.z.inc(x);
            self.trace.push(Dec::Multi { x, tried: vec![v], cur: v });
            self.pos += 1;
            self.levels += 1;
            self.z.push();
            let n = self.z.int_num(v);
            let n = self.hold(n);
            let e = self.z.eq(x, n);
            let e = self.hold(e);
            self.z.assert(e);
            self.st.branches += 1;
            self.on_new_decision();
            self.part_gate();
            v
        };
        let n = &mut self.ints[id as usize];
        n.c = Some(v);
        n.lo = v;
        n.hi = v;
        v
    }

    pub fn pick(&mut self, n: usize) -> usize {
        assert!(n > 0);
        let v = if self.pos < self.trace.len() {
            match &self.trace[self.pos] {
                Dec::Pick { cur, .. } => {
                    let v = *cur;
                    self.pos += 1;
                    self.part_gate();
                    v
                }
                _ => kill("nondeterministic replay"),
            }
        } else {
            self.trace.push(Dec::Pick { n, cur: 0 });
            self.pos += 1;
            self.levels += 1;
            self.z.push();
            self.st.branches += 1;
            self.on_new_decision();
            self.part_gate();
            0
        };
        self.inputs.push(Input::Pick(v));
        v
    }

    /// Move to the next unexplored decision. Returns false when the tree is exhausted.
    fn backtrack(&mut self) -> bool {
        self.set_model(None);
        while let Some(d) = self.trace.pop() {
            match d {
                Dec::Forced(_) => {}
                Dec::Branch { cond, taken, other } => {
                    self.z.pop(1);
                    self.levels -= 1;
                    match other {
                        None => self.z.dec(cond),
                        Some(m) => {
                            self.z.push();
                            self.levels += 1;
                            let nc = self.z.not(cond);
                            self.z.inc(nc);
                            self.z.assert(if taken { nc } else { cond });
                            self.z.dec(nc);
                            self.model = m;
                            self.trace.push(Dec::Branch { cond, taken: !taken, other: None });
                            return true;
                        }
                    }
                }
                Dec::Multi { x, mut tried, .. } => {
                    self.z.pop(1);
                    self.levels -= 1;
                    self.z.push();
                    self.levels += 1;
                    for &v in &tried {
                        let n = self.z.int_num(v);
                        self.z.inc(n);
                        let e = self.z.eq(x, n);
                        self.z.inc(e);
                        let ne = self.z.not(e);
                        self.z.inc(ne);
                        self.z.assert(ne);
                        self.z.dec(ne);
                        self.z.dec(e);
                        self.z.dec(n);
                    }
                    match z3guard(|| self.z.check()) {
                        Sat::Sat => {
                            let m = self.z.model();
                            let v = self.z.eval_int(m, x).expect("eval");
                            self.model = Some(m);
                            let n = self.z.int_num(v);
                            self.z.inc(n);
                            let e = self.z.eq(x, n);
                            self.z.inc(e);
                            self.z.assert(e);
                            self.z.dec(e);
                            self.z.dec(n);
                            tried.push(v);
                            self.st.branches += 1;
                            self.trace.push(Dec::Multi { x, tried, cur: v });
                            return true;
                        }
                        r => {
                            if r == Sat::Unknown {
                                self.st.inconclusive += 1;
                            }
                            self.z.pop(1);
                            self.levels -= 1;
                            self.z.dec(x);
                        }
                    }
                }
                Dec::Pick { n, cur } => {
                    self.z.pop(1);
                    self.levels -= 1;
                    if cur + 1 < n {
                        self.z.push();
                        self.levels += 1;
                        self.st.branches += 1;
                        self.trace.push(Dec::Pick { n, cur: cur + 1 });
                        return true;
                    }
                }
            }
        }
        false
    }

    fn reset_path(&mut self) {
        self.ints.clear();
        self.vals.clear();
        self.small.clear();
        self.inputs.clear();
        self.obls.clear();
        self.z.release_path();
        self.pos = 0;
        self.fuel = 0;
        self.pure_depth = 0;
        self.part_checked = false;
    }

    pub fn eval_inputs(&self, m: P) -> Vec<i64> {
        self.inputs
            .iter()
            .map(|i| match i {
                Input::Int(a) => self.z.eval_int(m, *a).unwrap_or(0) as i64,
                Input::Val(a) => {
                    let v = self.z.eval_num(m, *a).unwrap_or(0);
                    let half = 1i128 << (self.bits - 1);
                    (if v >= half { v - (1i128 << self.bits) } else { v }) as i64
                }
                Input::Pick(p) => *p as i64,
            })
            .collect()
    }

    /// A model of the current solver state, preferring small values.
    fn small_model(&mut self) -> Option<P> {
        for bound in [3i64, 20] {
            self.z.push();
            let (lo, hi) = (self.z.bv_num(-bound), self.z.bv_num(bound));
            self.z.inc(lo);
            self.z.inc(hi);
            let vs: Vec<Ast> = self
                .inputs
                .iter()
                .filter_map(|i| if let Input::Val(a) = i { Some(*a) } else { None })
                .collect();
            for v in vs {
                let a = self.z.vsle(lo, v);
                let a = self.hold(a);
                self.z.assert(a);
                let b = self.z.vsle(v, hi);
                let b = self.hold(b);
                self.z.assert(b);
            }
            let r = z3guard(|| self.z.check());
            let m = if r == Sat::Sat { Some(self.z.model()) } else { None };
            self.z.dec(lo);
            self.z.dec(hi);
            self.z.pop(1);
            if m.is_some() {
                return m;
            }
        }
        match z3guard(|| self.z.check()) {
            Sat::Sat => Some(self.z.model()),
            _ => None,
        }
    }

    pub fn current_inputs(&mut self) -> Option<Vec<i64>> {
        let m = self.small_model()?;
        let v = self.eval_inputs(m);
        self.z.model_dec(m);
        Some(v)
    }

    pub fn prove(&mut self, a: Ast, label: &'static str) {
        self.obls.push((a, label));
        self.st.obligations += 1;
    }

    /// Discharge the obligations collected on this path.
    fn discharge(&mut self) -> Option<Found> {
        if self.obls.is_empty() {
            return None;
        }
        let asts: Vec<Ast> = self.obls.iter().map(|o| o.0).collect();
        let conj = self.z.and(&asts);
        let conj = self.hold(conj);
        let neg = self.hold_not(conj);
        self.st.obligation_queries += 1;
        match z3guard(|| self.z.check_with(&[neg])) {
            Sat::Unsat => {
                self.st.discharged += self.obls.len() as u64;
                None
            }
            Sat::Unknown => {
                // retry one by one
                let obls = self.obls.clone();
                for (a, l) in obls {
                    let n = self.hold_not(a);
                    self.st.obligation_queries += 1;
                    match z3guard(|| self.z.check_with(&[n])) {
                        Sat::Unsat => self.st.discharged += 1,
                        Sat::Unknown => self.st.inconclusive += 1,
                        Sat::Sat => return self.violation(n, l),
                    }
                }
                None
            }
            Sat::Sat => {
                let obls = self.obls.clone();
                for (a, l) in obls {
                    let n = self.hold_not(a);
                    self.st.obligation_queries += 1;
                    if z3guard(|| self.z.check_with(&[n])) == Sat::Sat {
                        return self.violation(n, l);
                    }
                }
                None
            }
        }
    }

    fn violation(&mut self, neg: Ast, label: &'static str) -> Option<Found> {
        self.z.push();
        self.z.assert(neg);
        let v = self.current_inputs();
        self.z.pop(1);
        v.map(|inputs| Found { label: label.to_string(), inputs, kind: "assertion" })
    }
}

pub struct Limits {
    pub deadline: std::time::Instant,
    pub max_found: usize,
    pub validate_every: u64,
    pub cross_every: u64,
}

pub struct Outcome {
    pub complete: bool,
    pub found: Vec<Found>,
    pub samples: Vec<Vec<i64>>,
    pub cross: Vec<String>,
    pub reached: u64,
}

/// Explore every feasible path of `body`.
pub fn explore(
    body: &mut dyn FnMut(),
    validate: &mut dyn FnMut(&[i64]) -> Result<u64, String>,
    lim: &Limits,
) -> Outcome {
    let mut out = Outcome { complete: false, found: vec![], samples: vec![], cross: vec![], reached: 0 };
    let mut seen: std::collections::HashSet<String> = Default::default();
    loop {
        let e = eng();
        e.reset_path();
        PROGRESS.fetch_add(1, Ordering::SeqCst);
        let r = panic::catch_unwind(panic::AssertUnwindSafe(|| body()));
        let e = eng();
        let mut finished = false;
        let mut add = |f: Found, out: &mut Outcome| {
            if seen.insert(f.label.clone()) {
                out.found.push(f);
            }
        };
        match r {
            Ok(()) => {
                finished = true;
            }
            Err(p) => {
                if p.downcast_ref::<Kill>().is_some() {
                    e.st.killed += 1;
                } else {
                    let msg = if p.downcast_ref::<Budget>().is_some() {
                        "no termination within the step budget".to_string()
                    } else {
                        panic_message(&*p)
                    };
                    if internal(&msg) {
                        eprintln!("ENGINE ERROR {msg}");
                        e.st.inconclusive += 1;
                    } else {
                        e.st.paths += 1;
                        // obligations met before the panic still count
                        if let Some(f) = e.discharge() {
                            add(f, &mut out);
                        } else if let Some(inputs) = e.current_inputs() {
                            add(Found { label: format!("panic: {msg}"), inputs, kind: "panic" }, &mut out);
                        }
                    }
                }
            }
        }
        if finished {
            e.st.paths += 1;
            let n = e.st.paths;
            if !e.obls.is_empty() {
                out.reached += 1;
            }
            if lim.cross_every > 0 && n % lim.cross_every == 1 % lim.cross_every && out.cross.len() < 12 && !e.obls.is_empty() {
                let q = e.cross_query();
                out.cross.push(q);
            }
            if let Some(f) = e.discharge() {
                add(f, &mut out);
            } else if lim.validate_every > 0 && n % lim.validate_every == 1 % lim.validate_every {
                // reachability witness and trace validation: a model of this path,
                // run concretely through the same harness on native types.
                if let Some(inp) = e.current_inputs() {
                    e.st.witnesses += 1;
                    match validate(&inp) {
                        Ok(_) => {
                            let e = eng();
                            e.st.validated += 1;
                        }
                        Err(msg) => {
                            let e = eng();
                            e.st.validation_failures += 1;
                            eprintln!("VALIDATION MISMATCH inputs={inp:?}: {msg}");
                            // the solver's witness of this path fails natively: replay decides
                            add(Found { label: format!("native run of a path witness: {msg}"), inputs: inp.clone(), kind: "validation" }, &mut out);
                        }
                    }
                    if out.samples.len() < 2 {
                        out.samples.push(inp);
                    }
                }
            }
        }
        let e = eng();
        if out.found.len() >= lim.max_found || std::time::Instant::now() > lim.deadline {
            return out;
        }
        if !e.backtrack() {
            out.complete = true;
            return out;
        }
    }
}

impl Engine {
    /// The current path's proof obligation as a stand-alone SMT-LIB script.
    fn cross_query(&mut self) -> String {
        let asts: Vec<Ast> = self.obls.iter().map(|o| o.0).collect();
        let conj = self.z.and(&asts);
        let conj = self.hold(conj);
        let neg = self.hold_not(conj);
        self.z.push();
        self.z.assert(neg);
        let mut s = String::from("(set-logic ALL)\n");
        s.push_str(&self.z.solver_string());
        s.push_str("\n(check-sat)\n");
        self.z.pop(1);
        s
    }
}

/// First line of a panic message.
pub fn panic_message(p: &(dyn std::any::Any + Send)) -> String {
    let s = if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "unknown panic".into()
    };
    s.lines().next().unwrap_or("").chars().take(300).collect()
}
/// The engine itself met something it does not encode.
pub fn internal(msg: &str) -> bool {
    msg.starts_with("engine: ") || msg.starts_with("not implemented: engine: ")
}
