//! The symbolic domain: terms decided by z3.
use crate::engine::{eng, Budget, Input, Kill};
use crate::si::SI;
use crate::sv::SV;
use crate::z3::Ast;
use props::Dom;
use std::panic;

pub struct Sym;

#[derive(Clone, Copy)]
pub enum SB {
    C(bool),
    T(Ast),
}
impl SB {
    pub fn ast(self) -> Ast {
        let e = eng();
        match self {
            SB::T(a) => a,
            SB::C(true) => {
                let a = e.z.tt();
                e.hold(a)
            }
            SB::C(false) => {
                let a = e.z.ff();
                e.hold(a)
            }
        }
    }
}
fn t(f: impl FnOnce(&crate::z3::Z3) -> Ast) -> SB {
    let e = eng();
    let a = f(&e.z);
    SB::T(e.hold(a))
}

impl Dom for Sym {
    type I = SI;
    type V = SV;
    type B = SB;
    fn idx(lo: i64, hi: i64) -> SI {
        let e = eng();
        let (lo, hi) = ((lo as i128).max(e.imin), (hi as i128).min(e.imax));
        if lo > hi {
            panic::panic_any(Kill("empty index range"));
        }
        let name = format!("i{}", e.inputs.len());
        let a = e.z.int_var(&name, lo, hi);
        let a = e.hold(a);
        e.inputs.push(Input::Int(a));
        let (l, h) = (e.z.int_num(lo), e.z.int_num(hi));
        let (l, h) = (e.hold(l), e.hold(h));
        let p = e.z.ile(l, a);
        let p = e.hold(p);
        let q = e.z.ile(a, h);
        let q = e.hold(q);
        let c = e.z.and(&[p, q]);
        let c = e.hold(c);
        e.assume(c);
        SI::var(lo, hi, a)
    }
    fn val() -> SV {
        let e = eng();
        let name = format!("v{}", e.inputs.len());
        let a = e.z.bv_var(&name);
        let a = e.hold(a);
        e.inputs.push(Input::Val(a));
        SV::term(a)
    }
    fn pick(n: usize) -> usize {
        eng().pick(n)
    }
    fn ci(v: i64) -> SI {
        SI::konst(v as i128)
    }
    fn cv(v: i64) -> SV {
        SV::konst(v)
    }
    fn tt(b: bool) -> SB {
        SB::C(b)
    }
    fn and2(a: SB, b: SB) -> SB {
        match (a, b) {
            (SB::C(false), _) | (_, SB::C(false)) => SB::C(false),
            (SB::C(true), x) | (x, SB::C(true)) => x,
            (SB::T(x), SB::T(y)) => {
                if x == y {
                    return a;
                }
                t(|z| z.and(&[x, y]))
            }
        }
    }
    fn known(a: SI) -> Option<i64> {
        a.known().map(|v| v as i64)
    }
    fn known_false(a: SB) -> bool {
        matches!(a, SB::C(false))
    }
    fn or2(a: SB, b: SB) -> SB {
        match (a, b) {
            (SB::C(true), _) | (_, SB::C(true)) => SB::C(true),
            (SB::C(false), x) | (x, SB::C(false)) => x,
            (SB::T(x), SB::T(y)) => {
                if x == y {
                    return a;
                }
                t(|z| z.or(&[x, y]))
            }
        }
    }
    fn not(a: SB) -> SB {
        match a {
            SB::C(b) => SB::C(!b),
            SB::T(x) => t(|z| z.not(x)),
        }
    }
    fn iff(a: SB, b: SB) -> SB {
        match (a, b) {
            (SB::C(true), x) | (x, SB::C(true)) => x,
            (SB::C(false), x) | (x, SB::C(false)) => Self::not(x),
            (SB::T(x), SB::T(y)) => {
                if x == y {
                    return SB::C(true);
                }
                t(|z| z.eq(x, y))
            }
        }
    }
    fn ieq(a: SI, b: SI) -> SB {
        match a.cmp_known(b) {
            Some(o) => SB::C(o == std::cmp::Ordering::Equal),
            None => {
                let (x, y) = (a.ast(), b.ast());
                t(|z| z.eq(x, y))
            }
        }
    }
    fn ilt(a: SI, b: SI) -> SB {
        match a.lt_known(b) {
            Some(o) => SB::C(o),
            None => {
                let (x, y) = (a.ast(), b.ast());
                t(|z| z.ilt(x, y))
            }
        }
    }
    fn veq(a: SV, b: SV) -> SB {
        if a.0 == b.0 {
            return SB::C(true);
        }
        if let (Some(x), Some(y)) = (a.known(), b.known()) {
            return SB::C(x == y);
        }
        let (x, y) = (a.ast(), b.ast());
        if x == y {
            return SB::C(true);
        }
        t(|z| z.eq(x, y))
    }
    fn vlt(a: SV, b: SV) -> SB {
        if let (Some(x), Some(y)) = (a.known(), b.known()) {
            return SB::C(x < y);
        }
        let (x, y) = (a.ast(), b.ast());
        t(|z| z.vslt(x, y))
    }
    fn vite(c: SB, a: SV, b: SV) -> SV {
        match c {
            SB::C(true) => a,
            SB::C(false) => b,
            SB::T(c) => {
                let (x, y) = (a.ast(), b.ast());
                if x == y {
                    return a;
                }
                let e = eng();
                let r = e.z.ite(c, x, y);
                SV::term(e.hold(r))
            }
        }
    }
    fn assume(b: SB) {
        match b {
            SB::C(true) => {}
            SB::C(false) => panic::panic_any(Kill("assumption")),
            SB::T(a) => eng().assume(a),
        }
    }
    fn prove(b: SB, label: &'static str) {
        let e = eng();
        match b {
            SB::C(true) => {
                e.st.obligations += 1;
                e.st.discharged += 1;
                e.st.folded += 1;
            }
            x => {
                let a = x.ast();
                e.prove(a, label)
            }
        }
    }
    fn panics<R>(f: impl FnOnce() -> R) -> Option<R> {
        match panic::catch_unwind(panic::AssertUnwindSafe(f)) {
            Ok(r) => Some(r),
            Err(p) => {
                if p.downcast_ref::<Kill>().is_some() || p.downcast_ref::<Budget>().is_some() {
                    panic::resume_unwind(p)
                }
                let m = crate::engine::panic_message(&*p);
                if crate::engine::internal(&m) {
                    panic::resume_unwind(p)
                }
                None
            }
        }
    }
    fn imin() -> i128 {
        eng().imin
    }
    fn imax() -> i128 {
        eng().imax
    }
}
