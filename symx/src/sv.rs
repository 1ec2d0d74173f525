//! `SV`: a symbolic element value (bit-vector term, wrapping arithmetic).
use crate::engine::{eng, VNode};
use crate::z3::Ast;
use num_traits::{One, Zero};
use std::cmp::Ordering;
use std::fmt;
use std::ops::*;

#[derive(Clone, Copy)]
pub struct SV(pub u32);

pub fn wrap(v: i64, bits: u32) -> i64 {
    if bits >= 64 {
        return v;
    }
    let s = 64 - bits;
    (v << s) >> s
}

fn node(c: Option<i64>, ast: Option<Ast>) -> SV {
    let e = eng();
    e.tick();
    e.vals.push(VNode { c, ast });
    SV((e.vals.len() - 1) as u32)
}

impl SV {
    pub fn konst(v: i64) -> SV {
        let e = eng();
        let v = wrap(v, e.bits);
        // small constants share one node
        if (-128..256).contains(&v) {
            if e.small.len() != 384 {
                e.small = vec![u32::MAX; 384];
            }
            let k = (v + 128) as usize;
            let s = e.small[k];
            if s != u32::MAX {
                e.tick();
                return SV(s);
            }
            let n = node(Some(v), None);
            eng().small[k] = n.0;
            return n;
        }
        node(Some(v), None)
    }
    pub fn term(ast: Ast) -> SV {
        node(None, Some(ast))
    }
    pub fn known(self) -> Option<i64> {
        eng().vals[self.0 as usize].c
    }
    pub fn ast(self) -> Ast {
        let e = eng();
        let n = &e.vals[self.0 as usize];
        if let Some(a) = n.ast {
            return a;
        }
        let c = n.c.unwrap();
        let a = e.z.bv_num(c);
        let a = e.hold(a);
        e.vals[self.0 as usize].ast = Some(a);
        a
    }
    fn op2(self, o: SV, k: impl FnOnce(i64, i64) -> i64, f: impl FnOnce(&crate::z3::Z3, Ast, Ast) -> Ast) -> SV {
        if let (Some(a), Some(b)) = (self.known(), o.known()) {
            return SV::konst(k(a, b));
        }
        let (a, b) = (self.ast(), o.ast());
        let e = eng();
        let t = f(&e.z, a, b);
        let t = e.hold(t);
        SV::term(t)
    }
    fn fork(self, o: SV, k: impl FnOnce(i64, i64) -> bool, f: impl FnOnce(&crate::z3::Z3, Ast, Ast) -> Ast) -> bool {
        if let (Some(a), Some(b)) = (self.known(), o.known()) {
            return k(a, b);
        }
        let (a, b) = (self.ast(), o.ast());
        let e = eng();
        let t = f(&e.z, a, b);
        let t = e.hold(t);
        e.branch(t)
    }
}
pub fn sdiv(a: i64, b: i64) -> i64 {
    // SMT-LIB bvsdiv: total
    if b == 0 {
        if a < 0 {
            1
        } else {
            -1
        }
    } else {
        a.wrapping_div(b)
    }
}
impl Default for SV {
    fn default() -> SV {
        SV::konst(0)
    }
}
impl fmt::Display for SV {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self.known() {
            Some(c) => write!(f, "{c}"),
            None => write!(f, "v{}", self.0),
        }
    }
}
impl fmt::Debug for SV {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(self, f)
    }
}
impl Add for SV {
    type Output = SV;
    fn add(self, o: SV) -> SV {
        if self.known() == Some(0) {
            return o;
        }
        if o.known() == Some(0) {
            return self;
        }
        self.op2(o, |a, b| a.wrapping_add(b), |z, a, b| z.vadd(a, b))
    }
}
impl Sub for SV {
    type Output = SV;
    fn sub(self, o: SV) -> SV {
        if o.known() == Some(0) {
            return self;
        }
        self.op2(o, |a, b| a.wrapping_sub(b), |z, a, b| z.vsub(a, b))
    }
}
impl Mul for SV {
    type Output = SV;
    fn mul(self, o: SV) -> SV {
        if self.known() == Some(1) {
            return o;
        }
        if o.known() == Some(1) {
            return self;
        }
        if self.known() == Some(0) || o.known() == Some(0) {
            return SV::konst(0);
        }
        self.op2(o, |a, b| a.wrapping_mul(b), |z, a, b| z.vmul(a, b))
    }
}
impl Div for SV {
    type Output = SV;
    fn div(self, o: SV) -> SV {
        self.op2(o, sdiv, |z, a, b| z.vsdiv(a, b))
    }
}
impl Neg for SV {
    type Output = SV;
    fn neg(self) -> SV {
        if let Some(c) = self.known() {
            return SV::konst(c.wrapping_neg());
        }
        let a = self.ast();
        let e = eng();
        let t = e.z.vneg(a);
        let t = e.hold(t);
        SV::term(t)
    }
}
impl AddAssign for SV {
    fn add_assign(&mut self, o: SV) {
        *self = *self + o
    }
}
impl SubAssign for SV {
    fn sub_assign(&mut self, o: SV) {
        *self = *self - o
    }
}
impl MulAssign for SV {
    fn mul_assign(&mut self, o: SV) {
        *self = *self * o
    }
}
impl PartialEq for SV {
    fn eq(&self, o: &SV) -> bool {
        if self.0 == o.0 {
            return true;
        }
        self.fork(*o, |a, b| a == b, |z, a, b| z.eq(a, b))
    }
}
impl PartialOrd for SV {
    fn partial_cmp(&self, o: &SV) -> Option<Ordering> {
        Some(if self < o {
            Ordering::Less
        } else if self == o {
            Ordering::Equal
        } else {
            Ordering::Greater
        })
    }
    fn lt(&self, o: &SV) -> bool {
        self.fork(*o, |a, b| a < b, |z, a, b| z.vslt(a, b))
    }
    fn le(&self, o: &SV) -> bool {
        self.fork(*o, |a, b| a <= b, |z, a, b| z.vsle(a, b))
    }
    fn gt(&self, o: &SV) -> bool {
        o < self
    }
    fn ge(&self, o: &SV) -> bool {
        o <= self
    }
}
impl Zero for SV {
    fn zero() -> SV {
        SV::konst(0)
    }
    fn is_zero(&self) -> bool {
        *self == SV::konst(0)
    }
}
impl One for SV {
    fn one() -> SV {
        SV::konst(1)
    }
}
impl sparsetools::Nonzero for SV {}
impl sparsetools::Scalar for SV {}
impl sparsetools::Float for SV {}
