//! `SI`: a symbolic machine integer usable as the crate's index type.
//!
//! Terms are SMT integers; every arithmetic result is range-checked against the
//! modelled machine type, so "attempt to add with overflow" is a reachable panic
//! exactly when some feasible input overflows (debug-build semantics).
use crate::engine::{eng, INode};
use crate::z3::Ast;
use num_traits::*;
use std::cmp::Ordering;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::ops::*;

#[derive(Clone, Copy)]
pub struct SI(pub u32);

fn node(lo: i128, hi: i128, c: Option<i128>, ast: Option<Ast>) -> SI {
    let e = eng();
    e.tick();
    e.ints.push(INode { lo, hi, c, ast });
    SI((e.ints.len() - 1) as u32)
}

impl SI {
    pub fn konst(v: i128) -> SI {
        node(v, v, Some(v), None)
    }
    pub fn var(lo: i128, hi: i128, ast: Ast) -> SI {
        node(lo, hi, if lo == hi { Some(lo) } else { None }, Some(ast))
    }
    pub fn known(self) -> Option<i128> {
        eng().ints[self.0 as usize].c
    }
    pub fn range(self) -> (i128, i128) {
        let n = &eng().ints[self.0 as usize];
        (n.lo, n.hi)
    }
    pub fn ast(self) -> Ast {
        let e = eng();
        if let Some(c) = e.ints[self.0 as usize].c {
            // constants (including concretised variables) are numerals
            let a = e.z.int_num(c);
            return e.hold(a);
        }
        e.ints[self.0 as usize].ast.unwrap()
    }
    pub fn concrete(self) -> i128 {
        eng().concretize(self.0)
    }
    /// Range-checked result of an arithmetic operation.
    fn mk(lo: i128, hi: i128, f: impl FnOnce(&mut crate::engine::Engine) -> Ast, op: &str) -> SI {
        let e = eng();
        if !e.z.fits(lo, hi) {
            panic!("engine: index term outside the encoded width");
        }
        let a = f(e);
        let a = e.hold(a);
        let (min, max) = (e.imin, e.imax);
        if lo < min || hi > max {
            let (mn, mx) = (e.z.int_num(min), e.z.int_num(max));
            let (mn, mx) = (e.hold(mn), e.hold(mx));
            let under = e.z.ilt(a, mn);
            let under = e.hold(under);
            let over = e.z.ilt(mx, a);
            let over = e.hold(over);
            let out = e.z.or(&[under, over]);
            let out = e.hold(out);
            if e.branch(out) {
                panic!("attempt to {op} with overflow");
            }
        }
        node(lo.max(min), hi.min(max), None, Some(a))
    }
    fn konst_checked(v: i128, op: &str) -> SI {
        let e = eng();
        if v < e.imin || v > e.imax {
            panic!("attempt to {op} with overflow");
        }
        SI::konst(v)
    }
    /// Outcome of `==` when the ranges decide it.
    pub fn cmp_known(self, o: SI) -> Option<Ordering> {
        self.cmp_const(o)
    }
    pub fn lt_known(self, o: SI) -> Option<bool> {
        if let Some(c) = self.cmp_const(o) {
            return Some(c == Ordering::Less);
        }
        let ((al, _), (_, bh)) = (self.range(), o.range());
        if al >= bh {
            return Some(false);
        }
        None
    }
    fn cmp_const(self, o: SI) -> Option<Ordering> {
        match (self.known(), o.known()) {
            (Some(a), Some(b)) => Some(a.cmp(&b)),
            _ => {
                let ((al, ah), (bl, bh)) = (self.range(), o.range());
                if ah < bl {
                    Some(Ordering::Less)
                } else if al > bh {
                    Some(Ordering::Greater)
                } else if self.0 == o.0 {
                    Some(Ordering::Equal)
                } else {
                    None
                }
            }
        }
    }
    fn fork_lt(self, o: SI) -> bool {
        match self.lt_known(o) {
            Some(c) => c,
            None => {
                let (a, b) = (self.ast(), o.ast());
                let e = eng();
                let t = e.z.ilt(a, b);
                let t = e.hold(t);
                e.branch(t)
            }
        }
    }
    fn fork_eq(self, o: SI) -> bool {
        match self.cmp_const(o) {
            Some(c) => c == Ordering::Equal,
            None => {
                let (a, b) = (self.ast(), o.ast());
                let e = eng();
                let t = e.z.eq(a, b);
                let t = e.hold(t);
                e.branch(t)
            }
        }
    }
}

impl fmt::Display for SI {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(&self.concrete(), f)
    }
}
impl fmt::Debug for SI {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "i{}", self.0)
    }
}
impl Default for SI {
    fn default() -> Self {
        SI::konst(0)
    }
}
impl PartialEq for SI {
    fn eq(&self, o: &SI) -> bool {
        self.fork_eq(*o)
    }
}
impl Eq for SI {}
impl PartialOrd for SI {
    fn partial_cmp(&self, o: &SI) -> Option<Ordering> {
        Some(self.cmp(o))
    }
    fn lt(&self, o: &SI) -> bool {
        self.fork_lt(*o)
    }
    fn gt(&self, o: &SI) -> bool {
        o.fork_lt(*self)
    }
    fn le(&self, o: &SI) -> bool {
        !o.fork_lt(*self)
    }
    fn ge(&self, o: &SI) -> bool {
        !self.fork_lt(*o)
    }
}
impl Ord for SI {
    fn cmp(&self, o: &SI) -> Ordering {
        if self.fork_lt(*o) {
            Ordering::Less
        } else if self.fork_eq(*o) {
            Ordering::Equal
        } else {
            Ordering::Greater
        }
    }
}
impl Hash for SI {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.concrete().hash(h)
    }
}

impl Add for SI {
    type Output = SI;
    fn add(self, o: SI) -> SI {
        if let (Some(a), Some(b)) = (self.known(), o.known()) {
            return SI::konst_checked(a + b, "add");
        }
        let ((al, ah), (bl, bh)) = (self.range(), o.range());
        let (a, b) = (self.ast(), o.ast());
        SI::mk(al + bl, ah + bh, |e| e.z.iadd(a, b), "add")
    }
}
impl Sub for SI {
    type Output = SI;
    fn sub(self, o: SI) -> SI {
        if let (Some(a), Some(b)) = (self.known(), o.known()) {
            return SI::konst_checked(a - b, "subtract");
        }
        let ((al, ah), (bl, bh)) = (self.range(), o.range());
        let (a, b) = (self.ast(), o.ast());
        SI::mk(al - bh, ah - bl, |e| e.z.isub(a, b), "subtract")
    }
}
impl Mul for SI {
    type Output = SI;
    fn mul(self, o: SI) -> SI {
        if let (Some(a), Some(b)) = (self.known(), o.known()) {
            return SI::konst_checked(a * b, "multiply");
        }
        // index products: concretise one side (kept linear)
        let v = self.concrete();
        if let Some(b) = o.known() {
            return SI::konst_checked(v * b, "multiply");
        }
        let (bl, bh) = o.range();
        let (x, y) = (v * bl, v * bh);
        if !eng().z.fits(x.min(y), x.max(y)) {
            return SI::konst_checked(v * o.concrete(), "multiply");
        }
        let (a, b) = (self.ast(), o.ast());
        SI::mk(x.min(y), x.max(y), |e| e.z.imul(a, b), "multiply")
    }
}
impl Div for SI {
    type Output = SI;
    fn div(self, o: SI) -> SI {
        let (a, b) = (self.concrete(), o.concrete());
        if b == 0 {
            panic!("attempt to divide by zero");
        }
        SI::konst_checked(a / b, "divide")
    }
}
impl Rem for SI {
    type Output = SI;
    fn rem(self, o: SI) -> SI {
        let (a, b) = (self.concrete(), o.concrete());
        if b == 0 {
            panic!("attempt to calculate the remainder with a divisor of zero");
        }
        SI::konst(a % b)
    }
}
impl AddAssign for SI {
    fn add_assign(&mut self, o: SI) {
        *self = *self + o
    }
}
impl SubAssign for SI {
    fn sub_assign(&mut self, o: SI) {
        *self = *self - o
    }
}
impl Neg for SI {
    type Output = SI;
    fn neg(self) -> SI {
        SI::konst(0) - self
    }
}
impl Not for SI {
    type Output = SI;
    fn not(self) -> SI {
        let e = eng();
        let v = self.concrete();
        SI::konst(if e.imin < 0 { !v } else { e.imax - v })
    }
}
macro_rules! bit {
    ($t:ident,$f:ident,$op:tt) => {
        impl $t for SI {
            type Output = SI;
            fn $f(self, o: SI) -> SI {
                SI::konst(self.concrete() $op o.concrete())
            }
        }
    };
}
bit!(BitAnd, bitand, &);
bit!(BitOr, bitor, |);
bit!(BitXor, bitxor, ^);
impl Shl<usize> for SI {
    type Output = SI;
    fn shl(self, n: usize) -> SI {
        let e = eng();
        let w = (e.imax - e.imin + 1) as u128;
        let v = ((self.concrete() - e.imin) as u128) << n;
        SI::konst((v % w) as i128 + e.imin)
    }
}
impl Shr<usize> for SI {
    type Output = SI;
    fn shr(self, n: usize) -> SI {
        SI::konst(self.concrete() >> n)
    }
}
impl Zero for SI {
    fn zero() -> SI {
        SI::konst(0)
    }
    fn is_zero(&self) -> bool {
        *self == SI::konst(0)
    }
}
impl One for SI {
    fn one() -> SI {
        SI::konst(1)
    }
}
impl Bounded for SI {
    fn min_value() -> SI {
        SI::konst(eng().imin)
    }
    fn max_value() -> SI {
        SI::konst(eng().imax)
    }
}
impl ToPrimitive for SI {
    fn to_i64(&self) -> Option<i64> {
        i64::try_from(self.concrete()).ok()
    }
    fn to_u64(&self) -> Option<u64> {
        u64::try_from(self.concrete()).ok()
    }
    fn to_i128(&self) -> Option<i128> {
        Some(self.concrete())
    }
    fn to_u128(&self) -> Option<u128> {
        u128::try_from(self.concrete()).ok()
    }
    fn to_f64(&self) -> Option<f64> {
        Some(self.concrete() as f64)
    }
}
impl NumCast for SI {
    fn from<T: ToPrimitive>(n: T) -> Option<SI> {
        let v = n.to_i128()?;
        let e = eng();
        if v < e.imin || v > e.imax {
            return None;
        }
        Some(SI::konst(v))
    }
}
impl Num for SI {
    type FromStrRadixErr = std::num::ParseIntError;
    fn from_str_radix(s: &str, r: u32) -> Result<SI, Self::FromStrRadixErr> {
        i128::from_str_radix(s, r).map(SI::konst)
    }
}
macro_rules! checked {
    ($tr:ident,$f:ident,$op:tt) => {
        impl $tr for SI {
            fn $f(&self, o: &SI) -> Option<SI> {
                let e = eng();
                let r = self.concrete() $op o.concrete();
                if r < e.imin || r > e.imax { None } else { Some(SI::konst(r)) }
            }
        }
    };
}
checked!(CheckedAdd, checked_add, +);
checked!(CheckedSub, checked_sub, -);
checked!(CheckedMul, checked_mul, *);
impl CheckedDiv for SI {
    fn checked_div(&self, o: &SI) -> Option<SI> {
        let b = o.concrete();
        if b == 0 {
            return None;
        }
        let e = eng();
        let r = self.concrete() / b;
        if r < e.imin || r > e.imax {
            None
        } else {
            Some(SI::konst(r))
        }
    }
}
impl Saturating for SI {
    fn saturating_add(self, o: SI) -> SI {
        let e = eng();
        SI::konst((self.concrete() + o.concrete()).clamp(e.imin, e.imax))
    }
    fn saturating_sub(self, o: SI) -> SI {
        let e = eng();
        SI::konst((self.concrete() - o.concrete()).clamp(e.imin, e.imax))
    }
}
impl Signed for SI {
    fn abs(&self) -> SI {
        if *self < SI::konst(0) {
            -*self
        } else {
            *self
        }
    }
    fn abs_sub(&self, o: &SI) -> SI {
        if *self <= *o {
            SI::konst(0)
        } else {
            *self - *o
        }
    }
    fn signum(&self) -> SI {
        SI::konst(self.concrete().signum())
    }
    fn is_positive(&self) -> bool {
        *self > SI::konst(0)
    }
    fn is_negative(&self) -> bool {
        *self < SI::konst(0)
    }
}
impl PrimInt for SI {
    fn count_ones(self) -> u32 {
        self.concrete().count_ones()
    }
    fn count_zeros(self) -> u32 {
        unimplemented!("engine: count_zeros")
    }
    fn leading_zeros(self) -> u32 {
        unimplemented!("engine: leading_zeros")
    }
    fn trailing_zeros(self) -> u32 {
        self.concrete().trailing_zeros()
    }
    fn rotate_left(self, _: u32) -> SI {
        unimplemented!("engine: rotate_left")
    }
    fn rotate_right(self, _: u32) -> SI {
        unimplemented!("engine: rotate_right")
    }
    fn signed_shl(self, n: u32) -> SI {
        self << n as usize
    }
    fn signed_shr(self, n: u32) -> SI {
        self >> n as usize
    }
    fn unsigned_shl(self, n: u32) -> SI {
        self << n as usize
    }
    fn unsigned_shr(self, n: u32) -> SI {
        self >> n as usize
    }
    fn swap_bytes(self) -> SI {
        unimplemented!("engine: swap_bytes")
    }
    fn from_be(_: SI) -> SI {
        unimplemented!("engine: from_be")
    }
    fn from_le(x: SI) -> SI {
        x
    }
    fn to_be(self) -> SI {
        unimplemented!("engine: to_be")
    }
    fn to_le(self) -> SI {
        self
    }
    fn pow(self, e: u32) -> SI {
        let mut r = SI::konst(1);
        for _ in 0..e {
            r = r * self;
        }
        r
    }
}
impl sparsetools::Integer for SI {}
