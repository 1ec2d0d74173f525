//! Concrete domains: the same harnesses on native index types (and on a bounded
//! index type for the narrow-width jobs), fed with a recorded input vector.
use crate::sv::{sdiv, wrap};
use num_traits::*;
use props::Dom;
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::fmt;
use std::marker::PhantomData;
use std::ops::*;

thread_local! {
    static FEED: RefCell<(Vec<i64>, usize)> = const { RefCell::new((vec![], 0)) };
    static FAILS: RefCell<Vec<&'static str>> = const { RefCell::new(vec![]) };
    static BAD_ASSUME: Cell<bool> = const { Cell::new(false) };
    static WIDTH: Cell<u32> = const { Cell::new(8) };
    static RANGE: Cell<(i128, i128)> = const { Cell::new((0, 0)) };
    static PROVED: Cell<u64> = const { Cell::new(0) };
}
pub struct Stop;

#[derive(Debug)]
pub enum Verdict {
    Ok(u64),
    OutsideAssumptions,
    Fails(Vec<&'static str>),
    Panics(String),
}
pub fn run_with(inputs: &[i64], bits: u32, imin: i128, imax: i128, f: impl FnOnce()) -> Verdict {
    FEED.with(|x| *x.borrow_mut() = (inputs.to_vec(), 0));
    FAILS.with(|x| x.borrow_mut().clear());
    BAD_ASSUME.with(|x| x.set(false));
    WIDTH.with(|x| x.set(bits));
    RANGE.with(|x| x.set((imin, imax)));
    PROVED.with(|x| x.set(0));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    if BAD_ASSUME.with(|x| x.get()) {
        return Verdict::OutsideAssumptions;
    }
    let fails = FAILS.with(|x| x.borrow().clone());
    if !fails.is_empty() {
        return Verdict::Fails(fails);
    }
    match r {
        Ok(()) => Verdict::Ok(PROVED.with(|x| x.get())),
        Err(p) => Verdict::Panics(crate::engine::panic_message(&*p)),
    }
}
fn next() -> i64 {
    FEED.with(|x| {
        let mut b = x.borrow_mut();
        let p = b.1;
        b.1 += 1;
        b.0.get(p).copied().unwrap_or(0)
    })
}

pub trait Ix: props::IntegerHash {
    fn of(v: i64) -> Self;
    fn range() -> (i128, i128);
}
impl Ix for usize {
    fn of(v: i64) -> usize {
        usize::try_from(v).expect("replay: constant outside the index type")
    }
    fn range() -> (i128, i128) {
        (0, usize::MAX as i128)
    }
}
impl Ix for CI {
    fn of(v: i64) -> CI {
        CI(v as i128)
    }
    fn range() -> (i128, i128) {
        RANGE.with(|x| x.get())
    }
}

pub struct Conc<I>(PhantomData<I>);
impl<I: Ix> Dom for Conc<I> {
    type I = I;
    type V = WV;
    type B = bool;
    fn idx(lo: i64, hi: i64) -> I {
        let (mn, mx) = I::range();
        let (lo, hi) = ((lo as i128).max(mn) as i64, (hi as i128).min(mx) as i64);
        let v = next();
        if v < lo || v > hi {
            BAD_ASSUME.with(|x| x.set(true));
            std::panic::panic_any(Stop);
        }
        I::of(v)
    }
    fn val() -> WV {
        WV::new(next())
    }
    fn pick(n: usize) -> usize {
        let v = next();
        if v < 0 || v as usize >= n {
            BAD_ASSUME.with(|x| x.set(true));
            std::panic::panic_any(Stop);
        }
        v as usize
    }
    fn ci(v: i64) -> I {
        I::of(v)
    }
    fn cv(v: i64) -> WV {
        WV::new(v)
    }
    fn tt(b: bool) -> bool {
        b
    }
    fn known(a: I) -> Option<i64> {
        a.to_i64()
    }
    fn known_false(a: bool) -> bool {
        !a
    }
    fn and2(a: bool, b: bool) -> bool {
        a && b
    }
    fn not(a: bool) -> bool {
        !a
    }
    fn ieq(a: I, b: I) -> bool {
        a == b
    }
    fn ilt(a: I, b: I) -> bool {
        a < b
    }
    fn veq(a: WV, b: WV) -> bool {
        a.0 == b.0
    }
    fn vlt(a: WV, b: WV) -> bool {
        a.0 < b.0
    }
    fn vite(c: bool, a: WV, b: WV) -> WV {
        if c {
            a
        } else {
            b
        }
    }
    fn assume(b: bool) {
        if !b {
            BAD_ASSUME.with(|x| x.set(true));
            std::panic::panic_any(Stop);
        }
    }
    fn prove(b: bool, label: &'static str) {
        PROVED.with(|x| x.set(x.get() + 1));
        if !b {
            FAILS.with(|x| x.borrow_mut().push(label));
        }
    }
    fn panics<R>(f: impl FnOnce() -> R) -> Option<R> {
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok()
    }
    fn imin() -> i128 {
        I::range().0
    }
    fn imax() -> i128 {
        I::range().1
    }
}

// ------------------------------------------------ wrapping element values

#[derive(Clone, Copy, PartialEq, PartialOrd)]
pub struct WV(pub i64);
impl WV {
    fn new(v: i64) -> WV {
        WV(wrap(v, WIDTH.with(|x| x.get())))
    }
}
impl Default for WV {
    fn default() -> WV {
        WV(0)
    }
}
impl fmt::Display for WV {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(&self.0, f)
    }
}
impl fmt::Debug for WV {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(&self.0, f)
    }
}
impl Add for WV {
    type Output = WV;
    fn add(self, o: WV) -> WV {
        WV::new(self.0.wrapping_add(o.0))
    }
}
impl Sub for WV {
    type Output = WV;
    fn sub(self, o: WV) -> WV {
        WV::new(self.0.wrapping_sub(o.0))
    }
}
impl Mul for WV {
    type Output = WV;
    fn mul(self, o: WV) -> WV {
        WV::new(self.0.wrapping_mul(o.0))
    }
}
impl Div for WV {
    type Output = WV;
    fn div(self, o: WV) -> WV {
        WV::new(sdiv(self.0, o.0))
    }
}
impl Neg for WV {
    type Output = WV;
    fn neg(self) -> WV {
        WV::new(self.0.wrapping_neg())
    }
}
impl AddAssign for WV {
    fn add_assign(&mut self, o: WV) {
        *self = *self + o
    }
}
impl SubAssign for WV {
    fn sub_assign(&mut self, o: WV) {
        *self = *self - o
    }
}
impl MulAssign for WV {
    fn mul_assign(&mut self, o: WV) {
        *self = *self * o
    }
}
impl Zero for WV {
    fn zero() -> WV {
        WV(0)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0
    }
}
impl One for WV {
    fn one() -> WV {
        WV(1)
    }
}
impl sparsetools::Nonzero for WV {}
impl sparsetools::Scalar for WV {}
impl sparsetools::Float for WV {}

// ------------------------------------------------ a bounded index type

/// A machine integer with an arbitrary range and checked arithmetic.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct CI(pub i128);
fn chk(v: i128, op: &str) -> CI {
    let (mn, mx) = RANGE.with(|x| x.get());
    if v < mn || v > mx {
        panic!("attempt to {op} with overflow");
    }
    CI(v)
}
fn opt(v: i128) -> Option<CI> {
    let (mn, mx) = RANGE.with(|x| x.get());
    (v >= mn && v <= mx).then_some(CI(v))
}
impl fmt::Display for CI {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(&self.0, f)
    }
}
impl fmt::Debug for CI {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(&self.0, f)
    }
}
macro_rules! arith {
    ($($t:ident $f:ident $e:expr, $n:expr;)*) => {$(
        impl $t for CI {
            type Output = CI;
            fn $f(self, o: CI) -> CI {
                let g: fn(i128, i128) -> i128 = $e;
                chk(g(self.0, o.0), $n)
            }
        }
    )*};
}
arith! {
    Add add |a, b| a + b, "add";
    Sub sub |a, b| a - b, "subtract";
    Mul mul |a, b| a * b, "multiply";
    Div div |a, b| a / b, "divide";
    Rem rem |a, b| a % b, "rem";
    BitAnd bitand |a, b| a & b, "and";
    BitOr bitor |a, b| a | b, "or";
    BitXor bitxor |a, b| a ^ b, "xor";
}
impl AddAssign for CI {
    fn add_assign(&mut self, o: CI) {
        *self = *self + o
    }
}
impl SubAssign for CI {
    fn sub_assign(&mut self, o: CI) {
        *self = *self - o
    }
}
impl Neg for CI {
    type Output = CI;
    fn neg(self) -> CI {
        chk(-self.0, "negate")
    }
}
impl Not for CI {
    type Output = CI;
    fn not(self) -> CI {
        let (mn, mx) = RANGE.with(|x| x.get());
        CI(if mn < 0 { !self.0 } else { mx - self.0 })
    }
}
impl Shl<usize> for CI {
    type Output = CI;
    fn shl(self, n: usize) -> CI {
        let (mn, mx) = RANGE.with(|x| x.get());
        let w = (mx - mn + 1) as u128;
        CI(((((self.0 - mn) as u128) << n) % w) as i128 + mn)
    }
}
impl Shr<usize> for CI {
    type Output = CI;
    fn shr(self, n: usize) -> CI {
        CI(self.0 >> n)
    }
}
impl Zero for CI {
    fn zero() -> CI {
        CI(0)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0
    }
}
impl One for CI {
    fn one() -> CI {
        CI(1)
    }
}
impl Bounded for CI {
    fn min_value() -> CI {
        CI(RANGE.with(|x| x.get()).0)
    }
    fn max_value() -> CI {
        CI(RANGE.with(|x| x.get()).1)
    }
}
impl ToPrimitive for CI {
    fn to_i64(&self) -> Option<i64> {
        i64::try_from(self.0).ok()
    }
    fn to_u64(&self) -> Option<u64> {
        u64::try_from(self.0).ok()
    }
    fn to_i128(&self) -> Option<i128> {
        Some(self.0)
    }
    fn to_f64(&self) -> Option<f64> {
        Some(self.0 as f64)
    }
}
impl NumCast for CI {
    fn from<T: ToPrimitive>(n: T) -> Option<CI> {
        opt(n.to_i128()?)
    }
}
impl Num for CI {
    type FromStrRadixErr = std::num::ParseIntError;
    fn from_str_radix(s: &str, r: u32) -> Result<CI, Self::FromStrRadixErr> {
        i128::from_str_radix(s, r).map(CI)
    }
}
impl CheckedAdd for CI {
    fn checked_add(&self, o: &CI) -> Option<CI> {
        opt(self.0 + o.0)
    }
}
impl CheckedSub for CI {
    fn checked_sub(&self, o: &CI) -> Option<CI> {
        opt(self.0 - o.0)
    }
}
impl CheckedMul for CI {
    fn checked_mul(&self, o: &CI) -> Option<CI> {
        opt(self.0 * o.0)
    }
}
impl CheckedDiv for CI {
    fn checked_div(&self, o: &CI) -> Option<CI> {
        if o.0 == 0 {
            None
        } else {
            opt(self.0 / o.0)
        }
    }
}
impl Saturating for CI {
    fn saturating_add(self, o: CI) -> CI {
        let (mn, mx) = RANGE.with(|x| x.get());
        CI((self.0 + o.0).clamp(mn, mx))
    }
    fn saturating_sub(self, o: CI) -> CI {
        let (mn, mx) = RANGE.with(|x| x.get());
        CI((self.0 - o.0).clamp(mn, mx))
    }
}
impl Signed for CI {
    fn abs(&self) -> CI {
        chk(self.0.abs(), "negate")
    }
    fn abs_sub(&self, o: &CI) -> CI {
        CI((self.0 - o.0).max(0))
    }
    fn signum(&self) -> CI {
        CI(self.0.signum())
    }
    fn is_positive(&self) -> bool {
        self.0 > 0
    }
    fn is_negative(&self) -> bool {
        self.0 < 0
    }
}
impl PrimInt for CI {
    fn count_ones(self) -> u32 {
        self.0.count_ones()
    }
    fn count_zeros(self) -> u32 {
        unimplemented!("engine: count_zeros")
    }
    fn leading_zeros(self) -> u32 {
        unimplemented!("engine: leading_zeros")
    }
    fn trailing_zeros(self) -> u32 {
        self.0.trailing_zeros()
    }
    fn rotate_left(self, _: u32) -> CI {
        unimplemented!("engine: rotate_left")
    }
    fn rotate_right(self, _: u32) -> CI {
        unimplemented!("engine: rotate_right")
    }
    fn signed_shl(self, n: u32) -> CI {
        self << n as usize
    }
    fn signed_shr(self, n: u32) -> CI {
        self >> n as usize
    }
    fn unsigned_shl(self, n: u32) -> CI {
        self << n as usize
    }
    fn unsigned_shr(self, n: u32) -> CI {
        self >> n as usize
    }
    fn swap_bytes(self) -> CI {
        unimplemented!("engine: swap_bytes")
    }
    fn from_be(_: CI) -> CI {
        unimplemented!("engine: from_be")
    }
    fn from_le(x: CI) -> CI {
        x
    }
    fn to_be(self) -> CI {
        unimplemented!("engine: to_be")
    }
    fn to_le(self) -> CI {
        self
    }
    fn pow(self, e: u32) -> CI {
        let mut r = CI(1);
        for _ in 0..e {
            r = r * self;
        }
        r
    }
}
impl sparsetools::Integer for CI {}
#[allow(unused)]
fn _ord(a: CI, b: CI) -> Ordering {
    a.cmp(&b)
}
