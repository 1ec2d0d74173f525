//! Property harnesses over the real `sparsetools` code.
//!
//! Every harness is written once, generic over a *domain* [`Dom`]: the symbolic
//! domain (crate `symx`, z3 decides), the concrete replay domains (crate `symx`,
//! native integer types) and the Kani domain (crate `kani`, CBMC decides).
//! A harness builds arbitrary inputs from domain variables, calls the real
//! functions, and states obligations as *non-branching* boolean terms.
#![allow(clippy::all)]
use num_traits::{One, Zero};
use sparsetools::coo::Coo;
use sparsetools::csc::CSC;
use sparsetools::csr::CSR;
use sparsetools::{Complex, Float, Integer, Nonzero, Scalar};
use std::fmt;
use std::hash::Hash;
use std::ops::*;

pub mod arith;
pub mod conv;
pub mod cplx;
pub mod dokh;
pub mod graphs;
pub mod jobs;
pub mod sel;
pub mod shape;
pub mod text;

pub trait IntegerHash: Integer + Hash + 'static {}
impl<T: Integer + Hash + 'static> IntegerHash for T {}

pub trait Dom: 'static + Sized {
    type I: Integer + Hash + 'static;
    type V: Float + PartialOrd + Neg<Output = Self::V> + 'static;
    type B: Copy + 'static;

    /// An arbitrary index-typed value in `lo..=hi`.
    fn idx(lo: i64, hi: i64) -> Self::I;
    /// An arbitrary element value.
    fn val() -> Self::V;
    /// An arbitrary choice out of `0..n` (a fork).
    fn pick(n: usize) -> usize;
    fn ci(v: i64) -> Self::I;
    fn cv(v: i64) -> Self::V;
    fn tt(b: bool) -> Self::B;
    fn and2(a: Self::B, b: Self::B) -> Self::B;
    fn not(a: Self::B) -> Self::B;
    /// Certainly false (not: provably false).
    fn known_false(a: Self::B) -> bool;
    /// The value, if it is a constant.
    fn known(a: Self::I) -> Option<i64>;
    fn ieq(a: Self::I, b: Self::I) -> Self::B;
    fn ilt(a: Self::I, b: Self::I) -> Self::B;
    fn veq(a: Self::V, b: Self::V) -> Self::B;
    fn vlt(a: Self::V, b: Self::V) -> Self::B;
    fn vite(c: Self::B, a: Self::V, b: Self::V) -> Self::V;
    fn assume(b: Self::B);
    fn prove(b: Self::B, label: &'static str);
    /// Runs `f`; `None` when it panicked.
    fn panics<R>(f: impl FnOnce() -> R) -> Option<R>;
    fn imin() -> i128;
    fn imax() -> i128;

    // derived -----------------------------------------------------------
    fn or2(a: Self::B, b: Self::B) -> Self::B {
        Self::not(Self::and2(Self::not(a), Self::not(b)))
    }
    fn ile(a: Self::I, b: Self::I) -> Self::B {
        Self::not(Self::ilt(b, a))
    }
    fn imp(a: Self::B, b: Self::B) -> Self::B {
        Self::or2(Self::not(a), b)
    }
    fn iff(a: Self::B, b: Self::B) -> Self::B {
        Self::or2(Self::and2(a, b), Self::and2(Self::not(a), Self::not(b)))
    }
    fn ff() -> Self::B {
        Self::tt(false)
    }
    fn isz(a: Self::V) -> Self::B {
        Self::veq(a, Self::cv(0))
    }
    /// An arbitrary machine-size choice in lo..=hi (a fork).
    fn size(lo: usize, hi: usize) -> usize {
        lo + Self::pick(hi - lo + 1)
    }
    fn flag() -> bool {
        Self::pick(2) == 1
    }
    fn claim(b: bool, label: &'static str) {
        Self::prove(Self::tt(b), label)
    }
}

pub type M<V> = Vec<Vec<V>>;

pub fn all<D: Dom>(v: impl IntoIterator<Item = D::B>) -> D::B {
    let mut r = D::tt(true);
    for b in v {
        r = D::and2(r, b);
    }
    r
}
pub fn any<D: Dom>(v: impl IntoIterator<Item = D::B>) -> D::B {
    let mut r = D::tt(false);
    for b in v {
        r = D::or2(r, b);
    }
    r
}

// ---------------------------------------------------------------- inputs

/// Compressed-format arrays (row-major for CSR, column-major for CSC).
pub struct Comp<D: Dom> {
    pub major: usize,
    pub minor: usize,
    pub ptr: Vec<D::I>,
    pub ind: Vec<D::I>,
    pub val: Vec<D::V>,
}
impl<D: Dom> Clone for Comp<D> {
    fn clone(&self) -> Self {
        Comp { major: self.major, minor: self.minor, ptr: self.ptr.clone(), ind: self.ind.clone(), val: self.val.clone() }
    }
}
impl<D: Dom> Comp<D> {
    pub fn csr(&self) -> CSR<D::I, D::V> {
        CSR::new(self.major, self.minor, self.ptr.clone(), self.ind.clone(), self.val.clone()).unwrap()
    }
    pub fn csc(&self) -> CSC<D::I, D::V> {
        CSC::new(self.minor, self.major, self.ind.clone(), self.ptr.clone(), self.val.clone()).unwrap()
    }
    /// Dense meaning, indexed [major][minor].
    pub fn den(&self) -> M<D::V> {
        den_comp::<D>(self.major, self.minor, &self.ptr, &self.ind, &self.val)
    }
    pub fn pat(&self) -> M<D::B> {
        pat_comp::<D>(self.major, self.minor, &self.ptr, &self.ind)
    }
}

/// How a compressed input is generated.
#[derive(Clone, Copy, PartialEq)]
pub enum Kind {
    /// any order, duplicates allowed, arrays exactly nnz long
    General,
    /// as General, but nnz is symbolic and the arrays may be longer than nnz
    /// (`CSR::new` documents "at least nnz"); what follows is arbitrary
    Slack,
    /// strictly increasing minor indices in each major slot
    Canonical,
    /// Canonical with slack
    CanonicalSlack,
    /// no duplicates, any order
    Unique,
    /// non-decreasing minor indices in each major slot
    Sorted,
}
pub fn kind(k: i64) -> Kind {
    match k {
        0 => Kind::General,
        1 => Kind::Slack,
        2 => Kind::Canonical,
        3 => Kind::CanonicalSlack,
        5 => Kind::Sorted,
        _ => Kind::Unique,
    }
}

/// From this many entries on, inputs are templates: a fixed irregular structure in
/// which single indices, pointers and values are symbolic.
pub const BIG: usize = 13;

/// Fixed irregular numbers (the templates must be the same on every run).
pub(crate) struct Lcg(u64);
impl Lcg {
    pub(crate) fn next(&mut self, n: usize) -> usize {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        ((self.0 >> 33) % n.max(1) as u64) as usize
    }
}

/// From this dimension on, positions lie at places where a narrower number would run over, and
/// nothing but values is symbolic.
pub const WIDE: usize = 60000;
impl Lcg {
    pub(crate) fn place(&mut self, n: usize) -> usize {
        if n < WIDE {
            return self.next(n);
        }
        let base = [0, 256, 65536, n - 4][self.next(4)];
        (base + self.next(4)).min(n - 1)
    }
}
pub(crate) fn near<D: Dom>(x: usize, n: usize) -> D::I {
    D::idx(x.saturating_sub(1) as i64, (x + 1).min(n - 1) as i64)
}
/// From this parameter on, `n - MANY` entries at fixed positions: more than 65536 of them, two
/// late ones of which have symbolic values.
pub const MANY: usize = 100_000;
fn many_val<D: Dom>(k: usize, n: usize) -> D::V {
    if k + 3 == n || k == 65540 {
        D::val()
    } else {
        D::cv(1 + (k % 3) as i64)
    }
}
fn gen_comp_many<D: Dom>(major: usize, minor: usize, n: usize, k: Kind) -> Comp<D> {
    let n = if k == Kind::General { n } else { n.min(major * minor) };
    let order = matches!(k, Kind::Canonical | Kind::CanonicalSlack | Kind::Sorted);
    let (mut ptr, mut ind) = (vec![D::ci(0)], vec![]);
    for r in 0..major {
        let len = (r + 1) * n / major - r * n / major;
        let mut row: Vec<usize> = (0..len).map(|x| ((x + 5 * r) % minor * 7919) % minor).collect();
        if order {
            row.sort();
        }
        ind.extend(row.iter().map(|x| D::ci(*x as i64)));
        ptr.push(D::ci(ind.len() as i64));
    }
    let val = (0..n).map(|k| many_val::<D>(k, n)).collect();
    Comp { major, minor, ptr, ind, val }
}
/// A large compressed matrix. `1000 <= n < 2000` means `n - 1000` entries and no symbolic
/// structure (only values); `n >= 2000` means `n - 1000` entries and a symbolic index that
/// stays near its place.
///
/// `n >= 3000` means `n - 3000` entries in canonical order, except for one entry, at any place,
/// whose index is arbitrary.
fn gen_comp_big<D: Dom>(major: usize, minor: usize, n: usize, k: Kind) -> Comp<D> {
    if n >= MANY {
        return gen_comp_many::<D>(major, minor, n - MANY, k);
    }
    if n >= 3000 {
        let b = gen_comp_big::<D>(major, minor, n - 3000 + 1000, Kind::Canonical);
        let mut c = Comp { val: b.val.clone(), ..b };
        let at = D::pick(c.ind.len());
        c.ind[at] = D::idx(0, minor as i64 - 1);
        c.val[at] = D::val();
        if matches!(k, Kind::Slack | Kind::CanonicalSlack) {
            c.ind.push(D::ci(0));
            c.val.push(D::cv(5));
        }
        return c;
    }
    let wide = major >= WIDE || minor >= WIDE;
    let fixed = n >= 1000 && n < 2000;
    let huge = n >= 2000;
    let n = if fixed || huge { n - 1000 } else { n };
    let slack = matches!(k, Kind::Slack | Kind::CanonicalSlack);
    let distinct = matches!(k, Kind::Canonical | Kind::CanonicalSlack | Kind::Unique);
    let mut g = Lcg((major * 1009 + minor * 31 + n) as u64 + if fixed { 77 } else { 0 });
    // row lengths: some empty, one long
    let mut len = vec![0usize; major];
    let long = g.place(major);
    let mut left = n;
    while left > 0 {
        let r = if g.next(3) == 0 { long } else { g.place(major) };
        if (distinct && len[r] >= minor) || (major > 3 && r % 4 == 1) {
            if len.iter().enumerate().all(|(i, l)| *l >= minor || (major > 3 && i % 4 == 1)) {
                break;
            }
            continue;
        }
        len[r] += 1;
        left -= 1;
    }
    let n = n - left;
    let (mut at, mut start) = (vec![], 0);
    for q in 0..major {
        let mut row: Vec<usize> = if distinct && minor >= WIDE {
            let mut r = vec![];
            while r.len() < len[q] {
                let x = g.place(minor);
                if !r.contains(&x) {
                    r.push(x);
                }
            }
            r
        } else if distinct && len[q] == 0 && wide {
            vec![]
        } else if distinct {
            let mut all: Vec<usize> = (0..minor).collect();
            for i in (1..minor).rev() {
                all.swap(i, g.next(i + 1));
            }
            all.truncate(len[q]);
            all
        } else {
            (0..len[q]).map(|_| g.place(minor)).collect()
        };
        if matches!(k, Kind::Canonical | Kind::CanonicalSlack | Kind::Sorted) {
            row.sort();
        }
        at.extend(row);
        start += len[q];
        let _ = start;
    }
    let mut ptr = vec![D::ci(0)];
    let mut acc = 0;
    let wobble = 1 + g.next(major.saturating_sub(1));
    for r in 0..major {
        acc += len[r];
        let p = if !fixed && r + 1 == wobble && r + 1 < major && acc > 0 && acc < n {
            let p = D::idx(acc as i64 - 1, acc as i64);
            D::assume(D::ile(ptr[r], p));
            p
        } else if slack && !fixed && r + 1 == major && n > 0 {
            let p = D::idx(n as i64 - 1, n as i64);
            D::assume(D::ile(ptr[r], p));
            p
        } else {
            D::ci(acc as i64)
        };
        ptr.push(p);
    }
    let total = n + if slack { 3 } else { 0 };
    let symi = g.next(n);
    let symv = if wide { [symi; 3] } else { [symi, g.next(n), n.saturating_sub(1)] };
    let (mut ind, mut val) = (vec![], vec![]);
    for e in 0..total {
        ind.push(if e >= n {
            D::ci(g.place(minor) as i64)
        } else if e == symi && !fixed {
            if huge {
                near::<D>(at[e], minor)
            } else {
                D::idx(0, minor as i64 - 1)
            }
        } else {
            D::ci(at[e] as i64)
        });
        val.push(if symv.contains(&e) { D::val() } else { D::cv(1 + (e % 3) as i64) });
    }
    Comp { major, minor, ptr, ind, val }
}

pub fn gen_comp<D: Dom>(major: usize, minor: usize, n: usize, k: Kind) -> Comp<D> {
    if n >= BIG && major > 0 && minor > 0 {
        let c = gen_comp_big::<D>(major, minor, n, k);
        if n >= MANY {
            return c; // nothing symbolic that could violate the kind
        }
        restrict::<D>(&c, k);
        return c;
    }
    let slack = matches!(k, Kind::Slack | Kind::CanonicalSlack);
    let n = if major == 0 || minor == 0 { 0 } else { n };
    let mut ptr: Vec<D::I> = Vec::with_capacity(major + 1);
    ptr.push(D::ci(0));
    for i in 1..=major {
        let last = i == major;
        let p = if last && !slack { D::ci(n as i64) } else { D::idx(0, n as i64) };
        D::assume(D::ile(ptr[i - 1], p));
        ptr.push(p);
    }
    let mut ind = Vec::with_capacity(n);
    let mut val = Vec::with_capacity(n);
    for _ in 0..n {
        ind.push(D::idx(0, minor as i64 - 1));
        val.push(D::val());
    }
    if major == 0 && slack {
        // nnz == 0, but spare array space
    }
    let c = Comp { major, minor, ptr, ind, val };
    restrict::<D>(&c, k);
    c
}
/// The structural assumptions of a kind.
fn restrict<D: Dom>(c: &Comp<D>, k: Kind) {
    let Comp { major, ptr, ind, .. } = c;
    let (major, n) = (*major, ind.len());
    if k == Kind::Canonical || k == Kind::CanonicalSlack {
        // positions k, k+1 lie in one major slot unless a pointer separates them
        for p in 1..n {
            let sep = any::<D>((1..=major).map(|i| D::ieq(ptr[i], D::ci(p as i64))));
            let beyond = D::ile(ptr[major], D::ci(p as i64));
            D::assume(D::or2(D::or2(sep, beyond), D::ilt(ind[p - 1], ind[p])));
        }
    }
    if k == Kind::Sorted {
        D::assume(sorted_b::<D>(major, ptr, ind));
    }
    if k == Kind::Unique {
        for a in 0..n {
            for b in a + 1..n {
                let sep = any::<D>((1..=major).map(|i| {
                    D::and2(D::ilt(D::ci(a as i64), ptr[i]), D::ile(ptr[i], D::ci(b as i64)))
                }));
                D::assume(D::or2(sep, D::not(D::ieq(ind[a], ind[b]))));
            }
        }
    }
}

pub struct Trip<D: Dom> {
    pub rows: usize,
    pub cols: usize,
    pub ri: Vec<D::I>,
    pub ci: Vec<D::I>,
    pub val: Vec<D::V>,
}
impl<D: Dom> Trip<D> {
    pub fn coo(&self) -> Coo<D::I, D::V> {
        Coo::new(self.rows, self.cols, self.ri.clone(), self.ci.clone(), self.val.clone()).unwrap()
    }
    pub fn den(&self) -> M<D::V> {
        den_coo::<D>(self.rows, self.cols, &self.ri, &self.ci, &self.val)
    }
}
pub fn gen_coo<D: Dom>(rows: usize, cols: usize, n: usize) -> Trip<D> {
    let n = if rows == 0 || cols == 0 { 0 } else { n };
    let (mut ri, mut ci, mut val) = (vec![], vec![], vec![]);
    if n >= MANY {
        let n = n - MANY;
        for k in 0..n {
            let p = k * 7919 % (rows * cols);
            ri.push(D::ci((p / cols) as i64));
            ci.push(D::ci((p % cols) as i64));
            val.push(many_val::<D>(k, n));
        }
        return Trip { rows, cols, ri, ci, val };
    }
    let huge = n >= 2000;
    let n = if huge { n - 1000 } else { n };
    if rows >= WIDE || cols >= WIDE {
        let mut g = Lcg((rows * 1009 + cols * 31 + n) as u64);
        let s = g.next(n);
        for k in 0..n {
            ri.push(D::ci(g.place(rows) as i64));
            ci.push(D::ci(g.place(cols) as i64));
            val.push(if k == s { D::val() } else { D::cv(1 + (k % 3) as i64) });
        }
        return Trip { rows, cols, ri, ci, val };
    }
    if n >= 2000 {
        // n - 2000 triplets in row order, except for one, at any place, which is arbitrary
        let n = n - 2000;
        let mut g = Lcg((rows * 1009 + cols * 31 + n) as u64);
        let mut at: Vec<(usize, usize)> = (0..n).map(|_| (g.next(rows), g.next(cols))).collect();
        at.sort();
        let s = D::pick(n);
        for (k, (i, j)) in at.into_iter().enumerate() {
            ri.push(if k == s { D::idx(0, rows as i64 - 1) } else { D::ci(i as i64) });
            ci.push(if k == s { D::idx(0, cols as i64 - 1) } else { D::ci(j as i64) });
            val.push(if k == s || k == n / 2 { D::val() } else { D::cv(1 + (k % 3) as i64) });
        }
        return Trip { rows, cols, ri, ci, val };
    }
    if n >= BIG {
        let mut g = Lcg((rows * 1009 + cols * 31 + n) as u64);
        let (s, w) = (g.next(n), [g.next(n), g.next(n)]);
        for k in 0..n {
            let sym = k == s;
            let (i, j) = (if g.next(3) == 0 { 0 } else { g.next(rows) }, g.next(cols));
            ri.push(if !sym { D::ci(i as i64) } else if huge { near::<D>(i, rows) } else { D::idx(0, rows as i64 - 1) });
            ci.push(if !sym { D::ci(j as i64) } else if huge { near::<D>(j, cols) } else { D::idx(0, cols as i64 - 1) });
            val.push(if sym || w.contains(&k) { D::val() } else { D::cv(1 + (k % 3) as i64) });
        }
        return Trip { rows, cols, ri, ci, val };
    }
    for _ in 0..n {
        ri.push(D::idx(0, rows as i64 - 1));
        ci.push(D::idx(0, cols as i64 - 1));
        val.push(D::val());
    }
    Trip { rows, cols, ri, ci, val }
}
pub fn vals<D: Dom>(n: usize) -> Vec<D::V> {
    (0..n).map(|k| if n < BIG || (k % 7 == 3 && n < 2000) || k + 2 == n { D::val() } else { D::cv(k as i64 % 4 - 1) }).collect()
}
pub fn gen_dense<D: Dom>(r: usize, c: usize) -> M<D::V> {
    if r * c >= BIG {
        let mut g = Lcg((r * 1009 + c) as u64);
        let sym = [g.next(r * c), g.next(r * c), g.next(r * c)];
        if r >= WIDE || c >= WIDE {
            let at: Vec<(usize, usize)> = (0..20).map(|_| (g.place(r), g.place(c))).collect();
            let mut d = vec![vec![D::cv(0); c]; r];
            for (k, (i, j)) in at.iter().enumerate() {
                d[*i][*j] = if k == 0 { D::val() } else { D::cv(k as i64) };
            }
            return d;
        }
        return (0..r)
            .map(|i| (0..c).map(|j| if sym.contains(&(i * c + j)) { D::val() } else { D::cv(g.next(4) as i64 - 1) }).collect())
            .collect();
    }
    (0..r).map(|_| vals::<D>(c)).collect()
}

// ---------------------------------------------------------------- oracles

fn u<D: Dom>(x: usize) -> D::I {
    D::ci(x as i64)
}

/// The matrix a triplet list denotes: entry (i,j) is the sum of all its values.
pub fn den_coo<D: Dom>(rows: usize, cols: usize, ri: &[D::I], ci: &[D::I], v: &[D::V]) -> M<D::V> {
    let mut m = vec![vec![D::cv(0); cols]; rows];
    let (us, js) = (upto::<D>(rows), upto::<D>(cols));
    for k in 0..v.len() {
        for i in span::<D>(ri[k], rows) {
            let ri_ok = D::ieq(ri[k], us[i]);
            if D::known_false(ri_ok) {
                continue;
            }
            for j in span::<D>(ci[k], cols) {
                let here = D::ieq(ci[k], js[j]);
                if D::known_false(here) {
                    continue;
                }
                let c = D::and2(ri_ok, here);
                m[i][j] = m[i][j] + D::vite(c, v[k], D::cv(0));
            }
        }
    }
    m
}
fn upto<D: Dom>(n: usize) -> Vec<D::I> {
    (0..n).map(u::<D>).collect()
}
/// Positions below `n` that `x` may name.
pub(crate) fn span<D: Dom>(x: D::I, n: usize) -> Range<usize> {
    match D::known(x) {
        Some(x) if x >= 0 && (x as usize) < n => x as usize..x as usize + 1,
        Some(_) => 0..0,
        None => 0..n,
    }
}
/// Major slots that may hold entry `k`, given non-decreasing constant pointers.
pub(crate) struct Slots(Option<Vec<i64>>);
impl Slots {
    pub(crate) fn new<D: Dom>(ptr: &[D::I]) -> Slots {
        let v: Option<Vec<i64>> = ptr.iter().map(|x| D::known(*x)).collect();
        Slots(v.filter(|v| v.windows(2).all(|w| w[0] <= w[1])))
    }
    /// No entry of slot `i` lies before this one.
    fn start(&self, i: usize) -> usize {
        self.0.as_ref().map_or(0, |v| v[i].max(0) as usize)
    }
    pub(crate) fn of(&self, k: usize, major: usize) -> Range<usize> {
        match &self.0 {
            None => 0..major,
            Some(v) => {
                // the last slot starting at or before k is the only one that can hold it
                let i = v[..major].partition_point(|p| *p <= k as i64);
                i.saturating_sub(1)..i
            }
        }
    }
}
fn in_slot_at<D: Dom>(ptr: &[D::I], i: usize, k: D::I) -> D::B {
    let lo = D::ile(ptr[i], k);
    if D::known_false(lo) {
        return lo;
    }
    D::and2(lo, D::ilt(k, ptr[i + 1]))
}
pub fn in_slot<D: Dom>(ptr: &[D::I], i: usize, k: usize) -> D::B {
    D::and2(D::ile(ptr[i], u::<D>(k)), D::ilt(u::<D>(k), ptr[i + 1]))
}
pub fn den_comp<D: Dom>(major: usize, minor: usize, ptr: &[D::I], ind: &[D::I], v: &[D::V]) -> M<D::V> {
    let mut m = vec![vec![D::cv(0); minor]; major];
    if ptr.len() != major + 1 {
        D::claim(false, "pointer array has one entry per major slot plus one");
        return m;
    }
    let (js, slots) = (upto::<D>(minor), Slots::new::<D>(ptr));
    for k in 0..v.len().min(ind.len()) {
        let at = u::<D>(k);
        for i in slots.of(k, major) {
            let here = in_slot_at::<D>(ptr, i, at);
            if D::known_false(here) {
                continue;
            }
            for j in span::<D>(ind[k], minor) {
                let there = D::ieq(ind[k], js[j]);
                if D::known_false(there) {
                    continue;
                }
                let c = D::and2(here, there);
                m[i][j] = m[i][j] + D::vite(c, v[k], D::cv(0));
            }
        }
    }
    m
}
/// Per-entry form: position (i,j) holds the sum of `f(k, i, j)` over the entries k stored there.
pub fn den_comp_with<D: Dom>(c: &Comp<D>, f: impl Fn(usize, usize, usize) -> D::V) -> M<D::V> {
    let mut m = vec![vec![D::cv(0); c.minor]; c.major];
    let (js, slots) = (upto::<D>(c.minor), Slots::new::<D>(&c.ptr));
    for k in 0..c.val.len() {
        let at = u::<D>(k);
        for i in slots.of(k, c.major) {
            let here = in_slot_at::<D>(&c.ptr, i, at);
            if D::known_false(here) {
                continue;
            }
            for j in span::<D>(c.ind[k], c.minor) {
                let there = D::ieq(c.ind[k], js[j]);
                if D::known_false(there) {
                    continue;
                }
                let b = D::and2(here, there);
                m[i][j] = m[i][j] + D::vite(b, f(k, i, j), D::cv(0));
            }
        }
    }
    m
}
/// The product of two matrices given by stored entries: entry p of the left matrix at
/// (i,t) and entry q of the right matrix at (t,j) contribute a_p*b_q to (i,j).
/// `lm`/`rm`: the operand is row-major (CSR).
pub fn den_product<D: Dom>(x: &Comp<D>, lm: bool, y: &Comp<D>, rm: bool, n: usize, k: usize, m: usize) -> M<D::V> {
    let mut out = vec![vec![D::cv(0); m]; n];
    // where each entry may lie: (row, column, condition)
    let at = |c: &Comp<D>, row_major: bool, e: usize, rows: usize, cols: usize| {
        let mut r = vec![];
        let at = u::<D>(e);
        let (major, minor) = if row_major { (rows, cols) } else { (cols, rows) };
        for a in 0..major {
            let here = in_slot_at::<D>(&c.ptr, a, at);
            if D::known_false(here) {
                continue;
            }
            for b in 0..minor {
                let c = D::and2(here, D::ieq(c.ind[e], u::<D>(b)));
                if !D::known_false(c) {
                    let (i, j) = if row_major { (a, b) } else { (b, a) };
                    r.push((i, j, c));
                }
            }
        }
        r
    };
    let xs: Vec<_> = (0..x.val.len()).map(|e| at(x, lm, e, n, k)).collect();
    let ys: Vec<_> = (0..y.val.len()).map(|e| at(y, rm, e, k, m)).collect();
    for p in 0..xs.len() {
        for q in 0..ys.len() {
            let mut at: Vec<(usize, usize, D::B)> = vec![];
            for &(i, xt, xc) in &xs[p] {
                for &(yt, j, yc) in &ys[q] {
                    if xt != yt {
                        continue;
                    }
                    let c = D::and2(xc, yc);
                    match at.iter_mut().find(|w| w.0 == i && w.1 == j) {
                        Some(w) => w.2 = D::or2(w.2, c),
                        None => at.push((i, j, c)),
                    }
                }
            }
            if at.is_empty() {
                continue;
            }
            let v = x.val[p] * y.val[q];
            for (i, j, c) in at {
                if !D::known_false(c) {
                    out[i][j] = out[i][j] + D::vite(c, v, D::cv(0));
                }
            }
        }
    }
    out
}
/// Which positions are stored (explicit zeros included).
pub fn pat_comp<D: Dom>(major: usize, minor: usize, ptr: &[D::I], ind: &[D::I]) -> M<D::B> {
    let mut m = vec![vec![D::ff(); minor]; major];
    if ptr.len() != major + 1 {
        return m;
    }
    let (js, slots) = (upto::<D>(minor), Slots::new::<D>(ptr));
    for k in 0..ind.len() {
        let at = u::<D>(k);
        for i in slots.of(k, major) {
            let here = in_slot_at::<D>(ptr, i, at);
            if D::known_false(here) {
                continue;
            }
            for j in span::<D>(ind[k], minor) {
                let there = D::ieq(ind[k], js[j]);
                if D::known_false(there) {
                    continue;
                }
                m[i][j] = D::or2(m[i][j], D::and2(here, there));
            }
        }
    }
    m
}
pub fn den_csr<D: Dom>(a: &CSR<D::I, D::V>) -> M<D::V> {
    den_comp::<D>(a.rows(), a.cols(), a.rowptr(), a.colidx(), a.values())
}
/// Dense meaning of a CSC matrix, indexed [row][col].
pub fn den_csc<D: Dom>(a: &CSC<D::I, D::V>) -> M<D::V> {
    tr::<D>(&den_comp::<D>(a.cols(), a.rows(), a.colptr(), a.rowidx(), a.values()), a.rows())
}
pub fn den_of_coo<D: Dom>(a: &Coo<D::I, D::V>) -> M<D::V> {
    den_coo::<D>(a.rows(), a.cols(), a.rowidx(), a.colidx(), a.values())
}
pub fn tr<D: Dom>(m: &M<D::V>, rows: usize) -> M<D::V> {
    (0..rows).map(|i| m.iter().map(|c| c[i]).collect()).collect()
}
pub fn trb<D: Dom>(m: &M<D::B>, rows: usize) -> M<D::B> {
    (0..rows).map(|i| m.iter().map(|c| c[i]).collect()).collect()
}

pub fn same<D: Dom>(a: &M<D::V>, b: &M<D::V>, label: &'static str) {
    if a.len() != b.len() || a.iter().zip(b).any(|(x, y)| x.len() != y.len()) {
        D::claim(false, label);
        return;
    }
    D::prove(
        all::<D>(a.iter().zip(b).flat_map(|(x, y)| x.iter().zip(y).map(|(p, q)| D::veq(*p, *q)).collect::<Vec<_>>())),
        label,
    );
}
pub fn same_vec<D: Dom>(a: &[D::V], b: &[D::V], label: &'static str) {
    if a.len() != b.len() {
        D::claim(false, label);
        return;
    }
    D::prove(all::<D>(a.iter().zip(b).map(|(p, q)| D::veq(*p, *q)).collect::<Vec<_>>()), label);
}
pub fn same_idx<D: Dom>(a: &[D::I], b: &[D::I], label: &'static str) {
    if a.len() != b.len() {
        D::claim(false, label);
        return;
    }
    D::prove(all::<D>(a.iter().zip(b).map(|(p, q)| D::ieq(*p, *q)).collect::<Vec<_>>()), label);
}
pub fn same_pat<D: Dom>(a: &M<D::B>, b: &M<D::B>, label: &'static str) {
    D::prove(
        all::<D>(a.iter().zip(b).flat_map(|(x, y)| x.iter().zip(y).map(|(p, q)| D::iff(*p, *q)).collect::<Vec<_>>())),
        label,
    );
}

/// Structural validity of compressed arrays: pointers start at 0, never decrease,
/// end at nnz; the first nnz minor indices are in range; arrays hold nnz entries.
pub fn wf<D: Dom>(major: usize, minor: usize, ptr: &[D::I], ind: &[D::I], vlen: usize, label: &'static str) {
    D::prove(wf_b::<D>(major, minor, ptr, ind, vlen), label)
}
pub fn wf_b<D: Dom>(major: usize, minor: usize, ptr: &[D::I], ind: &[D::I], vlen: usize) -> D::B {
    if ptr.len() != major + 1 {
        return D::ff();
    }
    let nnz = ptr[major];
    let mut r = D::ieq(ptr[0], D::ci(0));
    for i in 0..major {
        r = D::and2(r, D::ile(ptr[i], ptr[i + 1]));
    }
    r = D::and2(r, D::ile(nnz, u::<D>(ind.len().min(vlen))));
    for k in 0..ind.len() {
        let ok = D::and2(D::ile(D::ci(0), ind[k]), D::ilt(ind[k], u::<D>(minor)));
        r = D::and2(r, D::or2(D::ile(nnz, u::<D>(k)), ok));
    }
    r
}
/// Strictly increasing minor indices within each major slot.
pub fn canon_b<D: Dom>(major: usize, ptr: &[D::I], ind: &[D::I]) -> D::B {
    order_b::<D>(major, ptr, ind, true)
}
pub fn sorted_b<D: Dom>(major: usize, ptr: &[D::I], ind: &[D::I]) -> D::B {
    order_b::<D>(major, ptr, ind, false)
}
fn order_b<D: Dom>(major: usize, ptr: &[D::I], ind: &[D::I], strict: bool) -> D::B {
    let mut r = D::tt(true);
    let slots = Slots::new::<D>(ptr);
    for k in 1..ind.len() {
        for i in slots.of(k, major) {
            let both = D::and2(D::ile(ptr[i], u::<D>(k - 1)), D::ilt(u::<D>(k), ptr[i + 1]));
            let ord = if strict { D::ilt(ind[k - 1], ind[k]) } else { D::ile(ind[k - 1], ind[k]) };
            r = D::and2(r, D::or2(D::not(both), ord));
        }
    }
    r
}
pub fn nodup_b<D: Dom>(major: usize, ptr: &[D::I], ind: &[D::I]) -> D::B {
    let mut r = D::tt(true);
    let (us, slots) = (upto::<D>(ind.len()), Slots::new::<D>(ptr));
    for b in 1..ind.len() {
        for i in slots.of(b, major) {
            for a in slots.start(i)..b {
                let both = D::and2(D::ile(ptr[i], us[a]), D::ilt(us[b], ptr[i + 1]));
                r = D::and2(r, D::or2(D::not(both), D::not(D::ieq(ind[a], ind[b]))));
            }
        }
    }
    r
}
/// No stored value among the first nnz is zero.
pub fn nozero_b<D: Dom>(nnz: D::I, v: &[D::V]) -> D::B {
    all::<D>((0..v.len()).map(|k| D::or2(D::ile(nnz, u::<D>(k)), D::not(D::isz(v[k])))))
}

pub fn wf_csr<D: Dom>(a: &CSR<D::I, D::V>, label: &'static str) {
    wf::<D>(a.rows(), a.cols(), a.rowptr(), a.colidx(), a.values().len(), label)
}
pub fn wf_csc<D: Dom>(a: &CSC<D::I, D::V>, label: &'static str) {
    wf::<D>(a.cols(), a.rows(), a.colptr(), a.rowidx(), a.values().len(), label)
}
/// No array is longer than the number of entries.
pub fn exact_csr<D: Dom>(a: &CSR<D::I, D::V>) {
    let n = a.nnz();
    D::claim(a.colidx().len() == n && a.values().len() == n, "result arrays hold exactly nnz entries");
}
pub fn exact_csc<D: Dom>(a: &CSC<D::I, D::V>) {
    let n = a.nnz();
    D::claim(a.rowidx().len() == n && a.values().len() == n, "result arrays hold exactly nnz entries");
}
pub fn wf_coo<D: Dom>(a: &Coo<D::I, D::V>, label: &'static str) {
    let n = a.values().len();
    if a.rowidx().len() != n || a.colidx().len() != n || a.nnz() != n {
        D::claim(false, label);
        return;
    }
    let (r, c) = (u::<D>(a.rows()), u::<D>(a.cols()));
    D::prove(
        all::<D>((0..n).map(|k| {
            D::and2(
                D::and2(D::ile(D::ci(0), a.rowidx()[k]), D::ilt(a.rowidx()[k], r)),
                D::and2(D::ile(D::ci(0), a.colidx()[k]), D::ilt(a.colidx()[k], c)),
            )
        })),
        label,
    )
}
pub fn canon_csr<D: Dom>(a: &CSR<D::I, D::V>, label: &'static str) {
    D::prove(canon_b::<D>(a.rows(), a.rowptr(), a.colidx()), label)
}
pub fn canon_csc<D: Dom>(a: &CSC<D::I, D::V>, label: &'static str) {
    D::prove(canon_b::<D>(a.cols(), a.colptr(), a.rowidx()), label)
}
/// The arrays of `a` are exactly the arrays it was built from.
pub fn unchanged_csr<D: Dom>(a: &CSR<D::I, D::V>, c: &Comp<D>, label: &'static str) {
    same_idx::<D>(a.rowptr(), &c.ptr, label);
    same_idx::<D>(a.colidx(), &c.ind, label);
    same_vec::<D>(a.values(), &c.val, label);
}
pub fn unchanged_csc<D: Dom>(a: &CSC<D::I, D::V>, c: &Comp<D>, label: &'static str) {
    same_idx::<D>(a.colptr(), &c.ptr, label);
    same_idx::<D>(a.rowidx(), &c.ind, label);
    same_vec::<D>(a.values(), &c.val, label);
}
pub fn shape_csr<D: Dom>(a: &CSR<D::I, D::V>, r: usize, c: usize) {
    D::claim(a.rows() == r && a.cols() == c, "shape of the result")
}
pub fn shape_csc<D: Dom>(a: &CSC<D::I, D::V>, r: usize, c: usize) {
    D::claim(a.rows() == r && a.cols() == c, "shape of the result")
}

pub fn m_add<D: Dom>(a: &M<D::V>, b: &M<D::V>) -> M<D::V> {
    a.iter().zip(b).map(|(x, y)| x.iter().zip(y).map(|(p, q)| *p + *q).collect()).collect()
}
pub fn m_sub<D: Dom>(a: &M<D::V>, b: &M<D::V>) -> M<D::V> {
    a.iter().zip(b).map(|(x, y)| x.iter().zip(y).map(|(p, q)| *p - *q).collect()).collect()
}
pub fn m_map<D: Dom>(a: &M<D::V>, f: impl Fn(D::V) -> D::V) -> M<D::V> {
    a.iter().map(|x| x.iter().map(|p| f(*p)).collect()).collect()
}
// ------------------------------------------------------- a local complex type

/// Complex numbers over the domain's value type (the crate's `Complex` trait is
/// open; `num_complex::Complex<f64>` itself is covered by the Kani harnesses).
#[derive(Clone, Copy, PartialEq)]
pub struct Cx<V> {
    pub re: V,
    pub im: V,
}
impl<V: Default> Default for Cx<V> {
    fn default() -> Self {
        Cx { re: V::default(), im: V::default() }
    }
}
impl<V: fmt::Display> fmt::Display for Cx<V> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "({},{})", self.re, self.im)
    }
}
impl<V: Float> Add for Cx<V> {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        Cx { re: self.re + o.re, im: self.im + o.im }
    }
}
impl<V: Float> Sub for Cx<V> {
    type Output = Self;
    fn sub(self, o: Self) -> Self {
        Cx { re: self.re - o.re, im: self.im - o.im }
    }
}
impl<V: Float> Mul for Cx<V> {
    type Output = Self;
    fn mul(self, o: Self) -> Self {
        Cx { re: self.re * o.re - self.im * o.im, im: self.re * o.im + self.im * o.re }
    }
}
impl<V: Float> Div for Cx<V> {
    type Output = Self;
    fn div(self, _: Self) -> Self {
        unimplemented!("engine: complex division")
    }
}
impl<V: Float> AddAssign for Cx<V> {
    fn add_assign(&mut self, o: Self) {
        *self = *self + o
    }
}
impl<V: Float> SubAssign for Cx<V> {
    fn sub_assign(&mut self, o: Self) {
        *self = *self - o
    }
}
impl<V: Float> MulAssign for Cx<V> {
    fn mul_assign(&mut self, o: Self) {
        *self = *self * o
    }
}
impl<V: Float> Zero for Cx<V> {
    fn zero() -> Self {
        Cx { re: V::zero(), im: V::zero() }
    }
    fn is_zero(&self) -> bool {
        self.re == V::zero() && self.im == V::zero()
    }
}
impl<V: Float> One for Cx<V> {
    fn one() -> Self {
        Cx { re: V::one(), im: V::zero() }
    }
}
impl<V: Float + Default> Nonzero for Cx<V> {}
impl<V: Float + Default> Scalar for Cx<V> {}
impl<V: Float + Default + Neg<Output = V>> Complex<V> for Cx<V> {
    fn new(re: V, im: V) -> Self {
        Cx { re, im }
    }
    fn conj(&self) -> Self {
        Cx { re: self.re, im: -self.im }
    }
    fn real(&self) -> V {
        self.re
    }
    fn imag(&self) -> V {
        self.im
    }
}
