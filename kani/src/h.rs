// The harnesses: compiled by Kani, and by `symx` (kreplay) for native replay.
use crate::input::{any, assume};
use num_complex::Complex as C;
use sparsetools::coo::{CCoo, Coo};
use sparsetools::csc::{CCSC, CSC};
use sparsetools::csr::{CCSR, CSR};
use sparsetools::{Complex, Nonzero, Scalar};

fn f64_() -> f64 {
    f64::from_bits(any())
}
fn f32_() -> f32 {
    f32::from_bits(any() as u32)
}
/// Equal numbers, or both not a number.
fn same(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}
fn same32(a: f32, b: f32) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}

/// Every concrete type: nonzero() <=> the value differs from zero.
pub fn c07_nonzero() {
    let u = any();
    macro_rules! ints { ($($t:ident)*) => { $( {
        let x = u as $t;
        assert!(x.nonzero() == (x != 0), "nonzero of an integer");
    } )* } }
    ints! { usize u8 u16 u32 u64 isize i8 i16 i32 i64 }
    let w = ((any() as u128) << 64) | u as u128;
    assert!(w.nonzero() == (w != 0), "nonzero of a u128");
    assert!((w as i128).nonzero() == (w as i128 != 0), "nonzero of an i128");
    assert!((u & 1 == 1).nonzero() == (u & 1 == 1), "nonzero of a bool");
    let (x, y) = (f64_(), f64_());
    assert!(x.nonzero() == !(x == 0.0), "nonzero of an f64");
    assert!(C::new(x, y).nonzero() == !(x == 0.0 && y == 0.0), "nonzero of a Complex<f64>");
    let (x, y) = (f32_(), f32_());
    assert!(x.nonzero() == !(x == 0.0), "nonzero of an f32");
    assert!(C::new(x, y).nonzero() == !(x == 0.0 && y == 0.0), "nonzero of a Complex<f32>");
}
/// Scaling keeps structure and multiplies each value, here by values for which the product is
/// exact for every operand.
pub fn c10_scale() {
    let (x, y) = (f64_(), f64_());
    let a = CSR::<usize, f64>::new(1, 2, vec![0, 2], vec![1, 0], vec![x, y]).unwrap();
    let b = &a * 1.0;
    assert!(same(b.values()[0], x * 1.0) && same(b.values()[1], y * 1.0), "scaling by one");
    let c = -a;
    assert!(same(c.values()[0], -x) && same(c.values()[1], -y), "negation");
    std::mem::forget((b, c));
}

macro_rules! complex {
    ($n:ident, $f:ident, $any:ident, $same:ident) => {
        pub fn $n() {
            let (re, im) = ($any(), $any());
            let z = <C<$f> as Complex<$f>>::new(re, im);
            assert!($same(z.re, re) && $same(z.im, im), "new");
            assert!($same(Complex::real(&z), re), "real");
            assert!($same(Complex::imag(&z), im), "imag");
            let w = <C<$f> as Complex<$f>>::conj(&z);
            assert!($same(w.re, re) && $same(w.im, -im), "conj");
        }
    };
}
complex! { c23_complex64, f64, f64_, same }
complex! { c23_complex32, f32, f32_, same32 }

fn c64(v: &[f64; 4]) -> Vec<C<f64>> {
    vec![C::new(v[0], v[1]), C::new(v[2], v[3])]
}
fn vals4() -> [f64; 4] {
    [f64_(), f64_(), f64_(), f64_()]
}
fn cis(x: &[C<f64>], re: [f64; 2], im: [f64; 2]) -> bool {
    x.len() == 2 && same(x[0].re, re[0]) && same(x[0].im, im[0]) && same(x[1].re, re[1]) && same(x[1].im, im[1])
}
fn ris(x: &[f64], v: [f64; 2]) -> bool {
    x.len() == 2 && same(x[0], v[0]) && same(x[1], v[1])
}
/// One row, two entries.
pub fn c23_csr_views() {
    let v = vals4();
    let a = CSR::<usize, C<f64>>::new(1, 2, vec![0, 2], vec![0, 1], c64(&v)).unwrap();
    let (r, i, k, h) = (a.real(), a.imag(), CCSR::conj(&a), a.h());
    assert!(ris(r.values(), [v[0], v[2]]), "real of a CSR");
    assert!(ris(i.values(), [v[1], v[3]]), "imag of a CSR");
    assert!(cis(k.values(), [v[0], v[2]], [-v[1], -v[3]]), "conj of a CSR");
    assert!(cis(h.values(), [v[0], v[2]], [-v[1], -v[3]]), "h of a CSR");
    std::mem::forget((a, r, i, k, h));
}
pub fn c23_csc_views() {
    let v = vals4();
    let a = CSC::<usize, C<f64>>::new(2, 1, vec![0, 1], vec![0, 2], c64(&v)).unwrap();
    let (r, i, k, h) = (a.real(), a.imag(), CCSC::conj(&a), a.h());
    assert!(ris(r.values(), [v[0], v[2]]), "real of a CSC");
    assert!(ris(i.values(), [v[1], v[3]]), "imag of a CSC");
    assert!(cis(k.values(), [v[0], v[2]], [-v[1], -v[3]]), "conj of a CSC");
    assert!(cis(h.values(), [v[0], v[2]], [-v[1], -v[3]]), "h of a CSC");
    std::mem::forget((a, r, i, k, h));
}
pub fn c23_coo_views() {
    let v = vals4();
    let a = Coo::<usize, C<f64>>::new(1, 2, vec![0, 0], vec![0, 1], c64(&v)).unwrap();
    let (r, i, k, h) = (a.real(), a.imag(), CCoo::conj(&a), a.h());
    assert!(ris(r.values(), [v[0], v[2]]), "real of a Coo");
    assert!(ris(i.values(), [v[1], v[3]]), "imag of a Coo");
    assert!(cis(k.values(), [v[0], v[2]], [-v[1], -v[3]]), "conj of a Coo");
    assert!(cis(h.values(), [v[0], v[2]], [-v[1], -v[3]]), "h of a Coo");
    std::mem::forget((a, r, i, k, h));
}
pub fn c23_with() {
    let v = [f64_(), f64_()];
    let a = CSR::<usize, f64>::new(1, 2, vec![0, 2], vec![0, 1], v.to_vec()).unwrap();
    let re: CSR<usize, C<f64>> = CCSR::with_real(&a);
    let im: CSR<usize, C<f64>> = CCSR::with_imag(&a);
    assert!(cis(re.values(), v, [0.0; 2]), "with_real");
    assert!(cis(im.values(), [0.0; 2], v), "with_imag");
    std::mem::forget((a, re, im));
}

fn cfg() -> pretty_dtoa::FmtFloatConfig {
    pretty_dtoa::FmtFloatConfig::default().add_point_zero(false).max_significant_digits(6)
}
/// Every digit: distinct numbers have distinct texts.
fn full() -> pretty_dtoa::FmtFloatConfig {
    pretty_dtoa::FmtFloatConfig::default()
}
pub fn c22_pretty_f64() {
    let x = f64_();
    assume(!x.is_nan());
    assert!(x.pretty_string(Some(full())) == pretty_dtoa::dtoa(x, full()), "text of an f64");
    assert!(x.pretty_string(None) == pretty_dtoa::dtoa(x, cfg()), "text of an f64 by default");
}
pub fn c22_pretty_f32() {
    let x = f32_();
    assume(!x.is_nan());
    assert!(x.pretty_string(Some(full())) == pretty_dtoa::dtoa(x as f64, full()), "text of an f32");
    assert!(x.pretty_string(None) == pretty_dtoa::dtoa(x as f64, cfg()), "text of an f32 by default");
}
