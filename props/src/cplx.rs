//! Complex views and Hermitian transposes.
use crate::*;
use sparsetools::coo::CCoo;
use sparsetools::csc::CCSC;
use sparsetools::csr::CCSR;

type C<D> = Cx<<D as Dom>::V>;

fn re<D: Dom>(v: &[C<D>]) -> Vec<D::V> {
    v.iter().map(|x| x.re).collect()
}
fn im<D: Dom>(v: &[C<D>]) -> Vec<D::V> {
    v.iter().map(|x| x.im).collect()
}
fn zip<D: Dom>(c: &Comp<D>, im: &[D::V]) -> Vec<C<D>> {
    c.val.iter().zip(im).map(|(a, b)| Cx { re: *a, im: *b }).collect()
}
/// [rows, cols, n, kind, which]
pub fn views<D: Dom>(p: &[i64]) {
    let (rows, cols, n) = (p[0] as usize, p[1] as usize, p[2] as usize);
    match p[4] {
        0 => {
            let c = gen_comp::<D>(rows, cols, n, kind(p[3]));
            let iv = vals::<D>(c.ind.len());
            let ci = Comp::<D> { val: iv.clone(), ..c.clone() };
            let (dr, di) = (c.den(), ci.den());
            let a = CSR::<D::I, C<D>>::new(rows, cols, c.ptr.clone(), c.ind.clone(), zip::<D>(&c, &iv)).unwrap();
            let den = |x: &CSR<D::I, C<D>>| {
                (
                    den_comp::<D>(x.rows(), x.cols(), x.rowptr(), x.colidx(), &re::<D>(x.values())),
                    den_comp::<D>(x.rows(), x.cols(), x.rowptr(), x.colidx(), &im::<D>(x.values())),
                )
            };
            let k = CCSR::conj(&a);
            D::claim(k.rows() == rows && k.cols() == cols, "shape of the result");
            let (x, y) = den(&k);
            same::<D>(&x, &dr, "conj keeps the real part");
            same::<D>(&y, &m_map::<D>(&di, |v| -v), "conj negates the imaginary part");
            let (r, i) = (a.real(), a.imag());
            shape_csr::<D>(&r, rows, cols);
            shape_csr::<D>(&i, rows, cols);
            wf_csr::<D>(&r, "real is structurally valid");
            wf_csr::<D>(&i, "imag is structurally valid");
            same::<D>(&den_csr::<D>(&r), &dr, "real is the real part");
            same::<D>(&den_csr::<D>(&i), &di, "imag is the imaginary part");
            let h = a.h();
            D::claim(h.rows() == cols && h.cols() == rows, "shape of the result");
            wf::<D>(h.cols(), h.rows(), h.colptr(), h.rowidx(), h.values().len(), "h is structurally valid");
            // column i of h holds row i of a
            same::<D>(&den_comp::<D>(rows, cols, h.colptr(), h.rowidx(), &re::<D>(h.values())), &dr, "h is the conjugate transpose (real part)");
            same::<D>(
                &den_comp::<D>(rows, cols, h.colptr(), h.rowidx(), &im::<D>(h.values())),
                &m_map::<D>(&di, |v| -v),
                "h is the conjugate transpose (imaginary part)",
            );
            let wr: CSR<D::I, C<D>> = CCSR::with_real(&c.csr());
            let (x, y) = den(&wr);
            D::claim(wr.rows() == rows && wr.cols() == cols, "shape of the result");
            same::<D>(&x, &dr, "with_real sets the real part");
            same::<D>(&y, &m_map::<D>(&dr, |_| D::cv(0)), "with_real has no imaginary part");
            let wi: CSR<D::I, C<D>> = CCSR::with_imag(&ci.csr());
            let (x, y) = den(&wi);
            D::claim(wi.rows() == rows && wi.cols() == cols, "shape of the result");
            same::<D>(&x, &m_map::<D>(&dr, |_| D::cv(0)), "with_imag has no real part");
            same::<D>(&y, &di, "with_imag sets the imaginary part");
        }
        1 => {
            let c = gen_comp::<D>(cols, rows, n, kind(p[3]));
            let iv = vals::<D>(c.ind.len());
            let ci = Comp::<D> { val: iv.clone(), ..c.clone() };
            let (dr, di) = (c.den(), ci.den());
            let a = CSC::<D::I, C<D>>::new(rows, cols, c.ind.clone(), c.ptr.clone(), zip::<D>(&c, &iv)).unwrap();
            let neg = m_map::<D>(&di, |v| -v);
            let k = CCSC::conj(&a);
            D::claim(k.rows() == rows && k.cols() == cols, "shape of the result");
            same::<D>(&den_comp::<D>(cols, rows, k.colptr(), k.rowidx(), &re::<D>(k.values())), &dr, "conj keeps the real part");
            same::<D>(&den_comp::<D>(cols, rows, k.colptr(), k.rowidx(), &im::<D>(k.values())), &neg, "conj negates the imaginary part");
            let (r, i) = (a.real(), a.imag());
            shape_csc::<D>(&r, rows, cols);
            shape_csc::<D>(&i, rows, cols);
            wf_csc::<D>(&r, "real is structurally valid");
            same::<D>(&den_csc::<D>(&r), &tr::<D>(&dr, rows), "real is the real part");
            same::<D>(&den_csc::<D>(&i), &tr::<D>(&di, rows), "imag is the imaginary part");
            let h = a.h();
            D::claim(h.rows() == cols && h.cols() == rows, "shape of the result");
            wf::<D>(h.rows(), h.cols(), h.rowptr(), h.colidx(), h.values().len(), "h is structurally valid");
            same::<D>(&den_comp::<D>(cols, rows, h.rowptr(), h.colidx(), &re::<D>(h.values())), &dr, "h is the conjugate transpose (real part)");
            same::<D>(&den_comp::<D>(cols, rows, h.rowptr(), h.colidx(), &im::<D>(h.values())), &neg, "h is the conjugate transpose (imaginary part)");
        }
        _ => {
            let t = gen_coo::<D>(rows, cols, n);
            let iv = vals::<D>(t.val.len());
            let v: Vec<C<D>> = t.val.iter().zip(&iv).map(|(a, b)| Cx { re: *a, im: *b }).collect();
            let a = Coo::<D::I, C<D>>::new(rows, cols, t.ri.clone(), t.ci.clone(), v).unwrap();
            let dr = t.den();
            let di = den_coo::<D>(rows, cols, &t.ri, &t.ci, &iv);
            let neg = m_map::<D>(&di, |v| -v);
            let k = CCoo::conj(&a);
            D::claim(k.rows() == rows && k.cols() == cols, "shape of the result");
            same::<D>(&den_coo::<D>(rows, cols, k.rowidx(), k.colidx(), &re::<D>(k.values())), &dr, "conj keeps the real part");
            same::<D>(&den_coo::<D>(rows, cols, k.rowidx(), k.colidx(), &im::<D>(k.values())), &neg, "conj negates the imaginary part");
            let (r, i) = (a.real(), a.imag());
            wf_coo::<D>(&r, "real is structurally valid");
            D::claim(r.rows() == rows && r.cols() == cols && i.rows() == rows && i.cols() == cols, "shape of the result");
            same::<D>(&den_of_coo::<D>(&r), &dr, "real is the real part");
            same::<D>(&den_of_coo::<D>(&i), &di, "imag is the imaginary part");
            let h = a.h();
            D::claim(h.rows() == cols && h.cols() == rows, "shape of the result");
            same::<D>(&den_coo::<D>(cols, rows, h.rowidx(), h.colidx(), &re::<D>(h.values())), &tr::<D>(&dr, cols), "h is the conjugate transpose (real part)");
            same::<D>(&den_coo::<D>(cols, rows, h.rowidx(), h.colidx(), &im::<D>(h.values())), &tr::<D>(&neg, cols), "h is the conjugate transpose (imaginary part)");
        }
    }
}
