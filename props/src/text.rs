//! Text rendering. Structure is symbolic, the rendered values are fixed tags.
use crate::*;
use num_complex::{Complex32, Complex64};
use num_traits::ToPrimitive;
use sparsetools::dok::DoK;

/// The k-th fixed value and its text. Zero, negative and fractional values all occur early.
fn tag(k: usize) -> (f64, String) {
    const T: [(f64, &str); 6] = [(1.0, "1"), (0.0, "0"), (-2.5, "-2.5"), (300.0, "300"), (-0.25, "-0.25"), (6.125, "6.125")];
    match T.get(k) {
        Some((v, t)) => (*v, t.to_string()),
        None => (k as f64, k.to_string()),
    }
}

fn parse(line: &str) -> Option<(usize, usize, String)> {
    let l = line.strip_prefix('(')?;
    let (i, l) = l.split_once(", ")?;
    let (j, v) = l.split_once(") ")?;
    Some((i.parse().ok()?, j.parse().ok()?, v.to_string()))
}
/// [rows, cols, n, kind, which]: to_string lists each stored entry as "(row, col) value"
pub fn listing<D: Dom>(p: &[i64]) {
    let (rows, cols, n) = (p[0] as usize, p[1] as usize, p[2] as usize);
    let mut want: Vec<(usize, usize, String)> = vec![];
    let ordered = p[4] != 3;
    let s = match p[4] {
        0 | 1 => {
            let c = if p[4] == 0 { gen_comp::<D>(rows, cols, n, kind(p[3])) } else { gen_comp::<D>(cols, rows, n, kind(p[3])) };
            let v: Vec<f64> = (0..c.ind.len()).map(|k| tag(k).0).collect();
            for i in 0..c.major {
                for k in c.ptr[i].to_usize().unwrap()..c.ptr[i + 1].to_usize().unwrap() {
                    let j = c.ind[k].to_usize().unwrap();
                    let t = tag(k).1;
                    want.push(if p[4] == 0 { (i, j, t) } else { (j, i, t) });
                }
            }
            if p[4] == 0 {
                CSR::new(rows, cols, c.ptr.clone(), c.ind.clone(), v).unwrap().to_string()
            } else {
                CSC::new(rows, cols, c.ind.clone(), c.ptr.clone(), v).unwrap().to_string()
            }
        }
        2 => {
            let t = gen_coo::<D>(rows, cols, n);
            let v: Vec<f64> = (0..t.ri.len()).map(|k| tag(k).0).collect();
            for k in 0..t.ri.len() {
                want.push((t.ri[k].to_usize().unwrap(), t.ci[k].to_usize().unwrap(), tag(k).1));
            }
            Coo::new(rows, cols, t.ri.clone(), t.ci.clone(), v).unwrap().to_string()
        }
        _ => {
            let t = gen_coo::<D>(rows, cols, n);
            let mut a = DoK::<D::I, f64>::new(rows, cols);
            for k in 0..t.ri.len() {
                a.set(t.ri[k], t.ci[k], tag(k).0).unwrap();
                let (i, j) = (t.ri[k].to_usize().unwrap(), t.ci[k].to_usize().unwrap());
                want.retain(|x| (x.0, x.1) != (i, j));
                if tag(k).0 != 0.0 {
                    want.push((i, j, tag(k).1));
                }
            }
            a.to_string()
        }
    };
    let mut got: Vec<_> = s.lines().map(parse).collect();
    let mut want: Vec<_> = want.into_iter().map(Some).collect();
    if !ordered {
        got.sort();
        want.sort();
    }
    D::claim(got == want, "to_string lists every stored entry as (row, col) value");
}
/// [rows, cols, n, kind, which]: listings with arbitrary values of the domain's type; the
/// text of a value is whatever its `Display` gives.
pub fn listing_any<D: Dom>(p: &[i64]) {
    let (rows, cols, n) = (p[0] as usize, p[1] as usize, p[2] as usize);
    let mut want: Vec<(usize, usize, String)> = vec![];
    let s = match p[4] {
        0 | 1 => {
            let c = if p[4] == 0 { gen_comp::<D>(rows, cols, n, kind(p[3])) } else { gen_comp::<D>(cols, rows, n, kind(p[3])) };
            for i in 0..c.major {
                for k in c.ptr[i].to_usize().unwrap()..c.ptr[i + 1].to_usize().unwrap() {
                    let j = c.ind[k].to_usize().unwrap();
                    let t = c.val[k].to_string();
                    want.push(if p[4] == 0 { (i, j, t) } else { (j, i, t) });
                }
            }
            if p[4] == 0 {
                c.csr().to_string()
            } else {
                c.csc().to_string()
            }
        }
        2 => {
            let t = gen_coo::<D>(rows, cols, n);
            for k in 0..t.ri.len() {
                want.push((t.ri[k].to_usize().unwrap(), t.ci[k].to_usize().unwrap(), t.val[k].to_string()));
            }
            t.coo().to_string()
        }
        _ => {
            // the table of a matrix without duplicates
            let c = gen_comp::<D>(rows, cols, n, kind(p[3]));
            let mut cells = vec![vec!["-".to_string(); cols]; rows];
            for i in 0..rows {
                for k in c.ptr[i].to_usize().unwrap()..c.ptr[i + 1].to_usize().unwrap() {
                    cells[i][c.ind[k].to_usize().unwrap()] = c.val[k].to_string();
                }
            }
            let s = c.csr().to_table();
            let got: Vec<Vec<String>> = s.lines().map(|l| l.split_whitespace().map(|x| x.to_string()).collect()).collect();
            let ok = if cols == 0 { got.concat().is_empty() } else { got == cells };
            return D::claim(ok, "to_table shows every stored entry in its cell and - elsewhere");
        }
    };
    let got: Vec<_> = s.lines().map(parse).collect();
    let want: Vec<_> = want.into_iter().map(Some).collect();
    D::claim(got == want, "to_string lists every stored entry as (row, col) value");
}
/// The k-th fixed complex value (as real and imaginary tags) and its text.
fn ctag(k: usize) -> (f64, f64, String) {
    let (re, im) = (tag(k), tag((k + 1) % 6));
    let mag = im.1.trim_start_matches('-').to_string();
    (re.0, im.0, format!("{}{}j{}", re.1, if im.0 < 0.0 { "-" } else { "+" }, mag))
}
/// [rows, cols, n, kind, which(0 f64, 1 Complex64, 2 f32, 3 Complex32, 4 i64, 5 u8)]:
/// to_table lays the matrix out cell by cell
pub fn table<D: Dom>(p: &[i64]) {
    let (rows, cols, n) = (p[0] as usize, p[1] as usize, p[2] as usize);
    let c = gen_comp::<D>(rows, cols, n, kind(p[3]));
    let mut want = vec![vec!["-".to_string(); cols]; rows];
    for i in 0..rows {
        for k in c.ptr[i].to_usize().unwrap()..c.ptr[i + 1].to_usize().unwrap() {
            let j = c.ind[k].to_usize().unwrap();
            want[i][j] = match p[4] {
                0 | 2 => tag(k).1,
                1 | 3 => ctag(k).2,
                4 => (k as i64 - 1).to_string(),
                _ => (k as u8).to_string(),
            };
        }
    }
    fn text<D: Dom, T: Scalar>(c: &Comp<D>, f: impl Fn(usize) -> T) -> String {
        CSR::new(c.major, c.minor, c.ptr.clone(), c.ind.clone(), (0..c.ind.len()).map(f).collect()).unwrap().to_table()
    }
    let s = match p[4] {
        0 => text::<D, f64>(&c, |k| tag(k).0),
        1 => text::<D, Complex64>(&c, |k| Complex64::new(ctag(k).0, ctag(k).1)),
        2 => text::<D, f32>(&c, |k| tag(k).0 as f32),
        3 => text::<D, Complex32>(&c, |k| Complex32::new(ctag(k).0 as f32, ctag(k).1 as f32)),
        4 => text::<D, i64>(&c, |k| k as i64 - 1),
        _ => text::<D, u8>(&c, |k| k as u8),
    };
    let got: Vec<Vec<String>> = s.lines().map(|l| l.split_whitespace().map(|x| x.to_string()).collect()).collect();
    D::claim(got == want, "to_table shows every stored entry in its cell and - elsewhere");
}

/// [which (0 Complex64, 1 Complex32)]: one entry whose parts are any pair of representatives of
/// the classes of numbers: zeros, units, fractions, numbers rendered with an exponent, infinities.
pub fn table_class<D: Dom>(p: &[i64]) {
    const T: [f64; 16] = [
        0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 1e-30, -1e-30, 1e30, -1e30, f64::INFINITY, f64::NEG_INFINITY, 999999.5, -999999.5,
        -0.0009765625, 8388609.0,
    ];
    let (re, im) = (T[D::pick(T.len())], T[D::pick(T.len())]);
    fn one<T: Scalar>(z: T) -> String {
        CSR::<usize, T>::new(1, 1, vec![0, 1], vec![0], vec![z]).unwrap().to_table()
    }
    // the texts of the parts are those of the real numbers of that type
    let (s, re_t, im_t) = if p[0] == 0 {
        (one(Complex64::new(re, im)), one(re), one(im.abs()))
    } else {
        (one(Complex32::new(re as f32, im as f32)), one(re as f32), one((im as f32).abs()))
    };
    let with = |sign: &str| format!("{}{}j{}", re_t.trim(), sign, im_t.trim()) == s.trim();
    let ok = if im == 0.0 { with("+") || with("-") } else { with(if im < 0.0 { "-" } else { "+" }) };
    D::claim(ok, "a complex number's text is its real part, one sign, j and the magnitude of its imaginary part");
}
