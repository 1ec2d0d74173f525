//! Sums, differences, element-wise operations, products, scaling.
use crate::*;
use num_complex::Complex64;
use sparsetools::*;

fn post_csr<D: Dom>(r: &CSR<D::I, D::V>, rows: usize, cols: usize, want: &M<D::V>, label: &'static str) {
    shape_csr::<D>(r, rows, cols);
    wf_csr::<D>(r, "result is structurally valid");
    D::prove(nodup_b::<D>(rows, r.rowptr(), r.colidx()), "result has no duplicate positions");
    D::prove(nozero_b::<D>(r.rowptr()[rows], r.values()), "result stores no zero");
    exact_csr::<D>(r);
    same::<D>(&den_csr::<D>(r), want, label);
}
fn post_csc<D: Dom>(r: &CSC<D::I, D::V>, rows: usize, cols: usize, want: &M<D::V>, label: &'static str) {
    shape_csc::<D>(r, rows, cols);
    wf_csc::<D>(r, "result is structurally valid");
    D::prove(nodup_b::<D>(cols, r.colptr(), r.rowidx()), "result has no duplicate positions");
    D::prove(nozero_b::<D>(r.colptr()[cols], r.values()), "result stores no zero");
    exact_csc::<D>(r);
    same::<D>(&den_csc::<D>(r), want, label);
}

/// [rows, cols, na, nb, ka, kb, op(0 add,1 sub), own]
pub fn csr_addsub<D: Dom>(p: &[i64]) {
    let (rows, cols) = (p[0] as usize, p[1] as usize);
    let x = gen_comp::<D>(rows, cols, p[2] as usize, kind(p[4]));
    let y = gen_comp::<D>(rows, cols, p[3] as usize, kind(p[5]));
    let (a, b) = (x.csr(), y.csr());
    let own = if p[7] == 1 { D::pick(4) } else { 0 };
    let r = match (p[6], own) {
        (0, 0) => &a + &b,
        (0, 1) => a.clone() + &b,
        (0, 2) => &a + b.clone(),
        (0, _) => a.clone() + b.clone(),
        (_, 0) => &a - &b,
        (_, 1) => a.clone() - &b,
        (_, 2) => &a - b.clone(),
        (_, _) => a.clone() - b.clone(),
    };
    let want = if p[6] == 0 { m_add::<D>(&x.den(), &y.den()) } else { m_sub::<D>(&x.den(), &y.den()) };
    post_csr::<D>(&r, rows, cols, &want, "CSR +/- is the element-wise sum/difference");
    if matches!(kind(p[4]), Kind::Canonical | Kind::CanonicalSlack) && matches!(kind(p[5]), Kind::Canonical | Kind::CanonicalSlack) {
        canon_csr::<D>(&r, "canonical operands give a canonical result");
    }
    unchanged_csr::<D>(&a, &x, "left operand unchanged");
    unchanged_csr::<D>(&b, &y, "right operand unchanged");
}
/// [rows, cols, na, nb, ka, kb, op(0 +,1 -,2 add(),3 subtract()), own]
pub fn csc_addsub<D: Dom>(p: &[i64]) {
    let (rows, cols) = (p[0] as usize, p[1] as usize);
    let x = gen_comp::<D>(cols, rows, p[2] as usize, kind(p[4]));
    let y = gen_comp::<D>(cols, rows, p[3] as usize, kind(p[5]));
    let (a, b) = (x.csc(), y.csc());
    let own = if p[7] == 1 { D::pick(4) } else { 0 };
    let r = match (p[6], own) {
        (0, 0) => &a + &b,
        (0, 1) => x.csc() + &b,
        (0, 2) => &a + y.csc(),
        (0, _) => x.csc() + y.csc(),
        (1, 0) => &a - &b,
        (1, 1) => x.csc() - &b,
        (1, 2) => &a - y.csc(),
        (1, _) => x.csc() - y.csc(),
        (2, _) => CSC::add(&a, &b).unwrap(),
        (_, _) => a.subtract(&b).unwrap(),
    };
    let (dx, dy) = (tr::<D>(&x.den(), rows), tr::<D>(&y.den(), rows));
    let want = if p[6] % 2 == 0 { m_add::<D>(&dx, &dy) } else { m_sub::<D>(&dx, &dy) };
    post_csc::<D>(&r, rows, cols, &want, "CSC +/- is the element-wise sum/difference");
    if matches!(kind(p[4]), Kind::Canonical | Kind::CanonicalSlack) && matches!(kind(p[5]), Kind::Canonical | Kind::CanonicalSlack) {
        canon_csc::<D>(&r, "canonical operands give a canonical result");
    }
    unchanged_csc::<D>(&a, &x, "left operand unchanged");
    unchanged_csc::<D>(&b, &y, "right operand unchanged");
}
/// [rows, cols, na, nb, own]
pub fn coo_add<D: Dom>(p: &[i64]) {
    let (rows, cols) = (p[0] as usize, p[1] as usize);
    let x = gen_coo::<D>(rows, cols, p[2] as usize);
    let y = gen_coo::<D>(rows, cols, p[3] as usize);
    let (a, b) = (x.coo(), y.coo());
    let own = if p[4] == 1 { D::pick(4) } else { 0 };
    let r = match own {
        0 => &a + &b,
        1 => a.clone() + &b,
        2 => &a + b.clone(),
        _ => a.clone() + b.clone(),
    };
    shape_csr::<D>(&r, rows, cols);
    wf_csr::<D>(&r, "result is structurally valid");
    canon_csr::<D>(&r, "COO + COO is canonical");
    exact_csr::<D>(&r);
    same::<D>(&den_csr::<D>(&r), &m_add::<D>(&x.den(), &y.den()), "COO + COO is the element-wise sum");
}
/// [maxdim]: operands of different shapes are refused, never combined
pub fn shape_mismatch<D: Dom>(p: &[i64]) {
    let m = p[0] as usize;
    let (r1, c1, r2, c2) = (D::size(0, m), D::size(0, m), D::size(0, m), D::size(0, m));
    let n = p[1] as usize;
    let same = r1 == r2 && c1 == c2;
    let x = gen_comp::<D>(r1, c1, n, Kind::General);
    let y = gen_comp::<D>(r2, c2, n, Kind::General);
    let (xc, yc) = (gen_comp::<D>(c1, r1, n, Kind::General), gen_comp::<D>(c2, r2, n, Kind::General));
    match p[2] {
        0 => {
            let r = D::panics(|| &x.csr() + &y.csr());
            D::claim(r.is_some() == same, "CSR + CSR accepts exactly equal shapes");
        }
        1 => {
            let r = D::panics(|| &x.csr() - &y.csr());
            D::claim(r.is_some() == same, "CSR - CSR accepts exactly equal shapes");
        }
        2 => {
            let r = D::panics(|| &xc.csc() + &yc.csc());
            D::claim(r.is_some() == same, "CSC + CSC accepts exactly equal shapes");
        }
        3 => {
            let r = D::panics(|| &xc.csc() - &yc.csc());
            D::claim(r.is_some() == same, "CSC - CSC accepts exactly equal shapes");
        }
        4 => {
            D::claim(CSC::add(&xc.csc(), &yc.csc()).is_ok() == same, "CSC::add accepts exactly equal shapes");
            D::claim(xc.csc().subtract(&yc.csc()).is_ok() == same, "CSC::subtract accepts exactly equal shapes");
        }
        5 => {
            let (a, b) = (gen_coo::<D>(r1, c1, n), gen_coo::<D>(r2, c2, n));
            let r = D::panics(|| &a.coo() + &b.coo());
            D::claim(r.is_some() == same, "COO + COO accepts exactly equal shapes");
        }
        6 => {
            D::claim(x.csr().mat_mat(&y.csr()).is_ok() == (c1 == r2), "CSR::mat_mat accepts exactly matching inner dimensions");
            let r = D::panics(|| &x.csr() * &y.csr());
            D::claim(r.is_some() == (c1 == r2), "CSR * CSR accepts exactly matching inner dimensions");
        }
        7 => {
            D::claim(xc.csc().mat_mat(&yc.csc()).is_ok() == (c1 == r2), "CSC::mat_mat accepts exactly matching inner dimensions");
            let r = D::panics(|| &xc.csc() * &yc.csc());
            D::claim(r.is_some() == (c1 == r2), "CSC * CSC accepts exactly matching inner dimensions");
            let r = D::panics(|| &xc.csc() * &y.csr());
            D::claim(r.is_some() == (c1 == r2), "CSC * CSR accepts exactly matching inner dimensions");
        }
        _ => {
            let v = vals::<D>(r2);
            D::claim(x.csr().mat_vec(&v).is_ok() == (c1 == r2), "CSR::mat_vec accepts exactly vectors of length cols");
            D::claim(xc.csc().mat_vec(&v).is_ok() == (c1 == r2), "CSC::mat_vec accepts exactly vectors of length cols");
            D::claim(D::panics(|| &x.csr() * &v).is_some() == (c1 == r2), "CSR * vector accepts exactly length cols");
            D::claim(D::panics(|| &xc.csc() * &v).is_some() == (c1 == r2), "CSC * vector accepts exactly length cols");
        }
    }
}

// ------------------------------------------------------ element-wise kernels

type K<D, T2> = fn(
    usize,
    usize,
    &[<D as Dom>::I],
    &[<D as Dom>::I],
    &[<D as Dom>::V],
    &[<D as Dom>::I],
    &[<D as Dom>::I],
    &[<D as Dom>::V],
    &mut [<D as Dom>::I],
    &mut [<D as Dom>::I],
    &mut [T2],
);
fn odd<T: Scalar>(a: T, b: T) -> T {
    a + a + b * b
}
fn nonneg<T: Scalar>(a: T, b: T) -> T {
    a * b + T::one()
}
/// [rows, cols, na, nb, ka, kb, op, path(0 dispatch,1 general,2 canonical)]
pub fn binop<D: Dom>(p: &[i64]) {
    let (rows, cols) = (p[0] as usize, p[1] as usize);
    let x = gen_comp::<D>(rows, cols, p[2] as usize, kind(p[4]));
    let y = gen_comp::<D>(rows, cols, p[3] as usize, kind(p[5]));
    let n = x.ind.len() + y.ind.len();
    let mut cp = vec![D::idx(0, n as i64); rows + 1];
    let mut cj = vec![D::ci(0); n];
    let op = p[6];
    if op < 6 {
        let mut cx = vec![false; n];
        let k: K<D, bool> = match op {
            0 => csr_ne_csr,
            1 => csr_eq_csr,
            2 => csr_lt_csr,
            3 => csr_le_csr,
            4 => csr_gt_csr,
            _ => csr_ge_csr,
        };
        k(rows, cols, &x.ptr, &x.ind, &x.val, &y.ptr, &y.ind, &y.val, &mut cp, &mut cj, &mut cx);
        wf::<D>(rows, cols, &cp, &cj, n, "comparison result is structurally valid");
        D::prove(nodup_b::<D>(rows, &cp, &cj), "comparison result has no duplicate positions");
        let stored_true = all::<D>((0..n).map(|q| D::or2(D::ile(cp[rows], D::ci(q as i64)), D::tt(cx[q]))));
        D::prove(stored_true, "comparison stores only true");
        let got = pat_comp::<D>(rows, cols, &cp, &cj);
        let (dx, dy, px, py) = (x.den(), y.den(), x.pat(), y.pat());
        let mut want = vec![vec![D::ff(); cols]; rows];
        for i in 0..rows {
            for j in 0..cols {
                let (a, b) = (dx[i][j], dy[i][j]);
                let t = match op {
                    0 => D::not(D::veq(a, b)),
                    1 => D::veq(a, b),
                    2 => D::vlt(a, b),
                    3 => D::not(D::vlt(b, a)),
                    4 => D::vlt(b, a),
                    _ => D::not(D::vlt(a, b)),
                };
                want[i][j] = D::and2(t, D::or2(px[i][j], py[i][j]));
            }
        }
        same_pat::<D>(&got, &want, "comparison holds exactly where it is true on a stored position");
        return;
    }
    let mut cx = vec![D::cv(0); n];
    let f: fn(D::V, D::V) -> D::V = match op {
        6 => |a, b| a * b,
        7 => |a, b| a / b,
        8 => |a, b| a + b,
        9 => |a, b| a - b,
        10 => |a, b| D::vite(D::vlt(b, a), a, b),
        11 => |a, b| D::vite(D::vlt(a, b), a, b),
        12 => odd,
        _ => nonneg,
    };
    match (op, p[7]) {
        (12 | 13, 0) => csr_binop_csr(rows, cols, &x.ptr, &x.ind, &x.val, &y.ptr, &y.ind, &y.val, &mut cp, &mut cj, &mut cx, f),
        (_, 1) => csr_binop_csr_general(rows, cols, &x.ptr, &x.ind, &x.val, &y.ptr, &y.ind, &y.val, &mut cp, &mut cj, &mut cx, f),
        (_, 2) => csr_binop_csr_canonical(rows, cols, &x.ptr, &x.ind, &x.val, &y.ptr, &y.ind, &y.val, &mut cp, &mut cj, &mut cx, f),
        _ => {
            let k: K<D, D::V> = match op {
                6 => csr_mul_csr,
                7 => csr_div_csr,
                8 => csr_add_csr,
                9 => csr_sub_csr,
                10 => csr_max_csr,
                _ => csr_min_csr,
            };
            k(rows, cols, &x.ptr, &x.ind, &x.val, &y.ptr, &y.ind, &y.val, &mut cp, &mut cj, &mut cx)
        }
    }
    wf::<D>(rows, cols, &cp, &cj, n, "element-wise result is structurally valid");
    D::prove(nodup_b::<D>(rows, &cp, &cj), "element-wise result has no duplicate positions");
    D::prove(nozero_b::<D>(cp[rows], &cx), "element-wise result stores no zero");
    let got = den_comp::<D>(rows, cols, &cp, &cj, &cx);
    let (dx, dy, px, py) = (x.den(), y.den(), x.pat(), y.pat());
    let mut want = vec![vec![D::cv(0); cols]; rows];
    for i in 0..rows {
        for j in 0..cols {
            want[i][j] = D::vite(D::or2(px[i][j], py[i][j]), f(dx[i][j], dy[i][j]), D::cv(0));
        }
    }
    same::<D>(&got, &want, "element-wise operation on every stored position");
    if matches!(kind(p[4]), Kind::Canonical) && matches!(kind(p[5]), Kind::Canonical) && p[7] != 1 {
        D::prove(canon_b::<D>(rows, &cp, &cj), "canonical operands give a canonical result");
    }
}

// ------------------------------------------------------------ mat-vec

/// A*x, entry by entry.
fn mv<D: Dom>(c: &Comp<D>, row_major: bool, rows: usize, x: &[D::V], y0: &[D::V]) -> Vec<D::V> {
    let mut r = y0.to_vec();
    let d = if row_major { den_comp_with::<D>(c, |k, _, j| c.val[k] * x[j]) } else { tr::<D>(&den_comp_with::<D>(c, |k, j, _| c.val[k] * x[j]), rows) };
    for i in 0..rows {
        for j in 0..d[i].len() {
            r[i] = r[i] + d[i][j];
        }
    }
    r
}
/// [rows, cols, n, kind, which, nvecs]
pub fn matvec<D: Dom>(p: &[i64]) {
    let (rows, cols, n) = (p[0] as usize, p[1] as usize, p[2] as usize);
    let v = p[5] as usize;
    match p[4] {
        0 => {
            let c = gen_comp::<D>(rows, cols, n, kind(p[3]));
            let x = vals::<D>(cols);
            let a = c.csr();
            let r = a.mat_vec(&x).unwrap();
            let want = mv::<D>(&c, true, rows, &x, &vec![D::cv(0); rows]);
            same_vec::<D>(&r, &want, "CSR::mat_vec is A*x");
            same_vec::<D>(&(&a * &x), &want, "CSR * Vec is A*x");
            same_vec::<D>(&(&a * x.as_slice()), &want, "CSR * slice is A*x");
            same_vec::<D>(&(a.clone() * &x), &want, "CSR (owned) * Vec is A*x");
            same_vec::<D>(&(a.clone() * x.as_slice()), &want, "CSR (owned) * slice is A*x");
            unchanged_csr::<D>(&a, &c, "matrix unchanged");
        }
        1 => {
            let c = gen_comp::<D>(cols, rows, n, kind(p[3]));
            let x = vals::<D>(cols);
            let a = c.csc();
            let r = a.mat_vec(&x).unwrap();
            let want = mv::<D>(&c, false, rows, &x, &vec![D::cv(0); rows]);
            same_vec::<D>(&r, &want, "CSC::mat_vec is A*x");
            same_vec::<D>(&(&a * &x), &want, "CSC * Vec is A*x");
            same_vec::<D>(&(&a * x.as_slice()), &want, "CSC * slice is A*x");
            same_vec::<D>(&(c.csc() * &x), &want, "CSC (owned) * Vec is A*x");
            unchanged_csc::<D>(&a, &c, "matrix unchanged");
        }
        2 => {
            let c = gen_comp::<D>(rows, cols, n, kind(p[3]));
            let (x, y0) = (vals::<D>(cols), vals::<D>(rows));
            let mut y = y0.clone();
            csr_matvec(rows, cols, &c.ptr, &c.ind, &c.val, &x, &mut y);
            let want = mv::<D>(&c, true, rows, &x, &y0);
            same_vec::<D>(&y, &want, "csr_matvec accumulates A*x");
        }
        3 => {
            let c = gen_comp::<D>(cols, rows, n, kind(p[3]));
            let (x, y0) = (vals::<D>(cols), vals::<D>(rows));
            let mut y = y0.clone();
            csc_matvec(rows, cols, &c.ptr, &c.ind, &c.val, &x, &mut y);
            let want = mv::<D>(&c, false, rows, &x, &y0);
            same_vec::<D>(&y, &want, "csc_matvec accumulates A*x");
        }
        4 => {
            let t = gen_coo::<D>(rows, cols, n);
            let (x, y0) = (vals::<D>(cols), vals::<D>(rows));
            let mut y = y0.clone();
            coo_matvec(t.val.len(), &t.ri, &t.ci, &t.val, &x, &mut y);
            let mut want = y0.clone();
            for k in 0..t.val.len() {
                for i in 0..rows {
                    for j in 0..cols {
                        let b = D::and2(D::ieq(t.ri[k], D::ci(i as i64)), D::ieq(t.ci[k], D::ci(j as i64)));
                        want[i] = want[i] + D::vite(b, t.val[k] * x[j], D::cv(0));
                    }
                }
            }
            same_vec::<D>(&y, &want, "coo_matvec accumulates A*x");
        }
        w => {
            // row-major blocks of v vectors
            let csr = w == 5;
            let c = if csr { gen_comp::<D>(rows, cols, n, kind(p[3])) } else { gen_comp::<D>(cols, rows, n, kind(p[3])) };
            let (x, y0) = (vals::<D>(cols * v), vals::<D>(rows * v));
            let mut y = y0.clone();
            if csr {
                csr_matvecs(rows, cols, v, &c.ptr, &c.ind, &c.val, &x, &mut y);
            } else {
                csc_matvecs(rows, cols, v, &c.ptr, &c.ind, &c.val, &x, &mut y);
            }
            let mut want = y0.clone();
            for q in 0..v {
                let xq: Vec<_> = (0..cols).map(|j| x[j * v + q]).collect();
                let yq: Vec<_> = (0..rows).map(|i| y0[i * v + q]).collect();
                for (i, w) in mv::<D>(&c, csr, rows, &xq, &yq).into_iter().enumerate() {
                    want[i * v + q] = w;
                }
            }
            same_vec::<D>(&y, &want, "matvecs accumulates A*X");
        }
    }
}

// ------------------------------------------------------------ mat-mat

/// [n, k, m, na, nb, ka, kb, which, own]
pub fn matmat<D: Dom>(p: &[i64]) {
    let (n, k, m) = (p[0] as usize, p[1] as usize, p[2] as usize);
    let (na, nb) = (p[3] as usize, p[4] as usize);
    let own = if p[8] == 1 { D::pick(4) } else { 0 };
    match p[7] {
        0 => {
            let (x, y) = (gen_comp::<D>(n, k, na, kind(p[5])), gen_comp::<D>(k, m, nb, kind(p[6])));
            let (a, b) = (x.csr(), y.csr());
            let r = a.mat_mat(&b).unwrap();
            let want = den_product::<D>(&x, true, &y, true, n, k, m);
            post_csr::<D>(&r, n, m, &want, "CSR::mat_mat is A*B");
            if p[8] == 1 {
                let q = match own {
                    0 => &a * &b,
                    1 => a.clone() * &b,
                    2 => &a * b.clone(),
                    _ => a.clone() * b.clone(),
                };
                post_csr::<D>(&q, n, m, &want, "CSR * CSR is A*B");
            }
            let bound = csr_matmat_maxnnz(n, m, &x.ptr, &x.ind, &y.ptr, &y.ind);
            D::claim(bound >= r.nnz(), "csr_matmat_maxnnz bounds the result");
            maxnnz_exact::<D>(bound, &x, &y, n, k, m);
            unchanged_csr::<D>(&a, &x, "left operand unchanged");
            unchanged_csr::<D>(&b, &y, "right operand unchanged");
        }
        1 => {
            let (x, y) = (gen_comp::<D>(k, n, na, kind(p[5])), gen_comp::<D>(m, k, nb, kind(p[6])));
            let (a, b) = (x.csc(), y.csc());
            let r = a.mat_mat(&b).unwrap();
            let want = den_product::<D>(&x, false, &y, false, n, k, m);
            post_csc::<D>(&r, n, m, &want, "CSC::mat_mat is A*B");
            if p[8] == 1 {
                let q = match own {
                    0 => &a * &b,
                    1 => x.csc() * &b,
                    2 => &a * y.csc(),
                    _ => x.csc() * y.csc(),
                };
                post_csc::<D>(&q, n, m, &want, "CSC * CSC is A*B");
            }
            let bound = csc_matmat_maxnnz(n, m, &x.ptr, &x.ind, &y.ptr, &y.ind);
            D::claim(bound >= r.nnz(), "csc_matmat_maxnnz bounds the result");
        }
        _ => {
            let (x, y) = (gen_comp::<D>(k, n, na, kind(p[5])), gen_comp::<D>(k, m, nb, kind(p[6])));
            let (a, b) = (x.csc(), y.csr());
            let q = match own {
                0 => &a * &b,
                1 => x.csc() * &b,
                2 => &a * b.clone(),
                _ => x.csc() * b.clone(),
            };
            let want = den_product::<D>(&x, false, &y, true, n, k, m);
            post_csc::<D>(&q, n, m, &want, "CSC * CSR is A*B");
        }
    }
}
/// The bound is the number of structurally reachable positions.
fn maxnnz_exact<D: Dom>(bound: usize, x: &Comp<D>, y: &Comp<D>, n: usize, k: usize, m: usize) {
    let (px, py) = (x.pat(), y.pat());
    let mut cnt = D::cv(0);
    for i in 0..n {
        for j in 0..m {
            let hit = any::<D>((0..k).map(|t| D::and2(px[i][t], py[t][j])));
            cnt = cnt + D::vite(hit, D::cv(1), D::cv(0));
        }
    }
    D::prove(D::veq(cnt, D::cv(bound as i64)), "csr_matmat_maxnnz counts the structurally non-zero positions");
}

// ------------------------------------------------------- scaling, negation

/// [rows, cols, n, kind, which]
pub fn scale<D: Dom>(p: &[i64]) {
    let (rows, cols, n) = (p[0] as usize, p[1] as usize, p[2] as usize);
    match p[4] {
        0 => {
            let c = gen_comp::<D>(rows, cols, n, kind(p[3]));
            let (a, s) = (c.csr(), D::val());
            for r in [&a * s, a.clone() * s] {
                let want = den_comp_with::<D>(&c, |k, _, _| c.val[k] * s);
                shape_csr::<D>(&r, rows, cols);
                wf_csr::<D>(&r, "scaled matrix is structurally valid");
                same::<D>(&den_csr::<D>(&r), &want, "CSR * scalar scales every entry");
            }
            let neg = m_map::<D>(&c.den(), |v| -v);
            for r in [-(a.clone())] {
                shape_csr::<D>(&r, rows, cols);
                wf_csr::<D>(&r, "negated matrix is structurally valid");
                same::<D>(&den_csr::<D>(&r), &neg, "-CSR negates every entry");
            }
            unchanged_csr::<D>(&a, &c, "operand unchanged");
        }
        1 => {
            let c = gen_comp::<D>(cols, rows, n, kind(p[3]));
            let (a, s) = (c.csc(), D::val());
            let d = tr::<D>(&c.den(), rows);
            for r in [&a * s, c.csc() * s] {
                let want = tr::<D>(&den_comp_with::<D>(&c, |k, _, _| c.val[k] * s), rows);
                shape_csc::<D>(&r, rows, cols);
                wf_csc::<D>(&r, "scaled matrix is structurally valid");
                same::<D>(&den_csc::<D>(&r), &want, "CSC * scalar scales every entry");
            }
            let neg = m_map::<D>(&d, |v| -v);
            for r in [-c.csc()] {
                shape_csc::<D>(&r, rows, cols);
                wf_csc::<D>(&r, "negated matrix is structurally valid");
                same::<D>(&den_csc::<D>(&r), &neg, "-CSC negates every entry");
            }
            unchanged_csc::<D>(&a, &c, "operand unchanged");
        }
        2 => {
            let t = gen_coo::<D>(rows, cols, n);
            let a = t.coo();
            let neg = m_map::<D>(&t.den(), |v| -v);
            for r in [-(a.clone())] {
                wf_coo::<D>(&r, "negated matrix is structurally valid");
                D::claim(r.rows() == rows && r.cols() == cols, "shape of the result");
                same::<D>(&den_of_coo::<D>(&r), &neg, "-COO negates every entry");
            }
        }
        3 => {
            let c = gen_comp::<D>(rows, cols, n, kind(p[3]));
            let x = vals::<D>(rows);
            let mut w = c.clone();
            csr_scale_rows(rows, cols, &c.ptr, &c.ind, &mut w.val, &x);
            let want = den_comp_with::<D>(&c, |k, i, _| c.val[k] * x[i]);
            same::<D>(&w.den(), &want, "csr_scale_rows multiplies row i by x[i]");
        }
        _ => {
            let c = gen_comp::<D>(rows, cols, n, kind(p[3]));
            let x = vals::<D>(cols);
            let mut w = c.clone();
            csr_scale_columns(rows, cols, &c.ptr, &c.ind, &mut w.val, &x);
            let want = den_comp_with::<D>(&c, |k, _, j| c.val[k] * x[j]);
            same::<D>(&w.den(), &want, "csr_scale_columns multiplies column j by x[j]");
        }
    }
}
/// [rows, cols, n, kind, which]: Complex64 * matrix; symbolic structure, fixed values
pub fn scale_c64<D: Dom>(p: &[i64]) {
    let (rows, cols, n) = (p[0] as usize, p[1] as usize, p[2] as usize);
    let s = Complex64::new(2.0, -3.0);
    let tag = |k: usize| Complex64::new(1.0 + k as f64, 5.0 - 2.0 * k as f64);
    if p[4] == 0 {
        let c = gen_comp::<D>(rows, cols, n, kind(p[3]));
        let v: Vec<Complex64> = (0..c.ind.len()).map(tag).collect();
        let a = CSR::new(rows, cols, c.ptr.clone(), c.ind.clone(), v.clone()).unwrap();
        for r in [s * &a, s * a.clone()] {
            D::claim(r.rows() == rows && r.cols() == cols, "shape of the result");
            same_idx::<D>(r.rowptr(), &c.ptr, "Complex64 * CSR keeps the structure");
            same_idx::<D>(r.colidx(), &c.ind, "Complex64 * CSR keeps the structure");
            D::claim(r.values().len() == v.len() && r.values().iter().zip(&v).all(|(x, y)| *x == s * y), "Complex64 * CSR scales every entry");
        }
    } else {
        let c = gen_comp::<D>(cols, rows, n, kind(p[3]));
        let v: Vec<Complex64> = (0..c.ind.len()).map(tag).collect();
        let mk = || CSC::new(rows, cols, c.ind.clone(), c.ptr.clone(), v.clone()).unwrap();
        let a = mk();
        for r in [s * &a, s * mk()] {
            D::claim(r.rows() == rows && r.cols() == cols, "shape of the result");
            same_idx::<D>(r.colptr(), &c.ptr, "Complex64 * CSC keeps the structure");
            same_idx::<D>(r.rowidx(), &c.ind, "Complex64 * CSC keeps the structure");
            D::claim(r.values().len() == v.len() && r.values().iter().zip(&v).all(|(x, y)| *x == s * y), "Complex64 * CSC scales every entry");
        }
    }
}
