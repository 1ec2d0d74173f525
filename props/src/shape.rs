//! Transposition, diagonals, stacking, construction, small kernels.
use crate::*;
use sparsetools::*;

/// [rows, cols, n, kind, which]
pub fn transpose<D: Dom>(p: &[i64]) {
    let (rows, cols, n) = (p[0] as usize, p[1] as usize, p[2] as usize);
    match p[4] {
        0 => {
            let c = gen_comp::<D>(rows, cols, n, kind(p[3]));
            let a = c.csr();
            let d = c.den();
            let want = tr::<D>(&d, cols);
            for t in [a.t(), a.clone().transpose()] {
                shape_csc::<D>(&t, cols, rows);
                wf_csc::<D>(&t, "transpose is structurally valid");
                D::claim(t.nnz() == a.nnz(), "transpose keeps every stored entry");
                same::<D>(&den_csc::<D>(&t), &want, "CSR transpose");
                let b = t.t();
                shape_csr::<D>(&b, rows, cols);
                same::<D>(&den_csr::<D>(&b), &d, "transposing twice is the identity");
            }
            unchanged_csr::<D>(&a, &c, "t() leaves the matrix alone");
        }
        1 => {
            let c = gen_comp::<D>(cols, rows, n, kind(p[3]));
            let a = c.csc();
            let d = tr::<D>(&c.den(), rows);
            let want = tr::<D>(&d, cols);
            for t in [a.t(), a.transpose()] {
                shape_csr::<D>(&t, cols, rows);
                wf_csr::<D>(&t, "transpose is structurally valid");
                D::claim(t.nnz() == a.nnz(), "transpose keeps every stored entry");
                same::<D>(&den_csr::<D>(&t), &want, "CSC transpose");
                let b = t.transpose();
                shape_csc::<D>(&b, rows, cols);
                same::<D>(&den_csc::<D>(&b), &d, "transposing twice is the identity");
            }
            unchanged_csc::<D>(&a, &c, "t() leaves the matrix alone");
        }
        _ => {
            let t = gen_coo::<D>(rows, cols, n);
            let a = t.coo();
            let want = tr::<D>(&t.den(), cols);
            for r in [a.t(), a.clone().transpose()] {
                D::claim(r.rows() == cols && r.cols() == rows && r.nnz() == t.val.len(), "shape of the result");
                wf_coo::<D>(&r, "transpose is structurally valid");
                same::<D>(&den_of_coo::<D>(&r), &want, "COO transpose");
                same::<D>(&den_of_coo::<D>(&r.t()), &t.den(), "transposing twice is the identity");
            }
        }
    }
}

/// A diagonal number: every one near the matrix, and the extreme ones.
fn any_diagonal<D: Dom>(rows: usize, cols: usize) -> isize {
    match D::pick(rows + cols + 7) {
        0 => isize::MIN,
        1 => isize::MAX,
        k => k as isize - 4 - rows as isize,
    }
}
/// [rows, cols, n, kind, which]
pub fn diagonals<D: Dom>(p: &[i64]) {
    let (rows, cols, n) = (p[0] as usize, p[1] as usize, p[2] as usize);
    let k = rows.min(cols);
    let diag = |d: &M<D::V>| -> Vec<D::V> { (0..k).map(|i| d[i][i]).collect() };
    match p[4] {
        0 => {
            let c = gen_comp::<D>(rows, cols, n, kind(p[3]));
            same_vec::<D>(&c.csr().diagonal(), &diag(&c.den()), "CSR::diagonal");
        }
        1 => {
            let c = gen_comp::<D>(cols, rows, n, kind(p[3]));
            same_vec::<D>(&c.csc().diagonal(), &diag(&tr::<D>(&c.den(), rows)), "CSC::diagonal");
        }
        2 => {
            let t = gen_coo::<D>(rows, cols, n);
            same_vec::<D>(&t.coo().diagonal(), &diag(&t.den()), "COO::diagonal");
        }
        3 => {
            // any diagonal that crosses the matrix (and the empty ones just outside)
            let c = gen_comp::<D>(rows, cols, n, kind(p[3]));
            let off = any_diagonal::<D>(rows, cols);
            let d = c.den();
            let want: Vec<D::V> = (0..rows)
                .filter(|i| (*i as i128 + off as i128) >= 0 && (*i as i128 + off as i128) < cols as i128)
                .map(|i| d[i][(i as isize + off) as usize])
                .collect();
            let mut y: Vec<D::V> = vec![D::val(); want.len()];
            csr_diagonal(off, rows, cols, &c.ptr, &c.ind, &c.val, &mut y);
            same_vec::<D>(&y, &want, "csr_diagonal reads the k-th diagonal");
        }
        4 => {
            let c = gen_comp::<D>(cols, rows, n, kind(p[3]));
            let off = any_diagonal::<D>(rows, cols);
            let d = tr::<D>(&c.den(), rows);
            let want: Vec<D::V> = (0..rows)
                .filter(|i| (*i as i128 + off as i128) >= 0 && (*i as i128 + off as i128) < cols as i128)
                .map(|i| d[i][(i as isize + off) as usize])
                .collect();
            let mut y: Vec<D::V> = vec![D::val(); want.len()];
            csc_diagonal(off, rows, cols, &c.ptr, &c.ind, &c.val, &mut y);
            same_vec::<D>(&y, &want, "csc_diagonal reads the k-th diagonal");
        }
        5 => {
            // upper triangle, any offset of the index type
            let t = gen_coo::<D>(rows, cols, n);
            let hi = (cols as i64 + 1).min(D::imax() as i64);
            let lo = if D::imin() < 0 { -(rows as i64) - 1 } else { 0 };
            let off = match D::pick(3) {
                0 => D::idx(lo, hi),
                1 => D::ci(D::imax().min(i64::MAX as i128) as i64),
                _ => D::ci(0),
            };
            let u = t.coo().upper(off);
            D::claim(u.rows() == rows && u.cols() == cols, "shape of the result");
            wf_coo::<D>(&u, "upper is structurally valid");
            let d = t.den();
            let mut want = vec![vec![D::cv(0); cols]; rows];
            for i in 0..rows {
                for j in 0..cols {
                    // j - i >= off
                    let diff = j as i64 - i as i64;
                    let keep = if (diff as i128) < D::imin() { D::ff() } else { D::ile(off, D::ci(diff)) };
                    want[i][j] = D::vite(keep, d[i][j], D::cv(0));
                }
            }
            same::<D>(&den_of_coo::<D>(&u), &want, "upper(k) keeps exactly the entries with col - row >= k");
        }
        _ => {
            let v = vals::<D>(rows);
            let mut want = vec![vec![D::cv(0); rows]; rows];
            for i in 0..rows {
                want[i][i] = v[i];
            }
            let a = CSR::<D::I, D::V>::with_diagonal(v.clone());
            shape_csr::<D>(&a, rows, rows);
            wf_csr::<D>(&a, "with_diagonal is structurally valid");
            exact_csr::<D>(&a);
            canon_csr::<D>(&a, "with_diagonal is canonical");
            same::<D>(&den_csr::<D>(&a), &want, "CSR::with_diagonal");
            let b = CSC::<D::I, D::V>::with_diagonal(v.clone());
            shape_csc::<D>(&b, rows, rows);
            wf_csc::<D>(&b, "with_diagonal is structurally valid");
            exact_csc::<D>(&b);
            same::<D>(&den_csc::<D>(&b), &want, "CSC::with_diagonal");
            let c = Coo::<D::I, D::V>::with_diagonal(&v);
            D::claim(c.rows() == rows && c.cols() == rows, "shape of the result");
            wf_coo::<D>(&c, "with_diagonal is structurally valid");
            same::<D>(&den_of_coo::<D>(&c), &want, "COO::with_diagonal");
            same_vec::<D>(&a.diagonal(), &v, "diagonal of with_diagonal");
            same_vec::<D>(&b.diagonal(), &v, "diagonal of with_diagonal");
            same_vec::<D>(&c.diagonal(), &v, "diagonal of with_diagonal");
            let id = Coo::<D::I, D::V>::identity(rows);
            D::claim(id.rows() == rows && id.cols() == rows, "shape of the result");
            wf_coo::<D>(&id, "identity is structurally valid");
            let mut one = vec![vec![D::cv(0); rows]; rows];
            for i in 0..rows {
                one[i][i] = D::cv(1);
            }
            same::<D>(&den_of_coo::<D>(&id), &one, "COO::identity");
            let z = CSR::<D::I, D::V>::with_size(rows, cols);
            shape_csr::<D>(&z, rows, cols);
            wf_csr::<D>(&z, "with_size is structurally valid");
            D::claim(z.nnz() == 0, "with_size is empty");
            let z = Coo::<D::I, D::V>::with_size(rows, cols);
            D::claim(z.rows() == rows && z.cols() == cols && z.nnz() == 0, "with_size is empty");
        }
    }
}

fn hcat<D: Dom>(a: &M<D::V>, b: &M<D::V>) -> M<D::V> {
    a.iter().zip(b).map(|(x, y)| x.iter().chain(y.iter()).copied().collect()).collect()
}
fn vcat<D: Dom>(a: &M<D::V>, b: &M<D::V>) -> M<D::V> {
    a.iter().chain(b.iter()).cloned().collect()
}
fn coo_is<D: Dom>(r: &Coo<D::I, D::V>, want: &M<D::V>, rows: usize, cols: usize, nnz: usize, l: &'static str) {
    D::claim(r.rows() == rows && r.cols() == cols, "shape of the result");
    D::claim(r.nnz() == nnz, "stacking keeps every stored entry");
    wf_coo::<D>(r, "stacked matrix is structurally valid");
    same::<D>(&den_of_coo::<D>(r), want, l);
}
/// [maxdim, n, which]: stacking accepts exactly matching blocks and denotes the block matrix
pub fn stack<D: Dom>(p: &[i64]) {
    let (m, n) = (p[0] as usize, p[1] as usize);
    match p[2] {
        0 => {
            let (r1, c1, r2, c2) = (D::size(0, m), D::size(0, m), D::size(0, m), D::size(0, m));
            let (x, y) = (gen_coo::<D>(r1, c1, n), gen_coo::<D>(r2, c2, n));
            let (a, b) = (x.coo(), y.coo());
            let k = x.val.len() + y.val.len();
            match Coo::h_stack(&a, &b) {
                Ok(r) => {
                    D::claim(r1 == r2, "h_stack refuses different row counts");
                    if r1 == r2 {
                        coo_is::<D>(&r, &hcat::<D>(&x.den(), &y.den()), r1, c1 + c2, k, "h_stack is [A B]");
                    }
                }
                Err(_) => D::claim(r1 != r2, "h_stack accepts equal row counts"),
            }
            match Coo::v_stack(&a, &b) {
                Ok(r) => {
                    D::claim(c1 == c2, "v_stack refuses different column counts");
                    if c1 == c2 {
                        coo_is::<D>(&r, &vcat::<D>(&x.den(), &y.den()), r1 + r2, c1, k, "v_stack is [A;B]");
                    }
                }
                Err(_) => D::claim(c1 != c2, "v_stack accepts equal column counts"),
            }
        }
        1 => {
            let v = D::flag();
            let f = D::size(1, m);
            let (s1, s2, s3) = (D::size(0, m), D::size(0, m), D::size(0, m));
            // one block may disagree
            let bad = D::size(0, 3);
            let dims = |i: usize, s: usize| {
                let f = if bad == i { f + 1 } else { f };
                if v { (s, f) } else { (f, s) }
            };
            let (d1, d2, d3) = (dims(1, s1), dims(2, s2), dims(3, s3));
            let (x, y, z) = (gen_coo::<D>(d1.0, d1.1, n), gen_coo::<D>(d2.0, d2.1, n), gen_coo::<D>(d3.0, d3.1, n));
            let k = x.val.len() + y.val.len() + z.val.len();
            let r = if v { Coo::v_stack3(&x.coo(), &y.coo(), &z.coo()) } else { Coo::h_stack3(&x.coo(), &y.coo(), &z.coo()) };
            D::claim(r.is_ok() == (bad == 0), "three-way stacking accepts exactly matching blocks");
            if let (Ok(r), 0) = (r, bad) {
                if v {
                    coo_is::<D>(&r, &vcat::<D>(&vcat::<D>(&x.den(), &y.den()), &z.den()), s1 + s2 + s3, f, k, "v_stack3 is [A;B;C]");
                } else {
                    coo_is::<D>(&r, &hcat::<D>(&hcat::<D>(&x.den(), &y.den()), &z.den()), f, s1 + s2 + s3, k, "h_stack3 is [A B C]");
                }
            }
        }
        2 => {
            // compose: rows r0,r1; cols c0,c1; one dimension of one block may disagree
            let (r, c) = ([D::size(0, m), D::size(0, m)], [D::size(0, m), D::size(0, m)]);
            let bad = D::size(0, 8);
            let mut t = vec![];
            for i in 0..2 {
                for j in 0..2 {
                    let q = i * 2 + j;
                    t.push(gen_coo::<D>(r[i] + (bad == 1 + 2 * q) as usize, c[j] + (bad == 2 + 2 * q) as usize, n));
                }
            }
            let a: Vec<_> = t.iter().map(|x| x.coo()).collect();
            let k = t.iter().map(|x| x.val.len()).sum();
            let res = Coo::compose([[&a[0], &a[1]], [&a[2], &a[3]]]);
            compose_ok::<D>(res.is_ok(), &t);
            if let (Ok(x), 0) = (res, bad) {
                let w = vcat::<D>(&hcat::<D>(&t[0].den(), &t[1].den()), &hcat::<D>(&t[2].den(), &t[3].den()));
                coo_is::<D>(&x, &w, r[0] + r[1], c[0] + c[1], k, "compose assembles the 2x2 blocks");
            }
        }
        3 => {
            let (r, c) = ([D::size(1, m), D::size(0, m), 1], [1, D::size(0, m), D::size(1, m)]);
            let mut t = vec![];
            for i in 0..3 {
                for j in 0..3 {
                    t.push(gen_coo::<D>(r[i], c[j], n));
                }
            }
            let a: Vec<_> = t.iter().map(|x| x.coo()).collect();
            let k = t.iter().map(|x| x.val.len()).sum();
            let res = Coo::compose3([[&a[0], &a[1], &a[2]], [&a[3], &a[4], &a[5]], [&a[6], &a[7], &a[8]]]);
            D::claim(res.is_ok(), "compose3 accepts matching blocks");
            if let Ok(x) = res {
                let row = |i: usize| hcat::<D>(&hcat::<D>(&t[3 * i].den(), &t[3 * i + 1].den()), &t[3 * i + 2].den());
                let w = vcat::<D>(&vcat::<D>(&row(0), &row(1)), &row(2));
                coo_is::<D>(&x, &w, r[0] + r[1] + r[2], c[0] + c[1] + c[2], k, "compose3 assembles the 3x3 blocks");
            }
        }
        4 => {
            // CSC::compose
            let (r, c) = ([D::size(1, m), D::size(0, m)], [D::size(1, m), D::size(0, m)]);
            let bad = D::size(0, 8);
            let mut t = vec![];
            for i in 0..2 {
                for j in 0..2 {
                    let q = i * 2 + j;
                    t.push(gen_comp::<D>(c[j] + (bad == 2 + 2 * q) as usize, r[i] + (bad == 1 + 2 * q) as usize, n, Kind::General));
                }
            }
            let a: Vec<_> = t.iter().map(|x| x.csc()).collect();
            let res = CSC::compose(&a[0], &a[1], &a[2], &a[3]);
            D::claim(res.is_ok() == (bad == 0), "CSC::compose accepts exactly matching blocks");
            if let (Ok(x), 0) = (res, bad) {
                let d: Vec<M<D::V>> = t.iter().map(|x| tr::<D>(&x.den(), x.minor)).collect();
                let w = vcat::<D>(&hcat::<D>(&d[0], &d[1]), &hcat::<D>(&d[2], &d[3]));
                shape_csc::<D>(&x, r[0] + r[1], c[0] + c[1]);
                wf_csc::<D>(&x, "composed matrix is structurally valid");
                exact_csc::<D>(&x);
                canon_csc::<D>(&x, "composed matrix is canonical");
                same::<D>(&den_csc::<D>(&x), &w, "CSC::compose assembles the 2x2 blocks");
            }
        }
        6 | 7 | 8 => {
            // compose, compose3, CSC::compose with up to two blocks of other sizes
            let b = if p[2] == 7 { 3 } else { 2 };
            let (bad1, bad2) = (D::size(0, 2 * b * b), D::size(0, 2 * b * b));
            let up = |q: usize| (bad1 == q) as usize + (bad2 == q) as usize;
            let base = D::size(0, 1);
            let mut t = vec![];
            for q in 0..b * b {
                t.push(gen_coo::<D>(base + up(1 + 2 * q), m + up(2 + 2 * q), n));
            }
            let a: Vec<_> = t.iter().map(|x| x.coo()).collect();
            let want = (0..b).all(|i| (1..b).all(|j| t[i * b + j].rows == t[i * b].rows))
                && (1..b).all(|i| (0..b).map(|j| t[i * b + j].cols).sum::<usize>() == (0..b).map(|j| t[j].cols).sum());
            let k = t.iter().map(|x| x.val.len()).sum();
            let w = || {
                let row = |i: usize| (1..b).fold(t[i * b].den(), |x, j| hcat::<D>(&x, &t[i * b + j].den()));
                (1..b).fold(row(0), |x, i| vcat::<D>(&x, &row(i)))
            };
            let (r, c) = ((0..b).map(|i| t[i * b].rows).sum(), (0..b).map(|j| t[j].cols).sum());
            if p[2] == 8 {
                let x: Vec<_> = a.iter().map(|x| x.to_csc()).collect();
                let res = CSC::compose(&x[0], &x[1], &x[2], &x[3]);
                D::claim(res.is_ok() == want, "CSC::compose accepts exactly blocks that fit");
                if let (Ok(x), true) = (res, want) {
                    shape_csc::<D>(&x, r, c);
                    same::<D>(&den_csc::<D>(&x), &w(), "CSC::compose assembles the blocks");
                }
                return;
            }
            let res = if b == 2 {
                Coo::compose([[&a[0], &a[1]], [&a[2], &a[3]]])
            } else {
                Coo::compose3([[&a[0], &a[1], &a[2]], [&a[3], &a[4], &a[5]], [&a[6], &a[7], &a[8]]])
            };
            D::claim(res.is_ok() == want, "composition accepts exactly blocks that fit");
            if let (Ok(x), true) = (res, want) {
                coo_is::<D>(&x, &w(), r, c, k, "composition assembles the blocks");
            }
        }
        9 => {
            // wide blocks of fixed shapes: across columns (m x 2 each), or across rows
            let tall = p[3] % 2 == 1;
            let d = |k: usize| if tall { (m, 2 + k % 2) } else { (2 + k % 2, m) };
            let t: Vec<Trip<D>> = (0..4).map(|k| gen_coo::<D>(d(0).0, d(0).1, n + k)).collect();
            let a: Vec<_> = t.iter().map(|x| x.coo()).collect();
            let (r, c) = d(0);
            let k: usize = t[..3].iter().map(|x| x.val.len()).sum();
            match p[3] / 2 {
                0 => {
                    let x = Coo::h_stack3(&a[0], &a[1], &a[2]).ok().unwrap();
                    let w = hcat::<D>(&hcat::<D>(&t[0].den(), &t[1].den()), &t[2].den());
                    coo_is::<D>(&x, &w, r, 3 * c, k, "h_stack3 is [A B C]");
                }
                1 => {
                    let x = Coo::v_stack3(&a[0], &a[1], &a[2]).ok().unwrap();
                    let w = vcat::<D>(&vcat::<D>(&t[0].den(), &t[1].den()), &t[2].den());
                    coo_is::<D>(&x, &w, 3 * r, c, k, "v_stack3 is [A;B;C]");
                }
                2 => {
                    let k = t[0].val.len() + t[1].val.len();
                    let x = Coo::h_stack(&a[0], &a[1]).ok().unwrap();
                    coo_is::<D>(&x, &hcat::<D>(&t[0].den(), &t[1].den()), r, 2 * c, k, "h_stack is [A B]");
                    let x = Coo::v_stack(&a[0], &a[1]).ok().unwrap();
                    coo_is::<D>(&x, &vcat::<D>(&t[0].den(), &t[1].den()), 2 * r, c, k, "v_stack is [A;B]");
                }
                3 => {
                    let x = Coo::compose([[&a[0], &a[1]], [&a[2], &a[3]]]).ok().unwrap();
                    let w = vcat::<D>(&hcat::<D>(&t[0].den(), &t[1].den()), &hcat::<D>(&t[2].den(), &t[3].den()));
                    coo_is::<D>(&x, &w, 2 * r, 2 * c, k + t[3].val.len(), "compose assembles the 2x2 blocks");
                }
                4 => {
                    let b: Vec<_> = a.iter().map(|x| x.to_csc()).collect();
                    let x = CSC::compose(&b[0], &b[1], &b[2], &b[3]).ok().unwrap();
                    let w = vcat::<D>(&hcat::<D>(&t[0].den(), &t[1].den()), &hcat::<D>(&t[2].den(), &t[3].den()));
                    shape_csc::<D>(&x, 2 * r, 2 * c);
                    wf_csc::<D>(&x, "composed matrix is structurally valid");
                    exact_csc::<D>(&x);
                    same::<D>(&den_csc::<D>(&x), &w, "CSC::compose assembles the 2x2 blocks");
                }
                _ => {
                    let b: Vec<_> = a.iter().map(|x| x.to_csr()).collect();
                    let x = CSR::h_stack(&b[0], &b[1]).ok().unwrap();
                    shape_csr::<D>(&x, r, 2 * c);
                    wf_csr::<D>(&x, "stacked matrix is structurally valid");
                    exact_csr::<D>(&x);
                    same::<D>(&den_csr::<D>(&x), &hcat::<D>(&t[0].den(), &t[1].den()), "CSR::h_stack is [A B]");
                }
            }
        }
        _ => {
            // CSR::h_stack
            let (r1, c1, r2, c2) = (D::size(0, m), D::size(0, m), D::size(0, m), D::size(0, m));
            let (x, y) = (gen_comp::<D>(r1, c1, n, kind(p[3])), gen_comp::<D>(r2, c2, n, kind(p[3])));
            match CSR::h_stack(&x.csr(), &y.csr()) {
                Ok(r) => {
                    D::claim(r1 == r2, "CSR::h_stack refuses different row counts");
                    if r1 == r2 {
                        shape_csr::<D>(&r, r1, c1 + c2);
                        wf_csr::<D>(&r, "stacked matrix is structurally valid");
                        exact_csr::<D>(&r);
                        canon_csr::<D>(&r, "stacked matrix is canonical");
                        same::<D>(&den_csr::<D>(&r), &hcat::<D>(&x.den(), &y.den()), "CSR::h_stack is [A B]");
                    }
                }
                Err(_) => D::claim(r1 != r2, "CSR::h_stack accepts equal row counts"),
            }
        }
    }
}
fn compose_ok<D: Dom>(ok: bool, t: &[Trip<D>]) {
    let want = t[0].rows == t[1].rows
        && t[2].rows == t[3].rows
        && t[0].cols + t[1].cols == t[2].cols + t[3].cols;
    D::claim(ok == want, "compose accepts exactly matching blocks");
}

/// [dim, len]: constructors accept exactly consistent arrays
pub fn construct<D: Dom>(p: &[i64]) {
    let (m, l) = (p[0] as usize, p[1] as usize);
    let (rows, cols) = (D::size(0, m), D::size(0, m));
    match p[2] {
        0 | 1 => {
            let np = D::size(1, m + 2);
            let (ni, nv) = (D::size(0, l), D::size(0, l));
            let ptr: Vec<D::I> = (0..np).map(|_| D::idx(0, l as i64 + 1)).collect();
            let ind: Vec<D::I> = (0..ni).map(|_| D::idx(0, 1)).collect();
            let v = vals::<D>(nv);
            let last = ptr[np - 1];
            let enough = D::and2(D::ile(last, D::ci(ni as i64)), D::ile(last, D::ci(nv as i64)));
            if p[2] == 0 {
                let r = CSR::new(rows, cols, ptr.clone(), ind.clone(), v.clone());
                let ok = D::and2(D::tt(np == rows + 1), enough);
                D::prove(D::iff(D::tt(r.is_ok()), ok), "CSR::new accepts exactly consistent arrays");
                if let Ok(a) = r {
                    shape_csr::<D>(&a, rows, cols);
                    D::prove(D::ieq(D::ci(a.nnz() as i64), last), "CSR::nnz is the last pointer");
                    same_idx::<D>(a.rowptr(), &ptr, "CSR::new keeps its arguments");
                    same_idx::<D>(a.colidx(), &ind, "CSR::new keeps its arguments");
                    same_vec::<D>(a.values(), &v, "CSR::new keeps its arguments");
                }
            } else {
                let r = CSC::new(rows, cols, ind.clone(), ptr.clone(), v.clone());
                let ok = D::and2(D::tt(np == cols + 1), enough);
                D::prove(D::iff(D::tt(r.is_ok()), ok), "CSC::new accepts exactly consistent arrays");
                if let Ok(a) = r {
                    shape_csc::<D>(&a, rows, cols);
                    D::claim(a.shape() == (rows, cols), "CSC::shape");
                    D::prove(D::ieq(D::ci(a.nnz() as i64), last), "CSC::nnz is the last pointer");
                    same_idx::<D>(a.colptr(), &ptr, "CSC::new keeps its arguments");
                    same_idx::<D>(a.rowidx(), &ind, "CSC::new keeps its arguments");
                    same_vec::<D>(a.values(), &v, "CSC::new keeps its arguments");
                }
            }
        }
        2 => {
            let (a, b, c) = (D::size(0, l), D::size(0, l), D::size(0, l));
            let ri: Vec<D::I> = (0..a).map(|_| D::idx(0, 3)).collect();
            let ci: Vec<D::I> = (0..b).map(|_| D::idx(0, 3)).collect();
            let v = vals::<D>(c);
            let r = Coo::new(rows, cols, ri.clone(), ci.clone(), v.clone());
            D::claim(r.is_ok() == (a == b && b == c), "COO::new accepts exactly equal-length arrays");
            if let Ok(x) = r {
                D::claim(x.rows() == rows && x.cols() == cols && x.nnz() == c, "COO::new keeps its shape");
                same_idx::<D>(x.rowidx(), &ri, "COO::new keeps its arguments");
                same_idx::<D>(x.colidx(), &ci, "COO::new keeps its arguments");
                same_vec::<D>(x.values(), &v, "COO::new keeps its arguments");
            }
        }
        _ => {
            // push / extend append triplets
            let (r, c) = (rows.max(1), cols.max(1));
            let t = gen_coo::<D>(r, c, l);
            let mut a = if D::flag() { Coo::<D::I, D::V>::with_size(r, c) } else { Coo::<D::I, D::V>::with_capacity(r, c, 1) };
            let cut = D::size(0, l);
            for k in 0..cut {
                a.push(t.ri[k], t.ci[k], t.val[k]);
            }
            a.extend(&t.ri[cut..], &t.ci[cut..], &t.val[cut..]);
            D::claim(a.rows() == r && a.cols() == c && a.nnz() == l, "push and extend append");
            same_idx::<D>(a.rowidx(), &t.ri, "push and extend append rows in order");
            same_idx::<D>(a.colidx(), &t.ci, "push and extend append columns in order");
            same_vec::<D>(a.values(), &t.val, "push and extend append values in order");
            if l > 0 {
                let k = D::size(0, l - 1);
                let w = D::val();
                a.values_mut()[k] = w;
                D::prove(D::veq(a.values()[k], w), "values_mut writes through");
                let mut d = t;
                d.val[k] = w;
                same::<D>(&den_of_coo::<D>(&a), &d.den(), "values_mut changes one entry");
            }
        }
    }
}

/// [rows, cols, n, kind, which]: structural kernels
pub fn aux<D: Dom>(p: &[i64]) {
    let (rows, cols, n) = (p[0] as usize, p[1] as usize, p[2] as usize);
    let c = gen_comp::<D>(rows, cols, n, kind(p[3]));
    let slots = Slots::new::<D>(&c.ptr);
    match p[4] {
        0 => {
            let got = csr_count_diagonals(rows, &c.ptr, &c.ind);
            let pat = c.pat();
            let mut cnt = D::cv(0);
            for off in -(rows as i64)..=(cols as i64) {
                let hit = any::<D>((0..rows).flat_map(|i| {
                    let j = i as i64 + off;
                    if j >= 0 && j < cols as i64 { Some(pat[i][j as usize]) } else { None }
                }));
                cnt = cnt + D::vite(hit, D::cv(1), D::cv(0));
            }
            D::prove(D::veq(cnt, D::cv(got as i64)), "csr_count_diagonals counts the occupied diagonals");
        }
        1 => {
            let len = c.ind.len();
            let mut bi = vec![D::idx(0, rows as i64); len];
            let before = bi.clone();
            expandptr(rows, &c.ptr, &mut bi);
            for k in 0..len {
                for i in slots.of(k, rows) {
                    D::prove(D::imp(in_slot::<D>(&c.ptr, i, k), D::ieq(bi[k], D::ci(i as i64))), "expandptr writes the row of every stored entry");
                }
                D::prove(D::imp(D::ile(c.ptr[rows], D::ci(k as i64)), D::ieq(bi[k], before[k])), "expandptr touches nothing beyond nnz");
            }
        }
        _ => {
            let nn = c.ind.len();
            // outputs may be longer than necessary
            let (mut ai, mut bj, mut bx) = (vec![D::ci(1); nn + 2], vec![D::ci(1); nn + 2], vec![D::cv(7); nn + 2]);
            csr_tocoo(rows, cols, &c.ptr, &c.ind, &c.val, &mut ai, &mut bj, &mut bx);
            for k in 0..nn + 2 {
                let spare = D::ile(c.ptr[rows], D::ci(k as i64));
                let kept = D::and2(D::ieq(ai[k], D::ci(1)), D::and2(D::ieq(bj[k], D::ci(1)), D::veq(bx[k], D::cv(7))));
                D::prove(D::imp(spare, kept), "csr_tocoo touches nothing beyond nnz");
            }
            // entry k of the output is entry k of the input, for k < nnz
            for k in 0..nn {
                let live = D::ilt(D::ci(k as i64), c.ptr[rows]);
                D::prove(D::imp(live, D::and2(D::ieq(bj[k], c.ind[k]), D::veq(bx[k], c.val[k]))), "csr_tocoo copies the stored entries in order");
                for i in slots.of(k, rows) {
                    D::prove(D::imp(in_slot::<D>(&c.ptr, i, k), D::ieq(ai[k], D::ci(i as i64))), "csr_tocoo writes the row of every stored entry");
                }
            }
        }
    }
}

/// Output arrays of a compressed kernel: exact and zero, or longer and holding anything.
struct Out<D: Dom> {
    p: Vec<D::I>,
    j: Vec<D::I>,
    x: Vec<D::V>,
}
fn out<D: Dom>(major: usize, n: usize, dirty: bool) -> Out<D> {
    if !dirty {
        return Out { p: vec![D::ci(0); major + 1], j: vec![D::ci(0); n], x: vec![D::cv(0); n] };
    }
    let big = n >= BIG;
    let mut idx = |k: usize| if big && k % 7 != 3 { D::ci((k % 2) as i64) } else { D::idx(0, n.min(3) as i64) };
    let p = (0..=major).map(&mut idx).collect();
    let j = (0..n + 2).map(&mut idx).collect();
    let x = (0..n + 2).map(|k| if big && k % 7 != 3 { D::cv(1) } else { D::val() }).collect();
    Out { p, j, x }
}
fn same_out<D: Dom>(a: &Out<D>, b: &Out<D>, l: &'static str) {
    D::claim(a.p.len() == b.p.len(), l);
    let m = a.p.len() - 1;
    let mut t: Vec<D::B> = (0..=m).map(|i| D::ieq(a.p[i], b.p[i])).collect();
    for k in 0..a.j.len() {
        let used = D::ilt(D::ci(k as i64), a.p[m]);
        if k < b.j.len() && k < b.x.len() {
            t.push(D::or2(D::not(used), D::and2(D::ieq(a.j[k], b.j[k]), D::veq(a.x[k], b.x[k]))));
        } else {
            t.push(D::not(used));
        }
    }
    D::prove(all::<D>(t), l);
}
/// [rows, cols, n, kind, which, n2]: what a kernel writes does not depend on what its output arrays
/// held, nor on their being longer than necessary.
pub fn buffers<D: Dom>(p: &[i64]) {
    let (rows, cols, n) = (p[0] as usize, p[1] as usize, p[2] as usize);
    let c = gen_comp::<D>(rows, cols, n, kind(p[3]));
    let live = c.ptr[rows];
    match p[4] {
        0 => {
            let run = |dirty| {
                let mut o = out::<D>(cols, c.ind.len(), dirty);
                csr_tocsc(rows, cols, &c.ptr, &c.ind, &c.val, &mut o.p, &mut o.j, &mut o.x);
                o
            };
            same_out::<D>(&run(false), &run(true), "csr_tocsc ignores what its output arrays held");
        }
        1 => {
            let run = |dirty| {
                let mut o = out::<D>(cols, c.ind.len(), dirty);
                csc_tocsr(cols, rows, &c.ptr, &c.ind, &c.val, &mut o.p, &mut o.j, &mut o.x);
                o
            };
            same_out::<D>(&run(false), &run(true), "csc_tocsr ignores what its output arrays held");
        }
        2 => {
            let t = gen_coo::<D>(rows, cols, n);
            let k = t.val.len();
            let run = |dirty| {
                let mut o = out::<D>(rows, k, dirty);
                coo_tocsr(rows, cols, k, &t.ri, &t.ci, &t.val, &mut o.p, &mut o.j, &mut o.x);
                o
            };
            same_out::<D>(&run(false), &run(true), "coo_tocsr ignores what its output arrays held");
        }
        3 => {
            let y = gen_comp::<D>(cols, rows, p[5] as usize, kind(p[3]));
            let k = csr_matmat_maxnnz(rows, rows, &c.ptr, &c.ind, &y.ptr, &y.ind);
            let run = |dirty| {
                let mut o = out::<D>(rows, k, dirty);
                csr_matmat(rows, rows, &c.ptr, &c.ind, &c.val, &y.ptr, &y.ind, &y.val, &mut o.p, &mut o.j, &mut o.x);
                o
            };
            same_out::<D>(&run(false), &run(true), "csr_matmat ignores what its output arrays held");
            // the same arrays read as columns: B^T * A^T
            let k = csc_matmat_maxnnz(cols, cols, &c.ptr, &c.ind, &y.ptr, &y.ind);
            let run = |dirty| {
                let mut o = out::<D>(cols, k, dirty);
                csc_matmat(cols, cols, &c.ptr, &c.ind, &c.val, &y.ptr, &y.ind, &y.val, &mut o.p, &mut o.j, &mut o.x);
                o
            };
            same_out::<D>(&run(false), &run(true), "csc_matmat ignores what its output arrays held");
        }
        4 | 5 => {
            let y = gen_comp::<D>(rows, cols, p[5] as usize, kind(p[3]));
            let k = c.ind.len() + y.ind.len();
            let run = |dirty| {
                let mut o = out::<D>(rows, k, dirty);
                if p[4] == 4 {
                    csr_add_csr(rows, cols, &c.ptr, &c.ind, &c.val, &y.ptr, &y.ind, &y.val, &mut o.p, &mut o.j, &mut o.x);
                } else {
                    csr_binop_csr_general(rows, cols, &c.ptr, &c.ind, &c.val, &y.ptr, &y.ind, &y.val, &mut o.p, &mut o.j, &mut o.x, |a, b| a - b);
                }
                o
            };
            same_out::<D>(&run(false), &run(true), "the binary kernel ignores what its output arrays held");
        }
        6 => {
            let m = D::size(0, 2);
            let rs: Vec<D::I> = (0..m).map(|_| D::ci(D::size(0, rows - 1) as i64)).collect();
            let cs: Vec<D::I> = (0..2.min(cols)).map(|_| D::ci(D::size(0, cols - 1) as i64)).collect();
            let run = |dirty| {
                let mut o = if dirty { out::<D>(m + 1, n, true) } else { Out { p: vec![], j: vec![], x: vec![] } };
                csr_select(rows, cols, &c.ptr, &c.ind, &c.val, &rs, &cs, &mut o.p, &mut o.j, &mut o.x);
                o
            };
            same_out::<D>(&run(false), &run(true), "csr_select ignores what its output arrays held");
        }
        7 => {
            let (r0, c0) = (D::size(0, rows), D::size(0, cols));
            let (r1, c1) = (D::size(r0, rows), D::size(c0, cols));
            let u = |x: usize| D::ci(x as i64);
            let run = |dirty| {
                let mut o = if dirty { out::<D>(rows + 1, n, true) } else { Out { p: vec![], j: vec![], x: vec![] } };
                get_csr_submatrix(rows, cols, &c.ptr, &c.ind, &c.val, u(r0), u(r1), u(c0), u(c1), &mut o.p, &mut o.j, &mut o.x);
                o
            };
            same_out::<D>(&run(false), &run(true), "get_csr_submatrix ignores what its output arrays held");
        }
        8 => {
            // the pointers returned are those given; the rows of the entries are one more output
            let run = |dirty| {
                let k = num_traits::ToPrimitive::to_usize(&live).unwrap();
                let (mut o, mut i) = (out::<D>(rows, k, dirty), out::<D>(rows, k, dirty).j);
                csr_tocoo(rows, cols, &c.ptr, &c.ind, &c.val, &mut i, &mut o.j, &mut o.x);
                o.p = c.ptr.clone();
                let mut e = out::<D>(rows, k, dirty).j;
                expandptr(rows, &c.ptr, &mut e);
                (o, i, e)
            };
            let (a, b) = (run(false), run(true));
            same_out::<D>(&a.0, &b.0, "csr_tocoo ignores what its output arrays held");
            D::prove(all::<D>((0..a.1.len()).map(|k| D::ieq(a.1[k], b.1[k]))), "csr_tocoo ignores what its row array held");
            D::prove(all::<D>((0..a.2.len()).map(|k| D::ieq(a.2[k], b.2[k]))), "expandptr ignores what its output array held");
        }
        _ => {
            let cs: Vec<usize> = (0..2).map(|_| D::size(0, cols - 1)).collect();
            let mut order = vec![0usize, 1];
            order.sort_by_key(|x| cs[*x]);
            let order: Vec<D::I> = order.into_iter().map(|x| D::ci(x as i64)).collect();
            let k = num_traits::ToPrimitive::to_usize(&live).unwrap();
            let run = |dirty| {
                let mut off = vec![D::ci(0); cols];
                let mut o = out::<D>(rows, 2 * k, dirty);
                csr_column_index1(2, &cs, rows, cols, &c.ptr, &c.ind, &mut off, &mut o.p);
                csr_column_index2(&order, &off, k, &c.ind, &c.val, &mut o.j, &mut o.x);
                o
            };
            same_out::<D>(&run(false), &run(true), "column indexing ignores what its output arrays held");
        }
    }
}
