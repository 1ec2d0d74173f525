//! Selection, slicing, element access.
use crate::*;
use sparsetools::*;
#[allow(unused_imports)]
use num_traits::ToPrimitive;

/// [rows, cols, n, k, which, slack]: element access
pub fn get<D: Dom>(p: &[i64]) {
    let (rows, cols, n) = (p[0] as usize, p[1] as usize, p[2] as usize);
    let c = gen_comp::<D>(rows, cols, n, kind(p[3]));
    let a = c.csr();
    let d = c.den();
    for i in 0..rows {
        for j in 0..cols {
            D::prove(D::veq(a.get(D::ci(i as i64), D::ci(j as i64)), d[i][j]), "CSR::get returns the entry");
        }
    }
    unchanged_csr::<D>(&a, &c, "get leaves the matrix alone");
}
/// `k` up to 999: a list of at most k symbolic indices; from 1000 on: k - 1000 fixed irregular
/// ones (repeats and all) of which one is symbolic.
fn opt_idx<D: Dom>(n: usize, k: usize, all: bool) -> Option<Vec<D::I>> {
    if all {
        None
    } else if k >= 1000 {
        let mut g = Lcg((n * 131 + k) as u64);
        let at = g.next(k - 1000);
        Some((0..k - 1000).map(|x| { let f = g.place(n); if x == at && n < WIDE { D::idx(0, n as i64 - 1) } else { D::ci(f as i64) } }).collect())
    } else {
        let len = D::size(0, k);
        Some((0..len).map(|_| D::idx(0, n as i64 - 1)).collect())
    }
}
fn vsel<D: Dom>(m: &M<D::V>, i: D::I, j: D::I) -> D::V {
    if m.len() >= WIDE || m.first().map_or(0, |r| r.len()) >= WIDE {
        return m[i.to_usize().unwrap()][j.to_usize().unwrap()]; // fixed positions
    }
    let mut s = D::cv(0);
    for (x, r) in m.iter().enumerate() {
        for (y, v) in r.iter().enumerate() {
            let c = D::and2(D::ieq(i, D::ci(x as i64)), D::ieq(j, D::ci(y as i64)));
            s = D::vite(c, *v, s);
        }
    }
    s
}
/// [rows, cols, n, k, which(0 csr,1 csc), slack, mode(0 both some,1 rows none,2 cols none,3 both none)]
pub fn select<D: Dom>(p: &[i64]) {
    let (rows, cols, n, k) = (p[0] as usize, p[1] as usize, p[2] as usize, p[3] as usize);
    let kd = if p[5] == 1 { Kind::CanonicalSlack } else { Kind::Canonical };
    let ri = opt_idx::<D>(rows, k, p[6] & 1 == 1);
    let ci = opt_idx::<D>(cols, k, p[6] & 2 == 2);
    let full = |n: usize| (0..n).map(|i| D::ci(i as i64)).collect::<Vec<_>>();
    let (fr, fc) = (ri.clone().unwrap_or_else(|| full(rows)), ci.clone().unwrap_or_else(|| full(cols)));
    if p[4] == 0 {
        let c = gen_comp::<D>(rows, cols, n, kd);
        let a = c.csr();
        let r = match a.select(ri.as_deref(), ci.as_deref()) {
            Ok(r) => r,
            Err(_) => return D::claim(false, "select accepts valid indices on a canonical matrix"),
        };
        shape_csr::<D>(&r, fr.len(), fc.len());
        wf_csr::<D>(&r, "selection is structurally valid");
        exact_csr::<D>(&r);
        let d = c.den();
        let want: M<D::V> = fr.iter().map(|i| fc.iter().map(|j| vsel::<D>(&d, *i, *j)).collect()).collect();
        same::<D>(&den_csr::<D>(&r), &want, "CSR::select picks the requested rows and columns in order");
        canon_csr::<D>(&r, "selection is canonical");
        unchanged_csr::<D>(&a, &c, "select leaves the matrix alone");
    } else {
        let c = gen_comp::<D>(cols, rows, n, kd);
        let a = c.csc();
        let r = match a.select(ri.as_deref(), ci.as_deref()) {
            Ok(r) => r,
            Err(_) => return D::claim(false, "select accepts valid indices on a canonical matrix"),
        };
        shape_csc::<D>(&r, fr.len(), fc.len());
        wf_csc::<D>(&r, "selection is structurally valid");
        exact_csc::<D>(&r);
        let d = tr::<D>(&c.den(), rows);
        let want: M<D::V> = fr.iter().map(|i| fc.iter().map(|j| vsel::<D>(&d, *i, *j)).collect()).collect();
        same::<D>(&den_csc::<D>(&r), &want, "CSC::select picks the requested rows and columns in order");
        canon_csc::<D>(&r, "selection is canonical");
        unchanged_csc::<D>(&a, &c, "select leaves the matrix alone");
    }
}
/// [rows, cols, n, k, which]: indices may be out of range, matrix may be non-canonical
pub fn select_reject<D: Dom>(p: &[i64]) {
    let (rows, cols, n, k) = (p[0] as usize, p[1] as usize, p[2] as usize, p[3] as usize);
    let lo = if D::imin() < 0 { -1 } else { 0 };
    let ri: Vec<D::I> = (0..k).map(|_| D::idx(lo, rows as i64)).collect();
    let ci: Vec<D::I> = (0..k).map(|_| D::idx(lo, cols as i64)).collect();
    let inr = |v: &[D::I], n: usize| all::<D>(v.iter().map(|x| D::and2(D::ile(D::ci(0), *x), D::ilt(*x, D::ci(n as i64)))));
    let (res, canon);
    if p[4] == 0 {
        let c = gen_comp::<D>(rows, cols, n, Kind::General);
        canon = canon_b::<D>(rows, &c.ptr, &c.ind);
        res = c.csr().select(Some(&ri), Some(&ci)).is_ok();
    } else {
        let c = gen_comp::<D>(cols, rows, n, Kind::General);
        canon = canon_b::<D>(cols, &c.ptr, &c.ind);
        res = c.csc().select(Some(&ri), Some(&ci)).is_ok();
    }
    let want = D::and2(canon, D::and2(inr(&ri, rows), inr(&ci, cols)));
    D::prove(D::iff(D::tt(res), want), "select accepts exactly in-range indices on a canonical matrix");
}

/// [rows, cols, n, kind, which]
pub fn slices<D: Dom>(p: &[i64]) {
    let (rows, cols, n) = (p[0] as usize, p[1] as usize, p[2] as usize);
    let c = gen_comp::<D>(rows, cols, n, kind(p[3]));
    let d = c.den();
    match p[4] {
        0 => {
            let (r0, c0) = (D::size(0, rows), D::idx(0, cols as i64));
            let r1 = D::size(r0, rows);
            let c1 = D::idx(0, cols as i64);
            D::assume(D::ile(c0, c1));
            let (mut bp, mut bj, mut bx) = (vec![], vec![], vec![]);
            if D::flag() {
                // buffers that held something before
                bp = vec![D::ci(1); 2];
                bj = vec![D::ci(1); n + 2];
                bx = vec![D::val(); n + 2];
            }
            get_csr_submatrix(rows, cols, &c.ptr, &c.ind, &c.val, D::ci(r0 as i64), D::ci(r1 as i64), c0, c1, &mut bp, &mut bj, &mut bx);
            let m = r1 - r0;
            wf::<D>(m, cols, &bp, &bj, bx.len(), "submatrix is structurally valid");
            if bp.len() == m + 1 {
                let got = den_comp::<D>(m, cols, &bp, &bj, &bx);
                let mut want = vec![vec![D::cv(0); cols]; m];
                for i in 0..m {
                    for j in 0..cols {
                        // column j of the result is column c0 + j of the source
                        for s in 0..cols {
                            if s >= j {
                                let hit = D::and2(D::ieq(c0, D::ci((s - j) as i64)), D::ilt(D::ci(s as i64), c1));
                                want[i][j] = D::vite(hit, d[r0 + i][s], want[i][j]);
                            }
                        }
                    }
                }
                same::<D>(&got, &want, "get_csr_submatrix copies the window");
                // as many entries per row as the window has, and nothing behind them
                let mut terms = vec![D::tt(bj.len() == bx.len()), D::ieq(bp[m], D::ci(bj.len() as i64))];
                for i in 0..m {
                    let (s, e) = (c.ptr[r0 + i].to_usize().unwrap(), c.ptr[r0 + i + 1].to_usize().unwrap());
                    let mut count = D::cv(0);
                    for k in s..e {
                        let hit = D::and2(D::ile(c0, c.ind[k]), D::ilt(c.ind[k], c1));
                        count = D::vite(hit, count + D::cv(1), count);
                    }
                    let have = bp[i + 1].to_usize().unwrap() - bp[i].to_usize().unwrap();
                    terms.push(D::veq(count, D::cv(have as i64)));
                }
                D::prove(all::<D>(terms), "get_csr_submatrix copies each entry of the window once");
            }
        }
        1 => {
            let rs: Vec<usize> = if p[5] >= 1000 {
                let k = p[5] as usize - 1000;
                let mut g = Lcg((rows * 131 + k) as u64);
                let at = g.next(k);
                (0..k).map(|x| { let f = g.place(rows); if x == at && rows < WIDE { D::size(0, rows - 1) } else { f } }).collect()
            } else {
                (0..D::size(0, 2)).map(|_| D::size(0, rows - 1)).collect()
            };
            let k = rs.len();
            let (mut bj, mut bx) = before::<D>();
            let (b0, x0) = (bj.clone(), bx.clone());
            csr_row_index(k, &rs, &c.ptr, &c.ind, &c.val, &mut bj, &mut bx);
            rows_are::<D>(&b0, &x0, &rs, &c, &bj, &bx, "csr_row_index concatenates the requested rows");
        }
        2 => {
            let (a, b, s) = (D::size(0, rows), D::size(0, rows), D::size(1, rows + 1));
            let (mut bj, mut bx) = before::<D>();
            let (b0, x0) = (bj.clone(), bx.clone());
            csr_row_slice(a, b, s, &c.ptr, &c.ind, &c.val, &mut bj, &mut bx);
            let rs: Vec<usize> = (a..b).step_by(s).collect();
            rows_are::<D>(&b0, &x0, &rs, &c, &bj, &bx, "csr_row_slice concatenates every step-th row");
        }
        _ => {
            // columns picked by an index list, as csr_column_index1/2 are meant to be used:
            // col_order is the argsort of the list
            let cs: Vec<usize> = if p[5] >= 1000 {
                let k = p[5] as usize - 1000;
                let mut g = Lcg((cols * 131 + k) as u64);
                let at = g.next(k);
                (0..k).map(|x| { let f = g.place(cols); if x == at && cols < WIDE { D::size(0, cols - 1) } else { f } }).collect()
            } else {
                (0..D::size(0, p[5] as usize)).map(|_| D::size(0, cols - 1)).collect()
            };
            let k = cs.len();
            let mut order: Vec<usize> = (0..k).collect();
            order.sort_by_key(|x| cs[*x]);
            let order: Vec<D::I> = order.into_iter().map(|x| D::ci(x as i64)).collect();
            let mut off = vec![D::ci(0); cols];
            let mut bp = vec![D::ci(0); rows + 1];
            csr_column_index1(k, &cs, rows, cols, &c.ptr, &c.ind, &mut off, &mut bp);
            let nnz = bp[rows].to_usize().unwrap();
            let (mut bj, mut bx) = (vec![D::ci(0); nnz], vec![D::cv(0); nnz]);
            let live = c.ptr[rows].to_usize().unwrap();
            csr_column_index2(&order, &off, live, &c.ind, &c.val, &mut bj, &mut bx);
            wf::<D>(rows, k, &bp, &bj, nnz, "column indexing is structurally valid");
            let got = den_comp::<D>(rows, k, &bp, &bj, &bx);
            let want: M<D::V> = (0..rows).map(|i| cs.iter().map(|j| d[i][*j]).collect()).collect();
            same::<D>(&got, &want, "column indexing picks the requested columns in order");
        }
    }
}
/// What the arrays hold that the row kernels append to.
fn before<D: Dom>() -> (Vec<D::I>, Vec<D::V>) {
    if D::flag() {
        (vec![D::ci(1); 2], vec![D::val(), D::val()])
    } else {
        (vec![], vec![])
    }
}
/// `bj`/`bx` hold, in order, what was there before and the entries of the listed rows.
fn rows_are<D: Dom>(b0: &[D::I], x0: &[D::V], rs: &[usize], c: &Comp<D>, bj: &[D::I], bx: &[D::V], l: &'static str) {
    let mut pos = 0;
    let mut ok = bj.len() == bx.len();
    let mut terms = vec![];
    for k in 0..b0.len() {
        if pos < bj.len() {
            terms.push(D::ieq(bj[pos], b0[k]));
            terms.push(D::veq(bx[pos], x0[k]));
        }
        pos += 1;
    }
    for r in rs {
        // the kernel has already made these pointers concrete
        let (s, e) = (c.ptr[*r].to_usize().unwrap(), c.ptr[*r + 1].to_usize().unwrap());
        for k in s..e {
            if pos < bj.len() {
                terms.push(D::ieq(bj[pos], c.ind[k]));
                terms.push(D::veq(bx[pos], c.val[k]));
            }
            pos += 1;
        }
    }
    ok &= pos == bj.len();
    D::claim(ok, l);
    if ok {
        D::prove(all::<D>(terms), l);
    }
}
