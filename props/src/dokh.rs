//! Dictionary-of-keys: every short history of updates.
use crate::*;
use sparsetools::dok::DoK;

/// [rows, cols, steps, end(0 reads, 1 conversions)]; steps = 100 f + s: f updates that are fixed
/// (in range, some to zero), then s arbitrary ones
pub fn history<D: Dom>(p: &[i64]) {
    let (rows, cols, steps) = (p[0] as usize, p[1] as usize, p[2] as usize);
    let mut a = if D::flag() { DoK::<D::I, D::V>::new(rows, cols) } else { DoK::<D::I, D::V>::with_capacity(rows, cols, 1) };
    let us: Vec<D::I> = (0..rows.max(cols)).map(|x| D::ci(x as i64)).collect();
    let mut m = vec![vec![D::cv(0); cols]; rows];
    let lo = if D::imin() < 0 { -1 } else { 0 };
    let (fixed, steps) = (steps / 100, steps / 100 + steps % 100);
    let mut g = Lcg((rows * 1009 + cols * 31 + fixed) as u64);
    for step in 0..steps {
        let arbitrary = step >= fixed;
        let op = if arbitrary { D::pick(3) } else { g.next(3) };
        let (i, j, v) = if arbitrary {
            (D::idx(lo, rows as i64), D::idx(lo, cols as i64), D::val())
        } else if rows >= WIDE || cols >= WIDE {
            let v = if step + 1 == fixed { D::val() } else { D::cv(g.next(4) as i64) };
            (D::ci(g.place(rows) as i64), D::ci(g.place(cols) as i64), v)
        } else {
            (D::ci(g.place(rows) as i64), D::ci(g.place(cols) as i64), D::cv(g.next(4) as i64))
        };
        let r = match op {
            0 => a.set(i, j, v),
            1 => a.add(i, j, v),
            _ => a.sub(i, j, v),
        };
        let inr = D::and2(
            D::and2(D::ile(D::ci(0), i), D::ilt(i, D::ci(rows as i64))),
            D::and2(D::ile(D::ci(0), j), D::ilt(j, D::ci(cols as i64))),
        );
        D::prove(D::iff(D::tt(r.is_ok()), inr), "updates succeed exactly inside the shape");
        for x in 0..rows {
            let row = D::ieq(i, us[x]);
            if D::known_false(row) {
                continue;
            }
            for y in 0..cols {
                let col = D::ieq(j, us[y]);
                if D::known_false(col) {
                    continue;
                }
                let hit = D::and2(row, col);
                let new = match op {
                    0 => v,
                    1 => m[x][y] + v,
                    _ => m[x][y] - v,
                };
                m[x][y] = D::vite(hit, new, m[x][y]);
            }
        }
        if !arbitrary && step + 1 < fixed {
            continue;
        }
        let mut cnt = D::cv(0);
        for x in 0..rows {
            for y in 0..cols {
                D::prove(D::veq(a.get(us[x], us[y]), m[x][y]), "get returns what the history wrote");
                cnt = cnt + D::vite(D::isz(m[x][y]), D::cv(0), D::cv(1));
            }
        }
        D::prove(D::veq(cnt, D::cv(a.nnz() as i64)), "nnz counts the non-zero entries");
        D::claim(a.len() == a.nnz() && a.values().all(|_| true), "the map view has nnz entries");
    }
    D::claim(a.rows() == rows && a.cols() == cols, "the shape never changes");
    if p[3] == 1 {
        same::<D>(&a.to_dense(), &m, "DoK->dense");
        let c = a.to_coo();
        D::claim(c.rows() == rows && c.cols() == cols && c.nnz() == a.nnz(), "DoK->COO keeps shape and entries");
        wf_coo::<D>(&c, "DoK->COO is structurally valid");
        same::<D>(&den_of_coo::<D>(&c), &m, "DoK->COO preserves the matrix");
        let r = a.to_csr();
        shape_csr::<D>(&r, rows, cols);
        wf_csr::<D>(&r, "DoK->CSR is structurally valid");
        exact_csr::<D>(&r);
        canon_csr::<D>(&r, "DoK->CSR is canonical");
        same::<D>(&den_csr::<D>(&r), &m, "DoK->CSR preserves the matrix");
        let s = a.to_csc();
        shape_csc::<D>(&s, rows, cols);
        wf_csc::<D>(&s, "DoK->CSC is structurally valid");
        exact_csc::<D>(&s);
        canon_csc::<D>(&s, "DoK->CSC is canonical");
        same::<D>(&den_csc::<D>(&s), &m, "DoK->CSC preserves the matrix");
    }
}
