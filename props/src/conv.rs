//! Conversions, canonicalisation, format predicates.
use crate::*;
use sparsetools::dok::DoK;
use sparsetools::*;

/// [rows, cols, n]: COO -> CSR sums duplicates into canonical form.
pub fn coo_to_csr<D: Dom>(p: &[i64]) {
    let t = gen_coo::<D>(p[0] as usize, p[1] as usize, p[2] as usize);
    let a = t.coo();
    let r = a.to_csr();
    shape_csr::<D>(&r, t.rows, t.cols);
    wf_csr::<D>(&r, "COO->CSR is structurally valid");
    canon_csr::<D>(&r, "COO->CSR is canonical");
    D::claim(r.colidx().len() == r.nnz() && r.values().len() == r.nnz(), "COO->CSR arrays hold exactly nnz entries");
    same::<D>(&den_csr::<D>(&r), &t.den(), "COO->CSR preserves the matrix");
    let stored = den_coo_pat::<D>(&t);
    same_pat::<D>(&pat_comp::<D>(r.rows(), r.cols(), r.rowptr(), r.colidx()), &stored, "COO->CSR stores exactly the stored positions");
    same_vec::<D>(a.values(), &t.val, "source unchanged");
}
pub fn den_coo_pat<D: Dom>(t: &Trip<D>) -> M<D::B> {
    let mut m = vec![vec![D::ff(); t.cols]; t.rows];
    for k in 0..t.val.len() {
        for i in span::<D>(t.ri[k], t.rows) {
            for j in span::<D>(t.ci[k], t.cols) {
                let c = D::and2(D::ieq(t.ri[k], D::ci(i as i64)), D::ieq(t.ci[k], D::ci(j as i64)));
                m[i][j] = D::or2(m[i][j], c);
            }
        }
    }
    m
}
pub fn coo_to_csc<D: Dom>(p: &[i64]) {
    let t = gen_coo::<D>(p[0] as usize, p[1] as usize, p[2] as usize);
    let r = t.coo().to_csc();
    shape_csc::<D>(&r, t.rows, t.cols);
    wf_csc::<D>(&r, "COO->CSC is structurally valid");
    canon_csc::<D>(&r, "COO->CSC is canonical");
    D::claim(r.rowidx().len() == r.nnz() && r.values().len() == r.nnz(), "COO->CSC arrays hold exactly nnz entries");
    same::<D>(&den_csc::<D>(&r), &t.den(), "COO->CSC preserves the matrix");
    let pat = trb::<D>(&pat_comp::<D>(r.cols(), r.rows(), r.colptr(), r.rowidx()), t.rows);
    same_pat::<D>(&pat, &den_coo_pat::<D>(&t), "COO->CSC stores exactly the stored positions");
}
/// The raw kernel keeps duplicates, one slot per triplet.
pub fn coo_kernel<D: Dom>(p: &[i64]) {
    let t = gen_coo::<D>(p[0] as usize, p[1] as usize, p[2] as usize);
    let n = t.val.len();
    let mut bp = vec![D::idx(0, n as i64); t.rows + 1];
    let mut bj = vec![D::ci(0); n];
    let mut bx = vec![D::cv(0); n];
    coo_tocsr(t.rows, t.cols, n, &t.ri, &t.ci, &t.val, &mut bp, &mut bj, &mut bx);
    wf::<D>(t.rows, t.cols, &bp, &bj, n, "coo_tocsr output is structurally valid");
    D::prove(D::ieq(bp[t.rows], D::ci(n as i64)), "coo_tocsr keeps every triplet");
    same::<D>(&den_comp::<D>(t.rows, t.cols, &bp, &bj, &bx), &t.den(), "coo_tocsr preserves the matrix");
}
/// [rows, cols, n, kind]
pub fn csr_to_coo<D: Dom>(p: &[i64]) {
    let c = gen_comp::<D>(p[0] as usize, p[1] as usize, p[2] as usize, kind(p[3]));
    let a = c.csr();
    let r = a.to_coo();
    D::claim(r.rows() == c.major && r.cols() == c.minor, "shape of the result");
    wf_coo::<D>(&r, "CSR->COO is structurally valid");
    D::prove(D::ieq(D::ci(r.nnz() as i64), c.ptr[c.major]), "CSR->COO stores exactly the stored entries");
    same::<D>(&den_of_coo::<D>(&r), &c.den(), "CSR->COO preserves the matrix");
    unchanged_csr::<D>(&a, &c, "source unchanged");
}
pub fn csc_to_coo<D: Dom>(p: &[i64]) {
    let c = gen_comp::<D>(p[1] as usize, p[0] as usize, p[2] as usize, kind(p[3]));
    let a = c.csc();
    let r = a.to_coo();
    D::claim(r.rows() == c.minor && r.cols() == c.major, "shape of the result");
    wf_coo::<D>(&r, "CSC->COO is structurally valid");
    D::prove(D::ieq(D::ci(r.nnz() as i64), c.ptr[c.major]), "CSC->COO stores exactly the stored entries");
    same::<D>(&den_of_coo::<D>(&r), &tr::<D>(&c.den(), c.minor), "CSC->COO preserves the matrix");
    unchanged_csc::<D>(&a, &c, "source unchanged");
}
pub fn csr_to_csc<D: Dom>(p: &[i64]) {
    let c = gen_comp::<D>(p[0] as usize, p[1] as usize, p[2] as usize, kind(p[3]));
    let a = c.csr();
    let r = a.to_csc();
    shape_csc::<D>(&r, c.major, c.minor);
    wf_csc::<D>(&r, "CSR->CSC is structurally valid");
    exact_csc::<D>(&r);
    D::prove(sorted_b::<D>(r.cols(), r.colptr(), r.rowidx()), "CSR->CSC has sorted row indices");
    D::prove(D::ieq(r.colptr()[r.cols()], c.ptr[c.major]), "CSR->CSC keeps every stored entry");
    let want = c.den();
    same::<D>(&den_csc::<D>(&r), &want, "CSR->CSC preserves the matrix");
    let back = r.to_csr();
    wf_csr::<D>(&back, "CSR->CSC->CSR is structurally valid");
    exact_csr::<D>(&back);
    same::<D>(&den_csr::<D>(&back), &want, "CSR->CSC->CSR is the identity");
    unchanged_csr::<D>(&a, &c, "source unchanged");
}
pub fn csc_to_csr<D: Dom>(p: &[i64]) {
    let c = gen_comp::<D>(p[1] as usize, p[0] as usize, p[2] as usize, kind(p[3]));
    let a = c.csc();
    let r = a.to_csr();
    shape_csr::<D>(&r, c.minor, c.major);
    wf_csr::<D>(&r, "CSC->CSR is structurally valid");
    exact_csr::<D>(&r);
    D::prove(sorted_b::<D>(r.rows(), r.rowptr(), r.colidx()), "CSC->CSR has sorted column indices");
    D::prove(D::ieq(r.rowptr()[r.rows()], c.ptr[c.major]), "CSC->CSR keeps every stored entry");
    same::<D>(&den_csr::<D>(&r), &tr::<D>(&c.den(), c.minor), "CSC->CSR preserves the matrix");
    // the named kernel agrees
    let nnz = r.nnz();
    let (mut bp, mut bj, mut bx) = (vec![D::ci(0); c.minor + 1], vec![D::ci(0); nnz], vec![D::cv(0); nnz]);
    csc_tocsr(c.minor, c.major, &c.ptr, &c.ind, &c.val, &mut bp, &mut bj, &mut bx);
    same::<D>(&den_comp::<D>(c.minor, c.major, &bp, &bj, &bx), &tr::<D>(&c.den(), c.minor), "csc_tocsr preserves the matrix");
    unchanged_csc::<D>(&a, &c, "source unchanged");
}

/// [rows, cols]: dense -> every format -> meaning, only non-zeros stored.
pub fn from_dense<D: Dom>(p: &[i64]) {
    let (r, c) = (p[0] as usize, p[1] as usize);
    let d = gen_dense::<D>(r, c);
    match p[2] {
        0 => {
            let a = CSR::<D::I, D::V>::from_dense(&d);
            shape_csr::<D>(&a, r, c);
            wf_csr::<D>(&a, "dense->CSR is structurally valid");
            exact_csr::<D>(&a);
            canon_csr::<D>(&a, "dense->CSR is canonical");
            D::prove(nozero_b::<D>(a.rowptr()[r], a.values()), "dense->CSR stores no zero");
            same::<D>(&den_csr::<D>(&a), &d, "dense->CSR preserves the matrix");
        }
        1 => {
            let a = CSC::<D::I, D::V>::from_dense(&d);
            shape_csc::<D>(&a, r, c);
            wf_csc::<D>(&a, "dense->CSC is structurally valid");
            exact_csc::<D>(&a);
            canon_csc::<D>(&a, "dense->CSC is canonical");
            D::prove(nozero_b::<D>(a.colptr()[c], a.values()), "dense->CSC stores no zero");
            same::<D>(&den_csc::<D>(&a), &d, "dense->CSC preserves the matrix");
            same::<D>(&a.to_dense(), &d, "dense->CSC->dense is the identity");
        }
        2 => {
            let a = Coo::<D::I, D::V>::from_dense(&d);
            D::claim(a.rows() == r && a.cols() == c, "shape of the result");
            wf_coo::<D>(&a, "dense->COO is structurally valid");
            D::prove(all::<D>(a.values().iter().map(|v| D::not(D::isz(*v)))), "dense->COO stores no zero");
            same::<D>(&den_of_coo::<D>(&a), &d, "dense->COO preserves the matrix");
            same::<D>(&a.to_dense(), &d, "dense->COO->dense is the identity");
        }
        _ => {
            let rows: Vec<&[D::V]> = d.iter().map(|x| x.as_slice()).collect();
            let a = DoK::<D::I, D::V>::from_dense(&rows);
            D::claim(a.rows() == r && a.cols() == c, "shape of the result");
            same::<D>(&a.to_dense(), &d, "dense->DoK->dense is the identity");
            for i in 0..r {
                for j in 0..c {
                    D::prove(D::veq(a.get(D::ci(i as i64), D::ci(j as i64)), d[i][j]), "dense->DoK entry");
                }
            }
        }
    }
}
/// [rows, cols, n, which, kind]
pub fn to_dense<D: Dom>(p: &[i64]) {
    let (r, c, n) = (p[0] as usize, p[1] as usize, p[2] as usize);
    match p[3] {
        0 => {
            let t = gen_coo::<D>(r, c, n);
            same::<D>(&t.coo().to_dense(), &t.den(), "COO->dense adds up duplicates");
        }
        1 => {
            let k = gen_comp::<D>(c, r, n, kind(p[4]));
            same::<D>(&k.csc().to_dense(), &tr::<D>(&k.den(), r), "CSC->dense adds up duplicates");
        }
        2 => {
            let k = gen_comp::<D>(r, c, n, kind(p[4]));
            let b0 = gen_dense::<D>(r, c);
            let mut b = b0.clone();
            csr_todense(r, c, &k.ptr, &k.ind, &k.val, &mut b);
            same::<D>(&b, &m_add::<D>(&b0, &k.den()), "csr_todense accumulates the matrix");
        }
        _ => {
            let t = gen_coo::<D>(r, c, n);
            let fortran = D::flag();
            let b0 = vals::<D>(r * c);
            let mut b = b0.clone();
            coo_todense(r, c, t.val.len(), &t.ri, &t.ci, &t.val, &mut b, fortran);
            let d = t.den();
            let want: Vec<D::V> = (0..r * c)
                .map(|x| b0[x] + if fortran { d[x % r][x / r] } else { d[x / c][x % c] })
                .collect();
            same_vec::<D>(&b, &want, "coo_todense accumulates the matrix in the requested order");
        }
    }
}

// ------------------------------------------------------- canonicalisation

fn ones<D: Dom>(n: usize) -> Vec<D::V> {
    vec![D::cv(1); n]
}
/// [rows, cols, n, kind, which]: sort_indexes on CSR (0) / CSC (1)
pub fn sort_indexes<D: Dom>(p: &[i64]) {
    let c = gen_comp::<D>(p[0] as usize, p[1] as usize, p[2] as usize, kind(p[3]));
    let (ptr, ind, val);
    if p[4] == 0 {
        let mut a = c.csr();
        a.sort_indexes();
        (ptr, ind, val) = (a.rowptr().to_vec(), a.colidx().to_vec(), a.values().to_vec());
    } else {
        let mut a = c.csc();
        a.sort_indexes();
        (ptr, ind, val) = (a.colptr().to_vec(), a.rowidx().to_vec(), a.values().to_vec());
    }
    same_idx::<D>(&ptr, &c.ptr, "sorting leaves the pointers alone");
    wf::<D>(c.major, c.minor, &ptr, &ind, val.len(), "sorting keeps the structure valid");
    D::prove(sorted_b::<D>(c.major, &ptr, &ind), "sorting sorts");
    same::<D>(&den_comp::<D>(c.major, c.minor, &ptr, &ind, &val), &c.den(), "sorting preserves the matrix");
    let n = c.ind.len();
    let cnt = den_comp::<D>(c.major, c.minor, &ptr, &ind, &ones::<D>(n));
    let cnt0 = den_comp::<D>(c.major, c.minor, &c.ptr, &c.ind, &ones::<D>(n));
    same::<D>(&cnt, &cnt0, "sorting keeps every stored entry");
}
/// [rows, cols, n, kind, which]
pub fn sum_duplicates<D: Dom>(p: &[i64]) {
    let c = gen_comp::<D>(p[0] as usize, p[1] as usize, p[2] as usize, kind(p[3]));
    let get = |a: &CSR<D::I, D::V>| (a.rowptr().to_vec(), a.colidx().to_vec(), a.values().to_vec());
    let getc = |a: &CSC<D::I, D::V>| (a.colptr().to_vec(), a.rowidx().to_vec(), a.values().to_vec());
    let (one, two, can);
    if p[4] == 0 {
        let mut a = c.csr();
        a.sum_duplicates().unwrap();
        one = get(&a);
        can = a.has_canonical_format();
        a.sum_duplicates().unwrap();
        two = get(&a);
    } else {
        let mut a = c.csc();
        a.sum_duplicates();
        one = getc(&a);
        can = a.has_canonical_format();
        a.sum_duplicates();
        two = getc(&a);
    }
    let (ptr, ind, val) = one;
    wf::<D>(c.major, c.minor, &ptr, &ind, val.len(), "sum_duplicates keeps the structure valid");
    D::prove(canon_b::<D>(c.major, &ptr, &ind), "sum_duplicates makes the matrix canonical");
    D::claim(can, "has_canonical_format after sum_duplicates");
    same::<D>(&den_comp::<D>(c.major, c.minor, &ptr, &ind, &val), &c.den(), "sum_duplicates preserves the matrix");
    same_pat::<D>(&pat_comp::<D>(c.major, c.minor, &ptr, &ind), &c.pat(), "sum_duplicates keeps the stored positions");
    same_idx::<D>(&ptr, &two.0, "sum_duplicates is idempotent (pointers)");
    same_idx::<D>(&ind, &two.1, "sum_duplicates is idempotent (indices)");
    same_vec::<D>(&val, &two.2, "sum_duplicates is idempotent (values)");
}
/// [rows, cols, n, kind]: CSC::prune drops exactly the spare array space
pub fn prune<D: Dom>(p: &[i64]) {
    let c = gen_comp::<D>(p[0] as usize, p[1] as usize, p[2] as usize, kind(p[3]));
    let mut a = c.csc();
    let r = a.prune();
    D::claim(r.is_ok(), "prune succeeds");
    let nnz = a.nnz();
    D::prove(D::ieq(c.ptr[c.major], D::ci(nnz as i64)), "prune keeps nnz");
    D::claim(a.rowidx().len() == nnz && a.values().len() == nnz, "prune leaves exactly nnz entries");
    same_idx::<D>(a.colptr(), &c.ptr, "prune keeps the pointers");
    same_idx::<D>(a.rowidx(), &c.ind[..nnz.min(c.ind.len())], "prune keeps the indices");
    same_vec::<D>(a.values(), &c.val[..nnz.min(c.ind.len())], "prune keeps the values");
}
/// [rows, cols, n, kind]: kernels; csr_sum_duplicates needs sorted rows
pub fn sum_dup_kernel<D: Dom>(p: &[i64]) {
    let c = gen_comp::<D>(p[0] as usize, p[1] as usize, p[2] as usize, kind(p[3]));
    D::assume(sorted_b::<D>(c.major, &c.ptr, &c.ind));
    let mut w = c.clone();
    csr_sum_duplicates(c.major, c.minor, &mut w.ptr, &mut w.ind, &mut w.val);
    wf::<D>(c.major, c.minor, &w.ptr, &w.ind, w.val.len(), "csr_sum_duplicates keeps the structure valid");
    D::prove(canon_b::<D>(c.major, &w.ptr, &w.ind), "csr_sum_duplicates yields canonical rows");
    same::<D>(&w.den(), &c.den(), "csr_sum_duplicates preserves the matrix");
    same_pat::<D>(&w.pat(), &c.pat(), "csr_sum_duplicates keeps the stored positions");
}
pub fn elim_zeros<D: Dom>(p: &[i64]) {
    let c = gen_comp::<D>(p[0] as usize, p[1] as usize, p[2] as usize, kind(p[3]));
    let mut w = c.clone();
    csr_eliminate_zeros(c.major, c.minor, &mut w.ptr, &mut w.ind, &mut w.val);
    wf::<D>(c.major, c.minor, &w.ptr, &w.ind, w.val.len(), "csr_eliminate_zeros keeps the structure valid");
    D::prove(nozero_b::<D>(w.ptr[c.major], &w.val), "csr_eliminate_zeros leaves no zero");
    same::<D>(&w.den(), &c.den(), "csr_eliminate_zeros preserves the matrix");
    // every non-zero entry survives: count per position of non-zero values
    let nz: Vec<D::V> = c.val.iter().map(|v| D::vite(D::isz(*v), D::cv(0), D::cv(1))).collect();
    let nw: Vec<D::V> = w.val.iter().map(|v| D::vite(D::isz(*v), D::cv(0), D::cv(1))).collect();
    same::<D>(
        &den_comp::<D>(c.major, c.minor, &w.ptr, &w.ind, &nw),
        &den_comp::<D>(c.major, c.minor, &c.ptr, &c.ind, &nz),
        "csr_eliminate_zeros removes only zeros",
    );
    D::prove(
        D::imp(canon_b::<D>(c.major, &c.ptr, &c.ind), canon_b::<D>(c.major, &w.ptr, &w.ind)),
        "csr_eliminate_zeros keeps canonical rows canonical",
    );
}

// ------------------------------------------------------------ predicates

/// [major, minor, n, kind, which]
pub fn predicates<D: Dom>(p: &[i64]) {
    let c = gen_comp::<D>(p[0] as usize, p[1] as usize, p[2] as usize, kind(p[3]));
    let canon = canon_b::<D>(c.major, &c.ptr, &c.ind);
    let sorted = sorted_b::<D>(c.major, &c.ptr, &c.ind);
    let (hc, hs) = match p[4] {
        0 => {
            let a = c.csr();
            (a.has_canonical_format(), a.has_sorted_indexes())
        }
        1 => {
            let a = c.csc();
            (a.has_canonical_format(), a.has_sorted_indexes())
        }
        _ => (
            csr_has_canonical_format(c.major, &c.ptr, &c.ind),
            csr_has_sorted_indices(c.major, &c.ptr, &c.ind),
        ),
    };
    D::prove(D::iff(D::tt(hc), canon), "has_canonical_format is exact");
    D::prove(D::iff(D::tt(hs), sorted), "has_sorted_indexes is exact");
}
/// [major, minor, n]: pointers in any order
pub fn canonical_any_ptr<D: Dom>(p: &[i64]) {
    let (m, n) = (p[0] as usize, p[2] as usize);
    let ptr: Vec<D::I> = (0..=m).map(|_| D::idx(0, n as i64)).collect();
    let ind: Vec<D::I> = (0..n).map(|_| D::idx(0, p[1] - 1)).collect();
    let r = csr_has_canonical_format(m, &ptr, &ind);
    let mono = all::<D>((0..m).map(|i| D::ile(ptr[i], ptr[i + 1])));
    let want = D::and2(mono, canon_b::<D>(m, &ptr, &ind));
    D::prove(D::iff(D::tt(r), want), "csr_has_canonical_format rejects decreasing pointers");
}
