//! Harness dispatch and the table of verification jobs.
use crate::*;

/// Runs one harness in domain `D`.
pub fn run<D: Dom>(h: &str, p: &[i64]) {
    match h {
        "coo_to_csr" => conv::coo_to_csr::<D>(p),
        "coo_to_csc" => conv::coo_to_csc::<D>(p),
        "coo_kernel" => conv::coo_kernel::<D>(p),
        "csr_to_coo" => conv::csr_to_coo::<D>(p),
        "csc_to_coo" => conv::csc_to_coo::<D>(p),
        "csr_to_csc" => conv::csr_to_csc::<D>(p),
        "csc_to_csr" => conv::csc_to_csr::<D>(p),
        "from_dense" => conv::from_dense::<D>(p),
        "to_dense" => conv::to_dense::<D>(p),
        "sort_indexes" => conv::sort_indexes::<D>(p),
        "sum_duplicates" => conv::sum_duplicates::<D>(p),
        "prune" => conv::prune::<D>(p),
        "sum_dup_kernel" => conv::sum_dup_kernel::<D>(p),
        "elim_zeros" => conv::elim_zeros::<D>(p),
        "predicates" => conv::predicates::<D>(p),
        "canonical_any_ptr" => conv::canonical_any_ptr::<D>(p),
        "csr_addsub" => arith::csr_addsub::<D>(p),
        "csc_addsub" => arith::csc_addsub::<D>(p),
        "coo_add" => arith::coo_add::<D>(p),
        "shape_mismatch" => arith::shape_mismatch::<D>(p),
        "binop" => arith::binop::<D>(p),
        "matvec" => arith::matvec::<D>(p),
        "matmat" => arith::matmat::<D>(p),
        "scale" => arith::scale::<D>(p),
        "scale_c64" => arith::scale_c64::<D>(p),
        "transpose" => shape::transpose::<D>(p),
        "diagonals" => shape::diagonals::<D>(p),
        "stack" => shape::stack::<D>(p),
        "construct" => shape::construct::<D>(p),
        "aux" => shape::aux::<D>(p),
        "buffers" => shape::buffers::<D>(p),
        "get" => sel::get::<D>(p),
        "select" => sel::select::<D>(p),
        "select_reject" => sel::select_reject::<D>(p),
        "slices" => sel::slices::<D>(p),
        "weak" => graphs::weak::<D>(p),
        "strong" => graphs::strong::<D>(p),
        "dfs" => graphs::dfs::<D>(p),
        "cs_components" => graphs::cs_components::<D>(p),
        "deep" => graphs::deep::<D>(p),
        "square" => graphs::square::<D>(p),
        "dok" => dokh::history::<D>(p),
        "views" => cplx::views::<D>(p),
        "listing" => text::listing::<D>(p),
        "listing_any" => text::listing_any::<D>(p),
        "table" => text::table::<D>(p),
        "table_class" => text::table_class::<D>(p),
        _ => panic!("unknown harness {h}"),
    }
}

#[derive(Clone, Debug)]
pub struct Job {
    pub h: &'static str,
    pub p: Vec<i64>,
    pub bits: u32,
    pub imin: i128,
    pub imax: i128,
    pub parts: u64,
}
pub const USIZE: i128 = u64::MAX as i128;


/// Index types: 3-bit unsigned, 4-bit signed, and a 2-bit unsigned one.
const U2: (i128, i128) = (0, 3);
const U3: (i128, i128) = (0, 7);
const I4: (i128, i128) = (-8, 7);
const I8: (i128, i128) = (-128, 127);
const U8: (i128, i128) = (0, 255);

pub struct Table {
    pub jobs: Vec<Job>,
    thorough: bool,
}
impl Table {
    fn add(&mut self, h: &'static str, p: &[i64], parts: u64, bits: u32, (imin, imax): (i128, i128)) {
        self.jobs.push(Job { h, p: p.to_vec(), bits, imin, imax, parts });
    }
    /// quick and thorough, index type usize, 8-bit values
    fn q(&mut self, h: &'static str, p: &[i64]) {
        self.add(h, p, 1, 8, (0, USIZE));
    }
    /// the same, split into parts
    fn qp(&mut self, h: &'static str, p: &[i64], parts: u64) {
        self.add(h, p, parts, 8, (0, USIZE));
    }
    /// products: 3-bit values
    fn q3(&mut self, h: &'static str, p: &[i64], parts: u64) {
        self.add(h, p, parts, 3, (0, USIZE));
    }
    /// thorough only
    fn t(&mut self, h: &'static str, p: &[i64], parts: u64) {
        if self.thorough {
            self.add(h, p, parts, 8, (0, USIZE));
        }
    }
    fn t3(&mut self, h: &'static str, p: &[i64], parts: u64) {
        if self.thorough {
            self.add(h, p, parts, 3, (0, USIZE));
        }
    }
    /// another index type
    fn n(&mut self, h: &'static str, p: &[i64], r: (i128, i128)) {
        self.add(h, p, 1, 8, r);
    }
    fn n3(&mut self, h: &'static str, p: &[i64], r: (i128, i128)) {
        self.add(h, p, 1, 3, r);
    }
}

pub fn table(prop: &str, thorough: bool) -> Vec<Job> {
    let mut t = Table { jobs: vec![], thorough };
    fill(&mut t, prop);
    huge(&mut t, prop);
    wide(&mut t, prop);
    let before = t.jobs.len();
    many(&mut t, prop);
    // the same with more than 65536 entries in one row or one column
    for j in t.jobs[before..].to_vec() {
        for (r, c) in [(2, 70_000), (70_000, 2)] {
            // shapes whose oracle is quadratic in a row, or a search along one
            let slow = match j.h {
                "stack" => true,
                "csr_addsub" | "get" => r == 2,
                "csc_addsub" => r == 70_000,
                _ => false,
            };
            if !slow {
                let mut p: Vec<i64> = j.p.iter().map(|x| match x { 166_600 | 175_000 => 235_000, 135_000 => 170_000, x => *x }).collect();
                (p[0], p[1]) = (r, c);
                t.q(j.h, &p);
            }
        }
    }
    t.jobs
}

/// Every property that has jobs.
pub const PROPS: [&str; 26] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17",
    "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C27",
];

fn fill(t: &mut Table, prop: &str) {
    match prop {
        // COO -> CSR/CSC
        "C01" => {
            for h in ["coo_to_csr", "coo_to_csc"] {
                for p in [[3, 3, 4], [2, 3, 5], [1, 3, 5], [4, 1, 4], [0, 2, 0], [2, 0, 0], [0, 0, 0], [7, 30, 50], [30, 6, 60], [12, 12, 200]] {
                    t.q(h, &p);
                }
                t.n(h, &[3, 3, 3], U2);
                t.n(h, &[3, 5, 4], I4);
                t.n(h, &[20, 90, 100], I8);
                t.t(h, &[3, 3, 5], 16);
                t.t(h, &[4, 4, 4], 8);
                t.t(h, &[2, 2, 6], 16);
                t.t(h, &[60, 60, 400], 1);
            }
            for p in [[3, 3, 4], [2, 4, 4], [0, 2, 0], [2, 0, 0], [7, 30, 50], [30, 6, 60]] {
                t.q("coo_kernel", &p);
            }
            t.n("coo_kernel", &[3, 3, 3], U2);
            t.n("coo_kernel", &[3, 3, 4], I4);
            t.t("coo_kernel", &[3, 3, 5], 4);
        }
        // between the compressed formats, and to COO
        "C02" => {
            for h in ["csr_to_coo", "csc_to_coo", "csr_to_csc", "csc_to_csr"] {
                for k in [0, 1] {
                    for p in [[3, 3, 4], [2, 4, 4], [4, 2, 4], [1, 3, 5], [3, 1, 4], [0, 2, 0], [2, 0, 0], [0, 0, 0], [9, 30, 40], [30, 7, 80], [14, 14, 150]] {
                        t.q(h, &[p[0], p[1], p[2], k]);
                    }
                    t.n(h, &[3, 3, 3, k], U2);
                    t.n(h, &[4, 4, 4, k], I4);
                    t.n(h, &[30, 50, 90, k], I8);
                    t.t(h, &[4, 4, 5, k], 4);
                    t.t(h, &[3, 5, 6, k], 8);
                    t.t(h, &[100, 90, 500, k], 1);
                }
            }
        }
        // dense
        "C03" => {
            for w in [0, 1, 2, 3] {
                for p in [[3, 3], [2, 4], [4, 2], [1, 5], [5, 1], [0, 0], [3, 0], [7, 9], [20, 15]] {
                    t.q("from_dense", &[p[0], p[1], w]);
                }
                t.n("from_dense", &[2, 3, w], I4);
                t.t("from_dense", &[3, 4, w], 4);
                t.t("from_dense", &[4, 3, w], 4);
                for k in if w < 2 { vec![0, 1] } else { vec![0] } {
                    for p in [[3, 3, 4], [2, 4, 3], [4, 2, 3], [1, 3, 4], [0, 2, 0], [2, 0, 0], [9, 13, 40], [20, 6, 50]] {
                        t.q("to_dense", &[p[0], p[1], p[2], w, k]);
                    }
                    t.n("to_dense", &[3, 3, 3, w, k], U2);
                    t.n("to_dense", &[3, 3, 3, w, k], I4);
                    t.t("to_dense", &[4, 4, 5, w, k], 8);
                }
            }
        }
        // canonicalisation
        "C04" => {
            for w in [0, 1] {
                for k in [0, 1] {
                    for h in ["sort_indexes", "sum_duplicates"] {
                        for p in [[3, 3, 4], [1, 4, 5], [2, 3, 5], [4, 2, 4], [0, 2, 0], [2, 0, 0], [5, 30, 60], [30, 8, 90], [1, 40, 60]] {
                            t.q(h, &[p[0], p[1], p[2], k, w]);
                        }
                        t.n(h, &[3, 3, 3, k, w], U2);
                        t.n(h, &[3, 4, 4, k, w], I4);
                        t.t(h, &[2, 3, 6, k, w], 4);
                        t.t(h, &[1, 3, 6, k, w], 4);
                        t.t(h, &[60, 60, 400, k, w], 1);
                    }
                }
            }
            for k in [0, 1] {
                for p in [[3, 3, 4], [1, 4, 5], [4, 2, 4], [0, 2, 0], [2, 0, 0], [5, 30, 60], [30, 8, 90]] {
                    t.q("prune", &[p[0], p[1], p[2], k]);
                    t.q("elim_zeros", &[p[0], p[1], p[2], k]);
                    t.q("sum_dup_kernel", &[p[0], p[1], p[2], if p[2] < 13 { k } else { 5 }]);
                }
                t.n("elim_zeros", &[3, 3, 3, k], U2);
                t.n("sum_dup_kernel", &[3, 3, 3, k], U2);
                t.n("sum_dup_kernel", &[3, 3, 4, k], I4);
                t.t("elim_zeros", &[3, 3, 6, k], 4);
                t.t("sum_dup_kernel", &[2, 3, 6, k], 4);
            }
        }
        // predicates
        "C05" => {
            for w in [0, 1, 2] {
                for k in [0, 1] {
                    for p in [[3, 3, 4], [1, 4, 5], [4, 2, 4], [2, 5, 5], [0, 2, 0], [2, 0, 0], [5, 30, 60], [30, 8, 90]] {
                        t.q("predicates", &[p[0], p[1], p[2], k, w]);
                    }
                    t.n("predicates", &[3, 3, 3, k, w], U2);
                    t.n("predicates", &[3, 3, 4, k, w], I4);
                    t.t("predicates", &[4, 4, 6, k, w], 4);
                }
                // canonical inputs: the answer yes is reached on long rows
                for p in [[3, 4, 5], [5, 30, 60], [30, 8, 90]] {
                    t.q("predicates", &[p[0], p[1], p[2], 2, w]);
                }
            }
            for p in [[3, 3, 4], [4, 3, 4], [1, 3, 4]] {
                t.q("canonical_any_ptr", &p);
            }
            t.n("canonical_any_ptr", &[3, 3, 3], U2);
            t.n("canonical_any_ptr", &[3, 3, 4], I4);
            t.t("canonical_any_ptr", &[4, 4, 5], 8);
        }
        // sums and differences
        "C06" => {
            for op in [0, 1] {
                for p in [
                    [2, 2, 2, 2, 1, 1, 0],
                    [2, 3, 2, 2, 2, 2, 1],
                    [2, 3, 2, 2, 2, 0, 0],
                    [1, 3, 3, 2, 0, 0, 0],
                    [1, 3, 2, 3, 3, 3, 0],
                    [3, 1, 2, 2, 0, 1, 0],
                    [2, 2, 4, 0, 0, 0, 0],
                    [2, 2, 0, 4, 0, 0, 0],
                    [2, 3, 3, 1, 2, 2, 0],
                    [2, 3, 1, 3, 2, 2, 0],
                    [2, 2, 3, 1, 0, 0, 0],
                    [2, 2, 1, 3, 0, 0, 0],
                    [0, 2, 0, 0, 0, 0, 1],
                    [2, 0, 0, 0, 0, 0, 1],
                    [6, 20, 40, 1030, 2, 2, 0],
                    [6, 20, 40, 1030, 1, 0, 0],
                    [30, 6, 60, 1050, 0, 0, 0],
                    [30, 6, 60, 1050, 2, 2, 0],
                ] {
                    t.q("csr_addsub", &[p[0], p[1], p[2], p[3], p[4], p[5], op, p[6]]);
                }
                t.n("csr_addsub", &[2, 2, 1, 2, 0, 0, op, 0], U2);
                t.n("csr_addsub", &[2, 2, 2, 2, 2, 2, op, 0], I4);
                t.t("csr_addsub", &[2, 3, 3, 3, 2, 2, op, 1], 8);
                t.t("csr_addsub", &[2, 3, 3, 2, 0, 0, op, 0], 16);
                t.t("csr_addsub", &[2, 2, 3, 3, 0, 0, op, 0], 16);
                t.t("csr_addsub", &[3, 3, 3, 3, 2, 2, op, 0], 16);
            }
            for op in [0, 1, 2, 3] {
                for p in [
                    [2, 2, 2, 2, 0, 0, 0],
                    [3, 2, 2, 2, 2, 2, 1],
                    [3, 1, 3, 2, 0, 0, 0],
                    [2, 2, 4, 0, 0, 0, 0],
                    [2, 2, 0, 4, 0, 0, 0],
                    [3, 2, 3, 1, 2, 2, 0],
                    [3, 2, 1, 3, 2, 2, 0],
                    [2, 2, 3, 1, 0, 0, 0],
                    [2, 2, 1, 3, 0, 0, 0],
                    [0, 2, 0, 0, 0, 0, 1],
                    [2, 0, 0, 0, 0, 0, 1],
                    [20, 6, 40, 1030, 2, 2, 0],
                    [6, 30, 60, 1050, 0, 0, 0],
                ] {
                    t.q("csc_addsub", &[p[0], p[1], p[2], p[3], p[4], p[5], op, p[6]]);
                }
                t.n("csc_addsub", &[2, 2, 2, 2, 2, 2, op, 0], I4);
                t.t("csc_addsub", &[2, 2, 2, 2, 1, 1, op, 1], 4);
                t.t("csc_addsub", &[3, 2, 3, 2, 0, 0, op, 0], 16);
                t.t("csc_addsub", &[3, 3, 3, 3, 2, 2, op, 0], 16);
            }
            for p in [[2, 2, 2, 2, 1], [2, 2, 4, 0, 0], [2, 2, 0, 4, 0], [2, 3, 3, 1, 0], [2, 3, 1, 3, 0], [1, 3, 2, 3, 0], [3, 1, 3, 1, 0], [0, 2, 0, 0, 1], [2, 0, 0, 0, 1], [6, 20, 20, 18, 0]] {
                t.q("coo_add", &p);
            }
            t.n("coo_add", &[2, 2, 1, 2, 0], U2);
            t.n("coo_add", &[2, 3, 2, 1, 0], I4);
            t.t("coo_add", &[2, 3, 2, 3, 1], 8);
            t.t("coo_add", &[3, 3, 3, 2, 0], 8);
            for w in 0..6 {
                t.q("shape_mismatch", &[2, 1, w]);
            }
        }
        // element-wise kernels
        "C07" => {
            for op in 0..14 {
                // products, and what contains them, at 3 bits
                let prod = matches!(op, 6 | 7 | 12 | 13);
                let slow = matches!(op, 10 | 11);
                let mut q = |p: [i64; 6], path: i64| {
                    let v = [p[0], p[1], p[2], p[3], p[4], p[5], op, path];
                    if prod {
                        t.q3("binop", &v, 1)
                    } else {
                        t.q("binop", &v)
                    }
                };
                q([2, 2, 2, if slow { 1 } else { 2 }, 1, 0], 0);
                q([2, 3, 2, 2, 2, 2], 0);
                q([1, 3, 2, 2, 0, 2], 0);
                q([0, 2, 0, 0, 0, 0], 0);
                q([2, 0, 0, 0, 0, 0], 0);
                q([6, 20, 40, 1030, 2, 2], 0);
                q(if slow { [4, 8, 16, 1012, 0, 0] } else { [6, 20, 40, 1030, 0, 0] }, 0);
                q([30, 6, 60, 1050, 2, 0], 0);
                if op == 8 || op == 12 || op == 10 {
                    q([1, 3, 2, 2, 0, 0], 1);
                    q([1, 4, 3, 3, 2, 2], 1);
                    q([1, 4, 3, 3, 2, 2], 2);
                    q([2, 3, 3, 2, 2, 2], 2);
                }
                if op < 6 {
                    t.n("binop", &[2, 2, 2, 1, 0, 0, op, 0], I4);
                } else {
                    t.n3("binop", &[2, 2, 2, 1, 0, 0, op, 0], I4);
                }
                t.n3("binop", &[2, 2, 1, 2, 0, 0, op, 0], U2);
                if prod {
                    t.t3("binop", &[2, 3, 3, 3, 2, 2, op, 0], 8);
                    t.t3("binop", &[2, 2, 3, 2, 0, 0, op, 0], 8);
                } else {
                    t.t("binop", &[2, 3, 3, 3, 2, 2, op, 0], 8);
                    t.t("binop", &[2, 2, 3, 2, 0, 0, op, 0], 16);
                    t.t("binop", &[2, 3, 2, 2, 1, 1, op, 0], 8);
                }
            }
        }
        // matrix * vector
        "C08" => {
            for w in 0..7 {
                for v in if w < 5 { vec![0] } else { vec![1, 2, 3] } {
                    for k in [0, 1] {
                        if w == 4 && k == 1 {
                            continue;
                        }
                        for p in [[3, 3, 3], [2, 4, 4], [4, 2, 3], [1, 3, 4], [3, 1, 3], [0, 2, 0], [2, 0, 0], [10, 20, 40], [30, 7, 60]] {
                            t.q("matvec", &[p[0], p[1], p[2], k, w, v]);
                        }
                        t.n("matvec", &[3, 3, 3, k, w, v], U2);
                        t.n("matvec", &[3, 3, 3, k, w, v], I4);
                        t.t("matvec", &[3, 3, 5, k, w, v], 2);
                        t.t("matvec", &[4, 4, 4, k, w, v], 2);
                    }
                }
                if w >= 5 {
                    for v in [4, 5, 6, 7, 8, 9, 11, 15, 16, 17, 33] {
                        t.q("matvec", &[2, 3, 3, 1, w, v]);
                        t.q("matvec", &[3, 2, 13, 0, w, v]);
                    }
                }
            }
            t.q("shape_mismatch", &[2, 1, 8]);
            t.t("shape_mismatch", &[3, 1, 8], 2);
        }
        // matrix * matrix
        "C09" => {
            for w in [0, 1, 2] {
                for p in [
                    [2, 2, 2, 2, 2, 1, 1, 1],
                    [2, 2, 2, 3, 3, 2, 2, 0],
                    [1, 3, 2, 3, 2, 0, 0, 0],
                    [3, 1, 3, 2, 2, 0, 0, 0],
                    [2, 3, 1, 2, 3, 2, 2, 0],
                    [3, 2, 3, 2, 2, 0, 0, 0],
                    [0, 2, 2, 0, 2, 0, 0, 1],
                    [2, 0, 2, 0, 0, 0, 0, 1],
                    [2, 2, 0, 2, 0, 0, 0, 1],
                    [8, 20, 9, 40, 1030, 0, 0, 0],
                    [12, 5, 6, 16, 1014, 0, 0, 0],
                    [5, 6, 12, 14, 1014, 1, 0, 0],
                ] {
                    t.q3("matmat", &[p[0], p[1], p[2], p[3], p[4], p[5], p[6], w, p[7]], 1);
                }
                t.n3("matmat", &[1, 2, 2, 2, 2, 0, 0, w, 0], U2);
                t.n3("matmat", &[2, 2, 2, 2, 2, 0, 0, w, 0], U3);
                t.n3("matmat", &[2, 2, 2, 2, 2, 0, 0, w, 0], I4);
                t.t3("matmat", &[20, 5, 6, 30, 1014, 0, 0, w, 0], 1);
                t.t3("matmat", &[5, 6, 20, 20, 1020, 1, 0, w, 0], 1);
                t.t3("matmat", &[2, 3, 2, 3, 3, 0, 0, w, 0], 16);
                t.t3("matmat", &[3, 3, 3, 3, 3, 2, 2, w, 0], 16);
                t.t3("matmat", &[2, 2, 2, 3, 3, 1, 1, w, 0], 16);
            }
            for w in [6, 7] {
                t.q("shape_mismatch", &[2, 1, w]);
                t.t("shape_mismatch", &[2, 2, w], 4);
            }
        }
        // scaling and negation
        "C10" => {
            for w in 0..5 {
                for k in if w == 2 { vec![0] } else { vec![0, 1] } {
                    for p in [[3, 3, 3], [2, 4, 4], [4, 2, 3], [1, 3, 4], [0, 2, 0], [2, 0, 0], [10, 20, 40], [30, 7, 60]] {
                        t.q("scale", &[p[0], p[1], p[2], k, w]);
                    }
                    t.n("scale", &[3, 3, 3, k, w], U2);
                    t.n("scale", &[3, 3, 3, k, w], I4);
                    t.t("scale", &[3, 3, 5, k, w], 2);
                }
            }
            for w in [0, 1] {
                for p in [[2, 3, 3, 0], [3, 2, 3, 1], [0, 2, 0, 0], [10, 20, 40, 0]] {
                    t.q("scale_c64", &[p[0], p[1], p[2], p[3], w]);
                }
                t.n("scale_c64", &[3, 3, 3, 1, w], U2);
            }
        }
        // transposition
        "C11" => {
            for w in 0..3 {
                for k in if w == 2 { vec![0] } else { vec![0, 1] } {
                    for p in [[3, 3, 4], [2, 4, 4], [4, 2, 4], [1, 3, 4], [0, 2, 0], [2, 0, 0], [0, 0, 0], [10, 20, 40], [30, 7, 60]] {
                        t.q("transpose", &[p[0], p[1], p[2], k, w]);
                    }
                    t.n("transpose", &[3, 3, 3, k, w], U2);
                    t.n("transpose", &[3, 3, 3, k, w], I4);
                    t.t("transpose", &[4, 4, 6, k, w], 2);
                }
            }
        }
        // selection and element access
        "C12" => {
            for p in [[2, 3, 4, 0], [3, 2, 4, 1], [1, 4, 5, 0], [3, 3, 3, 1], [0, 2, 0, 0], [2, 0, 0, 0], [6, 12, 30, 0], [12, 5, 30, 1]] {
                t.q("get", &p);
            }
            t.n("get", &[3, 3, 3, 1], U2);
            t.n("get", &[3, 3, 3, 0], I4);
            t.t("get", &[3, 3, 5, 0], 8);
            for w in [0, 1] {
                for (mode, k) in [(0, 2), (1, 2), (2, 2), (3, 0)] {
                    for s in [0, 1] {
                        t.q("select", &[2, 3, 3, k, w, s, mode]);
                        t.q("select", &[3, 2, 3, k, w, s, mode]);
                        t.q("select", &[1, 4, 3, k, w, s, mode]);
                        t.q("select", &[5, 9, 20, k, w, s, mode]);
                        t.t("select", &[3, 3, 3, k + (k > 0) as i64, w, s, mode], 8);
                    }
                    t.q("select", &[0, 2, 0, 0, w, 0, mode]);
                    t.q("select", &[2, 0, 0, 0, w, 0, mode]);
                    t.n("select", &[3, 3, 3, k, w, 0, mode], U3);
                    t.n("select", &[3, 3, 3, k / 2, w, 0, mode], U2);
                    t.n("select", &[3, 3, 3, k, w, 1, mode], I4);
                }
                // long index lists, repeats and permutations on one axis
                t.qp("select", &[2, 2, 2, 3, w, 0, 0], 2);
                t.q("select_reject", &[2, 2, 2, 1, w]);
                t.q("select_reject", &[2, 3, 3, 1, w]);
                t.n("select_reject", &[2, 3, 2, 1, w], I4);
                t.n("select_reject", &[2, 3, 2, 1, w], U2);
                t.t("select_reject", &[2, 3, 3, 2, w], 8);
            }
        }
        // slicing kernels
        "C13" => {
            for k in [0, 1] {
                for p in [[2, 3, 3], [3, 2, 3], [1, 4, 4]] {
                    t.q("slices", &[p[0], p[1], p[2], k, 0, 0]);
                }
                t.q("slices", &[4, 6, 13, k, 0, 0]);
                t.t("slices", &[5, 9, 20, k, 0, 0], 2);
                for w in [1, 2] {
                    for p in [[3, 3, 4], [2, 4, 4], [4, 2, 3], [6, 12, 30]] {
                        t.q("slices", &[p[0], p[1], p[2], k, w, 0]);
                    }
                    t.n("slices", &[3, 3, 3, k, w, 0], U2);
                }
                for p in [[2, 3, 3], [3, 2, 3], [2, 2, 3], [1, 3, 4], [4, 4, 20]] {
                    t.q("slices", &[p[0], p[1], p[2], k, 3, 2]);
                }
                for p in [[1, 9, 13, 2], [3, 12, 20, 1], [5, 7, 24, 2], [2, 20, 30, 1]] {
                    t.q("slices", &[p[0], p[1], p[2], k, 3, p[3]]);
                }
                t.n("slices", &[2, 3, 3, k, 0, 0], U2);
                t.n("slices", &[2, 3, 3, k, 0, 0], I4);
                t.n("slices", &[2, 3, 3, k, 3, 2], U3);
                t.t("slices", &[3, 3, 3, k, 0, 0], 8);
                t.t("slices", &[3, 3, 4, k, 3, 3], 8);
            }
            for w in [0, 2] {
                t.q("slices", &[0, 2, 0, 0, w, 0]);
            }
            t.q("slices", &[2, 0, 0, 0, 0, 0]);
        }
        // diagonals
        "C14" => {
            for w in 0..7 {
                let kinds = if w == 2 || w >= 5 { vec![0] } else { vec![0, 1] };
                for k in kinds {
                    for p in [[3, 3, 4], [2, 4, 4], [4, 2, 4], [1, 3, 4], [0, 2, 0], [2, 0, 0], [8, 8, 30], [12, 5, 30]] {
                        t.q("diagonals", &[p[0], p[1], p[2], k, w]);
                    }
                    t.n("diagonals", &[3, 3, 3, k, w], U2);
                    t.n("diagonals", &[3, 3, 3, k, w], I4);
                    t.n("diagonals", &[4, 3, 3, k, w], U3);
                    t.t("diagonals", &[3, 4, 5, k, w], 2);
                    t.t("diagonals", &[20, 20, 60, k, w], 2);
                }
            }
        }
        // stacking
        "C15" => {
            for p in [[2, 2, 0, 0], [2, 2, 1, 0], [2, 1, 2, 0], [2, 1, 3, 0], [2, 1, 4, 0], [2, 2, 5, 0], [2, 2, 5, 1]] {
                t.q("stack", &p);
            }
            t.q("stack", &[1, 1, 6, 0]);
            t.q("stack", &[1, 0, 7, 0]);
            t.q("stack", &[1, 1, 8, 0]);
            t.t("stack", &[1, 1, 7, 0], 8);
            t.q("stack", &[4, 14, 0, 0]);
            t.q("stack", &[3, 14, 1, 0]);
            t.q("stack", &[3, 14, 5, 0]);
            for w in 0..6 {
                t.n("stack", &[1, 1, w, 0], U3);
                t.n("stack", &[2, 1, w, 0], I4);
            }
            t.t("stack", &[3, 2, 0, 0], 4);
            t.t("stack", &[3, 2, 1, 0], 8);
            t.t("stack", &[2, 2, 2, 0], 8);
            t.t("stack", &[2, 2, 4, 0], 16);
            t.t("stack", &[3, 3, 5, 1], 16);
        }
        // dictionary of keys
        "C16" => {
            for e in [0, 1] {
                t.q("dok", &[2, 2, 2, e]);
                t.q("dok", &[1, 3, 2, e]);
                t.q("dok", &[3, 1, 2, e]);
                t.q("dok", &[3, 3, 1, e]);
                t.q("dok", &[0, 2, 1, e]);
                t.q("dok", &[2, 0, 1, e]);
                t.n("dok", &[2, 2, 2, e], I4);
                t.n("dok", &[3, 3, 1, e], U2);
                t.t("dok", &[2, 2, 3, e], 16);
                t.t("dok", &[3, 2, 3, e], 32);
            }
            t.qp("dok", &[1, 2, 3, 0], 8);
            t.qp("dok", &[2, 1, 3, 1], 8);
        }
        // constructors
        "C17" => {
            for w in 0..4 {
                t.q("construct", &[2, 2, w]);
                t.q("construct", &[3, 3, w]);
                t.n("construct", &[2, 2, w], U2);
                t.n("construct", &[2, 2, w], I4);
                t.t("construct", &[4, 5, w], 8);
            }
        }
        // weakly connected components
        "C18" => {
            for w in 0..3 {
                for p in [[3, 4, 0], [3, 3, 1], [4, 4, 2], [2, 3, 0], [1, 2, 0], [0, 0, 0], [12, 14, 0], [20, 60, 1], [40, 45, 0]] {
                    t.q("weak", &[p[0], p[1], p[2], w]);
                }
                t.n("weak", &[3, 3, 0, w], U2);
                t.n("weak", &[4, 3, 0, w], I4);
                t.t("weak", &[4, 5, 0, w], 16);
                t.t("weak", &[5, 4, 0, w], 16);
            }
            for b in (0..graphs::BASES as i64).map(|b| b + 10) {
                t.q("weak", &[9, 2, b, 0]);
                t.t("weak", &[12, 3, b, 1], 4);
                t.t("weak", &[30, 1, b, 0], 1);
            }
            t.q("square", &[2, 1]);
        }
        // strongly connected components
        "C19" => {
            for p in [[3, 4, 0], [3, 4, 1], [4, 4, 2], [3, 6, 2], [2, 4, 0], [1, 2, 0], [0, 0, 0], [12, 14, 0], [12, 40, 0], [20, 30, 1], [40, 60, 0]] {
                t.q("strong", &p);
            }
            t.qp("strong", &[4, 5, 2], 8);
            t.n("strong", &[3, 3, 0], U2);
            t.n("strong", &[4, 4, 0], U3);
            t.n("strong", &[4, 3, 0], I4);
            for b in (0..graphs::BASES as i64).map(|b| b + 10) {
                t.q("strong", &[8, 3, b]);
                t.n("strong", &[7, 2, b], I4);
                t.t("strong", &[10, 4, b], 16);
                t.t("strong", &[30, 2, b], 1);
            }
            t.q("square", &[2, 1]);
            t.t("strong", &[4, 6, 2], 16);
            t.t("strong", &[4, 5, 0], 16);
            t.t("strong", &[5, 5, 2], 32);
        }
        // depth-first order
        "C20" => {
            for d in [0, 1] {
                for p in [[3, 4, 0], [3, 4, 1], [4, 3, 2], [2, 3, 0], [1, 2, 0], [12, 14, 0], [12, 30, 0], [20, 25, 1]] {
                    t.q("dfs", &[p[0], p[1], p[2], d]);
                }
                t.qp("dfs", &[4, 4, 2, d], 8);
                for b in (0..graphs::BASES as i64).map(|b| b + 10) {
                    t.q("dfs", &[8, 2, b, d]);
                    t.t("dfs", &[10, 3, b, d], 8);
                    t.t("dfs", &[25, 1, b, d], 1);
                }
                t.n("dfs", &[3, 3, 0, d], U2);
                t.n("dfs", &[4, 3, 0, d], I4);
                t.t("dfs", &[4, 5, 0, d], 16);
                t.t("dfs", &[5, 4, 2, d], 16);
            }
            t.q("square", &[2, 1]);
        }
        "C21" => {
            for p in [[3, 4, 0], [3, 4, 1], [4, 4, 2], [2, 4, 0], [1, 2, 0], [0, 0, 0], [3, 6, 2], [4, 6, 2]] {
                t.q("cs_components", &p);
            }
            t.n("cs_components", &[3, 3, 0], U3);
            t.n("cs_components", &[4, 4, 0], U3);
            t.n("cs_components", &[4, 4, 0], I4);
            for b in (0..graphs::BASES as i64).map(|b| b + 10) {
                t.q("cs_components", &[8, 3, b]);
                t.q("cs_components", &[16, 2, b]);
                t.n("cs_components", &[7, 2, b], I4);
                t.t("cs_components", &[10, 5, b], 8);
            }
            t.q("square", &[2, 1]);
            t.t("cs_components", &[5, 6, 2], 16);
            t.t("cs_components", &[4, 8, 2], 16);
        }
        // text
        "C22" => {
            for w in 0..4 {
                for k in if w < 2 { vec![0, 1] } else { vec![0] } {
                    for p in [[3, 3, 3], [2, 4, 2], [4, 2, 3], [1, 3, 4], [0, 2, 0], [2, 0, 0], [12, 3, 2], [2, 11, 2], [12, 3, 20], [3, 12, 30]] {
                        t.q("listing", &[p[0], p[1], p[2], k, w]);
                    }
                    t.n("listing", &[3, 3, 2, k, w], I4);
                }
            }
            t.q("table_class", &[0]);
            t.q("table_class", &[1]);
            for w in 0..6 {
                for p in [[3, 3, 4, 2], [2, 4, 4, 3], [3, 2, 4, 4], [1, 3, 3, 2], [0, 2, 0, 2], [2, 1, 2, 2], [4, 12, 20, 2], [12, 4, 20, 4]] {
                    t.q("table", &[p[0], p[1], p[2], p[3], w]);
                }
            }
            for w in 0..4 {
                for k in if w < 2 { vec![0, 1] } else if w == 3 { vec![2, 3, 4] } else { vec![0] } {
                    for p in [[3, 3, 3], [2, 4, 3], [4, 2, 3], [1, 4, 4], [0, 2, 0], [2, 0, 0], [12, 3, 20], [3, 15, 30]] {
                        t.q("listing_any", &[p[0], p[1], p[2], k, w]);
                    }
                    t.n("listing_any", &[3, 3, 3, k, w], U2);
                }
            }
        }
        // complex views
        "C23" => {
            for w in 0..3 {
                for k in if w < 2 { vec![0, 1] } else { vec![0] } {
                    for p in [[3, 3, 3], [2, 4, 3], [4, 2, 3], [1, 3, 3], [0, 2, 0], [2, 0, 0], [10, 20, 30]] {
                        t.q("views", &[p[0], p[1], p[2], k, w]);
                    }
                    t.n("views", &[3, 3, 3, k, w], U2);
                    t.n("views", &[3, 3, 3, k, w], I4);
                    t.t("views", &[4, 4, 4, k, w], 2);
                }
            }
        }
        // structural kernels
        "C24" => {
            for w in 0..3 {
                for k in [0, 1] {
                    for p in [[3, 3, 4], [2, 4, 4], [4, 2, 4], [1, 3, 4], [0, 2, 0], [2, 0, 0], [10, 20, 40], [30, 6, 50]] {
                        t.q("aux", &[p[0], p[1], p[2], k, w]);
                    }
                    t.n("aux", &[3, 3, 3, k, w], U2);
                    t.n("aux", &[3, 3, 4, k, w], I4);
                    t.t("aux", &[4, 4, 6, k, w], 4);
                }
            }
        }
        // results do not depend on the width of the index type
        "C25" => {
            for r in [U2, U3, I4] {
                let top = r.1 as i64;
                let d = if top == 3 { 3 } else { 4 };
                let n = if top == 3 { 3 } else { 4 };
                for h in ["coo_to_csr", "coo_to_csc", "coo_kernel"] {
                    t.n(h, &[d, 2, n], r);
                    t.n(h, &[2, top, 3], r);
                    t.n(h, &[top, 1, 3], r);
                }
                for h in ["csr_to_coo", "csc_to_coo", "csr_to_csc", "csc_to_csr"] {
                    t.n(h, &[d, 2, n, 0], r);
                    t.n(h, &[2, top, 3, 1], r);
                    t.n(h, &[top, 2, 2, 0], r);
                }
                for h in ["sort_indexes", "sum_duplicates"] {
                    t.n(h, &[2, top, 3, 0, 0], r);
                    t.n(h, &[top, 2, 2, 0, 1], r);
                }
                for w in [0, 1, 2] {
                    t.n("predicates", &[2, top, 3, 0, w], r);
                    t.n("predicates", &[top, 2, 2, 1, w], r);
                }
                t.n("canonical_any_ptr", &[2, top, 3], r);
                t.n("csr_addsub", &[2, top, 1, 2, 2, 2, 0, 0], r);
                t.n("csr_addsub", &[top, 2, 1, 2, 0, 0, 1, 0], r);
                t.n("csc_addsub", &[2, top, 1, 2, 2, 2, 0, 0], r);
                t.n("coo_add", &[2, top, 1, 2, 0], r);
                // more entries in the operands together than the type can count; the result fits
                for op in 0..2 {
                    for (k, l) in [(0, 0), (2, 2)] {
                        t.n("csr_addsub", &[1, 3, 3, 2, k, l, op, 0], r);
                        t.n("csc_addsub", &[3, 1, 2, 3, k, l, op, 0], r);
                        t.n("csc_addsub", &[3, 1, 3, 2, k, l, op + 2, 0], r);
                        if top > 3 && k == 2 {
                            t.n("csr_addsub", &[1, 7, 1005, 1005, k, l, op, 0], r);
                        }
                    }
                }
                t.n("coo_add", &[3, 1, 2, 3, 0], r);
                for w in 0..3 {
                    t.n3("matmat", &[1, 3, 1, 3, 3, 0, 0, w, 0], r);
                    t.n3("matmat", &[1, 2, 2, 2, 2, 0, 0, w, 0], r);
                }
                for op in [0, 8] {
                    t.n("binop", &[1, 3, 3, 2, 0, 0, op, 0], r);
                    t.n("binop", &[3, 1, 2, 3, 2, 2, op, 0], r);
                }
                t.n3("matmat", &[2, 2, top, 2, 1, 0, 0, 0, 0], r);
                t.n3("matmat", &[top, 2, 2, 2, 1, 0, 0, 1, 0], r);
                t.n("stack", &[1, 1, 0, 0], r);
                t.n("stack", &[1, 1, 1, 0], r);
                if top > 3 {
                    t.n("stack", &[1, 1, 4, 0], r);
                }
                t.n("stack", &[1, 1, 5, 0], r);
                t.n("diagonals", &[top, 2, 2, 0, 3], r);
                t.n("diagonals", &[2, top, 2, 0, 5], r);
                t.n("diagonals", &[top, 2, 2, 0, 5], r);
                t.n("diagonals", &[d, d, 0, 0, 6], r);
                t.n("aux", &[top, 2, 3, 0, 0], r);
                t.n("aux", &[2, top, 3, 0, 1], r);
                t.n("get", &[2, top, 3, 0], r);
                t.n("select", &[2, top, 2, 1, 0, 0, 0], r);
                t.n("select", &[top, 2, 2, 1, 1, 0, 0], r);
                t.n("slices", &[2, 3, 2, 0, 0, 0], r);
                t.n("slices", &[2, 3, if top > 3 { 2 } else { 1 }, 0, 3, 2], r);
                t.n("weak", &[3, 3, 0, 0], r);
                t.n("strong", &[3, 3, 0], r);
                t.n("dfs", &[3, 3, 0, 1], r);
                t.n("dfs", &[3, 3, 0, 0], r);
                t.n("cs_components", &[3, 2, 0], r);
                t.n("dok", &[2, 2, 1, 1], r);
                for w in 0..7 {
                    for v in if w < 5 { vec![0] } else { vec![1, 2] } {
                        t.n("matvec", &[2, top, 2, 0, w, v], r);
                        t.n("matvec", &[top, 2, 2, 0, w, v], r);
                    }
                }
                for w in 0..5 {
                    t.n3("scale", &[2, top, n, 0, w], r);
                    t.n3("scale", &[top, 2, 2, 0, w], r);
                }
                for w in 0..3 {
                    t.n("transpose", &[2, top, n, 0, w], r);
                    t.n("transpose", &[top, 2, 2, 0, w], r);
                    t.n("views", &[top, 2, 2, 0, w], r);
                    t.n("views", &[2, top, 2, 0, w], r);
                }
                for w in 0..4 {
                    t.n("construct", &[2, 2, w], r);
                    t.n("to_dense", &[2, top, 2, w, 0], r);
                    t.n("to_dense", &[top, 2, 2, w, 0], r);
                    t.n("from_dense", &[1, top, w], r);
                    t.n("from_dense", &[top, 1, w], r);
                    t.n("listing_any", &[2, top, 2, if w == 3 { 2 } else { 0 }, w], r);
                    t.n("listing_any", &[top, 2, 2, if w == 3 { 2 } else { 0 }, w], r);
                }
                t.n("prune", &[top, 2, 2, 1], r);
                t.n("elim_zeros", &[2, top, 3, 1], r);
                t.n("sum_dup_kernel", &[2, top, 3, 1], r);
                for op in [0, 4, 8, 10, 12] {
                    t.n3("binop", &[2, top, 1, 1, 0, 0, op, 0], r);
                    t.n3("binop", &[top, 2, 1, 1, 2, 2, op, 0], r);
                }
                t.n3("matmat", &[2, 2, top, 2, 1, 0, 0, 2, 0], r);
                t.n3("matmat", &[2, top, 2, 2, 1, 0, 0, 1, 0], r);
                for w in 1..3 {
                    t.n("slices", &[top, 2, 2, 0, w, 0], r);
                    t.n("slices", &[2, top, 2, 0, w, 0], r);
                }
            }
            // templates in 8-bit index types: as many entries as fit, shapes up to the largest
            // value or with more positions than fit
            for r in [U8, I8] {
                let top = r.1 as i64;
                for (a, b, n) in [(top, 2, 40), (2, top, 40), (18, 18, 60), (6, 5, top)] {
                    for h in ["coo_to_csr", "coo_to_csc", "coo_kernel"] {
                        t.n(h, &[a, b, n], r);
                    }
                    for h in ["csr_to_coo", "csc_to_coo", "csr_to_csc", "csc_to_csr"] {
                        t.n(h, &[a, b, n, 0], r);
                    }
                    for w in [0, 1] {
                        t.n("sort_indexes", &[a, b, n, 0, w], r);
                        t.n("sum_duplicates", &[a, b, n, 0, w], r);
                    }
                    for w in 0..3 {
                        t.n("predicates", &[a, b, n, 0, w], r);
                        t.n("transpose", &[a, b, n, 0, w], r);
                        t.n("aux", &[a, b, n, 0, w], r);
                    }
                    for w in [3, 5, 6] {
                        if (w, b) != (3, top) && (w, a) != (6, top) {
                            t.n("diagonals", &[a, b, 20, 0, w], r);
                        }
                    }
                    t.n("get", &[a, b, 30, 0], r);
                    t.n("prune", &[a, b, n, 1], r);
                    t.n("csr_addsub", &[a, b, 40, 1030, 2, 2, 0, 0], r);
                    t.n("csr_addsub", &[a, b, 16, 1012, 0, 0, 1, 0], r);
                    t.n("csc_addsub", &[a, b, 16, 1012, 0, 0, 0, 0], r);
                }
                for k in [0, 2] {
                    let n = if r.0 < 0 { 1090 } else { 1180 };
                    for op in 0..2 {
                        t.n("csr_addsub", &[3, 70, n, n, k, k, op, 0], r);
                        t.n("csc_addsub", &[70, 3, n, n, k, k, op + 2, 0], r);
                        t.n("csc_addsub", &[70, 3, n, n, k, k, op, 0], r);
                    }
                }
                for w in 0..3 {
                    t.n3("matmat", &[3, 40, 3, 1110, 1110, 0, 0, w, 0], r);
                }
                t.n3("matmat", &[18, 18, 18, 20, 1020, 0, 0, 0, 0], r);
                t.n3("matmat", &[top, 2, 3, 14, 1014, 0, 0, 0, 0], r);
                t.n3("matmat", &[3, 2, top, 14, 1014, 0, 0, 0, 0], r);
                for w in 0..3 {
                    t.n("weak", &[40, 90, 0, w], r);
                }
                t.n("strong", &[40, 90, 0], r);
                for d in [0, 1] {
                    t.n("dfs", &[30, 60, 0, d], r);
                }
            }
        }
        // prior contents of output arrays
        "C27" => {
            for w in 0..7 {
                t.q("matvec", &[2, 3, 3, 0, w, if w < 5 { 0 } else { 2 }]);
                t.q("matvec", &[9, 20, 30, 0, w, if w < 5 { 0 } else { 3 }]);
            }
            for w in 0..4 {
                t.q("to_dense", &[2, 3, 3, w, 0]);
                t.q("to_dense", &[9, 13, 40, w, 0]);
            }
            for w in 0..10 {
                for k in [0, 1] {
                    if (3..6).contains(&w) {
                        // two matrices
                        for p in [[2, 2, 2, 1], [1, 3, 2, 1], [6, 8, 16, 1016], [10, 20, 30, 1030]] {
                            t.q3("buffers", &[p[0], p[1], p[2], k, w, p[3]], 1);
                        }
                    } else {
                        for p in [[2, 3, 3], [3, 2, 3], [1, 3, 2], [6, 8, 16], [12, 7, 28]] {
                            t.q3("buffers", &[p[0], p[1], p[2], k, w, 0], 1);
                        }
                    }
                    t.n3("buffers", &[2, 2, if (3..6).contains(&w) { 1 } else { 2 }, k, w, 1], if w < 6 { U2 } else { U3 });
                    t.n3("buffers", &[3, 3, 2, k, w, 1], I4);
                    t.t3("buffers", &[3, 3, 4, k, w, 2], 4);
                    t.t3("buffers", &[2, 3, 3, k, w, 3], 4);
                }
            }
        }
        _ => {}
    }
}

/// Long templates: a hundred entries with a symbolic index each (kept near its place), or eleven
/// hundred entries of fixed structure, so that lengths go beyond any small constant in the code.
fn huge(t: &mut Table, prop: &str) {
    match prop {
        "C01" => {
            for h in ["coo_to_csr", "coo_to_csc", "coo_kernel"] {
                for p in [[8, 3, 3020], [4, 6, 3040], [9, 5, 3070], [40, 4, 3030]] {
                    t.q(h, &p);
                }
            }
            for h in ["coo_to_csr", "coo_to_csc", "coo_kernel"] {
                t.q(h, &[300, 5, 2100]);
                t.q(h, &[5, 300, 2100]);
                t.q(h, &[40, 70, 2101]);
            }
        }
        "C02" => {
            for h in ["csr_to_csc", "csc_to_csr"] {
                for p in [[6, 6, 3016], [5, 12, 3030], [12, 5, 3030], [2, 70, 3070]] {
                    t.q(h, &[p[0], p[1], p[2], 0]);
                }
            }
            for h in ["csr_to_csc", "csc_to_csr", "csr_to_coo", "csc_to_coo"] {
                t.q(h, &[300, 5, 2100, 0]);
                t.q(h, &[5, 300, 2100, 1]);
                t.q(h, &[1100, 3, 2100, 0]);
            }
        }
        "C03" => {
            for w in 0..4 {
                t.q("from_dense", &[300, 5, w]);
                t.q("from_dense", &[5, 300, w]);
                t.q("to_dense", &[300, 5, 2100, w, 0]);
                t.q("to_dense", &[5, 300, 2101, w, 0]);
            }
        }
        "C04" => {
            for w in [0, 1] {
                for h in ["sort_indexes", "sum_duplicates"] {
                    t.q(h, &[3, 20, 3040, 0, w]);
                    t.q(h, &[20, 3, 3040, 1, w]);
                    t.q(h, &[2, 70, 3060, 0, w]);
                }
            }
            for w in [0, 1] {
                for h in ["sort_indexes", "sum_duplicates"] {
                    t.q(h, &[300, 5, 2100, 0, w]);
                    t.q(h, &[3, 300, 2101, 1, w]);
                }
            }
            for k in [0, 1] {
                t.q("prune", &[300, 5, 2100, k]);
                t.q("sum_dup_kernel", &[300, 5, 2100, 5]);
            }
            t.q("elim_zeros", &[300, 5, 2100, 1]);
        }
        "C05" => {
            for w in 0..3 {
                for p in [[2, 70, 3070], [70, 2, 3080], [1, 300, 3200], [10, 12, 3080]] {
                    for k in [0, 1, 2, 5] {
                        t.q("predicates", &[p[0], p[1], p[2], k, w]);
                        t.q("predicates", &[p[1], p[0], p[2], k, w]);
                    }
                }
            }
            for w in 0..3 {
                for k in [0, 2, 5] {
                    for n in [2100, 2101, 2102, 2103] {
                        t.q("predicates", &[7, 300, n, k, w]);
                        t.q("predicates", &[300, 7, n, k, w]);
                    }
                }
            }
        }
        "C06" => {
            for op in [0, 1] {
                t.q("csr_addsub", &[2, 16, 3020, 1008, 0, 0, op, 0]);
                t.q("csr_addsub", &[2, 16, 1008, 3020, 0, 0, op, 0]);
                t.q("csc_addsub", &[16, 2, 3020, 1008, 0, 0, op, 0]);
            }
            for op in [0, 1] {
                t.q("csr_addsub", &[7, 70, 2100, 1400, 2, 2, op, 0]);
                t.q("csr_addsub", &[7, 70, 2100, 1400, 0, 0, op, 0]);
                t.q("csr_addsub", &[3, 300, 2100, 1300, 2, 2, op, 0]);
                t.q("csr_addsub", &[7, 300, 1900, 1900, 0, 0, op, 0]);
                t.q("csr_addsub", &[7, 300, 1900, 1900, 2, 0, op, 0]);
                t.q("csc_addsub", &[300, 7, 1900, 1900, 0, 0, op, 0]);
            }
            for op in 0..4 {
                t.q("csc_addsub", &[70, 7, 2100, 1300, 2, 2, op, 0]);
            }
        }
        "C08" => {
            for w in 0..7 {
                let v = if w < 5 { 0 } else { 3 };
                t.q("matvec", &[300, 7, 2100, 0, w, v]);
                t.q("matvec", &[7, 300, 2100, 0, w, v]);
            }
        }
        "C10" => {
            for w in 0..5 {
                t.q("scale", &[300, 5, 2100, 0, w]);
                t.q("scale", &[5, 300, 2101, 0, w]);
            }
        }
        "C11" => {
            for w in 0..3 {
                t.q("transpose", &[4, 10, 3030, 0, w]);
                t.q("transpose", &[10, 4, 3030, 0, w]);
            }
            for w in 0..3 {
                t.q("transpose", &[300, 5, 2100, 0, w]);
                t.q("transpose", &[5, 300, 2101, 0, w]);
            }
        }
        "C09" => {
            for w in 0..3 {
                for p in [[30, 70, 30, 1150, 1150], [8, 100, 8, 1150, 1150], [40, 20, 50, 1060, 1060], [8, 20, 9, 1060, 1040]] {
                    t.q3("matmat", &[p[0], p[1], p[2], p[3], p[4], 0, 0, w, 0], 1);
                }
            }
        }
        "C12" => {
            t.q("get", &[2, 40, 3050, 0]);
            t.q("get", &[300, 7, 2000, 0]);
            for w in [0, 1] {
                let f = |a: i64, b: i64| if w == 0 { (a, b) } else { (b, a) };
                let (a, b) = f(12, 30);
                t.q("select", &[a, b, 1060, 1020, w, 0, 0]);
                let (a, b) = f(12, 70);
                t.q("select", &[a, b, 1200, 1070, w, 1, 2 - w]);
                t.q("select", &[a, b, 1200, 1030, w, 0, 0]);
            }
        }
        "C13" => {
            for k in [0, 1] {
                for w in [1, 3] {
                    t.q("slices", &[9, 30, 1060, k, w, 1040]);
                    t.q("slices", &[7, 40, 1100, k, w, 1070]);
                }
                t.q("slices", &[9, 30, 60, k, 1, 1020]);
                t.q("slices", &[9, 12, 50, k, 3, 1020]);
            }
        }
        "C16" => {
            for e in [0, 1] {
                t.q("dok", &[5, 6, 3001, e]);
                t.q("dok", &[9, 9, 12001, e]);
                t.t("dok", &[5, 6, 3002, e], 8);
            }
            t.q("dok", &[3, 3, 602, 0]);
        }
        "C18" => {
            for w in 0..3 {
                t.q("weak", &[300, 1, 10, w]);
                t.q("weak", &[130, 1, 12, w]);
            }
        }
        "C07" => {
            for op in 0..14 {
                let v = [5, 70, 2070, 1100, 2, 2, op, 0];
                if matches!(op, 6 | 7 | 12 | 13) {
                    t.q3("binop", &v, 1);
                } else {
                    t.q("binop", &v);
                }
            }
            t.q("binop", &[5, 70, 2070, 1100, 0, 0, 8, 0]);
        }
        "C14" => {
            for w in 0..7 {
                t.q("diagonals", &[70, 70, if w == 3 || w == 4 { 25 } else { 2070 }, 0, w]);
                if w != 3 && w != 4 && w != 6 {
                    t.q("diagonals", &[300, 5, 2100, 0, w]);
                    t.q("diagonals", &[5, 300, 2100, 0, w]);
                }
            }
        }
        "C15" => {
            for w in [0, 1, 5] {
                t.q("stack", &[3, 70, w, 0]);
            }
        }
        "C19" => {
            t.q("strong", &[130, 1, 13]);
            t.q("strong", &[300, 1, 10]);
        }
        "C20" => {
            t.q("dfs", &[40, 1, 12, 0]);
            t.q("dfs", &[40, 1, 13, 1]);
        }
        "C21" => {
            for b in 10..14 {
                t.q("cs_components", &[130, 1, b]);
            }
        }
        "C22" => {
            for w in 0..4 {
                let k = if w == 3 { 2 } else { 0 };
                t.q("listing_any", &[300, 3, 2100, k, w]);
                t.q("listing_any", &[3, 300, 2100, k, w]);
            }
            for w in 0..6 {
                t.q("table", &[300, 3, 2100, 2, w]);
                t.q("table", &[3, 300, 2100, 2, w]);
            }
        }
        "C27" => {
            for w in [0, 1, 2, 8, 9] {
                t.q("buffers", &[100, 5, 2060, 0, w, 0]);
                t.q("buffers", &[5, 100, 2060, 0, w, 0]);
            }
        }
        "C23" => {
            for w in 0..3 {
                t.q("views", &[150, 5, 2050, 0, w]);
                t.q("views", &[5, 150, 2051, 0, w]);
            }
        }
        "C24" => {
            for w in 0..3 {
                t.q("aux", &[300, 5, 2100, 1, w]);
                t.q("aux", &[5, 300, 2101, 0, w]);
            }
        }
        _ => {}
    }
}

/// Shapes of more than 65536 rows or columns with fixed positions and a symbolic value: nothing
/// narrows a row or a column number on the way.
fn wide(t: &mut Table, prop: &str) {
    const W: i64 = 70000;
    let both = [(W, 2), (2, W)];
    match prop {
        "C01" => {
            for (r, c) in both {
                for h in ["coo_to_csr", "coo_to_csc", "coo_kernel"] {
                    t.q(h, &[r, c, 14]);
                }
            }
        }
        "C02" => {
            for (r, c) in both {
                for h in ["csr_to_coo", "csc_to_coo", "csr_to_csc", "csc_to_csr"] {
                    t.q(h, &[r, c, 1012, 0]);
                }
            }
        }
        "C03" => {
            for (r, c) in both {
                for w in 0..2 {
                    t.q("from_dense", &[r, c, w]);
                }
                for w in 0..4 {
                    t.q("to_dense", &[r, c, 1012, 0, w]);
                }
            }
        }
        "C04" => {
            for (r, c) in both {
                for w in 0..2 {
                    t.q("sort_indexes", &[r, c, 1012, 0, w]);
                    t.q("sum_duplicates", &[r, c, 1012, 0, w]);
                    t.q("elim_zeros", &[r, c, 1012, w]);
                }
                t.q("prune", &[r, c, 1012, 0]);
                t.q("sum_dup_kernel", &[r, c, 1012, 5]);
            }
        }
        "C05" => {
            for (r, c) in both {
                for w in 0..2 {
                    t.q("predicates", &[r, c, 1012, 0, w]);
                }
            }
        }
        "C06" => {
            for (r, c) in both {
                for k in [0, 2] {
                    for op in 0..2 {
                        t.q("csr_addsub", &[r, c, 1012, 1010, k, k, op, 0]);
                        t.q("csc_addsub", &[r, c, 1012, 1010, k, k, op, 0]);
                    }
                }
            }
        }
        "C07" => {
            for k in [0, 2] {
                for op in [0, 8] {
                    t.q("binop", &[2, W, 1012, 1010, k, k, op, 0]);
                }
            }
        }
        "C08" => {
            for (r, c) in both {
                for w in [0, 1, 2, 3, 5, 6] {
                    t.q("matvec", &[r, c, 1012, 0, w, if w < 5 { 0 } else { 3 }]);
                }
            }
        }
        "C09" => {
            for w in 0..3 {
                t.q3("matmat", &[2, W, 2, 1012, 1010, 0, 0, w, 0], 1);
                t.q3("matmat", &[W, 2, 2, 1012, 1010, 0, 0, w, 0], 1);
                t.q3("matmat", &[2, 2, W, 1005, 1010, 0, 0, w, 0], 1);
            }
        }
        "C10" => {
            for (r, c) in both {
                for w in 0..5 {
                    t.q("scale", &[r, c, 1012, 0, w]);
                }
            }
        }
        "C11" => {
            for (r, c) in both {
                for w in 0..3 {
                    t.q("transpose", &[r, c, 1012, 0, w]);
                }
            }
        }
        "C12" => {
            for (r, c) in both {
                t.q("get", &[r, c, 1012, 0]);
                for w in 0..2 {
                    t.q("select", &[r, c, 1012, 1010, w, 0, 0]);
                }
            }
        }
        "C13" => {
            t.q("slices", &[W, 3, 1012, 0, 1, 1010]);
            t.q("slices", &[3, W, 1012, 0, 3, 1010]);
        }
        "C14" => {
            for (r, c) in both {
                for w in [0, 1, 2, 5] {
                    t.q("diagonals", &[r, c, 1012, 0, w]);
                }
            }
        }
        "C15" => {
            for w in 0..12 {
                t.q("stack", &[W, 12, 9, w]);
            }
        }
        "C16" => {
            for (r, c) in both {
                for e in 0..2 {
                    t.q("dok", &[r, c, 2000, e]);
                }
            }
        }
        "C18" => {
            for b in 0..15 {
                t.q("deep", &[W, b, b % 2]);
            }
        }
        "C19" => {
            for b in 0..15 {
                t.q("deep", &[W, b, 2]);
            }
        }
        "C20" => {
            // not the stars: every return to the hub scans its whole row again
            for b in (0..14).filter(|b| *b != 3 && *b != 4) {
                t.q("deep", &[W, b, 3]);
                t.q("deep", &[W, b, 4]);
            }
        }
        "C21" => {
            for b in 0..15 {
                t.q("deep", &[W, b, 5]);
            }
        }
        "C22" => {
            for (r, c) in both {
                for w in 0..3 {
                    t.q("listing_any", &[r, c, 1012, 0, w]);
                }
            }
        }
        "C23" => {
            for (r, c) in both {
                for w in 0..3 {
                    t.q("views", &[r, c, 1012, 0, w]);
                }
            }
        }
        "C24" => {
            for (r, c) in both {
                for w in 0..3 {
                    t.q("aux", &[r, c, 1012, 0, w]);
                }
            }
        }
        "C27" => {
            for (r, c) in both {
                for w in 0..3 {
                    t.q("buffers", &[r, c, 1012, 0, w, 0]);
                }
            }
        }
        _ => {}
    }
}

/// More than 65536 stored entries at fixed positions, two late ones with symbolic values.
fn many(t: &mut Table, prop: &str) {
    const D: i64 = 270;
    const N: i64 = 166_600;
    // more than there are places
    const DUP: i64 = 175_000;
    match prop {
        "C01" => {
            for n in [N, DUP] {
                for h in ["coo_to_csr", "coo_to_csc", "coo_kernel"] {
                    t.q(h, &[D, D, n]);
                }
            }
        }
        "C02" => {
            for h in ["csr_to_coo", "csc_to_coo", "csr_to_csc", "csc_to_csr"] {
                t.q(h, &[D, D, N, 0]);
                t.q(h, &[D, D, N, 2]);
            }
        }
        "C03" => {
            for w in 0..4 {
                t.q("to_dense", &[D, D, N, 0, w]);
            }
        }
        "C04" => {
            for w in 0..2 {
                t.q("sort_indexes", &[D, D, N, 0, w]);
                t.q("sum_duplicates", &[D, D, DUP, 0, w]);
                t.q("elim_zeros", &[D, D, N, w]);
            }
            t.q("prune", &[D, D, N, 0]);
            t.q("sum_dup_kernel", &[D, D, DUP, 5]);
        }
        "C05" => {
            for w in 0..2 {
                t.q("predicates", &[D, D, N, 0, w]);
                t.q("predicates", &[D, D, N, 2, w]);
            }
        }
        "C06" => {
            for op in 0..2 {
                t.q("csr_addsub", &[D, D, N, N, 2, 2, op, 0]);
                t.q("csr_addsub", &[D, D, N, 135_000, 0, 0, op, 0]);
                t.q("csc_addsub", &[D, D, N, 135_000, 0, 0, op, 0]);
            }
        }
        "C08" => {
            for w in [0, 1, 2, 3, 5, 6] {
                t.q("matvec", &[D, D, N, 0, w, if w < 5 { 0 } else { 3 }]);
            }
        }
        "C10" => {
            for w in 0..5 {
                t.q("scale", &[D, D, N, 0, w]);
            }
        }
        "C11" => {
            for w in 0..3 {
                t.q("transpose", &[D, D, N, 0, w]);
            }
        }
        "C12" => t.q("get", &[D, D, N, 0]),
        "C13" => t.q("slices", &[D, D, N, 0, 1, 1010]),
        "C14" => {
            for w in [0, 1, 2, 5] {
                t.q("diagonals", &[D, D, N, 0, w]);
            }
        }
        "C15" => {
            for w in (1..12).step_by(2) {
                t.q("stack", &[40_000, N, 9, w]);
            }
        }
        "C22" => {
            for w in 0..3 {
                t.q("listing_any", &[D, D, N, 0, w]);
            }
        }
        "C23" => {
            for w in 0..3 {
                t.q("views", &[D, D, N, 0, w]);
            }
        }
        "C24" => {
            for w in 0..3 {
                t.q("aux", &[D, D, N, 0, w]);
            }
        }
        "C27" => {
            for w in 0..3 {
                t.q("buffers", &[D, D, N, 0, w, 0]);
            }
        }
        _ => {}
    }
}
