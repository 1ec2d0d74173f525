//! Bit-precise checks of the crate's concrete number types: CBMC (through Kani) decides
//! each harness for every value of its inputs.
#[cfg(kani)]
mod h;
#[cfg(kani)]
mod input {
    pub fn any() -> u64 {
        kani::any()
    }
    pub fn assume(b: bool) {
        kani::assume(b)
    }
}

/// Stands for `pretty_dtoa::dtoa`: the same one-letter text for the same bits and
/// configuration, different texts for different ones. (The digits themselves are the business of that crate.)
#[cfg(kani)]
mod text {
    use pretty_dtoa::FmtFloatConfig as C;
    static mut SEEN: [(u64, C); 8] = [(0, C::default()); 8];
    static mut N: usize = 0;
    pub fn dtoa(v: f64, c: C) -> String {
        let b = v.to_bits();
        let k = unsafe {
            let mut k = 0;
            while k < N && SEEN[k] != (b, c) {
                k += 1;
            }
            if k == N {
                SEEN[k] = (b, c);
                N += 1;
            }
            k
        };
        let mut s = String::new();
        s.push((b'a' + k as u8) as char);
        s
    }
}

#[cfg(kani)]
macro_rules! proofs {
    ($($n:ident)*) => { $(
        #[kani::proof]
        #[kani::unwind(6)]
        fn $n() {
            h::$n()
        }
    )* };
}
#[cfg(kani)]
proofs! { c07_nonzero c10_scale c23_complex64 c23_complex32 c23_csr_views c23_csc_views c23_coo_views c23_with }

#[cfg(kani)]
macro_rules! text_proofs {
    ($($n:ident)*) => { $(
        #[kani::proof]
        #[kani::stub(pretty_dtoa::dtoa, text::dtoa)]
        #[kani::unwind(6)]
        fn $n() {
            h::$n()
        }
    )* };
}
#[cfg(kani)]
text_proofs! { c22_pretty_f64 c22_pretty_f32 }
