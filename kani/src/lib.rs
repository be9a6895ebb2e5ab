//! Contracts of utils::{frexp, ldexp, sign}, decided by Kani for every input.
//! The specifications are written in integer arithmetic on the bit patterns.
#![allow(dead_code)]

pub mod spec;

#[cfg(kani)]
mod proofs {
    use crate::spec;
    use puruspe::utils::{frexp, ldexp, sign};

    #[kani::ensures(|r| spec::frexp(x, r.0, r.1))]
    fn frexp_contract(x: f64) -> (f64, i32) {
        frexp(x)
    }
    #[kani::ensures(|r| spec::ldexp(x, e, *r))]
    fn ldexp_contract(x: f64, e: i32) -> f64 {
        ldexp(x, e)
    }
    #[kani::ensures(|r| spec::sign(a, b, *r))]
    fn sign_contract(a: f64, b: f64) -> f64 {
        sign(a, b)
    }

    #[kani::proof_for_contract(frexp_contract)]
    fn c01_frexp() {
        frexp_contract(kani::any());
    }
    #[kani::proof_for_contract(ldexp_contract)]
    fn c01_ldexp() {
        ldexp_contract(kani::any(), kani::any());
    }
    #[kani::proof_for_contract(sign_contract)]
    fn c01_sign() {
        sign_contract(kani::any(), kani::any());
    }
    // the contracts are satisfiable and the specifications not trivially true: these must fail
    #[kani::proof]
    #[kani::should_panic]
    fn c01_guard() {
        let (x, m, e): (f64, f64, i32) = (kani::any(), kani::any(), kani::any());
        assert!(spec::frexp(x, m, e) && spec::ldexp(x, e, m) && spec::sign(x, m, m));
    }
}
