//! C21: the contracts of the cache operations, over an arbitrary map, an arbitrary uncached
//! function and arbitrary arguments. (A, B) are two arbitrary argument pairs that differ in some
//! bit; F(A) and F(B) arbitrary values.
use crate::bessel::*;

type V4 = (f64, f64, f64, f64);
static mut A: (f64, f64) = (0.0, 0.0);
static mut B: (f64, f64) = (0.0, 0.0);
static mut FA: V4 = (0.0, 0.0, 0.0, 0.0);
static mut FB: V4 = (0.0, 0.0, 0.0, 0.0);

fn bits(a: (f64, f64)) -> (u64, u64) {
    (a.0.to_bits(), a.1.to_bits())
}
/// stands for besseljy and for besselik: any function of the bits of the arguments
pub fn uncached(nu: f64, x: f64) -> V4 {
    unsafe {
        if bits((nu, x)) == bits(A) {
            FA
        } else if bits((nu, x)) == bits(B) {
            FB
        } else {
            (kani::any(), kani::any(), kani::any(), kani::any())
        }
    }
}
fn setup() -> ((f64, f64), (f64, f64)) {
    unsafe {
        A = (kani::any(), kani::any());
        B = (kani::any(), kani::any());
        FA = (kani::any(), kani::any(), kani::any(), kani::any());
        FB = (kani::any(), kani::any(), kani::any(), kani::any());
        kani::assume(bits(A) != bits(B));
        (A, B)
    }
}
trait Bits: Copy {
    fn same(self, o: Self) -> bool;
    fn f(a: V4) -> Self;
}
impl Bits for V4 {
    fn same(self, o: V4) -> bool {
        self.0.to_bits() == o.0.to_bits() && self.1.to_bits() == o.1.to_bits() && self.2.to_bits() == o.2.to_bits() && self.3.to_bits() == o.3.to_bits()
    }
    fn f(a: V4) -> V4 {
        a
    }
}
impl Bits for (f64, f64) {
    fn same(self, o: (f64, f64)) -> bool {
        self.0.to_bits() == o.0.to_bits() && self.1.to_bits() == o.1.to_bits()
    }
    fn f(a: V4) -> (f64, f64) {
        (a.0, a.1)
    }
}
fn same<T: Bits>(a: Option<T>, b: Option<T>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => a.same(b),
        _ => false,
    }
}

macro_rules! proofs {
    ($m:ident, $t:ident, $call:ident, $v:ty) => {
        mod $m {
            use super::*;
            /// an arbitrary cache that satisfies the invariant: what it holds under A and under B
            /// are the values of the uncached function
            fn any_cache(a: (f64, f64), b: (f64, f64)) -> $t {
                unsafe { crate::fpv_model::ARBITRARY = true };
                let c = $t::new();
                unsafe { crate::fpv_model::ARBITRARY = false };
                let (fa, fb) = unsafe { (<$v>::f(FA), <$v>::f(FB)) };
                if let Some(v) = c.get(a.0, a.1) {
                    kani::assume(v.same(fa));
                }
                if let Some(v) = c.get(b.0, b.1) {
                    kani::assume(v.same(fb));
                }
                c
            }
            #[kani::proof]
            #[kani::stub(crate::bessel::besseljy, crate::proofs::uncached)]
            #[kani::stub(crate::bessel::besselik, crate::proofs::uncached)]
            #[kani::unwind(6)]
            fn compute() {
                let (a, b) = setup();
                let mut c = any_cache(a, b);
                let held = c.contains(a.0, a.1);
                let other = c.get(b.0, b.1).copied();
                let n = c.len();
                let fa = unsafe { <$v>::f(FA) };
                let r = c.$call(a.0, a.1);
                assert!(r.same(fa), "the computing call returns the value of the uncached function");
                assert!(same(c.get(a.0, a.1).copied(), Some(fa)), "the cache then holds that value under those arguments");
                assert!(c.contains(a.0, a.1), "contains finds it");
                assert!(same(c.get(b.0, b.1).copied(), other), "other arguments keep their entry or their absence");
                assert!(c.contains(b.0, b.1) == other.is_some(), "contains agrees with get");
                assert!(c.len() == n + if held { 0 } else { 1 }, "the length counts distinct arguments");
                assert!(!c.is_empty(), "not empty");
                kani::cover!(held, "was held");
                kani::cover!(!held && other.is_some(), "was not held");
            }
            #[kani::proof]
            #[kani::unwind(6)]
            fn look() {
                let (a, b) = setup();
                let c = any_cache(a, b);
                let g = c.get(a.0, a.1).copied();
                let n = c.len();
                assert!(c.contains(a.0, a.1) == g.is_some(), "contains agrees with get");
                assert!(c.is_empty() == (n == 0), "is_empty agrees with len");
                assert!(g.is_none() || n > 0, "length of a cache that holds an entry");
                let d = c.clone();
                assert!(same(d.get(a.0, a.1).copied(), g), "a clone holds the same entries");
                assert!(d.contains(b.0, b.1) == c.contains(b.0, b.1), "a clone holds the same entries");
                assert!(d.len() == c.len(), "a clone has the same length");
                kani::cover!(g.is_some(), "held");
            }
            #[kani::proof]
            #[kani::unwind(6)]
            fn remove() {
                let (a, b) = setup();
                let mut c = any_cache(a, b);
                let (ga, gb) = (c.get(a.0, a.1).copied(), c.get(b.0, b.1).copied());
                let n = c.len();
                if kani::any() {
                    c.clear();
                    assert!(c.len() == 0 && c.is_empty(), "clear leaves nothing");
                    assert!(!c.contains(a.0, a.1) && c.get(a.0, a.1).is_none(), "clear leaves nothing");
                    return;
                }
                if kani::any() {
                    c.reserve(kani::any());
                } else {
                    c.shrink_to_fit();
                }
                assert!(same(c.get(a.0, a.1).copied(), ga), "reserve and shrink_to_fit change nothing");
                assert!(same(c.get(b.0, b.1).copied(), gb), "reserve and shrink_to_fit change nothing");
                assert!(c.len() == n, "reserve and shrink_to_fit change nothing");
                let keep: bool = kani::any();
                let keepb: bool = kani::any();
                let (mut na, mut nb) = (0, 0);
                c.retain(|k, v| {
                    if bits(k) == bits(a) {
                        na += 1;
                        assert!(same(Some(v), ga), "retain shows the value held");
                        keep
                    } else {
                        assert!(bits(k) == bits(b) && same(Some(v), gb), "retain shows the arguments and the value held");
                        nb += 1;
                        keepb
                    }
                });
                assert!(na == if ga.is_some() { 1 } else { 0 } && nb == if gb.is_some() { 1 } else { 0 }, "retain asks once per entry");
                assert!(same(c.get(a.0, a.1).copied(), if keep { ga } else { None }), "retain keeps what the predicate keeps");
                assert!(same(c.get(b.0, b.1).copied(), if keepb { gb } else { None }), "retain keeps what the predicate keeps");
                kani::cover!(ga.is_some() && !keep, "removed");
                kani::cover!(gb.is_some() && keepb, "kept");
            }
            #[kani::proof]
            #[kani::unwind(6)]
            fn create() {
                let (a, _) = setup();
                let c = match kani::any::<u8>() {
                    0 => $t::new(),
                    1 => $t::default(),
                    _ => $t::with_capacity(kani::any()),
                };
                assert!(c.len() == 0 && c.is_empty() && !c.contains(a.0, a.1) && c.get(a.0, a.1).is_none(), "a new cache is empty");
            }
            // must fail: shows that the obligations above are not vacuous
            #[kani::proof]
            #[kani::should_panic]
            #[kani::stub(crate::bessel::besseljy, crate::proofs::uncached)]
            #[kani::stub(crate::bessel::besselik, crate::proofs::uncached)]
            #[kani::unwind(6)]
            fn guard() {
                let (a, b) = setup();
                let mut c = any_cache(a, b);
                let r = c.$call(a.0, a.1);
                assert!(r.same(unsafe { <$v>::f(FB) }));
            }
        }
    };
}
proofs!(jy, CachedBesselJY, besseljy, V4);
proofs!(ik, CachedBesselIK, besselik, V4);
proofs!(jnuynu, CachedJnuYnu, Jnu_Ynu, (f64, f64));
proofs!(inuknu, CachedInuKnu, Inu_Knu, (f64, f64));
