//! Enclosures of the mathematical functions, evaluated on Taylor models. Every routine returns a
//! Taylor model that contains the function for every argument in the argument model, or one that
//! is not `ok()` when the arguments are outside the range (or too wide) for its method.
use crate::dd::{self, DD};
use crate::tm::TM;

pub fn nan() -> TM {
    TM::cst(0.0).widen(f64::INFINITY)
}
fn q(a: f64, b: f64) -> DD {
    DD::f(a).div(DD::f(b))
}
fn c(x: DD) -> TM {
    TM::cdd(x)
}
/// constant with the rounding of a short double-double computation added
fn cw(x: DD) -> TM {
    TM::cdd(x).widen(x.h.abs() * 1e-29 + 1e-320)
}

/// trapezoidal rule: step and half distance of the poles of its error function
const H: f64 = 0.375;
/// a = pi/H
const A: f64 = 8.377580409572781;
/// exp(-t^2) < 1e-36 beyond this
const TMAX: f64 = 9.2;

fn ranges(x: &TM) -> (f64, f64) {
    x.range()
}

// ------------------------------------------------------------------ error functions
/// exp(x^2) erfc(x) for x >= 0
pub fn erfcx_pos(y: &TM) -> TM {
    let (lo, hi) = ranges(y);
    if !(lo >= 0.0) {
        return nan();
    }
    if lo >= 30.0 {
        // enveloping asymptotic series in u = 1/y
        let u = y.recip();
        let u2 = u.sqr().scale2(-1); // 1/(2 y^2)
        let mut t = TM::cst(1.0);
        let mut s = TM::cst(1.0);
        for k in 1..=14 {
            t = t.mul(&u2).mulc(-((2 * k - 1) as f64));
            s = s.add(&t);
        }
        let rem = t.mul(&u2).mulc(29.0).mag();
        return s.widen(rem).mul(&u).muldd(dd::INV_SQRT_PI);
    }
    // contour at distance ac from the axis; the pole i*y is either inside (and corrected) or not
    let (ac, corr) = if lo > 7.5 {
        (6.8, false)
    } else if hi < 8.5 {
        (9.2, true)
    } else {
        return nan();
    };
    let y2 = y.sqr();
    let mut s = TM::cst(0.0);
    let mut k = 0;
    loop {
        let t = (k as f64 + 0.5) * H;
        if t > TMAX {
            break;
        }
        let t2 = DD::f(t).mul(DD::f(t));
        let w = t2.neg().exp();
        s = s.add(&y2.adddd(t2).recip().mul(&cw(w)));
        k += 1;
    }
    let mut r = s.mul(y).muldd(q(2.0 * H, 1.0).div(dd::PI));
    if corr {
        // 2 e^{y^2}/(1 + e^{2 pi y/h})
        let e = y.muldd(dd::PI.mulf(2.0).div(DD::f(H)));
        r = r.add(&y2.exp().mulc(2.0).div(&e.exp().addc(1.0)));
    }
    // truncated nodes and discretisation
    let gap = if corr { ac - hi } else { lo - ac };
    let disc = 2.0 * 0.5642 * hi / ((ac + lo) * gap) * ((ac - A) * (ac - A) - A * A).exp() * 1.001;
    let tail = if lo > 0.0 { 1e-35 / hi.max(1.0) * 2.0 } else { 1e-35 };
    r.widen(disc + tail)
}
fn erf_series(x: &TM) -> TM {
    let x2 = x.sqr();
    let m = x2.mag();
    if m > 16.0 {
        return nan();
    }
    let mut t = x.clone();
    let mut s = x.clone();
    let mut k = 1;
    loop {
        t = t.mul(&x2).muldd(q(2.0, (2 * k + 1) as f64));
        s = s.add(&t);
        let r = 2.0 * m / (2 * k + 3) as f64;
        if r < 0.5 && t.mag() * 2.0 * r <= 1e-33 * (s.mag() + 1e-280) || k > 300 {
            s = s.widen(t.mag() * 2.0 * r);
            break;
        }
        k += 1;
    }
    s.mul(&x2.neg().exp()).muldd(dd::INV_SQRT_PI.mulf(2.0))
}
pub fn erf(x: &TM) -> TM {
    let (lo, hi) = ranges(x);
    if lo >= -2.5 && hi <= 2.5 {
        return erf_series(x);
    }
    if lo > 0.0 {
        return TM::cst(1.0).sub(&erfc(x));
    }
    if hi < 0.0 {
        return erf(&x.neg()).neg();
    }
    nan()
}
pub fn erfc(x: &TM) -> TM {
    let (lo, hi) = ranges(x);
    if lo >= 0.5 {
        if lo > 27.3 {
            return TM::cst(0.0).widen((-lo * lo).exp() * 1.001 + 5e-324);
        }
        return x.sqr().neg().exp().mul(&erfcx_pos(x));
    }
    if hi <= 0.0 {
        if hi < -0.5 {
            return TM::cst(2.0).sub(&erfc(&x.neg()));
        }
        return TM::cst(1.0).add(&erf(&x.neg()));
    }
    if lo >= -2.5 && hi <= 2.5 {
        return TM::cst(1.0).sub(&erf_series(x));
    }
    nan()
}
pub fn erfcx(x: &TM) -> TM {
    let (lo, hi) = ranges(x);
    if lo >= 0.0 {
        return erfcx_pos(x);
    }
    if hi <= 0.0 {
        let y = x.neg();
        return x.sqr().exp().mulc(2.0).sub(&erfcx_pos(&y));
    }
    if lo >= -1.0 && hi <= 1.0 {
        return x.sqr().exp().mul(&TM::cst(1.0).sub(&erf_series(x)));
    }
    nan()
}
/// F(x)/x as a function of x^2, |x| <= 1
fn dawson_ratio(x: &TM) -> TM {
    let x2 = x.sqr();
    let m = x2.mag();
    let mut t = TM::cst(1.0);
    let mut s = TM::cst(1.0);
    let mut k = 1;
    loop {
        t = t.mul(&x2).muldd(q(-2.0, (2 * k + 1) as f64));
        s = s.add(&t);
        let r = 2.0 * m / (2 * k + 3) as f64;
        if r < 0.5 && t.mag() * 2.0 * r <= 1e-33 || k > 300 {
            return s.widen(t.mag() * 2.0 * r);
        }
        k += 1;
    }
}
pub fn dawson(x: &TM) -> TM {
    let (lo, hi) = ranges(x);
    if lo >= -1.0 && hi <= 1.0 {
        return x.mul(&dawson_ratio(x));
    }
    if hi < 0.0 {
        return dawson(&x.neg()).neg();
    }
    if lo <= 0.0 {
        return nan();
    }
    if lo >= 10.0 {
        // (1/sqrt pi) * PV int e^{-t^2}/(x-t) dt * sqrt(pi)/2 * 1/pi ... expanded in 1/x
        let u = x.recip();
        let u2 = u.sqr();
        let mut t = TM::cst(1.0);
        let mut s = TM::cst(1.0);
        const N: usize = 20;
        for k in 1..N {
            t = t.mul(&u2).mulc((2 * k - 1) as f64 / 2.0);
            s = s.add(&t);
        }
        // remainder: (1/sqrt pi) x^{1-2N} PV int t^{2N} e^{-t^2}/(x-t) dt
        //  <= (1/sqrt pi) x^{1-2N} (Gamma(N+1/2) + 2 sup |(t^{2N} e^{-t^2})'|)
        let rem = 2.0e18 * 20.0 * (lo.ln() * (1.0 - 2.0 * N as f64)).exp();
        return s.widen(rem).mul(&u).scale2(-1);
    }
    let c0 = 0.5 * (lo + hi);
    if hi > lo && hi - lo <= 1.0 {
        // Taylor series at the centre: F' = 1 - 2 x F
        let f = dawson(&TM::cst(c0));
        let fc = f.c[0];
        let mut a = vec![fc, dd::ONE.sub(fc.mulf(2.0 * c0))];
        let mut h = (hi - c0).max(c0 - lo) * (1.0 + 1e-15);
        h = h.max(1e-300);
        loop {
            let n = a.len() as f64;
            // |a_n| <= max |F| / r^n on the circle of radius r, |F(c + z)| <= (sqrt(pi)/2) (1 + exp(Im^2))
            let rem = [1.0f64, 1.5, 2.0, 3.0, 4.0].iter().filter(|r| h < **r).map(|r| 0.9 * (1.0 + (r * r).exp()) * (h / r).powf(n) / (1.0 - h / r)).fold(f64::INFINITY, f64::min) * 1.001;
            if rem < 1e-28 || n > 80.0 {
                let u = x.addc(-c0);
                let mut t = TM::cst(0.0);
                for k in a.iter().rev() {
                    t = t.mul(&u).adddd(*k);
                }
                // errors of F(c) and of the recurrence: at most those of F(c) times exp(2 c h + h^2)
                let grow = (2.0 * c0 * h + h * h).exp();
                return t.widen(rem + (f.r + 1e-29) * grow);
            }
            let l = a.len();
            a.push(a[l - 1].mulf(-2.0 * c0).sub(a[l - 2].mulf(2.0)).mul(q(1.0, n)));
        }
    }
    let f = c0 / H - (c0 / H).floor();
    let half = f < 0.25 || f > 0.75; // distance from the nodes
    if hi - lo > 0.3 {
        return nan();
    }
    let x2 = x.sqr();
    let mut s = TM::cst(0.0);
    let mut k = 0;
    loop {
        let t = if half { (k as f64 + 0.5) * H } else { k as f64 * H };
        if t > TMAX.max(hi + 0.5) {
            break;
        }
        let t2 = DD::f(t).mul(DD::f(t));
        let w = t2.neg().exp();
        let w = if t == 0.0 { dd::ONE.mulf(0.5) } else { w };
        s = s.add(&x2.adddd(t2.neg()).recip().mul(&cw(w)));
        k += 1;
    }
    // sum over +-t of e^{-t^2}/(x-t) = 2x e^{-t^2}/(x^2-t^2)
    let s = s.mul(x).muldd(q(2.0 * H, 1.0).div(dd::PI));
    let z = x.muldd(dd::PI.div(DD::f(H)));
    let (sn, cs) = z.sincos();
    let tn = if half { sn.div(&cs) } else { cs.div(&sn).neg() };
    let r = s.add(&x2.neg().exp().mul(&tn));
    let disc = 2.0 * 1.7725 / A * (-A * A).exp() * 1.01;
    r.widen(disc + 1e-33).mul(&c(dd::INV_SQRT_PI.recip().mulf(0.5)).widen(1e-30))
}

// ------------------------------------------------------------------ gamma
const B2K: [(f64, f64); 15] = [
    (1.0, 6.0),
    (-1.0, 30.0),
    (1.0, 42.0),
    (-1.0, 30.0),
    (5.0, 66.0),
    (-691.0, 2730.0),
    (7.0, 6.0),
    (-3617.0, 510.0),
    (43867.0, 798.0),
    (-174611.0, 330.0),
    (854513.0, 138.0),
    (-236364091.0, 2730.0),
    (8553103.0, 6.0),
    (-23749461029.0, 870.0),
    (8615841276005.0, 14322.0),
];
fn stirling(z: &TM) -> TM {
    let (lo, _) = ranges(z);
    if !(lo >= 15.0) {
        return nan();
    }
    let u = z.recip();
    let u2 = u.sqr();
    let mut p = u;
    let mut s = z.addc(-0.5).mul(&z.ln()).sub(z).adddd(dd::HALF_LN_2PI);
    for (k, (a, b)) in B2K.iter().enumerate() {
        let k = (k + 1) as f64;
        let t = p.muldd(q(*a, *b).div(DD::f(2.0 * k * (2.0 * k - 1.0))));
        if k == 15.0 {
            // the error has the sign of, and is smaller than, the next term
            return s.widen(t.mag());
        }
        s = s.add(&t);
        if t.mag() < 1e-36 {
            return s.widen(t.mag());
        }
        p = p.mul(&u2);
    }
    s
}
/// the Pochhammer product z (z+1) ... (z+n-1)
fn poch(z: &TM, n: usize) -> TM {
    let mut p = TM::cst(1.0);
    for k in 0..n {
        p = p.mul(&z.addc(k as f64));
    }
    p
}
fn shift(lo: f64) -> usize {
    if lo >= 24.0 {
        0
    } else {
        (24.0 - lo).ceil() as usize
    }
}
pub fn ln_gamma(z: &TM) -> TM {
    if let Some(t) = z.single() {
        return ln_gamma(&t).lift(z.nv);
    }
    let (lo, _) = ranges(z);
    if !(lo > 0.0) {
        return nan();
    }
    let n = shift(lo);
    let s = stirling(&z.addc(n as f64));
    if n == 0 {
        return s;
    }
    // the product of the positive part first: no underflow for tiny z
    let p = poch(&z.addc(1.0), n - 1);
    s.sub(&p.ln()).sub(&z.ln())
}
pub fn gamma(z: &TM) -> TM {
    let (lo, hi) = ranges(z);
    if lo.abs().max(hi.abs()) < 1e-100 && (lo > 0.0 || hi < 0.0) {
        // z Gamma(z) = Gamma(1+z) = 1 - 0.577 z + ...
        return z.recip().mul(&c(dd::ONE).widen(1e-99));
    }
    let n = shift(lo);
    let g = stirling(&z.addc(n as f64)).exp();
    if n == 0 {
        return g;
    }
    g.div(&poch(z, n))
}
/// the derivative of P(a, x) with respect to x
pub fn gamma_density(a: &TM, x: &TM) -> TM {
    if !(ranges(x).0 > 0.0) {
        return nan();
    }
    a.addc(-1.0).mul(&x.ln()).sub(x).sub(&ln_gamma(a)).exp()
}
/// the regularized incomplete gamma functions (P, Q), absolute accuracy about 1e-14; a, x > 0
pub fn gamma_pq(a: &TM, x: &TM) -> (TM, TM) {
    let ((al, ah), (xl, xh)) = (ranges(a), ranges(x));
    if !(al > 0.0 && xl > 0.0) {
        return (nan(), nan());
    }
    let one = TM::cst(1.0);
    // far tails: exp(a - x + a ln(x/a)) bounds Q for x > a >= 1 and P for x < a (Chernoff);
    // for a < 1 and x >= 1, Q(a, x) <= exp(-x)
    let chern = |a: f64, x: f64| (a - x + a * (x / a).ln()) * (1.0 - 1e-12) + 1e-12 * (a + x);
    if ah < xl && ah >= 1.0 {
        // decreasing in x; increasing in a up to a = x
        let b = chern(ah, xl);
        if b < -23.5 {
            let q = TM::cst(0.0).widen(b.exp() * 1.01 + 1e-300);
            return (one.sub(&q), q);
        }
    }
    if ah < 1.0 && xl > 22.0 {
        let q = TM::cst(0.0).widen((-xl).exp() * 1.14 + 1e-300);
        return (one.sub(&q), q);
    }
    if xh < al {
        // increasing in x; decreasing in a
        let b = chern(al, xh);
        if b < -23.5 {
            let p = TM::cst(0.0).widen(b.exp() * 1.01 + 1e-300);
            return (p.clone(), one.sub(&p));
        }
    }
    let pre = a.mul(&x.ln()).sub(x).sub(&ln_gamma(&a.addc(1.0))).exp(); // x^a e^-x / Gamma(a+1)
    let pm = pre.mag();
    // too wide to be of use
    if !(pre.r < 1e-3) || !x.div(&a.addc(1.0)).ok() {
        return (nan(), nan());
    }
    if xh <= 40.0 || xh <= al + 2.0 * al.sqrt() {
        let mut t = one.clone();
        let mut s = one.clone();
        let mut n = 0.0;
        loop {
            n += 1.0;
            t = t.mul(x).mul(&a.addc(n).recip());
            s = s.add(&t);
            let rho = up1(xh / (al + n + 1.0));
            if rho < 0.99 {
                let tail = t.mag() * rho / (1.0 - rho) * 1.001;
                if tail * pm < 1e-16 {
                    let p = s.widen(tail).mul(&pre);
                    return (p.clone(), one.sub(&p));
                }
            }
            if n > 4000.0 || !t.ok() || s.r * pm > 1e-3 {
                return (nan(), nan());
            }
        }
    }
    // Q = pre (a/x) (1 + (a-1)/x + (a-1)(a-2)/x^2 + ...), all terms positive while a - k > 0
    let rx = x.recip();
    let mut t = a.mul(&rx);
    let mut s = t.clone();
    let mut k = 0.0;
    loop {
        k += 1.0;
        let rho = up1((ah - k) / xl);
        if rho < 0.99 {
            // the rest is a positive sum of terms with ratios below rho, the last one an upper
            // bound of Q(alpha, x), 0 < alpha <= 1
            let tail = t.mag() * rho.max(0.0) / (1.0 - rho) * 1.001;
            if tail * pm < 1e-16 || al - k <= 0.0 {
                let tail = if al - k <= 0.0 { t.mag() * 1.001 / (1.0 - rho.max(0.0)) } else { tail };
                let q = s.widen(tail).mul(&pre);
                return (one.sub(&q), q);
            }
        }
        if al - k <= 0.0 || k > 4000.0 || !t.ok() || s.r * pm > 1e-3 {
            return (nan(), nan());
        }
        t = t.mul(&a.addc(-k)).mul(&rx);
        s = s.add(&t);
    }
}
fn up1(x: f64) -> f64 {
    x * (1.0 + 4e-16)
}
/// Gamma(z) Gamma(w) / Gamma(z+w), z, w > 0
pub fn beta(z: &TM, w: &TM) -> TM {
    ln_gamma(z).add(&ln_gamma(w)).sub(&ln_gamma(&z.add(w))).exp()
}
/// 1/Gamma, entire
pub fn rgamma(z: &TM) -> TM {
    let (lo, _) = ranges(z);
    let n = shift(lo);
    let g = stirling(&z.addc(n as f64)).neg().exp();
    if n == 0 {
        return g;
    }
    g.mul(&poch(z, n))
}

// ------------------------------------------------------------------ Bessel, integer order
/// 2^(-sc) * sum_k (s x^2/4)^k / (k! (n+k)!) * (x/2)^n, s = +-1
fn bessel_series(n: u64, x: &TM, s: f64, sc: i32) -> TM {
    let y = x.sqr().scale2(-2).mulc(s);
    let m = y.mag();
    let h = x.scale2(-1);
    let mut t = TM::cst(dd::pow2(-sc));
    for k in 1..=n {
        t = t.mul(&h).muldd(q(1.0, k as f64));
    }
    let mut sum = t.clone();
    let mut k = 1.0;
    loop {
        let d = k * (n as f64 + k);
        t = t.mul(&y).muldd(q(1.0, d));
        sum = sum.add(&t);
        let r = m / ((k + 1.0) * (n as f64 + k + 1.0));
        let tm = t.mag();
        if r < 0.5 && (tm <= 1e-34 * sum.mag() || tm < 1e-300) {
            return sum.widen(2.0 * r * tm + 1e-320);
        }
        k += 1.0;
        if k > 2000.0 {
            return nan();
        }
    }
}
/// modulus parts P, Q of Hankel's expansion (s = -1) or the sum for K (s = 0), I (s = 1)
fn hankel(nu: u64, x: &TM) -> (TM, TM) {
    let mu = (4 * nu * nu) as f64;
    let u = x.recip().scale2(-3);
    let mut t = TM::cst(1.0);
    let mut p = TM::cst(1.0);
    let mut qq = TM::cst(0.0);
    let mut k = 1.0;
    let mut last = f64::INFINITY;
    loop {
        let f = 2.0 * k - 1.0;
        t = t.mul(&u).muldd(q(mu - f * f, k));
        let m = t.mag();
        if m < 1e-34 || m > last {
            // each of P and Q is enveloped by its next term (real order, enough terms)
            return (p.widen(m), qq.widen(m));
        }
        last = m;
        match k as u64 % 4 {
            1 => qq = qq.add(&t),
            2 => p = p.sub(&t),
            3 => qq = qq.sub(&t),
            _ => p = p.add(&t),
        }
        k += 1.0;
    }
}
/// J_n and Y_n, n = 0 or 1, for x >= 25
fn jy_large(n: u64, x: &TM) -> (TM, TM) {
    let (p, qq) = hankel(n, x);
    let a = x.mul(&c(dd::PI)).recip().scale2(1).sqrt();
    // chi = x - (2n+1) pi/4
    let (s, co) = x.sincos();
    let r = c(DD::f(0.5).sqrt());
    let (cs, sn) = if n == 0 {
        (s.add(&co).mul(&r), s.sub(&co).mul(&r))
    } else {
        (s.sub(&co).mul(&r), s.add(&co).neg().mul(&r))
    };
    let j = a.mul(&p.mul(&cs).sub(&qq.mul(&sn)));
    let y = a.mul(&p.mul(&sn).add(&qq.mul(&cs)));
    (j, y)
}
pub fn jn(n: u64, x: &TM) -> TM {
    let (lo, hi) = ranges(x);
    if hi < 0.0 {
        let r = jn(n, &x.neg());
        return if n % 2 == 1 { r.neg() } else { r };
    }
    if hi <= 26.0 || (n as f64) > hi {
        return bessel_series(n, x, -1.0, 0);
    }
    if lo < 24.0 {
        return nan();
    }
    lommel(n, x, jy_large(0, x).0, jy_large(1, x).0)
}
/// C_n = a C_0 + b C_1 for solutions of the recurrence C_{k+1} = (2k/x) C_k - C_{k-1}
fn lommel(n: u64, x: &TM, c0: TM, c1: TM) -> TM {
    if n == 0 {
        return c0;
    }
    let u = x.recip().scale2(1);
    let step = |mut a: TM, mut b: TM| -> TM {
        for k in 1..n {
            let t = b.mul(&u).mulc(k as f64).sub(&a);
            a = b;
            b = t;
        }
        b
    };
    let a = step(TM::cst(1.0), TM::cst(0.0));
    let b = step(TM::cst(0.0), TM::cst(1.0));
    a.mul(&c0).add(&b.mul(&c1))
}
/// Y0 and Y1 (s = -1), K0 and K1 (s = 1) by their series at the origin
fn yk_series(x: &TM, s: f64) -> (TM, TM) {
    let y = x.sqr().scale2(-2).mulc(s);
    let m = y.mag();
    let h = x.scale2(-1);
    let l = h.ln().adddd(dd::EULER);
    // sums: i0 = sum y^k/k!^2, i1 = h sum y^k/(k!(k+1)!), s0 = sum H_k y^k/k!^2,
    // s1 = h sum (H_k + H_{k+1}) y^k/(k!(k+1)!)
    let mut t = TM::cst(1.0);
    let (mut i0, mut i1) = (TM::cst(1.0), TM::cst(1.0));
    let (mut s0, mut s1) = (TM::cst(0.0), TM::cst(1.0));
    let mut hk = dd::ZERO;
    let mut k = 1.0;
    loop {
        t = t.mul(&y).muldd(q(1.0, k * k));
        hk = hk.add(q(1.0, k));
        let hk1 = hk.add(q(1.0, k + 1.0));
        let t1 = t.muldd(q(1.0, k + 1.0));
        i0 = i0.add(&t);
        i1 = i1.add(&t1);
        s0 = s0.add(&t.muldd(hk));
        s1 = s1.add(&t1.muldd(hk.add(hk1)));
        let r = m / ((k + 1.0) * (k + 1.0));
        let tm = t.mag();
        if r < 0.4 && tm < 1e-34 {
            let e = tm * r * 3.0;
            i0 = i0.widen(e);
            i1 = i1.widen(e);
            s0 = s0.widen(e * 10.0);
            s1 = s1.widen(e * 20.0);
            break;
        }
        k += 1.0;
        if k > 2000.0 {
            return (nan(), nan());
        }
    }
    let i1 = i1.mul(&h);
    let s1 = s1.mul(&h);
    if s < 0.0 {
        let ip = dd::PI.recip();
        // Y0 = 2/pi (l J0 - s0), Y1 = 2/pi l J1 - 2/(pi x) - s1/pi
        let y0 = l.mul(&i0).sub(&s0).muldd(ip.mulf(2.0));
        let y1 = l.mul(&i1).scale2(1).sub(&x.recip().scale2(1)).sub(&s1).muldd(ip);
        (y0, y1)
    } else {
        // K0 = -l I0 + s0, K1 = 1/x + l I1 - s1/2
        let k0 = s0.sub(&l.mul(&i0));
        let k1 = x.recip().add(&l.mul(&i1)).sub(&s1.scale2(-1));
        (k0, k1)
    }
}
pub fn y01(x: &TM) -> (TM, TM) {
    let (lo, hi) = ranges(x);
    if !(lo > 0.0) {
        return (nan(), nan());
    }
    if hi <= 26.0 {
        return yk_series(x, -1.0);
    }
    if lo < 24.0 {
        return (nan(), nan());
    }
    (jy_large(0, x).1, jy_large(1, x).1)
}
fn recur(n: u64, x: &TM, ab: (TM, TM), s: f64) -> TM {
    let (mut a, mut b) = ab;
    if n == 0 {
        return a;
    }
    let u = x.recip().scale2(1);
    for k in 1..n {
        let t = b.mul(&u).mulc(k as f64).add(&a.mulc(s));
        a = b;
        b = t;
    }
    b
}
pub fn yn(n: u64, x: &TM) -> TM {
    let (a, b) = y01(x);
    lommel(n, x, a, b)
}
/// 2^-sc I_n(x)
pub fn in_scaled(n: u64, x: &TM, sc: i32) -> TM {
    let (_, hi) = ranges(x);
    if hi < 0.0 {
        let r = in_scaled(n, &x.neg(), sc);
        return if n % 2 == 1 { r.neg() } else { r };
    }
    bessel_series(n, x, 1.0, sc)
}
/// e^x K_nu(x) for nu = 0 and 1 and x >= 2
fn k01_scaled(x: &TM) -> (TM, TM) {
    let (lo, hi) = ranges(x);
    if lo >= 25.0 {
        let f = |nu: u64| -> TM {
            let mu = (4 * nu * nu) as f64;
            let u = x.recip().scale2(-3);
            let mut t = TM::cst(1.0);
            let mut s = TM::cst(1.0);
            let mut k = 1.0;
            let mut last = f64::INFINITY;
            loop {
                let f = 2.0 * k - 1.0;
                t = t.mul(&u).muldd(q(mu - f * f, k));
                let m = t.mag();
                if m < 1e-34 || m > last {
                    return s.widen(m).mul(&x.recip().muldd(dd::PI.mulf(0.5)).sqrt());
                }
                last = m;
                s = s.add(&t);
                k += 1.0;
            }
        };
        return (f(0), f(1));
    }
    let _ = hi;
    let h = 1.0 / 16.0;
    let (mut s0, mut s1) = (TM::cst(0.5), TM::cst(0.5));
    let mut k = 1;
    loop {
        let t = k as f64 * h;
        let e = DD::f(t).exp();
        let ch = e.add(e.recip()).mulf(0.5);
        // cosh t - 1 = 2 sinh^2(t/2)
        let e2 = DD::f(t * 0.5).exp();
        let sh = e2.sub(e2.recip()).mulf(0.5);
        let cm = sh.mul(sh).mulf(2.0);
        let w = x.mul(&cw(cm)).neg().exp();
        s0 = s0.add(&w);
        s1 = s1.add(&w.mul(&cw(ch)));
        if cm.h * lo > 80.0 {
            break;
        }
        k += 1;
    }
    // discretisation: 4 e^x K_nu(x cos a)/(e^{2 pi a/h} - 1) with a = 1.2, cos a > 0.36
    // K_1(z) <= (1 + 1/z) sqrt(pi/(2z)) e^{-z}
    let z = 0.36 * lo;
    let b = 4.0 * (hi - z).exp() * (1.0 + 1.0 / z) * (1.6 / z).sqrt() * (-2.0 * 3.14 * 1.2 / h).exp();
    let f = |s: TM| s.mulc(h).widen(b + 1e-33);
    (f(s0), f(s1))
}
/// e^x K_n(x) when `scaled`, else K_n(x)
pub fn kn(n: u64, x: &TM, scaled: bool) -> TM {
    let (lo, hi) = ranges(x);
    if !(lo > 0.0) {
        return nan();
    }
    let ab = if hi <= 2.5 {
        let (a, b) = yk_series(x, 1.0);
        if scaled {
            let e = x.exp();
            (a.mul(&e), b.mul(&e))
        } else {
            (a, b)
        }
    } else if lo >= 2.0 {
        let (a, b) = k01_scaled(x);
        if scaled {
            (a, b)
        } else {
            let e = x.neg().exp();
            (a.mul(&e), b.mul(&e))
        }
    } else {
        return nan();
    };
    recur(n, x, ab, 1.0)
}
pub fn factorial(n: u64) -> TM {
    poch(&TM::cst(1.0), n as usize)
}
/// Taylor coefficients of 1/Gamma(1+z), each as the sum of two doubles; the rest is below 1e-24 |z|^33
const RG: [(f64, f64); 33] = [
    (1.0, 0.0),
    (0.5772156649015329, -4.942915152430645e-18),
    (-0.6558780715202539, 2.137185197068536e-17),
    (-0.04200263503409524, 1.4920306285650505e-18),
    (0.16653861138229148, 1.0189144546842026e-17),
    (-0.04219773455554433, -3.3579992682480134e-18),
    (-0.009621971527876973, -5.300031368830263e-19),
    (0.0072189432466631, -3.6006537063394283e-19),
    (-0.0011651675918590652, 5.659947853880981e-20),
    (-0.00021524167411495098, 2.3758686180729364e-21),
    (0.0001280502823881162, -9.359124499198967e-21),
    (-2.013485478078824e-05, 3.0488773972037385e-23),
    (-1.2504934821426706e-06, -2.66214092271898e-23),
    (1.133027231981696e-06, -4.622235212104869e-23),
    (-2.056338416977607e-07, -3.0061601618645134e-24),
    (6.116095104481416e-09, -2.693458298171306e-25),
    (5.002007644469223e-09, -1.538123614056751e-26),
    (-1.18127457048702e-09, -1.0052356155716208e-25),
    (1.0434267116911005e-10, -2.9298419956825035e-27),
    (7.782263439905071e-12, 4.397255556595848e-28),
    (-3.696805618642206e-12, 2.7050034921703885e-28),
    (5.100370287454476e-13, 2.253001461085878e-29),
    (-2.0583260535665066e-14, -1.4747481491954336e-30),
    (-5.348122539423018e-15, -1.6208384686356568e-31),
    (1.2267786282382608e-15, -5.072915146023867e-32),
    (-1.1812593016974588e-16, 6.422257838149681e-33),
    (1.1866922547516004e-18, -4.2037265494226014e-35),
    (1.4123806553180319e-18, -7.576946701116294e-35),
    (-2.29874568443537e-19, 1.3335481917069145e-36),
    (1.7144063219273374e-20, 5.230715150426935e-38),
    (1.337351730493693e-22, 2.6434059649079228e-39),
    (-2.0542335517666728e-22, 3.6856892424568953e-39),
    (2.736030048608e-23, -2.8599315416397774e-39),
];

// ------------------------------------------------------------------ Bessel, real order
/// Gamma1, Gamma2 of Temme at mu (|mu| <= 0.51): 1/Gamma(1 -+ mu) = Gamma2 +- mu Gamma1
fn temme_gammas(mu: &TM) -> (TM, TM) {
    let m2 = mu.sqr();
    let (mut e, mut o) = (TM::cst(0.0), TM::cst(0.0));
    for k in (0..RG.len()).rev() {
        let v = DD { h: RG[k].0, l: RG[k].1 };
        if k % 2 == 0 {
            e = e.mul(&m2).adddd(v);
        } else {
            o = o.mul(&m2).adddd(v.neg());
        }
    }
    // |c_k| < 1e-22 from k = 33 on, |mu|^33 < 2.3e-10
    (o.widen(1e-30), e.widen(1e-30))
}
/// Temme's series at |mu| <= 0.51: (Y_mu, Y_{mu+1}) for s = -1, (K_mu, K_{mu+1}) for s = 1
fn temme(mu: &TM, x: &TM, s: f64) -> (TM, TM) {
    let (g1, g2) = temme_gammas(mu);
    let h = x.scale2(-1);
    let l = h.ln().neg();
    let sg = mu.mul(&l);
    let es = sg.exp();
    let ei = es.recip();
    let pm = mu.muldd(dd::PI);
    let ch = es.add(&ei).scale2(-1);
    let mut f = pm.shc(-1.0).recip().mul(&ch.mul(&g1).add(&sg.shc(1.0).mul(&l).mul(&g2)));
    let rp = g2.sub(&mu.mul(&g1)); // 1/Gamma(1+mu)
    let rq = g2.add(&mu.mul(&g1));
    let (mut p, mut q2) = (es.div(&rp), ei.div(&rq));
    let r;
    if s < 0.0 {
        let ip = dd::PI.recip();
        f = f.muldd(ip.mulf(2.0));
        p = p.muldd(ip);
        q2 = q2.muldd(ip);
        let hp = pm.scale2(-1);
        r = hp.mul(&hp.shc(-1.0).sqr()).muldd(dd::PI);
    } else {
        p = p.scale2(-1);
        q2 = q2.scale2(-1);
        r = TM::cst(0.0);
    }
    let y = h.sqr().mulc(s);
    let ym = y.mag();
    let m2 = mu.sqr();
    let mut c = TM::cst(1.0);
    let g = |f: &TM, q: &TM| if s < 0.0 { f.add(&r.mul(q)) } else { f.clone() };
    let mut s0 = g(&f, &q2);
    let mut s1 = p.clone();
    let mut k = 1.0;
    loop {
        let d = m2.neg().addc(k * k).recip();
        f = f.mulc(k).add(&p).add(&q2).mul(&d);
        c = c.mul(&y).muldd(q(1.0, k));
        p = p.mul(&mu.neg().addc(k).recip());
        q2 = q2.mul(&mu.addc(k).recip());
        let gk = g(&f, &q2);
        let t0 = c.mul(&gk);
        let t1 = c.mul(&p.sub(&gk.mulc(k)));
        s0 = s0.add(&t0);
        s1 = s1.add(&t1);
        if !s0.ok() || !s1.ok() || k > 400.0 {
            return (nan(), nan());
        }
        // max(|f_k|, |p_k| + |q_k|) grows by at most (k+1)/(k^2 - 0.2601) per step
        let rho = ym / (k + 1.0) * (k + 2.0) / ((k + 1.0) * (k + 1.0) - 0.2601) * (k + 1.0) / k;
        let m = f.mag().max(p.mag() + q2.mag()) * (1.0 + r.mag());
        let t = c.mag() * m * (k + 1.0);
        if rho < 0.4 && (t < 1e-34 * s0.mag().max(1e-40) || t < 1e-300) {
            let e = t * rho * 2.0;
            let (a, b) = (s0.widen(e), s1.widen(e * 2.0));
            let b = b.div(&h);
            return if s < 0.0 { (a.neg(), b.neg()) } else { (a, b) };
        }
        k += 1.0;
    }
}
/// C_{nu}, C_{nu+1} from C_mu, C_{mu+1}, nu = mu + n: C_{k+1} = (2k/x) C_k + s C_{k-1}
fn up_recur(mu: &TM, n: u64, x: &TM, ab: (TM, TM), s: f64) -> (TM, TM) {
    let (mut a, mut b) = ab;
    let u = x.recip().scale2(1);
    for k in 1..=n {
        let t = b.mul(&u).mul(&mu.addc(k as f64)).add(&a.mulc(s));
        a = b;
        b = t;
    }
    (a, b)
}
fn split_order(nu: &TM) -> (u64, TM) {
    let (lo, hi) = ranges(nu);
    let n = ((lo + hi) / 2.0).round().max(0.0);
    (n as u64, nu.addc(-n))
}
/// J (s = -1) or I (s = 1) of orders nu and nu+1, nu >= 0
fn first_kind(nu: &TM, x: &TM, s: f64) -> (TM, TM) {
    let h = x.scale2(-1);
    let y = h.sqr().mulc(s);
    let m = y.mag();
    let (nl, _) = ranges(nu);
    if !(nl > -0.01) {
        return (nan(), nan());
    }
    let n1 = nu.addc(1.0);
    let pre = nu.mul(&h.ln()).exp().mul(&rgamma(&n1));
    let f = |nu: &TM, nl: f64| {
        let mut t = TM::cst(1.0);
        let mut s = TM::cst(1.0);
        let mut k = 1.0;
        loop {
            t = t.mul(&y).muldd(q(1.0, k)).mul(&nu.addc(k).recip());
            s = s.add(&t);
            let r = m / ((k + 1.0) * (nl + k + 1.0));
            if r < 0.5 && t.mag() < 1e-34 * s.mag().max(1e-3) {
                return s.widen(2.0 * r * t.mag());
            }
            k += 1.0;
            if k > 2000.0 || !s.ok() {
                return nan();
            }
        }
    };
    let a = f(nu, nl).mul(&pre);
    let b = f(&n1, nl + 1.0).mul(&pre).mul(&h).div(&n1);
    (a, b)
}
/// J and Y at (nu, x), x >= 25, 0 <= nu <= 25
fn jy_hankel(nu: &TM, x: &TM) -> (TM, TM) {
    let mu = nu.sqr().scale2(2);
    let (_, nh) = ranges(nu);
    let u = x.recip().scale2(-3);
    let mut t = TM::cst(1.0);
    let mut p = TM::cst(1.0);
    let mut qq = TM::cst(0.0);
    let mut k = 1.0;
    let mut last = f64::INFINITY;
    loop {
        let f = 2.0 * k - 1.0;
        t = t.mul(&u).mul(&mu.addc(-f * f)).muldd(q(1.0, k));
        let m = t.mag();
        // (enveloping once there are more than nu - 1/2 terms)
        if k > nh + 2.0 && (m < 1e-30 || m > last) {
            p = p.widen(m);
            qq = qq.widen(m);
            break;
        }
        last = m;
        match k as u64 % 4 {
            1 => qq = qq.add(&t),
            2 => p = p.sub(&t),
            3 => qq = qq.sub(&t),
            _ => p = p.add(&t),
        }
        k += 1.0;
    }
    let a = x.muldd(dd::PI).recip().scale2(1).sqrt();
    let ch = x.sub(&nu.addc(0.5).muldd(dd::PI).scale2(-1));
    let (s, c) = ch.sincos();
    (a.mul(&p.mul(&c).sub(&qq.mul(&s))), a.mul(&p.mul(&s).add(&qq.mul(&c))))
}
/// J, Y, J', Y' of order nu >= 0 at x > 0
pub fn jy_nu(nu: &TM, x: &TM) -> Vec<TM> {
    let (lo, hi) = ranges(x);
    let bad = || vec![nan(); 4];
    if !(lo > 0.0) {
        return bad();
    }
    let (j, j1, y, y1);
    if hi <= 26.0 {
        (j, j1) = first_kind(nu, x, -1.0);
        let (n, mu) = split_order(nu);
        if !(mu.mag() < 0.51) {
            return bad();
        }
        (y, y1) = up_recur(&mu, n, x, temme(&mu, x, -1.0), -1.0);
    } else if lo >= 25.0 {
        (j, y) = jy_hankel(nu, x);
        (j1, y1) = jy_hankel(&nu.addc(1.0), x);
    } else {
        return bad();
    }
    let r = nu.div(x);
    let jp = r.mul(&j).sub(&j1);
    let yp = r.mul(&y).sub(&y1);
    vec![j, y, jp, yp]
}
/// K_nu and K_{nu+1} by the trapezoidal rule
fn k_trapezoid(nu: &TM, x: &TM) -> (TM, TM) {
    let (lo, hi) = ranges(x);
    let (_, nh) = ranges(nu);
    let h = 1.0 / 16.0;
    let (mut s0, mut s1) = (TM::cst(0.5), TM::cst(0.5));
    let eh = nu.mulc(h).exp();
    let ehi = eh.recip();
    let (mut ek, mut eki) = (TM::cst(1.0), TM::cst(1.0));
    let mut k = 1;
    loop {
        let t = k as f64 * h;
        ek = ek.mul(&eh);
        eki = eki.mul(&ehi);
        let e = DD::f(t).exp();
        let e2 = DD::f(t * 0.5).exp();
        let sh = e2.sub(e2.recip()).mulf(0.5);
        let cm = sh.mul(sh).mulf(2.0); // cosh t - 1
        let w = x.mul(&cw(cm)).neg().exp();
        s0 = s0.add(&w.mul(&ek.add(&eki)).scale2(-1));
        s1 = s1.add(&w.mul(&ek.mul(&cw(e)).add(&eki.mul(&cw(e.recip())))).scale2(-1));
        if !s1.ok() || k > 1000 {
            return (nan(), nan());
        }
        if cm.h * lo - (nh + 1.0) * t > 75.0 {
            break;
        }
        k += 1;
    }
    // discretisation: 4 e^x K_nu(x cos a)/(e^{2 pi a/h} - 1) with a = 1.2, cos a > 0.36, and
    // K_nu(z) <= Gamma(nu) (2/z)^nu / 2, K increasing in nu >= 0
    let z = 0.36 * lo;
    let b = |v: f64| {
        let v = v.max(1.0);
        let lg = (v + 0.5) * (v + 1.0).ln() + 1.0; // > ln Gamma(v)
        4.0 * (hi + lg + v * (2.0 / z).ln() - 2.0 * 3.14 * 1.2 / h).exp()
    };
    let em = x.neg().exp();
    let f = |s: TM, v: f64| s.mulc(h).widen(b(v) + 1e-30).mul(&em);
    (f(s0, nh), f(s1, nh + 1.0))
}
/// I, K, I', K' of order nu >= 0 at x > 0
pub fn ik_nu(nu: &TM, x: &TM) -> Vec<TM> {
    let (lo, hi) = ranges(x);
    if !(lo > 0.0) {
        return vec![nan(); 4];
    }
    let (i, i1) = first_kind(nu, x, 1.0);
    let (n, mu) = split_order(nu);
    let (k, k1) = if hi <= 2.5 && mu.mag() < 0.51 {
        up_recur(&mu, n, x, temme(&mu, x, 1.0), 1.0)
    } else {
        k_trapezoid(nu, x)
    };
    let r = nu.div(x);
    let ip = r.mul(&i).add(&i1);
    let kp = r.mul(&k).sub(&k1);
    vec![i, k, ip, kp]
}

// ------------------------------------------------------------------ Faddeeva
/// Re and Im of w(x + iy), y >= 0.009
pub fn faddeeva(x: &TM, y: &TM) -> (TM, TM) {
    let ((xl, xh), (yl, yh)) = (ranges(x), ranges(y));
    let xm = xl.abs().max(xh.abs());
    let bad = (nan(), nan());
    if !(yl >= 0.009) {
        return bad;
    }
    let xmig = if xl > 0.0 { xl } else if xh < 0.0 { -xh } else { 0.0 };
    let z2 = xmig * xmig + yl * yl;
    let (x2, y2) = (x.sqr(), y.sqr());
    if z2 >= 144.0 {
        // (i/(sqrt(pi) z)) sum (2k-1)!!/(2 z^2)^k
        let d = x2.add(&y2).recip();
        let (ur, ui) = (x.mul(&d), y.mul(&d).neg()); // 1/z
        let (vr, vi) = (ur.sqr().sub(&ui.sqr()).scale2(-1), ur.mul(&ui)); // 1/(2 z^2)
        let (mut tr, mut ti) = (TM::cst(1.0), TM::cst(0.0));
        let (mut sr, mut si) = (TM::cst(1.0), TM::cst(0.0));
        let mut n = 1;
        let mut fact = 1.0; // n!
        let rem = loop {
            let a = tr.mul(&vr).sub(&ti.mul(&vi)).mulc((2 * n - 1) as f64);
            ti = tr.mul(&vi).add(&ti.mul(&vr)).mulc((2 * n - 1) as f64);
            tr = a;
            sr = sr.add(&tr);
            si = si.add(&ti);
            n += 1;
            fact *= n as f64;
            // remainder after n terms: (1/(pi |z|^(2n))) e^2 (n! + 2^n)/(1 + y), by the contour Im t = -1
            let rem = 2.36 * (fact + 2f64.powi(n)) / z2.powi(n) / (1.0 + yl);
            if rem < 1e-20 || n >= 40 {
                break rem * 1.001;
            }
        };
        // i u s
        let pr = ur.mul(&sr).sub(&ui.mul(&si));
        let pi = ur.mul(&si).add(&ui.mul(&sr));
        return (pi.neg().muldd(dd::INV_SQRT_PI).widen(rem), pr.muldd(dd::INV_SQRT_PI).widen(rem));
    }
    if xm > 40.0 {
        return bad;
    }
    if yh <= 1.2 && xm <= 10.3 {
        // Taylor series from the real axis: a_0 = w(x), a_1 = w'(x), (n+1) a_(n+1) = -2 x a_n - 2 a_(n-1)
        let s = TM::cst(2.0).muldd(dd::INV_SQRT_PI);
        let (mut pr, mut pi) = (x2.neg().exp(), dawson(x).mul(&s));
        let (mut ar, mut ai) = (x.mul(&pr).scale2(1).neg(), s.sub(&x.mul(&pi).scale2(1)));
        let (mut sr, mut si) = (pr.sub(&ai.mul(y)), pi.add(&ar.mul(y)));
        let mut yn = y.clone();
        let mut n = 1.0;
        loop {
            // |a_n| <= max |w| / r^n on the circle of radius r, |w(x + iy)| <= 1 + 2 exp(y^2)
            let rem = [2.5f64, 3.0, 4.0, 5.0, 6.0].iter().map(|r| (1.0 + 2.0 * (r * r).exp()) * (yh / r).powf(n + 1.0) / (1.0 - yh / r)).fold(f64::INFINITY, f64::min) * 1.001;
            if rem < 1e-20 {
                return (sr.widen(rem), si.widen(rem));
            }
            let br = x.mul(&ar).add(&pr).mulc(-2.0).muldd(q(1.0, n + 1.0));
            let bi = x.mul(&ai).add(&pi).mulc(-2.0).muldd(q(1.0, n + 1.0));
            (pr, pi, ar, ai) = (ar, ai, br, bi);
            n += 1.0;
            yn = yn.mul(y);
            // i^n (ar + i ai)
            let (u, v) = match n as u64 % 4 {
                0 => (ar.clone(), ai.clone()),
                1 => (ai.neg(), ar.clone()),
                2 => (ar.neg(), ai.neg()),
                _ => (ai.clone(), ar.neg()),
            };
            sr = sr.add(&yn.mul(&u));
            si = si.add(&yn.mul(&v));
        }
    }
    let (ac, corr) = if yl > 7.5 {
        (6.8, false)
    } else if yh < 8.5 {
        (9.2, true)
    } else {
        return bad;
    };
    // nodes n H or (n + 1/2) H, whichever are further away from x
    let f = ((xl + xh) / 2.0 / H).rem_euclid(1.0);
    let half = !(0.25..=0.75).contains(&f);
    let (mut sr, mut si) = (TM::cst(0.0), TM::cst(0.0));
    for k in -25..=25 {
        let t = (k as f64 + if half { 0.5 } else { 0.0 }) * H;
        if t.abs() > TMAX + H {
            continue;
        }
        let w = cw(DD::f(t).mul(DD::f(t)).neg().exp());
        let u = x.addc(-t);
        let d = u.sqr().add(&y2).recip().mul(&w);
        sr = sr.add(&d);
        si = si.add(&d.mul(&u));
    }
    let c = q(H, 1.0).div(dd::PI);
    let mut wr = sr.mul(y).muldd(c);
    let mut wi = si.muldd(c);
    let mut left = 0.0;
    if corr {
        // 2 e^{-z^2}/(1 +- E), E = e^{-2 pi i z/H}; equal to +-2 e^{-z^2} V/(1 +- V), V = 1/E
        let sg = if half { 1.0 } else { -1.0 };
        let ex = |y: f64| 2.0 * (y * y - 16.755 * y).exp();
        let big = ex(yl).max(ex(yh));
        // |1 +- E| >= e^{2 pi y/H} - 1
        let far = 2.0 * (yh * yh - xmig * xmig).exp() / ((16.755 * yl).exp() - 1.0);
        if yl > 1.0 && big < 1e-25 {
            left = big * 1.01;
        } else if far < 1e-25 {
            left = far * 1.01;
        } else {
            let th = x.muldd(dd::PI.mulf(2.0).div(DD::f(H)));
            let (s, co) = th.sincos();
            let b = y.muldd(dd::PI.mulf(2.0).div(DD::f(H)));
            let near = yh < 0.1;
            // u + i v = E or V
            let e = if near { b.exp() } else { b.neg().exp() };
            let (u, v) = (e.mul(&co), if near { e.mul(&s).neg() } else { e.mul(&s) });
            let (dr, di) = (u.mulc(sg).addc(1.0), v.mulc(sg));
            let dn = dr.sqr().add(&di.sqr()).recip();
            let g = y2.sub(&x2).exp().scale2(1).mul(&dn);
            let (s, co) = x.mul(y).scale2(1).sincos();
            // (co - i s)(dr - i di)
            let (mut nr, mut ni) = (co.mul(&dr).sub(&s.mul(&di)), co.mul(&di).add(&s.mul(&dr)).neg());
            if !near {
                let (a, b) = (nr.mul(&u).sub(&ni.mul(&v)), nr.mul(&v).add(&ni.mul(&u)));
                nr = a.mulc(sg);
                ni = b.mulc(sg);
            }
            wr = wr.add(&g.mul(&nr));
            wi = wi.add(&g.mul(&ni));
        }
    }
    let gap = if corr { ac - yh } else { yl - ac };
    let disc = 2.0 * 0.5642 / gap * ((ac - A) * (ac - A) - A * A).exp() * 1.001;
    (wr.widen(disc + left + 1e-32), wi.widen(disc + left + 1e-32))
}

// ------------------------------------------------------------------ incomplete beta
/// the regularized incomplete beta function; absolute accuracy about 1e-14, tails to 1e-11
pub fn betai(a: &TM, b: &TM, x: &TM) -> TM {
    let (xl, xh) = ranges(x);
    if !(xl > 0.0 && xh < 1.0) {
        return nan();
    }
    let y = TM::cst(1.0).sub(x);
    betai_log(a, b, x, &y, &x.ln(), &y.ln())
}
/// the derivative of I_x(a, b) with respect to x
pub fn beta_density(a: &TM, b: &TM, x: &TM) -> TM {
    let y = TM::cst(1.0).sub(x);
    if !(ranges(x).0 > 0.0 && ranges(&y).0 > 0.0) {
        return nan();
    }
    a.addc(-1.0).mul(&x.ln()).add(&b.addc(-1.0).mul(&y.ln())).sub(&ln_gamma(a)).sub(&ln_gamma(b)).add(&ln_gamma(&a.add(b))).exp()
}
/// with y = 1 - x and the logarithms of both
pub fn betai_log(a: &TM, b: &TM, x: &TM, y: &TM, lx: &TM, ly: &TM) -> TM {
    let ((al, ah), (bl, bh)) = (ranges(a), ranges(b));
    if !(al > 0.0 && bl > 0.0) {
        return nan();
    }
    // bounds of x and y, from themselves or their logarithms
    let bounds = |x: &TM, lx: &TM| -> (f64, f64) {
        let ((l, h), (ll, lh)) = (ranges(x), ranges(lx));
        let (e, f) = (ll.exp() * (1.0 - 1e-12), lh.exp() * (1.0 + 1e-12) + 1e-300);
        (l.max(e).max(0.0), h.min(f).min(1.0))
    };
    let ((xl, xh), (yl, yh)) = (bounds(x, lx), bounds(y, ly));
    let one = TM::cst(1.0);
    let s = a.add(b);
    // x^a (1-x)^b / (a B(a,b)), in both directions
    let base = a.mul(lx).add(&b.mul(ly)).sub(&ln_gamma(a)).sub(&ln_gamma(b)).add(&ln_gamma(&s));
    // ratio (a+b+n) x/(a+1+n): decreasing in n if b > 1, otherwise below x
    let ratio = |swap: bool, n: f64| -> f64 {
        let (al, ah, bh, xh) = if swap { (bl, bh, ah, yh) } else { (al, ah, bh, xh) };
        let r1 = (al + bh + n) / (al + 1.0 + n);
        let r2 = (ah + bh + n) / (ah + 1.0 + n);
        r1.max(r2).max(1.0) * xh * (1.0 + 1e-14)
    };
    // a negligible tail (the sum is below that of a geometric series)
    let eh = ranges(&base).1;
    for swap in [false, true] {
        let rho = ratio(swap, 0.0);
        let m = eh.exp() / if swap { bl } else { al } / (1.0 - rho) * 1.001;
        if rho < 0.9999 && m < 2e-12 {
            let m = m * 0.501;
            return TM::cst(if swap { 1.0 - m } else { m }).widen(m * 1.001 + 2e-16);
        }
    }
    // the direction of fewer terms
    let cost = |a: f64, b: f64, x: f64, y: f64| ((a + b) * x - a - 1.0).max(0.0) / y * 1.5 + 36.0 / y.max(1e-9);
    let (am, bm, xm, ym) = ((al + ah) / 2.0, (bl + bh) / 2.0, (xl + xh) / 2.0, (yl + yh) / 2.0);
    let swap = cost(am, bm, xm, ym) > cost(bm, am, ym, xm);
    let (a, x) = if swap { (b, y) } else { (a, x) };
    let pre = base.exp().mul(&a.recip());
    let pm = pre.mag();
    if !(pre.r < 1e-3 * pm.min(1.0)) {
        return nan();
    }
    let a1 = a.addc(1.0);
    let ser = || -> TM {
        let mut t = one.clone();
        let mut sum = one.clone();
        let mut n = 0.0;
        loop {
            let rho = ratio(swap, n);
            if rho < 0.9999 {
                let tail = t.mag() * rho / (1.0 - rho) * 1.001;
                if tail * pm < if n == 0.0 { 1e-11 } else { 1e-15 } {
                    return sum.widen(tail).mul(&pre);
                }
            }
            if n > 6000.0 || !t.ok() || sum.r * pm > 1e-3 {
                return nan();
            }
            t = t.mul(x).mul(&s.addc(n)).mul(&a1.addc(n).recip());
            sum = sum.add(&t);
            n += 1.0;
        }
    };
    let r = ser();
    if swap {
        one.sub(&r)
    } else {
        r
    }
}
