//! Double-double arithmetic. Every basic operation has a relative error below 2^-98 (generous),
//! the elementary functions below 1e-28 relative (absolute near a zero of sin, cos, log).
//! Checked against mpmath by ../selftest.

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct DD {
    pub h: f64,
    pub l: f64,
}

#[inline(always)]
fn two_sum(a: f64, b: f64) -> DD {
    let s = a + b;
    let bb = s - a;
    DD { h: s, l: (a - (s - bb)) + (b - bb) }
}
#[inline(always)]
fn quick_two_sum(a: f64, b: f64) -> DD {
    let s = a + b;
    DD { h: s, l: b - (s - a) }
}
#[inline(always)]
fn two_prod(a: f64, b: f64) -> DD {
    let p = a * b;
    DD { h: p, l: a.mul_add(b, -p) }
}

pub const ZERO: DD = DD { h: 0.0, l: 0.0 };
pub const ONE: DD = DD { h: 1.0, l: 0.0 };
pub const PI: DD = DD { h: 3.141592653589793, l: 1.2246467991473532e-16 };
pub const PI_L2: f64 = -2.9947698097183397e-33;
pub const LN2: DD = DD { h: 0.6931471805599453, l: 2.3190468138462996e-17 };
/// 1/sqrt(pi)
pub const INV_SQRT_PI: DD = DD { h: 0.5641895835477563, l: 7.66772980658294e-18 };
/// ln(2 pi)/2
pub const HALF_LN_2PI: DD = DD { h: 0.9189385332046728, l: -3.8782941580672414e-17 };
/// Euler's constant
pub const EULER: DD = DD { h: 0.5772156649015329, l: -4.942915152430645e-18 };

impl DD {
    #[inline(always)]
    pub fn f(x: f64) -> DD {
        DD { h: x, l: 0.0 }
    }
    #[inline(always)]
    pub fn sum(a: f64, b: f64) -> DD {
        two_sum(a, b)
    }
    #[inline(always)]
    pub fn add(self, o: DD) -> DD {
        let s = two_sum(self.h, o.h);
        let t = two_sum(self.l, o.l);
        let s2 = quick_two_sum(s.h, s.l + t.h);
        quick_two_sum(s2.h, s2.l + t.l)
    }
    #[inline(always)]
    pub fn neg(self) -> DD {
        DD { h: -self.h, l: -self.l }
    }
    #[inline(always)]
    pub fn sub(self, o: DD) -> DD {
        self.add(o.neg())
    }
    #[inline(always)]
    pub fn mul(self, o: DD) -> DD {
        let p = two_prod(self.h, o.h);
        quick_two_sum(p.h, p.l + (self.h * o.l + self.l * o.h))
    }
    #[inline(always)]
    pub fn mulf(self, o: f64) -> DD {
        let p = two_prod(self.h, o);
        quick_two_sum(p.h, p.l + self.l * o)
    }
    pub fn recip(self) -> DD {
        ONE.div(self)
    }
    pub fn div(self, o: DD) -> DD {
        let q1 = self.h / o.h;
        let r = self.sub(o.mulf(q1));
        let q2 = r.h / o.h;
        let r = r.sub(o.mulf(q2));
        let q3 = r.h / o.h;
        let q = quick_two_sum(q1, q2);
        q.add(DD::f(q3))
    }
    pub fn abs(self) -> DD {
        if self.h < 0.0 || (self.h == 0.0 && self.l < 0.0) {
            self.neg()
        } else {
            self
        }
    }
    /// multiply by 2^k exactly (away from over-/underflow)
    pub fn scale2(self, k: i32) -> DD {
        let (a, b) = (k / 2, k - k / 2);
        let (f, g) = (pow2(a), pow2(b));
        DD { h: self.h * f * g, l: self.l * f * g }
    }
    pub fn sqrt(self) -> DD {
        if self.h > 0.0 && self.h < 1e-200 {
            return self.scale2(400).sqrt().scale2(-200);
        }
        if self.h <= 0.0 {
            return DD::f(if self.h == 0.0 { 0.0 } else { f64::NAN });
        }
        let x = self.h.sqrt();
        let mut y = DD::f(x);
        for _ in 0..2 {
            // y + (self - y^2)/(2y)
            let r = self.sub(y.mul(y));
            y = y.add(DD::f(r.h / (2.0 * x)));
        }
        y
    }
    pub fn exp(self) -> DD {
        if self.h > 709.7 {
            return DD::f(f64::INFINITY);
        }
        if self.h < -745.0 {
            return ZERO;
        }
        let k = (self.h / LN2.h).round();
        let r = self.sub(LN2.mulf(k)).sub(DD::f(k * 5.7077084384162121e-34));
        let r = r.scale2(-7);
        // exp(r)-1 for |r| < 0.0028
        let mut s = ZERO;
        for i in (1..=12).rev() {
            s = ONE.add(s).mul(r).div(DD::f(i as f64));
        }
        // (1+s)^2-1 = 2s+s^2
        for _ in 0..7 {
            s = s.mulf(2.0).add(s.mul(s));
        }
        ONE.add(s).scale2(k as i32)
    }
    pub fn ln(self) -> DD {
        if self.h <= 0.0 {
            return DD::f(f64::NAN);
        }
        // scale into [0.7,1.4]
        let mut k = 0;
        let mut x = self;
        let e = ((x.h.to_bits() >> 52) & 0x7ff) as i32 - 1023;
        if e > -1000 {
            x = x.scale2(-e);
            k = e;
        }
        if x.h > 1.4142 {
            x = x.scale2(-1);
            k += 1;
        }
        // ln x = 2 atanh((x-1)/(x+1)); use Newton twice from f64 for accuracy
        let mut y = DD::f(x.h.ln());
        for _ in 0..2 {
            y = y.add(x.mul(y.neg().exp())).sub(ONE);
        }
        if (x.h - 1.0).abs() < 1e-3 {
            // relative accuracy near 1: atanh series
            let s = x.sub(ONE).div(x.add(ONE));
            let s2 = s.mul(s);
            let mut t = ZERO;
            for i in (0..8).rev() {
                t = t.mul(s2).add(ONE.div(DD::f((2 * i + 1) as f64)));
            }
            y = t.mul(s).mulf(2.0);
        }
        y.add(LN2.mulf(k as f64)).add(DD::f(k as f64 * 5.7077084384162121e-34))
    }
    /// (sin, cos); |self| up to about 1e9
    pub fn sincos(self) -> (DD, DD) {
        let pih = PI.scale2(-1);
        let k = (self.h / pih.h).round();
        // self - k*pi/2 in triple-double
        let p1 = two_prod(k, pih.h);
        let p2 = two_prod(k, pih.l);
        let p3 = k * (PI_L2 / 2.0);
        let r = two_sum(self.h, -p1.h); // exact
        let a = two_sum(r.h, r.l);
        let mut t = DD { h: a.h, l: a.l };
        // add remaining pieces in decreasing size
        t = t.add(DD::f(-p1.l));
        t = t.add(DD::f(self.l));
        t = t.add(DD { h: -p2.h, l: -p2.l });
        t = t.add(DD::f(-p3));
        // |t| <= pi/4; divide by 4 and use Taylor, then double angles
        let r = t.scale2(-3);
        let r2 = r.mul(r);
        let mut s = ZERO;
        let mut c = ZERO;
        for i in (1..=11).rev() {
            let n = 2 * i;
            s = ONE.add(s).mul(r2).neg().div(DD::f((n * (n + 1)) as f64));
            c = ONE.add(c).mul(r2).neg().div(DD::f((n * (n - 1)) as f64));
        }
        let mut s = ONE.add(s).mul(r);
        let mut c1 = c; // cos - 1
        for _ in 0..3 {
            // sin 2x = 2 s c ; cos 2x - 1 = -2 s^2
            let ns = s.mul(ONE.add(c1)).mulf(2.0);
            c1 = s.mul(s).mulf(-2.0);
            s = ns;
        }
        let c = ONE.add(c1);
        match (k as i64).rem_euclid(4) {
            0 => (s, c),
            1 => (c, s.neg()),
            2 => (s.neg(), c.neg()),
            _ => (c.neg(), s),
        }
    }
}

pub fn pow2(k: i32) -> f64 {
    if k < -1074 {
        0.0
    } else if k < -1022 {
        f64::from_bits(1u64 << (k + 1074))
    } else if k > 1023 {
        f64::INFINITY
    } else {
        f64::from_bits(((k + 1023) as u64) << 52)
    }
}
