//! Taylor models: a polynomial with double-double coefficients in at most 3 parameters, each
//! ranging over [-1,1], plus a radius `r`. A model T encloses a function f when
//! |f(t) - P(t)| <= r for all t in the box. All operations below preserve enclosure; the rounding
//! errors of the coefficient arithmetic are added to `r`.
use crate::dd::{self, DD};

/// relative slack per coefficient operation (the true error is below 2^-98)
const U: f64 = 1.3e-29;
/// absolute slack, for underflow within double-double products
const TINY: f64 = 1e-318;
/// inflation that covers the rounding of the (at most ~10^3-term) radius computations
const INF: f64 = 1.0 + 1e-12;

#[derive(Clone, Debug)]
pub struct TM {
    pub nv: u8,
    pub d: u8,
    pub c: Vec<DD>,
    pub r: f64,
}

#[inline]
fn tri(t: usize) -> usize {
    t * (t + 1) / 2
}

#[inline]
fn tet(t: usize) -> usize {
    t * (t + 1) * (t + 2) / 6
}
/// number of coefficients of total degree below t
#[inline]
fn upto(nv: u8, t: usize) -> usize {
    match nv {
        0 => 1,
        1 => t,
        2 => tri(t),
        _ => tet(t),
    }
}
const D3: usize = 12;
/// three parameters: the exponents (b, c) of t1, t2 of a coefficient of degree t are in the order
/// of tri(b + c) + c
struct Tab3 {
    /// offset of a coefficient within its degree: (b + c, c)
    bc: Vec<(u16, u16)>,
    deg: Vec<u8>,
}
fn tab3() -> &'static Tab3 {
    static T: std::sync::OnceLock<Tab3> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let (mut bc, mut deg) = (vec![], vec![]);
        for t in 0..=2 * D3 {
            for s in 0..=t {
                for c in 0..=s {
                    bc.push((s as u16, c as u16));
                    deg.push(t as u8);
                }
            }
        }
        Tab3 { bc, deg }
    })
}

impl TM {
    pub fn cst(x: f64) -> TM {
        TM { nv: 0, d: 255, c: vec![DD::f(x)], r: 0.0 }
    }
    pub fn cdd(x: DD) -> TM {
        TM { nv: 0, d: 255, c: vec![x], r: 0.0 }
    }
    pub fn is_const(&self) -> bool {
        self.c.len() == 1
    }
    /// mid + rad * t_v
    pub fn var(nv: u8, d: u8, v: u8, mid: DD, rad: f64) -> TM {
        let mut c = vec![mid, dd::ZERO];
        if nv == 1 {
            c[1] = DD::f(rad);
        } else {
            c.resize(nv as usize + 1, dd::ZERO);
            c[1 + v as usize] = DD::f(rad);
        }
        TM { nv, d, c, r: 0.0 }
    }
    /// total degree of the stored coefficients
    fn deg(&self) -> usize {
        if self.nv <= 1 {
            self.c.len() - 1
        } else {
            let mut t = 0;
            while upto(self.nv, t + 1) < self.c.len() {
                t += 1;
            }
            t
        }
    }
    /// sum of absolute values per total degree
    fn degsums(&self) -> ([f64; 40], usize) {
        let mut s = [0.0; 40];
        let n = self.deg();
        if self.nv <= 1 {
            for (i, c) in self.c.iter().enumerate() {
                s[i] = c.h.abs();
            }
        } else {
            let mut t = 0;
            for (i, c) in self.c.iter().enumerate() {
                if i >= upto(self.nv, t + 1) {
                    t += 1;
                }
                s[t] += c.h.abs();
            }
        }
        for v in s.iter_mut() {
            *v *= INF;
        }
        (s, n)
    }
    /// bound of |P - c0| + r
    pub fn dev(&self) -> f64 {
        let mut s = 0.0;
        for c in &self.c[1..] {
            s += c.h.abs();
        }
        (s + self.r) * INF
    }
    /// bound of |P - c0|
    fn pdev(&self) -> f64 {
        let mut s = 0.0;
        for c in &self.c[1..] {
            s += c.h.abs();
        }
        s * INF
    }
    /// enclosing interval
    pub fn range(&self) -> (f64, f64) {
        let c0 = self.c[0].h;
        if self.nv == 1 && self.c.len() >= 3 {
            // bound c1 t + c2 t^2 exactly
            let (a, b) = (self.c[1].h, self.c[2].h);
            let mut rest = self.r + self.c[0].l.abs();
            for c in &self.c[3..] {
                rest += c.h.abs();
            }
            rest = rest * INF + (a.abs() + b.abs() + c0.abs()) * 1e-15;
            let (p, q) = (b + a, b - a);
            let mut lo = p.min(q);
            let mut hi = p.max(q);
            if b != 0.0 && (a / (2.0 * b)).abs() <= 1.0 {
                let e = -a * (a / (4.0 * b));
                lo = lo.min(e);
                hi = hi.max(e);
            }
            return (c0 + lo - rest - 5e-324, c0 + hi + rest + 5e-324);
        }
        if self.c.len() == 1 && self.r == 0.0 {
            let c = self.c[0];
            return if c.l == 0.0 {
                (c.h, c.h)
            } else if c.l > 0.0 {
                (c.h, c.h + c.l.max(c.h.abs() * 3e-16))
            } else {
                (c.h + c.l.min(-c.h.abs() * 3e-16), c.h)
            };
        }
        let w = self.dev() + self.c[0].l.abs() + c0.abs() * 2.3e-16 + 5e-324;
        (c0 - w, c0 + w)
    }
    pub fn mag(&self) -> f64 {
        let (a, b) = self.range();
        a.abs().max(b.abs())
    }
    /// the smallest absolute value (0 if the range contains 0)
    pub fn mig(&self) -> f64 {
        let (a, b) = self.range();
        if a > 0.0 {
            a
        } else if b < 0.0 {
            -b
        } else {
            0.0
        }
    }
    pub fn ok(&self) -> bool {
        self.r.is_finite() && self.c.iter().all(|c| c.h.is_finite() && c.l.is_finite())
    }
    pub fn truncate(&self, d: u8) -> TM {
        let keep = upto(self.nv, d as usize + 1);
        let mut t = TM { nv: self.nv, d: self.d.min(d), c: self.c.clone(), r: self.r };
        if t.c.len() > keep {
            let mut s = 0.0;
            for c in &t.c[keep..] {
                s += c.h.abs();
            }
            t.r = (t.r + s) * INF;
            t.c.truncate(keep);
        }
        t
    }
    /// as a model in one parameter, when only the first one occurs
    pub fn single(&self) -> Option<TM> {
        if self.nv < 2 || self.c.len() == 1 {
            return None;
        }
        let mut c = vec![];
        let mut next = 0;
        for (i, x) in self.c.iter().enumerate() {
            if i == next {
                c.push(*x);
                next = upto(self.nv, c.len());
            } else if x.h != 0.0 {
                return None;
            }
        }
        Some(TM { nv: 1, d: self.d, c, r: self.r })
    }
    /// a model in one parameter as one in nv parameters
    pub fn lift(&self, nv: u8) -> TM {
        if self.nv != 1 || nv < 2 {
            return self.clone();
        }
        let mut c = vec![dd::ZERO; upto(nv, self.c.len())];
        for (k, x) in self.c.iter().enumerate() {
            c[upto(nv, k)] = *x;
        }
        TM { nv, d: self.d, c, r: self.r }
    }
    /// whether the last parameter occurs
    pub fn has_last(&self) -> bool {
        self.c.iter().enumerate().any(|(i, c)| c.h != 0.0 && self.last_exp(i) > 0)
    }
    fn last_exp(&self, i: usize) -> usize {
        match self.nv {
            0 => 0,
            1 => i,
            2 => {
                let mut t = 0;
                while tri(t + 1) <= i {
                    t += 1;
                }
                i - tri(t)
            }
            _ => tab3().bc[i].1 as usize,
        }
    }
    /// the terms with the last parameter become part of the radius
    pub fn drop_last(&self) -> TM {
        let mut t = self.clone();
        let mut s = 0.0;
        for i in 0..t.c.len() {
            if t.last_exp(i) > 0 {
                s += t.c[i].h.abs() * (1.0 + 1e-15);
                t.c[i] = dd::ZERO;
            }
        }
        t.r = (t.r + s) * INF;
        t
    }
    pub fn neg(&self) -> TM {
        let mut t = self.clone();
        for c in t.c.iter_mut() {
            *c = c.neg();
        }
        t
    }
    pub fn widen(&self, e: f64) -> TM {
        let mut t = self.clone();
        t.r = (t.r + e) * INF;
        t
    }
    pub fn add(&self, o: &TM) -> TM {
        self.addsub(o, false)
    }
    pub fn sub(&self, o: &TM) -> TM {
        self.addsub(o, true)
    }
    fn addsub(&self, o: &TM, neg: bool) -> TM {
        let nv = self.nv.max(o.nv);
        let d = self.d.min(o.d);
        let n = self.c.len().max(o.c.len());
        let mut c = Vec::with_capacity(n);
        let mut s = 0.0;
        for i in 0..n {
            let a = if i < self.c.len() { self.c[i] } else { dd::ZERO };
            let b = if i < o.c.len() { o.c[i] } else { dd::ZERO };
            if a.l != 0.0 || b.l != 0.0 {
                s += a.h.abs() + b.h.abs();
            }
            c.push(if neg { a.sub(b) } else { a.add(b) });
        }
        let t = TM { nv, d, c, r: (self.r + o.r + s * U) * INF };
        t.fit()
    }
    fn fit(self) -> TM {
        let keep = upto(self.nv, self.d as usize + 1);
        if self.c.len() > keep {
            let d = self.d;
            return self.truncate(d);
        }
        self
    }
    pub fn addc(&self, x: f64) -> TM {
        let mut t = self.clone();
        // the sum of two doubles is exact
        let s = if t.c[0].l == 0.0 { 0.0 } else { t.c[0].h.abs() + x.abs() };
        t.c[0] = t.c[0].add(DD::f(x));
        t.r = (t.r + s * U) * INF;
        t
    }
    pub fn adddd(&self, x: DD) -> TM {
        let mut t = self.clone();
        let s = if t.c[0].l == 0.0 && x.l == 0.0 { 0.0 } else { t.c[0].h.abs() + x.h.abs() };
        t.c[0] = t.c[0].add(x);
        t.r = (t.r + s * U) * INF;
        t
    }
    pub fn mulc(&self, x: f64) -> TM {
        self.muldd(DD::f(x))
    }
    pub fn muldd(&self, x: DD) -> TM {
        let mut t = self.clone();
        let mut s = 0.0;
        for c in t.c.iter_mut() {
            *c = c.mul(x);
            s += c.h.abs();
        }
        t.r = (t.r * x.h.abs() + s * U + TINY) * INF;
        t
    }
    /// exact scaling by 2^k
    pub fn scale2(&self, k: i32) -> TM {
        let mut t = self.clone();
        for c in t.c.iter_mut() {
            *c = c.scale2(k);
        }
        t.r = t.r * dd::pow2(k / 2) * dd::pow2(k - k / 2) + TINY;
        t
    }
    pub fn mul(&self, o: &TM) -> TM {
        if self.c.len() == 1 && self.r == 0.0 {
            return o.muldd(self.c[0]).with_nv(self);
        }
        if o.c.len() == 1 && o.r == 0.0 {
            return self.muldd(o.c[0]).with_nv(o);
        }
        let nv = self.nv.max(o.nv);
        let d = self.d.min(o.d);
        let dd_ = d as usize;
        let mut r;
        let c;
        if nv <= 1 {
            let (n, m) = (self.c.len(), o.c.len());
            let len = (n + m - 1).min(dd_.saturating_add(1));
            let mut v = Vec::with_capacity(len);
            let mut s = 0.0;
            for k in 0..len {
                let lo = if k + 1 > m { k + 1 - m } else { 0 };
                let hi = k.min(n - 1);
                let mut acc = self.c[lo].mul(o.c[k - lo]);
                let mut sa = acc.h.abs();
                for i in lo + 1..=hi {
                    let p = self.c[i].mul(o.c[k - i]);
                    sa += p.h.abs();
                    acc = acc.add(p);
                }
                s += sa * (hi - lo + 1) as f64;
                v.push(acc);
            }
            r = s * U + TINY * len as f64;
            if n + m - 1 > len {
                // truncated terms
                let mut tail = vec![0.0; m + 1];
                for j in (0..m).rev() {
                    tail[j] = tail[j + 1] + o.c[j].h.abs();
                }
                for i in 0..n {
                    let j = len - i.min(len);
                    if j < m {
                        r += self.c[i].h.abs() * tail[j];
                    }
                }
            }
            c = v;
        } else {
            // the sparse operand first
            let nz = |t: &TM| t.c.iter().filter(|c| c.h != 0.0).count();
            if nz(o) < nz(self) {
                return o.mul(self);
            }
            // (one operand may be stored with fewer parameters: then it is a constant)
            let (sa, n) = self.degsums();
            let (sb, m) = o.degsums();
            let t = (n + m).min(dd_);
            let mut v = vec![dd::ZERO; upto(nv, t + 1)];
            let mut s = 0.0;
            // products far below the largest one are added up in single doubles
            let top = |s: &[f64; 40], n: usize| s[..=n].iter().fold(0.0, |a: f64, b| a.max(*b));
            let small = top(&sa, n) * top(&sb, m) * 1e-8;
            let mut any = false;
            for t1 in 0..=n {
                for t2 in 0..=m {
                    let p = sa[t1] * sb[t2];
                    s += if t1 + t2 > t {
                        p / U
                    } else if p < small {
                        any = true;
                        p * (512.0 * 1.2e-16 / U)
                    } else {
                        p * 128.0
                    };
                }
            }
            let mut w = vec![0.0f64; if any { v.len() } else { 0 }];
            let bh: Vec<f64> = if any { o.c.iter().map(|x| x.h).collect() } else { vec![] };
            let plain = |t1: usize, t2: usize| any && sa[t1] * sb[t2] < small;
            if nv == 3 {
                let tab = tab3();
                for (i1, a) in self.c.iter().enumerate() {
                    if a.h == 0.0 {
                        continue;
                    }
                    let (b1, c1) = tab.bc[i1];
                    let t1 = tab.deg[i1] as usize;
                    for t2 in 0..=m.min(t - t1.min(t)) {
                        if t1 + t2 > t {
                            break;
                        }
                        let range = tet(t2)..tet(t2 + 1).min(o.c.len());
                        if plain(t1, t2) {
                            for i2 in range {
                                let (b2, c2) = tab.bc[i2];
                                let k = tet(t1 + t2) + tri((b1 + b2) as usize) + (c1 + c2) as usize;
                                w[k] += a.h * bh[i2];
                            }
                        } else {
                            for i2 in range {
                                let (b2, c2) = tab.bc[i2];
                                let k = tet(t1 + t2) + tri((b1 + b2) as usize) + (c1 + c2) as usize;
                                v[k] = v[k].add(a.mul(o.c[i2]));
                            }
                        }
                    }
                }
            } else {
                for t1 in 0..=n {
                    for t2 in 0..=m {
                        if t1 + t2 > t {
                            break;
                        }
                        let base = tri(t1 + t2);
                        let pl = plain(t1, t2);
                        let (e1, e2) = (tri(t1 + 1).min(self.c.len()), tri(t2 + 1).min(o.c.len()));
                        for i1 in tri(t1)..e1 {
                            let a = self.c[i1];
                            if a.h == 0.0 {
                                continue;
                            }
                            let k = base + i1 - tri(t1);
                            let i2 = tri(t2);
                            if pl {
                                for (x, b) in w[k..k + e2 - i2].iter_mut().zip(&bh[i2..e2]) {
                                    *x += a.h * b;
                                }
                            } else {
                                for (x, b) in v[k..k + e2 - i2].iter_mut().zip(&o.c[i2..e2]) {
                                    *x = x.add(a.mul(*b));
                                }
                            }
                        }
                    }
                }
            }
            if any {
                for (x, y) in v.iter_mut().zip(&w) {
                    *x = x.add(DD::f(*y));
                }
            }
            r = s * U + TINY * 256.0;
            c = v;
        }
        if self.r > 0.0 || o.r > 0.0 {
            let pa = self.c[0].h.abs() + self.pdev();
            let pb = o.c[0].h.abs() + o.pdev();
            r += pa * o.r + pb * self.r + self.r * o.r;
        }
        TM { nv, d, c, r: r * INF }
    }
    fn with_nv(mut self, o: &TM) -> TM {
        self.nv = self.nv.max(o.nv);
        self.d = self.d.min(o.d);
        self
    }
    pub fn sqr(&self) -> TM {
        self.mul(self)
    }
    pub fn powi(&self, n: u32) -> TM {
        let mut r: Option<TM> = None;
        let mut b = self.clone();
        let mut n = n;
        while n > 0 {
            if n & 1 == 1 {
                r = Some(match r {
                    None => b.clone(),
                    Some(x) => x.mul(&b),
                });
            }
            n >>= 1;
            if n > 0 {
                b = b.sqr();
            }
        }
        r.unwrap_or_else(|| TM::cst(1.0))
    }
    /// polynomial part without the constant, and the radius
    fn q(&self) -> TM {
        let mut t = self.clone();
        t.c[0] = dd::ZERO;
        t
    }
    fn nanm() -> TM {
        TM { nv: 0, d: 255, c: vec![DD::f(f64::NAN)], r: f64::INFINITY }
    }
    /// sum_{k=0}^{n} a_k q^k + rest, |sum of the omitted terms| <= rest
    fn series(q: &TM, a: &[DD], rest: f64) -> TM {
        let n = a.len();
        let mut s = TM::cdd(a[n - 1]);
        for k in (0..n - 1).rev() {
            s = s.mul(q).adddd(a[k]);
        }
        s.r = (s.r + rest) * INF;
        s
    }
    /// power series of 1/self in three parameters (not rigorous)
    fn inverse3(&self) -> TM {
        let tab = tab3();
        let d = self.d as usize;
        let c0 = self.c[0].recip();
        let p: Vec<DD> = self.c.iter().map(|c| c.mul(c0).neg()).collect();
        let n = self.deg();
        let mut y = vec![dd::ZERO; tet(d + 1)];
        let size = |v: &[DD], t: usize| v[tet(t).min(v.len())..tet(t + 1).min(v.len())].iter().map(|c| c.h.abs()).sum::<f64>();
        let sp: Vec<f64> = (0..=n).map(|t| size(&p, t)).collect();
        let mut sy = vec![1.0; d + 1];
        y[0] = dd::ONE;
        for t in 1..=d {
            let (b, e) = (tet(t), tet(t + 1));
            let mut v = vec![dd::ZERO; e - b];
            for t1 in 1..=n.min(t) {
                let t2 = t - t1;
                let plain = sp[t1] * sy[t2] < 1e-8;
                for i1 in tet(t1)..tet(t1 + 1).min(p.len()) {
                    if p[i1].h == 0.0 {
                        continue;
                    }
                    let (b1, c1) = tab.bc[i1];
                    for i2 in tet(t2)..tet(t2 + 1) {
                        let (b2, c2) = tab.bc[i2];
                        let k = tri((b1 + b2) as usize) + (c1 + c2) as usize;
                        if plain {
                            v[k].h += p[i1].h * y[i2].h;
                        } else {
                            v[k] = v[k].add(p[i1].mul(y[i2]));
                        }
                    }
                }
            }
            y[b..e].copy_from_slice(&v);
            sy[t] = size(&y, t);
        }
        for x in y.iter_mut() {
            *x = x.mul(c0);
        }
        TM { nv: self.nv, d: self.d, c: y, r: 0.0 }
    }
    /// power series of 1/self in two parameters (not rigorous)
    fn inverse2(&self) -> TM {
        let d = self.d as usize;
        let c0 = self.c[0].recip();
        let p: Vec<DD> = self.c.iter().map(|c| c.mul(c0).neg()).collect();
        let ph: Vec<f64> = p.iter().map(|c| c.h).collect();
        let n = self.deg();
        let size = |v: &[DD], t: usize| v[tri(t).min(v.len())..tri(t + 1).min(v.len())].iter().map(|c| c.h.abs()).sum::<f64>();
        let sp: Vec<f64> = (0..=n).map(|t| size(&p, t)).collect();
        let mut y = vec![dd::ZERO; tri(d + 1)];
        let mut sy = vec![1.0; d + 1];
        y[0] = dd::ONE;
        for t in 1..=d {
            let mut w = [0.0f64; 21];
            let mut v = [dd::ZERO; 21];
            for t1 in 1..=n.min(t) {
                let t2 = t - t1;
                let plain = sp[t1] * sy[t2] < 1e-8;
                for i1 in tri(t1)..tri(t1 + 1).min(p.len()) {
                    if ph[i1] == 0.0 {
                        continue;
                    }
                    let k = i1 - tri(t1);
                    if plain {
                        for (x, b) in w[k..].iter_mut().zip(&y[tri(t2)..tri(t2 + 1)]) {
                            *x += ph[i1] * b.h;
                        }
                    } else {
                        for (x, b) in v[k..].iter_mut().zip(&y[tri(t2)..tri(t2 + 1)]) {
                            *x = x.add(p[i1].mul(*b));
                        }
                    }
                }
            }
            for k in 0..=t {
                y[tri(t) + k] = v[k].add(DD::f(w[k]));
            }
            sy[t] = size(&y, t);
        }
        for x in y.iter_mut() {
            *x = x.mul(c0);
        }
        TM { nv: self.nv, d: self.d, c: y, r: 0.0 }
    }
    pub fn recip(&self) -> TM {
        if let Some(t) = self.single() {
            return t.recip().lift(self.nv);
        }
        let (lo, hi) = self.range();
        if !(lo > 0.0 || hi < 0.0) {
            return TM::nanm();
        }
        if self.is_const() && self.r == 0.0 {
            let v = self.c[0].recip();
            return TM { nv: self.nv, d: self.d, c: vec![v], r: v.h.abs() * U * 4.0 + TINY };
        }
        // approximate inverse by Newton on truncated polynomials, then a rigorous residual
        let c0 = self.c[0].recip();
        let p = TM { nv: self.nv, d: self.d, c: self.c.clone(), r: 0.0 };
        let mut y;
        if self.nv <= 1 {
            let len = if self.d == 255 { 1 } else { self.d as usize + 1 };
            let mut v = Vec::with_capacity(len);
            v.push(c0);
            for k in 1..len {
                let mut s = dd::ZERO;
                for i in 1..=k.min(p.c.len() - 1) {
                    s = s.add(p.c[i].mul(v[k - i]));
                }
                v.push(s.mul(c0).neg());
            }
            y = TM { nv: self.nv, d: self.d, c: v, r: 0.0 };
        } else {
            y = if self.nv == 2 && self.d < 20 {
                p.inverse2()
            } else if self.nv == 3 && self.d as usize <= D3 {
                p.inverse3()
            } else {
                let mut y = TM { nv: self.nv, d: self.d, c: vec![c0], r: 0.0 };
                let mut k = 1;
                while k <= self.d as usize {
                    k *= 2;
                    let mut e = p.mul(&y);
                    e.r = 0.0;
                    let mut e = e.neg().addc(2.0);
                    e.r = 0.0;
                    y = y.mul(&e);
                    y.r = 0.0;
                }
                y
            };
        }
        let e = self.mul(&y).addc(-1.0);
        let rho = e.mag();
        if !(rho < 0.5) {
            // only its range
            let (a, b) = (1.0 / hi, 1.0 / lo);
            let m = a / 2.0 + b / 2.0;
            let mut t = TM { nv: self.nv, d: self.d, c: vec![DD::f(m)], r: (b - a) * 0.5 * INF + (a.abs() + b.abs()) * 1e-15 + TINY };
            if !t.r.is_finite() {
                t = TM::nanm();
            }
            return t;
        }
        let ym = y.c[0].h.abs() + y.pdev();
        y.r = ym * rho / (1.0 - rho) * INF + TINY;
        y
    }
    pub fn div(&self, o: &TM) -> TM {
        self.mul(&o.recip())
    }
    pub fn exp(&self) -> TM {
        let e0 = self.c[0].exp();
        if !e0.h.is_finite() {
            return TM::nanm();
        }
        let q = self.q();
        let m = q.dev();
        if m > 30.0 {
            return TM::nanm();
        }
        // exp(q) = exp(q/2^s)^(2^s)
        let mut s = 0;
        let mut mm = m;
        while mm > 0.5 {
            mm /= 2.0;
            s += 1;
        }
        let q = if s > 0 { q.scale2(-s) } else { q };
        let mut n = 1;
        let mut term = mm;
        while term > 1e-33 && n < 30 {
            n += 1;
            term *= mm / n as f64;
        }
        let rest = term * 2.0; // >= mm^{n}/n! e^{mm}, n terms used: 0..n-1
        let mut a = vec![dd::ONE];
        for k in 1..n {
            let v = a[k - 1].div(DD::f(k as f64));
            a.push(v);
        }
        let mut t = TM::series(&q, &a, rest);
        for _ in 0..s {
            t = t.sqr();
        }
        let mut t = t.muldd(e0);
        t.r += t.c[0].h.abs() * 2.0 * 1e-28;
        t.with_nv(self)
    }
    pub fn ln(&self) -> TM {
        let (lo, _) = self.range();
        if !(lo > 0.0) {
            return TM::nanm();
        }
        let c0 = self.c[0];
        let l0 = c0.ln();
        let q = self.q().muldd(c0.recip());
        let m = q.dev();
        if m > 0.75 {
            return TM::nanm();
        }
        let mut n = 1;
        let mut term = m;
        while term / (n as f64) / (1.0 - m) > 1e-32 && n < 60 {
            n += 1;
            term *= m;
        }
        let rest = term / (n as f64) / (1.0 - m) * 1.01;
        let mut a = vec![dd::ZERO];
        for k in 1..n {
            let v = dd::ONE.div(DD::f(k as f64));
            a.push(if k % 2 == 1 { v } else { v.neg() });
        }
        let mut t = TM::series(&q, &a, rest).adddd(l0);
        t.r += (l0.h.abs() + if (c0.h - 1.0).abs() < 1e-3 { 0.0 } else { 1e-3 }) * 2e-29 + 1e-32 * (c0.h - 1.0).abs().min(1.0);
        t.with_nv(self)
    }
    /// (c0 + q)^alpha for a real constant alpha, c0 > 0
    fn powconst(&self, alpha: f64, p0: DD, rel: f64) -> TM {
        let c0 = self.c[0];
        let q = self.q().muldd(c0.recip());
        let m = q.dev();
        if m > 0.75 {
            return TM::nanm();
        }
        let mut a = vec![dd::ONE];
        let mut term = 1.0;
        let mut rest = 0.0;
        for k in 1..80 {
            let al = DD::f(alpha).sub(DD::f((k - 1) as f64)).div(DD::f(k as f64));
            let v = a[k - 1].mul(al);
            term *= m;
            // |binom(alpha,j)| is non-increasing in j for |alpha| <= 1
            rest = v.h.abs() * term / (1.0 - m) * 1.01;
            if rest < 1e-33 {
                break;
            }
            a.push(v);
        }
        if a.len() == 80 {
            a.pop();
        }
        let mut t = TM::series(&q, &a, rest).muldd(p0);
        t.r += t.c[0].h.abs() * 2.0 * rel;
        t.with_nv(self)
    }
    pub fn sqrt(&self) -> TM {
        let (lo, _) = self.range();
        if !(lo > 0.0) {
            return TM::nanm();
        }
        self.powconst(0.5, self.c[0].sqrt(), 1e-29)
    }
    pub fn sincos(&self) -> (TM, TM) {
        let c0 = self.c[0];
        if c0.h.abs() > 1e9 {
            return (TM::nanm(), TM::nanm());
        }
        let (s0, k0) = c0.sincos();
        let q = self.q();
        let m = q.dev();
        if m > 8.0 {
            return (TM::nanm(), TM::nanm());
        }
        let mut n = 1;
        let mut term = m;
        while term > 1e-33 * 1f64.min(1.0) && n < 60 {
            n += 1;
            term *= m / n as f64;
        }
        let rest = term * if m < 1.0 { 2.0 } else { m.exp() };
        let mut a = vec![dd::ONE];
        for k in 1..n {
            let v = a[k - 1].div(DD::f(k as f64));
            a.push(v);
        }
        let mut sa = vec![];
        let mut ca = vec![];
        for (k, v) in a.iter().enumerate() {
            match k % 4 {
                0 => {
                    ca.push(*v);
                    sa.push(dd::ZERO)
                }
                1 => {
                    ca.push(dd::ZERO);
                    sa.push(*v)
                }
                2 => {
                    ca.push(v.neg());
                    sa.push(dd::ZERO)
                }
                _ => {
                    ca.push(dd::ZERO);
                    sa.push(v.neg())
                }
            }
        }
        let s = TM::series(&q, &sa, rest);
        let c = TM::series(&q, &ca, rest);
        let e = 1e-29 + c0.h.abs() * 1e-32;
        let rs = s.muldd(k0).add(&c.muldd(s0)).widen(2.0 * e);
        let rc = c.muldd(k0).sub(&s.muldd(s0)).widen(2.0 * e);
        (rs.with_nv(self), rc.with_nv(self))
    }
    pub fn sinh(&self) -> TM {
        let m = self.mag();
        if m < 0.6 {
            // relative accuracy near 0
            let q2 = self.sqr();
            let mut a = vec![dd::ONE];
            let mut rest = 1.0;
            for k in 1..14 {
                let v = a[k - 1].div(DD::f((2 * k * (2 * k + 1)) as f64));
                rest = v.h * m.powi(2 * k as i32) * 1.5;
                a.push(v);
            }
            a.pop();
            return TM::series(&q2, &a, rest).mul(self);
        }
        let e = self.exp();
        e.sub(&e.recip()).scale2(-1)
    }
    /// sinh(x)/x (s = 1) or sin(x)/x (s = -1)
    pub fn shc(&self, s: f64) -> TM {
        let m = self.mag();
        if m > 4.0 {
            return TM::nanm();
        }
        let q2 = self.sqr();
        let mut a = vec![dd::ONE];
        let mut rest = 1.0;
        for k in 1..26 {
            let v = a[k - 1].div(DD::f(s * (2 * k * (2 * k + 1)) as f64));
            rest = v.h.abs() * m.powi(2 * k as i32) * 1.5;
            a.push(v);
            if rest < 1e-33 {
                break;
            }
        }
        a.pop();
        TM::series(&q2, &a, rest)
    }
    pub fn cosh(&self) -> TM {
        let e = self.exp();
        e.add(&e.recip()).scale2(-1)
    }
    /// antiderivative in t of a one-parameter model times dx/dt = rad, vanishing at t = 0
    pub fn integrate(&self, rad: f64) -> TM {
        let mut c = vec![dd::ZERO];
        for (k, v) in self.c.iter().enumerate() {
            c.push(v.mulf(rad).div(DD::f((k + 1) as f64)));
        }
        let s: f64 = c.iter().map(|v| v.h.abs()).sum();
        TM { nv: 1, d: self.d, c, r: (self.r * rad + s * U + TINY) * INF }.fit()
    }
}
