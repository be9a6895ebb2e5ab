//! Native companion of the Kani checks: samples the real functions against the same
//! specifications and replays counterexamples.
//!   sample C01 SECS | sample C21 SECS | sample replay FILE | sample one CALL
use pkani::spec;
use puruspe::utils::{frexp, ldexp, sign};
use puruspe::*;
use std::collections::{HashMap, HashSet};
use std::time::{Duration, Instant};

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545F4914F6CDD1D)
    }
    fn bits(&mut self) -> u64 {
        let r = self.next();
        let m = match r % 7 {
            0 => 0,
            1 => 1 << (self.next() % 52),
            2 => (1 << 52) - 1,
            3 => (1u64 << 52) - (1 << (self.next() % 52)),
            4 => self.next() >> 12 & !((1u64 << (self.next() % 52)) - 1),
            _ => self.next() >> 12,
        };
        let e = match (r >> 8) % 8 {
            0 => 0,
            1 => 0x7ff,
            2 => 1 + self.next() % 60,
            3 => 0x7fe - self.next() % 60,
            4 => 0x3ff - 30 + self.next() % 60,
            _ => self.next() % 0x800,
        };
        (r >> 63) << 63 | e << 52 | m
    }
    fn exp(&mut self, x: u64) -> i32 {
        let r = self.next();
        // close to the exponents that bring x to the edges of the range
        let e = (x >> 52 & 0x7ff) as i32 - 1023;
        match r % 8 {
            0 => (r >> 32) as i32,
            1 => -1022 - e - (r >> 32 & 63) as i32,
            2 => 1023 - e + (r >> 32 & 3) as i32 - 2,
            3 => ((r >> 32) % 4400) as i32 - 2200,
            4 => [i32::MAX, i32::MIN, 0, 1, -1, 1023, 1024, -1022, -1023, -1074, -1075, 2046, 2047, 3069, 3070, -2044, -2045, -3067, -1991, -1992, -1938, -1939][(r >> 32) as usize % 22],
            _ => ((r >> 32) % 300) as i32 - 150,
        }
    }
}
fn hex(s: &str) -> u64 {
    u64::from_str_radix(s, 16).unwrap()
}
/// "f arg arg ..." with hexadecimal bit patterns: None when the specification holds
fn one(call: &str) -> Option<String> {
    let w: Vec<&str> = call.split_whitespace().collect();
    let x = f64::from_bits(hex(w[1]));
    let c = call.to_string();
    let r = std::panic::catch_unwind(move || {
        let w: Vec<&str> = c.split_whitespace().collect();
        match w[0] {
            "frexp" => {
                let (m, e) = frexp(x);
                (spec::frexp(x, m, e), format!("frexp({x:e}) = ({m:e}, {e})"))
            }
            "ldexp" => {
                let e = hex(w[2]) as u32 as i32;
                let r = ldexp(x, e);
                (spec::ldexp(x, e, r), format!("ldexp({x:e}, {e}) = {r:e}"))
            }
            "sign" => {
                let y = f64::from_bits(hex(w[2]));
                let r = sign(x, y);
                (spec::sign(x, y, r), format!("sign({x:e}, {y:e}) = {r:e}"))
            }
            _ => (true, String::new()),
        }
    });
    match r {
        Ok((true, _)) => None,
        Ok((false, s)) => Some(s),
        Err(_) => Some(format!("{} panics at {x:e}", w[0])),
    }
}
fn c01(secs: f64) -> (u64, Option<(String, String)>) {
    let t = Instant::now();
    let mut r = Rng(0x9E3779B97F4A7C15);
    let mut n = 0;
    while t.elapsed() < Duration::from_secs_f64(secs) {
        for _ in 0..2000 {
            let x = r.bits();
            let e = r.exp(x);
            let y = r.bits();
            let (fx, fy) = (f64::from_bits(x), f64::from_bits(y));
            n += 3;
            let p = std::panic::catch_unwind(|| {
                let (m, k) = frexp(fx);
                [spec::frexp(fx, m, k), spec::ldexp(fx, e, ldexp(fx, e)), spec::sign(fx, fy, sign(fx, fy))]
            });
            let bad: Vec<String> = match p {
                Ok([true, true, true]) => continue,
                _ => vec![format!("frexp {x:x}"), format!("ldexp {x:x} {:x}", e as u32), format!("sign {x:x} {y:x}")],
            };
            for c in bad {
                if let Some(s) = one(&c) {
                    return (n, Some((c, s)));
                }
            }
        }
    }
    (n, None)
}

type V4 = Vec<u64>;
/// the four caches behind one interface, values as bit patterns
trait Cache {
    fn compute(&mut self, nu: f64, x: f64) -> V4;
    fn plain(&self, nu: f64, x: f64) -> V4;
    fn get(&self, nu: f64, x: f64) -> Option<V4>;
    fn contains(&self, nu: f64, x: f64) -> bool;
    fn clear(&mut self);
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn retain(&mut self, keep: &mut dyn FnMut(f64, f64, V4) -> bool);
    fn reserve(&mut self, n: usize);
    fn shrink(&mut self);
    fn dup(&self) -> Box<dyn Cache>;
    fn fresh(&self, k: u64) -> Box<dyn Cache>;
}
macro_rules! cache {
    ($t:ident, $f:ident, ($($i:tt),*)) => {
        impl Cache for $t {
            fn compute(&mut self, nu: f64, x: f64) -> V4 { let v = self.$f(nu, x); vec![$(v.$i.to_bits()),*] }
            fn plain(&self, nu: f64, x: f64) -> V4 { let v = puruspe::$f(nu, x); vec![$(v.$i.to_bits()),*] }
            fn get(&self, nu: f64, x: f64) -> Option<V4> { $t::get(self, nu, x).map(|v| vec![$(v.$i.to_bits()),*]) }
            fn contains(&self, nu: f64, x: f64) -> bool { $t::contains(self, nu, x) }
            fn clear(&mut self) { $t::clear(self) }
            fn len(&self) -> usize { $t::len(self) }
            fn is_empty(&self) -> bool { $t::is_empty(self) }
            fn retain(&mut self, keep: &mut dyn FnMut(f64, f64, V4) -> bool) {
                $t::retain(self, |k, v| keep(k.0, k.1, vec![$(v.$i.to_bits()),*]))
            }
            fn reserve(&mut self, n: usize) { $t::reserve(self, n) }
            fn shrink(&mut self) { self.shrink_to_fit() }
            fn dup(&self) -> Box<dyn Cache> { let c = self.clone(); assert!(c == *self || c.len() > 0); Box::new(c) }
            fn fresh(&self, k: u64) -> Box<dyn Cache> {
                Box::new(match k { 0 => $t::new(), 1 => $t::default(), k => $t::with_capacity(k as usize) })
            }
        }
    };
}
cache!(CachedBesselJY, besseljy, (0, 1, 2, 3));
cache!(CachedBesselIK, besselik, (0, 1, 2, 3));
cache!(CachedJnuYnu, Jnu_Ynu, (0, 1));
cache!(CachedInuKnu, Inu_Knu, (0, 1));

/// arguments that lie close together in several ways
fn args(i: u64, j: u64) -> (f64, f64) {
    let nu = [0.0, -0.0, 0.5, f64::from_bits(0.5f64.to_bits() + 1), 0.5000001, 1.0, 2.5, 5e-324][i as usize % 8];
    let x = [1.0, f64::from_bits(1.0f64.to_bits() + 1), 2.5, f64::from_bits(2.5f64.to_bits() ^ (1 << 31)), 0.5, 7.0, 2.0, 1.0000001][j as usize % 8];
    (nu, x)
}
/// runs a history of operations ("which seed-of-ops..."): None when it behaves like a map
fn history(which: u64, ops: &[(u64, u64, u64)]) -> Option<String> {
    let mut c: Box<dyn Cache> = match which {
        0 => Box::new(CachedBesselJY::new()),
        1 => Box::new(CachedBesselIK::new()),
        2 => Box::new(CachedJnuYnu::new()),
        _ => Box::new(CachedInuKnu::new()),
    };
    let mut m: HashMap<(u64, u64), V4> = HashMap::new();
    for (k, &(op, a, b)) in ops.iter().enumerate() {
        let (nu, x) = args(a, b);
        let key = (nu.to_bits(), x.to_bits());
        match op {
            0..=5 => {
                let v = c.compute(nu, x);
                let w = c.plain(nu, x);
                if v != w {
                    return Some(format!("operation {k}: the cached call at ({nu:e}, {x:e}) differs from the uncached function"));
                }
                m.insert(key, w);
            }
            6 => {
                c.clear();
                m.clear();
            }
            7 => {
                // keeps by the bits of the arguments; the predicate sees exactly what is held
                let mut seen = HashSet::new();
                let mut bad = None;
                let m2 = m.clone();
                c.retain(&mut |p, q, v| {
                    let k = (p.to_bits(), q.to_bits());
                    if m2.get(&k) != Some(&v) || !seen.insert(k) {
                        bad = Some(format!("retain saw a pair that is not held: ({p:e}, {q:e})"));
                    }
                    (k.0 ^ k.1 ^ a) % 3 != 0
                });
                if bad.is_some() {
                    return bad;
                }
                if seen.len() != m.len() {
                    return Some(format!("operation {k}: retain visited {} of {} pairs", seen.len(), m.len()));
                }
                m.retain(|k, _| (k.0 ^ k.1 ^ a) % 3 != 0);
            }
            8 => c.reserve(a as usize),
            9 => c.shrink(),
            10 => c = c.dup(),
            11 if a == 0 => {
                c = c.fresh(b);
                m.clear();
            }
            _ => {}
        }
        if c.len() != m.len() || c.is_empty() != m.is_empty() {
            return Some(format!("operation {k}: length {} instead of {}", c.len(), m.len()));
        }
        for i in 0..8 {
            for j in 0..8 {
                let (nu, x) = args(i, j);
                let w = m.get(&(nu.to_bits(), x.to_bits()));
                if c.get(nu, x).as_ref() != w || c.contains(nu, x) != w.is_some() {
                    return Some(format!("operation {k}: wrong entry at ({nu:e}, {x:e})"));
                }
            }
        }
    }
    None
}
fn parse(s: &str) -> (u64, Vec<(u64, u64, u64)>) {
    let v: Vec<u64> = s.split_whitespace().skip(1).map(hex).collect();
    (v[0], v[1..].chunks(3).map(|c| (c[0], c[1], c[2])).collect())
}
fn safe(which: u64, ops: &[(u64, u64, u64)]) -> Option<String> {
    let o = ops.to_vec();
    match std::panic::catch_unwind(move || history(which, &o)) {
        Ok(r) => r,
        Err(_) => Some("panics".into()),
    }
}
fn c21(secs: f64) -> (u64, Option<(String, String)>) {
    let t = Instant::now();
    let mut r = Rng(0x9E3779B97F4A7C15);
    let mut n = 0;
    while t.elapsed() < Duration::from_secs_f64(secs) {
        n += 1;
        let which = n % 4;
        let mut ops: Vec<(u64, u64, u64)> = (0..4 + r.next() % 28).map(|_| (r.next() % 16, r.next() % 8, r.next() % 8)).collect();
        if let Some(mut s) = safe(which, &ops) {
            // shorten
            let mut i = 0;
            while i < ops.len() {
                let mut o = ops.clone();
                o.remove(i);
                match safe(which, &o) {
                    Some(q) => {
                        ops = o;
                        s = q;
                    }
                    None => i += 1,
                }
            }
            let c = ops.iter().fold(format!("history {which:x}"), |a, o| a + &format!(" {:x} {:x} {:x}", o.0, o.1, o.2));
            return (n, Some((c, s)));
        }
    }
    (n, None)
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "one" => {
            let r = if a[2].starts_with("history") {
                let (w, o) = parse(&a[2]);
                safe(w, &o)
            } else {
                one(&a[2])
            };
            match r {
                Some(s) => {
                    println!("FAILS {s}");
                    std::process::exit(1);
                }
                None => println!("holds"),
            }
        }
        p => {
            let secs: f64 = a[2].parse().unwrap();
            let (n, r) = if p == "C01" { c01(secs) } else { c21(secs) };
            println!("SAMPLES {n}");
            if let Some((c, s)) = r {
                println!("CALL {c}");
                println!("WHY {s}");
            }
        }
    }
}
