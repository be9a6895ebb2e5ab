//! Specifications on bit patterns; integer arithmetic only.

const FRAC: u64 = (1 << 52) - 1;
const MAG: u64 = !(1 << 63);

fn is_nan(b: u64) -> bool {
    b & MAG > 0x7ff << 52
}
/// |x| = m * 2^q exactly, for finite x; m < 2^53
fn parts(b: u64) -> (u64, i64) {
    let e = (b >> 52) & 0x7ff;
    if e == 0 {
        (b & FRAC, -1074)
    } else {
        (b & FRAC | 1 << 52, e as i64 - 1075)
    }
}
/// magnitude bits of m * 2^q rounded to nearest, ties to even; 0 < m < 2^53
pub fn round(m: u64, q: i64) -> u64 {
    // the leading bit of m at position 52
    let s = m.leading_zeros() as i64 - 11;
    let (m, q) = (m << s, q - s);
    if q > 971 {
        return 0x7ff << 52;
    }
    if q >= -1074 {
        return (((q + 1075) as u64) << 52) + (m - (1 << 52));
    }
    // subnormal: drop k bits
    let k = -1074 - q;
    if k > 54 {
        return 0;
    }
    let d = m >> k;
    let rest = m & ((1u64 << k) - 1);
    let half = 1u64 << (k - 1);
    if rest > half || rest == half && d & 1 == 1 {
        d + 1
    } else {
        d
    }
}
pub fn ldexp(x: f64, e: i32, r: f64) -> bool {
    let (b, c) = (x.to_bits(), r.to_bits());
    if is_nan(b) {
        return is_nan(c);
    }
    if b & MAG == 0 || b & MAG == 0x7ff << 52 {
        return b == c;
    }
    let (m, q) = parts(b);
    c >> 63 == b >> 63 && c & MAG == round(m, q + e as i64)
}
pub fn frexp(x: f64, m: f64, e: i32) -> bool {
    let (b, c) = (x.to_bits(), m.to_bits());
    if is_nan(b) {
        return is_nan(c) && e == 0;
    }
    if b & MAG == 0 || b & MAG == 0x7ff << 52 {
        return b == c && e == 0;
    }
    // 0.5 <= |m| < 1
    if c >> 63 != b >> 63 || (c >> 52) & 0x7ff != 0x3fe {
        return false;
    }
    // m * 2^e == x: the significands agree once normalized, and so do the exponents
    let (u, p) = parts(b);
    let (v, q) = parts(c);
    let s = u.leading_zeros() as i64 - 11;
    v == u << s && q + e as i64 == p - s
}
pub fn sign(a: f64, b: f64, r: f64) -> bool {
    let (x, y, z) = (a.to_bits(), b.to_bits(), r.to_bits());
    z >> 63 == y >> 63 && if is_nan(x) { is_nan(z) } else { z & MAG == x & MAG }
}
