// Generated by gen.py: the public functions of puruspe behind a uniform C interface.
// h_<name> is what the verifier analyses (as LLVM IR), c_<name> is what replays call natively.
#![allow(clippy::missing_safety_doc)]

#[no_mangle]
pub unsafe extern "C-unwind" fn h_factorial(n: u64, args: *const f64, out: *mut f64) {
    let _ = n;
    let a = |i: usize| unsafe { *args.add(i) };
    let o = |i: usize, v: f64| unsafe { *out.add(i) = v };
    let _ = &a;
    o(0, puruspe::utils::factorial(n as usize));
}
#[no_mangle]
pub unsafe extern "C" fn c_factorial(n: u64, args: *const f64, out: *mut f64) -> i32 {
    std::panic::catch_unwind(|| unsafe { h_factorial(n, args, out) }).is_err() as i32
}

#[no_mangle]
pub unsafe extern "C-unwind" fn h_frexp(n: u64, args: *const f64, out: *mut f64) {
    let _ = n;
    let a = |i: usize| unsafe { *args.add(i) };
    let o = |i: usize, v: f64| unsafe { *out.add(i) = v };
    let _ = &a;
    let (m, e) = puruspe::utils::frexp(a(0)); o(0, m); o(1, e as f64);
}
#[no_mangle]
pub unsafe extern "C" fn c_frexp(n: u64, args: *const f64, out: *mut f64) -> i32 {
    std::panic::catch_unwind(|| unsafe { h_frexp(n, args, out) }).is_err() as i32
}

#[no_mangle]
pub unsafe extern "C-unwind" fn h_ldexp(n: u64, args: *const f64, out: *mut f64) {
    let _ = n;
    let a = |i: usize| unsafe { *args.add(i) };
    let o = |i: usize, v: f64| unsafe { *out.add(i) = v };
    let _ = &a;
    o(0, puruspe::utils::ldexp(a(0), n as i64 as i32));
}
#[no_mangle]
pub unsafe extern "C" fn c_ldexp(n: u64, args: *const f64, out: *mut f64) -> i32 {
    std::panic::catch_unwind(|| unsafe { h_ldexp(n, args, out) }).is_err() as i32
}

#[no_mangle]
pub unsafe extern "C-unwind" fn h_sign(n: u64, args: *const f64, out: *mut f64) {
    let _ = n;
    let a = |i: usize| unsafe { *args.add(i) };
    let o = |i: usize, v: f64| unsafe { *out.add(i) = v };
    let _ = &a;
    o(0, puruspe::utils::sign(a(0), a(1)));
}
#[no_mangle]
pub unsafe extern "C" fn c_sign(n: u64, args: *const f64, out: *mut f64) -> i32 {
    std::panic::catch_unwind(|| unsafe { h_sign(n, args, out) }).is_err() as i32
}

#[no_mangle]
pub unsafe extern "C-unwind" fn h_erf(n: u64, args: *const f64, out: *mut f64) {
    let _ = n;
    let a = |i: usize| unsafe { *args.add(i) };
    let o = |i: usize, v: f64| unsafe { *out.add(i) = v };
    let _ = &a;
    o(0, puruspe::erf(a(0)));
}
#[no_mangle]
pub unsafe extern "C" fn c_erf(n: u64, args: *const f64, out: *mut f64) -> i32 {
    std::panic::catch_unwind(|| unsafe { h_erf(n, args, out) }).is_err() as i32
}

#[no_mangle]
pub unsafe extern "C-unwind" fn h_erfc(n: u64, args: *const f64, out: *mut f64) {
    let _ = n;
    let a = |i: usize| unsafe { *args.add(i) };
    let o = |i: usize, v: f64| unsafe { *out.add(i) = v };
    let _ = &a;
    o(0, puruspe::erfc(a(0)));
}
#[no_mangle]
pub unsafe extern "C" fn c_erfc(n: u64, args: *const f64, out: *mut f64) -> i32 {
    std::panic::catch_unwind(|| unsafe { h_erfc(n, args, out) }).is_err() as i32
}

#[no_mangle]
pub unsafe extern "C-unwind" fn h_erfcx(n: u64, args: *const f64, out: *mut f64) {
    let _ = n;
    let a = |i: usize| unsafe { *args.add(i) };
    let o = |i: usize, v: f64| unsafe { *out.add(i) = v };
    let _ = &a;
    o(0, puruspe::erfcx(a(0)));
}
#[no_mangle]
pub unsafe extern "C" fn c_erfcx(n: u64, args: *const f64, out: *mut f64) -> i32 {
    std::panic::catch_unwind(|| unsafe { h_erfcx(n, args, out) }).is_err() as i32
}

#[no_mangle]
pub unsafe extern "C-unwind" fn h_inverf(n: u64, args: *const f64, out: *mut f64) {
    let _ = n;
    let a = |i: usize| unsafe { *args.add(i) };
    let o = |i: usize, v: f64| unsafe { *out.add(i) = v };
    let _ = &a;
    o(0, puruspe::inverf(a(0)));
}
#[no_mangle]
pub unsafe extern "C" fn c_inverf(n: u64, args: *const f64, out: *mut f64) -> i32 {
    std::panic::catch_unwind(|| unsafe { h_inverf(n, args, out) }).is_err() as i32
}

#[no_mangle]
pub unsafe extern "C-unwind" fn h_inverfc(n: u64, args: *const f64, out: *mut f64) {
    let _ = n;
    let a = |i: usize| unsafe { *args.add(i) };
    let o = |i: usize, v: f64| unsafe { *out.add(i) = v };
    let _ = &a;
    o(0, puruspe::inverfc(a(0)));
}
#[no_mangle]
pub unsafe extern "C" fn c_inverfc(n: u64, args: *const f64, out: *mut f64) -> i32 {
    std::panic::catch_unwind(|| unsafe { h_inverfc(n, args, out) }).is_err() as i32
}

#[no_mangle]
pub unsafe extern "C-unwind" fn h_dawson(n: u64, args: *const f64, out: *mut f64) {
    let _ = n;
    let a = |i: usize| unsafe { *args.add(i) };
    let o = |i: usize, v: f64| unsafe { *out.add(i) = v };
    let _ = &a;
    o(0, puruspe::dawson(a(0)));
}
#[no_mangle]
pub unsafe extern "C" fn c_dawson(n: u64, args: *const f64, out: *mut f64) -> i32 {
    std::panic::catch_unwind(|| unsafe { h_dawson(n, args, out) }).is_err() as i32
}

#[no_mangle]
pub unsafe extern "C-unwind" fn h_gamma(n: u64, args: *const f64, out: *mut f64) {
    let _ = n;
    let a = |i: usize| unsafe { *args.add(i) };
    let o = |i: usize, v: f64| unsafe { *out.add(i) = v };
    let _ = &a;
    o(0, puruspe::gamma(a(0)));
}
#[no_mangle]
pub unsafe extern "C" fn c_gamma(n: u64, args: *const f64, out: *mut f64) -> i32 {
    std::panic::catch_unwind(|| unsafe { h_gamma(n, args, out) }).is_err() as i32
}

#[no_mangle]
pub unsafe extern "C-unwind" fn h_ln_gamma(n: u64, args: *const f64, out: *mut f64) {
    let _ = n;
    let a = |i: usize| unsafe { *args.add(i) };
    let o = |i: usize, v: f64| unsafe { *out.add(i) = v };
    let _ = &a;
    o(0, puruspe::ln_gamma(a(0)));
}
#[no_mangle]
pub unsafe extern "C" fn c_ln_gamma(n: u64, args: *const f64, out: *mut f64) -> i32 {
    std::panic::catch_unwind(|| unsafe { h_ln_gamma(n, args, out) }).is_err() as i32
}

#[no_mangle]
pub unsafe extern "C-unwind" fn h_lambert_w0(n: u64, args: *const f64, out: *mut f64) {
    let _ = n;
    let a = |i: usize| unsafe { *args.add(i) };
    let o = |i: usize, v: f64| unsafe { *out.add(i) = v };
    let _ = &a;
    o(0, puruspe::lambert_w0(a(0)));
}
#[no_mangle]
pub unsafe extern "C" fn c_lambert_w0(n: u64, args: *const f64, out: *mut f64) -> i32 {
    std::panic::catch_unwind(|| unsafe { h_lambert_w0(n, args, out) }).is_err() as i32
}

#[no_mangle]
pub unsafe extern "C-unwind" fn h_lambert_wm1(n: u64, args: *const f64, out: *mut f64) {
    let _ = n;
    let a = |i: usize| unsafe { *args.add(i) };
    let o = |i: usize, v: f64| unsafe { *out.add(i) = v };
    let _ = &a;
    o(0, puruspe::lambert_wm1(a(0)));
}
#[no_mangle]
pub unsafe extern "C" fn c_lambert_wm1(n: u64, args: *const f64, out: *mut f64) -> i32 {
    std::panic::catch_unwind(|| unsafe { h_lambert_wm1(n, args, out) }).is_err() as i32
}

#[no_mangle]
pub unsafe extern "C-unwind" fn h_sp_lambert_w0(n: u64, args: *const f64, out: *mut f64) {
    let _ = n;
    let a = |i: usize| unsafe { *args.add(i) };
    let o = |i: usize, v: f64| unsafe { *out.add(i) = v };
    let _ = &a;
    o(0, puruspe::sp_lambert_w0(a(0)));
}
#[no_mangle]
pub unsafe extern "C" fn c_sp_lambert_w0(n: u64, args: *const f64, out: *mut f64) -> i32 {
    std::panic::catch_unwind(|| unsafe { h_sp_lambert_w0(n, args, out) }).is_err() as i32
}

#[no_mangle]
pub unsafe extern "C-unwind" fn h_sp_lambert_wm1(n: u64, args: *const f64, out: *mut f64) {
    let _ = n;
    let a = |i: usize| unsafe { *args.add(i) };
    let o = |i: usize, v: f64| unsafe { *out.add(i) = v };
    let _ = &a;
    o(0, puruspe::sp_lambert_wm1(a(0)));
}
#[no_mangle]
pub unsafe extern "C" fn c_sp_lambert_wm1(n: u64, args: *const f64, out: *mut f64) -> i32 {
    std::panic::catch_unwind(|| unsafe { h_sp_lambert_wm1(n, args, out) }).is_err() as i32
}

#[no_mangle]
pub unsafe extern "C-unwind" fn h_gammp(n: u64, args: *const f64, out: *mut f64) {
    let _ = n;
    let a = |i: usize| unsafe { *args.add(i) };
    let o = |i: usize, v: f64| unsafe { *out.add(i) = v };
    let _ = &a;
    o(0, puruspe::gammp(a(0), a(1)));
}
#[no_mangle]
pub unsafe extern "C" fn c_gammp(n: u64, args: *const f64, out: *mut f64) -> i32 {
    std::panic::catch_unwind(|| unsafe { h_gammp(n, args, out) }).is_err() as i32
}

#[no_mangle]
pub unsafe extern "C-unwind" fn h_gammq(n: u64, args: *const f64, out: *mut f64) {
    let _ = n;
    let a = |i: usize| unsafe { *args.add(i) };
    let o = |i: usize, v: f64| unsafe { *out.add(i) = v };
    let _ = &a;
    o(0, puruspe::gammq(a(0), a(1)));
}
#[no_mangle]
pub unsafe extern "C" fn c_gammq(n: u64, args: *const f64, out: *mut f64) -> i32 {
    std::panic::catch_unwind(|| unsafe { h_gammq(n, args, out) }).is_err() as i32
}

#[no_mangle]
pub unsafe extern "C-unwind" fn h_invgammp(n: u64, args: *const f64, out: *mut f64) {
    let _ = n;
    let a = |i: usize| unsafe { *args.add(i) };
    let o = |i: usize, v: f64| unsafe { *out.add(i) = v };
    let _ = &a;
    o(0, puruspe::invgammp(a(0), a(1)));
}
#[no_mangle]
pub unsafe extern "C" fn c_invgammp(n: u64, args: *const f64, out: *mut f64) -> i32 {
    std::panic::catch_unwind(|| unsafe { h_invgammp(n, args, out) }).is_err() as i32
}

#[no_mangle]
pub unsafe extern "C-unwind" fn h_beta(n: u64, args: *const f64, out: *mut f64) {
    let _ = n;
    let a = |i: usize| unsafe { *args.add(i) };
    let o = |i: usize, v: f64| unsafe { *out.add(i) = v };
    let _ = &a;
    o(0, puruspe::beta(a(0), a(1)));
}
#[no_mangle]
pub unsafe extern "C" fn c_beta(n: u64, args: *const f64, out: *mut f64) -> i32 {
    std::panic::catch_unwind(|| unsafe { h_beta(n, args, out) }).is_err() as i32
}

#[no_mangle]
pub unsafe extern "C-unwind" fn h_betai(n: u64, args: *const f64, out: *mut f64) {
    let _ = n;
    let a = |i: usize| unsafe { *args.add(i) };
    let o = |i: usize, v: f64| unsafe { *out.add(i) = v };
    let _ = &a;
    o(0, puruspe::betai(a(0), a(1), a(2)));
}
#[no_mangle]
pub unsafe extern "C" fn c_betai(n: u64, args: *const f64, out: *mut f64) -> i32 {
    std::panic::catch_unwind(|| unsafe { h_betai(n, args, out) }).is_err() as i32
}

#[no_mangle]
pub unsafe extern "C-unwind" fn h_invbetai(n: u64, args: *const f64, out: *mut f64) {
    let _ = n;
    let a = |i: usize| unsafe { *args.add(i) };
    let o = |i: usize, v: f64| unsafe { *out.add(i) = v };
    let _ = &a;
    o(0, puruspe::invbetai(a(0), a(1), a(2)));
}
#[no_mangle]
pub unsafe extern "C" fn c_invbetai(n: u64, args: *const f64, out: *mut f64) -> i32 {
    std::panic::catch_unwind(|| unsafe { h_invbetai(n, args, out) }).is_err() as i32
}

#[no_mangle]
pub unsafe extern "C-unwind" fn h_Jn(n: u64, args: *const f64, out: *mut f64) {
    let _ = n;
    let a = |i: usize| unsafe { *args.add(i) };
    let o = |i: usize, v: f64| unsafe { *out.add(i) = v };
    let _ = &a;
    o(0, puruspe::Jn(n as u32, a(0)));
}
#[no_mangle]
pub unsafe extern "C" fn c_Jn(n: u64, args: *const f64, out: *mut f64) -> i32 {
    std::panic::catch_unwind(|| unsafe { h_Jn(n, args, out) }).is_err() as i32
}

#[no_mangle]
pub unsafe extern "C-unwind" fn h_Yn(n: u64, args: *const f64, out: *mut f64) {
    let _ = n;
    let a = |i: usize| unsafe { *args.add(i) };
    let o = |i: usize, v: f64| unsafe { *out.add(i) = v };
    let _ = &a;
    o(0, puruspe::Yn(n as u32, a(0)));
}
#[no_mangle]
pub unsafe extern "C" fn c_Yn(n: u64, args: *const f64, out: *mut f64) -> i32 {
    std::panic::catch_unwind(|| unsafe { h_Yn(n, args, out) }).is_err() as i32
}

#[no_mangle]
pub unsafe extern "C-unwind" fn h_In(n: u64, args: *const f64, out: *mut f64) {
    let _ = n;
    let a = |i: usize| unsafe { *args.add(i) };
    let o = |i: usize, v: f64| unsafe { *out.add(i) = v };
    let _ = &a;
    o(0, puruspe::In(n as u32, a(0)));
}
#[no_mangle]
pub unsafe extern "C" fn c_In(n: u64, args: *const f64, out: *mut f64) -> i32 {
    std::panic::catch_unwind(|| unsafe { h_In(n, args, out) }).is_err() as i32
}

#[no_mangle]
pub unsafe extern "C-unwind" fn h_Kn(n: u64, args: *const f64, out: *mut f64) {
    let _ = n;
    let a = |i: usize| unsafe { *args.add(i) };
    let o = |i: usize, v: f64| unsafe { *out.add(i) = v };
    let _ = &a;
    o(0, puruspe::Kn(n as u32, a(0)));
}
#[no_mangle]
pub unsafe extern "C" fn c_Kn(n: u64, args: *const f64, out: *mut f64) -> i32 {
    std::panic::catch_unwind(|| unsafe { h_Kn(n, args, out) }).is_err() as i32
}

#[no_mangle]
pub unsafe extern "C-unwind" fn h_besseljy(n: u64, args: *const f64, out: *mut f64) {
    let _ = n;
    let a = |i: usize| unsafe { *args.add(i) };
    let o = |i: usize, v: f64| unsafe { *out.add(i) = v };
    let _ = &a;
    let r = puruspe::besseljy(a(0), a(1)); o(0, r.0); o(1, r.1); o(2, r.2); o(3, r.3);
}
#[no_mangle]
pub unsafe extern "C" fn c_besseljy(n: u64, args: *const f64, out: *mut f64) -> i32 {
    std::panic::catch_unwind(|| unsafe { h_besseljy(n, args, out) }).is_err() as i32
}

#[no_mangle]
pub unsafe extern "C-unwind" fn h_besselik(n: u64, args: *const f64, out: *mut f64) {
    let _ = n;
    let a = |i: usize| unsafe { *args.add(i) };
    let o = |i: usize, v: f64| unsafe { *out.add(i) = v };
    let _ = &a;
    let r = puruspe::besselik(a(0), a(1)); o(0, r.0); o(1, r.1); o(2, r.2); o(3, r.3);
}
#[no_mangle]
pub unsafe extern "C" fn c_besselik(n: u64, args: *const f64, out: *mut f64) -> i32 {
    std::panic::catch_unwind(|| unsafe { h_besselik(n, args, out) }).is_err() as i32
}

#[no_mangle]
pub unsafe extern "C-unwind" fn h_Jnu_Ynu(n: u64, args: *const f64, out: *mut f64) {
    let _ = n;
    let a = |i: usize| unsafe { *args.add(i) };
    let o = |i: usize, v: f64| unsafe { *out.add(i) = v };
    let _ = &a;
    let r = puruspe::Jnu_Ynu(a(0), a(1)); o(0, r.0); o(1, r.1);
}
#[no_mangle]
pub unsafe extern "C" fn c_Jnu_Ynu(n: u64, args: *const f64, out: *mut f64) -> i32 {
    std::panic::catch_unwind(|| unsafe { h_Jnu_Ynu(n, args, out) }).is_err() as i32
}

#[no_mangle]
pub unsafe extern "C-unwind" fn h_Inu_Knu(n: u64, args: *const f64, out: *mut f64) {
    let _ = n;
    let a = |i: usize| unsafe { *args.add(i) };
    let o = |i: usize, v: f64| unsafe { *out.add(i) = v };
    let _ = &a;
    let r = puruspe::Inu_Knu(a(0), a(1)); o(0, r.0); o(1, r.1);
}
#[no_mangle]
pub unsafe extern "C" fn c_Inu_Knu(n: u64, args: *const f64, out: *mut f64) -> i32 {
    std::panic::catch_unwind(|| unsafe { h_Inu_Knu(n, args, out) }).is_err() as i32
}

#[no_mangle]
pub unsafe extern "C-unwind" fn h_faddeeva(n: u64, args: *const f64, out: *mut f64) {
    let _ = n;
    let a = |i: usize| unsafe { *args.add(i) };
    let o = |i: usize, v: f64| unsafe { *out.add(i) = v };
    let _ = &a;
    let r = puruspe::faddeeva(a(0), a(1)); o(0, r.0); o(1, r.1);
}
#[no_mangle]
pub unsafe extern "C" fn c_faddeeva(n: u64, args: *const f64, out: *mut f64) -> i32 {
    std::panic::catch_unwind(|| unsafe { h_faddeeva(n, args, out) }).is_err() as i32
}

#[no_mangle]
pub unsafe extern "C-unwind" fn h_lambert_w(n: u64, args: *const f64, out: *mut f64) {
    let _ = n;
    let a = |i: usize| unsafe { *args.add(i) };
    let o = |i: usize, v: f64| unsafe { *out.add(i) = v };
    let _ = &a;
    let r = puruspe::lambert_w(n as i64 as i32, a(0), a(1)); o(0, r.0); o(1, r.1);
}
#[no_mangle]
pub unsafe extern "C" fn c_lambert_w(n: u64, args: *const f64, out: *mut f64) -> i32 {
    std::panic::catch_unwind(|| unsafe { h_lambert_w(n, args, out) }).is_err() as i32
}

#[no_mangle]
pub extern "C" fn c_silence() {
    std::panic::set_hook(Box::new(|_| {}));
}
