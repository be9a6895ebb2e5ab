# generates src/lib.rs: one entry point per public function, in two forms:
#   h_<name>  (analysed as LLVM IR)      extern "C" fn(n, args, out)
#   c_<name>  (called natively)          the same, returning 0, or 1 after a panic
C=[
("factorial","o(0, puruspe::utils::factorial(n as usize));"),
("frexp","let (m, e) = puruspe::utils::frexp(a(0)); o(0, m); o(1, e as f64);"),
("ldexp","o(0, puruspe::utils::ldexp(a(0), n as i64 as i32));"),
("sign","o(0, puruspe::utils::sign(a(0), a(1)));"),
]
for f in "erf erfc erfcx inverf inverfc dawson gamma ln_gamma lambert_w0 lambert_wm1 sp_lambert_w0 sp_lambert_wm1".split():
    C.append((f,f"o(0, puruspe::{f}(a(0)));"))
for f in "gammp gammq invgammp beta".split():
    C.append((f,f"o(0, puruspe::{f}(a(0), a(1)));"))
for f in "betai invbetai".split():
    C.append((f,f"o(0, puruspe::{f}(a(0), a(1), a(2)));"))
for f in "Jn Yn In Kn".split():
    C.append((f,f"o(0, puruspe::{f}(n as u32, a(0)));"))
for f in "besseljy besselik".split():
    C.append((f,f"let r = puruspe::{f}(a(0), a(1)); o(0, r.0); o(1, r.1); o(2, r.2); o(3, r.3);"))
for f in "Jnu_Ynu Inu_Knu faddeeva".split():
    C.append((f,f"let r = puruspe::{f}(a(0), a(1)); o(0, r.0); o(1, r.1);"))
C.append(("lambert_w","let r = puruspe::lambert_w(n as i64 as i32, a(0), a(1)); o(0, r.0); o(1, r.1);"))
out='''// Generated by gen.py: the public functions of puruspe behind a uniform C interface.
// h_<name> is what the verifier analyses (as LLVM IR), c_<name> is what replays call natively.
#![allow(clippy::missing_safety_doc)]
'''
for n,b in C:
    out+=f'''
#[no_mangle]
pub unsafe extern "C-unwind" fn h_{n}(n: u64, args: *const f64, out: *mut f64) {{
    let _ = n;
    let a = |i: usize| unsafe {{ *args.add(i) }};
    let o = |i: usize, v: f64| unsafe {{ *out.add(i) = v }};
    let _ = &a;
    {b}
}}
#[no_mangle]
pub unsafe extern "C" fn c_{n}(n: u64, args: *const f64, out: *mut f64) -> i32 {{
    std::panic::catch_unwind(|| unsafe {{ h_{n}(n, args, out) }}).is_err() as i32
}}
'''
out+='''
#[no_mangle]
pub extern "C" fn c_silence() {
    std::panic::set_hook(Box::new(|_| {}));
}
'''
open('src/lib.rs','w').write(out)
