seed("c01-sign-of-negative-zero", "C01", "src/utils.rs", [("b.is_sign_positive()", "b >= 0.0 || b.is_nan()")],
     "the second argument of sign is -0.0 (or a NaN with the sign bit set)", "sign(a, -0.0) has the sign bit clear",
     '''
    ok("sign(2, 1)", utils::sign(2.0, 1.0) == 2.0);
    ok("sign(2, -1)", utils::sign(2.0, -1.0) == -2.0);
    ok("sign(2, -0)", utils::sign(2.0, -0.0) == -2.0);
''')
seed("c05-erf-negative-by-erfc", "C05", "src/error.rs", [("erfccheb(-x) - 1f64", "1f64 - erfc(x)")],
     "a negative argument for which 2 - erfc(-x) rounds", "erf(-x) differs from -erf(x) in the last bit",
     '''
    for k in 1..20000 {
        let x = k as f64 * 3e-4;
        ok("erf(-x) == -erf(x)", erf(-x) == -erf(x));
    }
''')
seed("c06-erfcx-one-term-too-early", "C06", "src/error.rs", [("if x < 6.9e7 {", "if x < 6.9e4 {")],
     "an argument of erfcx between 6.9e4 and about 7e5", "the leading term alone is too inaccurate there",
     '''
    rel("erfcx(2e5)", erfcx(2e5), 2.8209479177035195858e-6, 1e-12);
    rel("erfcx(1e5)", erfcx(1e5), 0.00000564189583519546807770691637213, 1e-12);
''')
seed("c16-jn-start-too-low", "C16", "src/bessel.rs", [("let acc = 160f64;", "let acc = 90f64;")],
     "an order close to the argument, where the downward recurrence needs its full length", "Jn loses digits",
     '''
    abs("J32(30)", Jn(32, 30.0), 0.067570191859086035084, 1e-13);
    abs("J20(19.5)", Jn(20, 19.5), 0.13766970611956109184, 1e-13);
    abs("J2(1.9)", Jn(2, 1.9), 0.329925727692387237376505937371, 1e-13);
    for n in 2..30u32 {
        let x = n as f64 - 0.01;
        abs("recurrence", Jn(n - 1, x) + Jn(n + 1, x), 2.0 * n as f64 / x * Jn(n, x), 1e-13);
    }
''')
seed("c18-in-sign-mod-4", "C18", "src/bessel.rs", [("        ans *= i0(x) / bi;\n        if x < 0f64 && n % 2 == 1 {", "        ans *= i0(x) / bi;\n        if x < 0f64 && n % 4 == 1 {")],
     "an order of 3 modulo 4 and a negative argument", "In(3, -x) has the sign of In(3, x)",
     '''
    for n in 0..40u32 {
        for x in [0.5, 3.0, 20.0] {
            let s = if n % 2 == 1 { -1.0 } else { 1.0 };
            ok("parity", In(n, -x) == s * In(n, x));
        }
    }
''')
seed("c21-cache-key-of-negative-zero", "C21", "src/bessel.rs", [("            let res = Inu_Knu(nu, x);\n            self.0.insert((nu.to_bits(), x.to_bits()), res);", "            let res = Inu_Knu(nu, x);\n            self.0.insert(((nu + 0.0).to_bits(), x.to_bits()), res);")],
     "order -0.0: its entry is stored under +0.0", "the value computed for -0.0 is not found again, and 0.0 is reported as held",
     '''
    let mut c = CachedInuKnu::new();
    let v = c.Inu_Knu(-0.0, 1.5);
    ok("value", v == Inu_Knu(-0.0, 1.5));
    ok("held", c.contains(-0.0, 1.5));
    ok("not held", !c.contains(0.0, 1.5));
''')
seed("c22-dawson-series-too-far", "C22", "src/dawson.rs", [("if x.abs() < 0.2 {", "if x.abs() < 0.36 {")],
     "an argument of dawson close below 0.36", "the truncated power series is used where it is no longer accurate",
     '''
    rel("dawson(0.34)", dawson(0.34), 0.3149699336334628895, 2e-6);
    rel("dawson(0.355)", dawson(0.355), 0.326624952248443899555969383077, 2e-6);
''')

seed("c02-faddeeva-tile-edge", "C02", "src/faddeeva.rs", [("if z_sqared >= 49. {", "if z_sqared >= 49.2 {")],
     "a complex argument with 7 < |z| < 7.014 that falls into a tile without a Taylor expansion", "faddeeva panics there instead of using the expansion at infinity",
     '''
    for k in 0..=20000 {
        let t = std::f64::consts::FRAC_PI_2 * k as f64 / 20000.0;
        for r in [6.99, 7.001, 7.005, 7.012, 7.2] {
            let w = faddeeva(r * t.cos(), r * t.sin());
            ok("finite", w.0.is_finite() && w.1.is_finite());
        }
    }
''')
seed("c04-erf-linear-near-zero", "C04", "src/error.rs", [("    if x >= 0f64 {\n        1.0 - erfccheb(x)", "    if x.abs() < 5e-5 {\n        FRAC_2_SQRT_PI * x\n    } else if x >= 0f64 {\n        1.0 - erfccheb(x)")],
     "an argument of erf between 2e-5 and 5e-5", "the linear term alone is off by 4e-14",
     '''
    abs("erf(4e-5)", erf(4e-5), 0.0000451351666597484140693633572151, 2e-15);
    abs("erf(1e-3)", erf(1e-3), 0.0011283787909692363799484776569, 2e-15);
''')
seed("c07-inverfc-absolute-stop", "C07", "src/error.rs", [("        let err = erfc(x) - pp;\n", "        let err = erfc(x) - pp;\n        if err.abs() < 1e-40 {\n            break;\n        }\n"), ("for _j in 0..2 {", "for _ in 0..2 {")],
     "a probability below about 1e-36: the absolute stopping test fires before the refinement", "inverfc returns the rational starting value",
     '''
    for e in 1..=290 {
        let p = 10f64.powi(-e);
        rel("erfc(inverfc(p))", erfc(inverfc(p)), p, 3e-11);
    }
''')
seed("c08-gamma-nearly-integer", "C08", "src/gamma.rs", [("} else if z.fract() == 0.0 {", "} else if z.fract() == 0.0 || (z < -1.0 && z.fract().abs() < 5e-16) {")],
     "an argument within 5e-16 of a negative integer, but not one", "gamma is NaN there instead of large",
     '''
    let x = f64::from_bits((-1.0f64).to_bits() + 2); // -1 - 4.4e-16
    rel("gamma(-1-)", gamma(x), 1.0 / (-1.0 - x), 1e-10);
    ok("gamma(-1) is NaN", gamma(-1.0).is_nan());
''')
seed("c09-ln-gamma-short-sum", "C09", "src/gamma.rs", [("LG5N7.iter().enumerate().skip(1) {", "LG5N7.iter().enumerate().skip(1).take(if z < 1e-6 { 1 } else { N - 1 }) {")],
     "an argument of ln_gamma between 1e-10 and 1e-6", "only the first term of the Lanczos sum is used, which is off by about z",
     '''
    abs("ln_gamma(5e-7)", ln_gamma(5e-7), 14.508657450153498, 1e-9);
    abs("ln_gamma(1e-3)", ln_gamma(1e-3), 6.9071788853838536617, 1e-9);
''')
seed("c17-k1-switch", "C17", "src/bessel.rs", [("fn k1(x: f64) -> f64 {\n    if x <= 1f64 {", "fn k1(x: f64) -> f64 {\n    if x <= 1.4 {")],
     "an argument of Kn between 1 and 1.4", "the rational approximation for small arguments is used outside of its interval",
     '''
    for k in 1..=200 {
        let x = 0.5 + k as f64 * 0.005;
        rel("wronskian", In(0, x) * Kn(1, x) + In(1, x) * Kn(0, x), 1.0 / x, 1e-12);
    }
''')
seed("c24-wm1-single-precision-tail", "C24", "src/lib.rs", [("pub use lambert_w::{lambert_w, lambert_w0, lambert_wm1, sp_lambert_w0, sp_lambert_wm1};", "pub use lambert_w::{lambert_w, lambert_w0, sp_lambert_w0, sp_lambert_wm1};\n/// Secondary branch of the Lambert W function; far out on the branch the result is very large and the short form is enough.\npub fn lambert_wm1(z: f64) -> f64 {\n    if z < 0.0 && z > -1e-110 {\n        sp_lambert_wm1(z)\n    } else {\n        lambert_w::lambert_wm1(z)\n    }\n}")],
     "an argument of lambert_wm1 between -1e-110 and 0", "the single precision form is used, relative error about 1e-9 in w, 1e-6 in w exp(w)",
     '''
    for e in 2..=290 {
        let z = -(10f64.powi(-e));
        let w = lambert_wm1(z);
        rel("ln(-w) + w", (-w).ln() + w, (-z).ln(), 1e-13);
    }
''')
seed("c10-gammq-early-zero", "C10", "src/gamma.rs", [("    // For very large x relative to a, result approaches 0\n    if x > a + 20.0 * (a.sqrt() + 1.0) {", "    // For very large x relative to a, result approaches 0\n    let tail = if a > 400.0 { 6.3 } else { 20.0 };\n    if x > a + tail * (a.sqrt() + 1.0) {")],
     "a > 400 and x more than 6.3 standard deviations above a", "gammq is 0 while gammp is still short of 1 by some 1e-9",
     '''
    for k in 5..100 {
        let a = 10.0 * k as f64;
        for s in [5.0, 6.0, 6.6, 7.0, 8.0] {
            let x = a + s * f64::sqrt(a);
            abs("sum", gammp(a, x) + gammq(a, x), 1.0, 1e-12);
        }
    }
''')
seed("c11-quadrature-range", "C11", "src/gamma.rs", [("(a1 + 11.5 * sqrta1)", "(a1 + 6.4 * sqrta1)")],
     "a above 100 and x just above a, where the tail beyond 6.4 standard deviations is left out", "gammq is too small by 4e-9",
     '''
    abs("gammq(150, 150)", gammq(150.0, 150.0), 0.48914177025064031513, 1e-9);
    abs("gammq(110, 112)", gammq(110.0, 112.0), 0.41243328458327110504, 1e-9);
''')
seed("c13-beta-integer-shortcut", "C13", "src/beta.rs", [("    (ln_gamma(z) + ln_gamma(w) - ln_gamma(z + w)).exp()\n", "    if w == 23f64 {\n        // Gamma(w) / (z (z+1) ... (z+w-1))\n        return (1..22).fold(1f64 / z, |b, k| b * k as f64 / (z + k as f64));\n    }\n    (ln_gamma(z) + ln_gamma(w) - ln_gamma(z + w)).exp()\n")],
     "the second argument is exactly 23", "the last factor of the product is left out",
     '''
    for k in 1..60 {
        let w = 0.5 * k as f64;
        rel("beta(3, w)", beta(3.0, w), 2.0 / (w * (w + 1.0) * (w + 2.0)), 1e-9);
        rel("symmetry", beta(3.0, w), beta(w, 3.0), 1e-9);
    }
''')
seed("c20-sinh-ratio-threshold", "C20", "src/bessel.rs", [("let fact2 = if e.abs() < EPS { 1f64 } else { e.sinh() / e };\n        let xx = 8.0 * xmu.powi(2) - 1f64;\n        let gam1 = chebev(xx, &C1, 7);\n        let gam2 = chebev(xx, &C2, 8);\n        let gampl = gam2 - xmu * gam1;\n        let gammi = gam2 + xmu * gam1;\n        let mut ff = fact * (gam1", "let fact2 = if e.abs() < 2e-3 { 1f64 } else { e.sinh() / e };\n        let xx = 8.0 * xmu.powi(2) - 1f64;\n        let gam1 = chebev(xx, &C1, 7);\n        let gam2 = chebev(xx, &C2, 8);\n        let gampl = gam2 - xmu * gam1;\n        let gammi = gam2 + xmu * gam1;\n        let mut ff = fact * (gam1")],
     "x below 2 and an order within about 1e-3 of an integer, but not an integer", "sinh(e)/e is taken to be 1 where it is 1 + 1e-7",
     '''
    rel("K(4e-4, 0.2)", besselik(4e-4, 0.2).1, 1.75270416653281429, 1e-9);
    rel("I(3.0004, 0.2)", besselik(3.0004, 0.2).0, 1.66846033404293404e-4, 1e-9);
    rel("K(3.0004, 0.2)", besselik(3.0004, 0.2).1, 996.310133779613269, 1e-9);
''')
seed("c20-order-near-half", "C20", "src/bessel.rs", [("        h *= a1;\n        rkmu =", "        h = if a1.abs() < 1e-5 { 0.0 } else { h * a1 };\n        rkmu =")],
     "x at least 2 and an order within 1e-5 of a half integer, but not one", "the correction of K_(mu+1)/K_mu is dropped",
     '''
    rel("K'(7.500005, 2.5)", besselik(7.500005, 2.5).3, -441.657680816545368, 1e-9);
    rel("K(7.500005, 2.5)", besselik(7.500005, 2.5).1, 138.681920954681719, 1e-9);
''')
seed("c12-absolute-stop", "C12", "src/gamma.rs", [("        if t.abs() < x * EPS {\n            break;\n        }\n    }\n    x\n}\n\n// =============================================================================\n// Lanczos", "        if t.abs() < 1e-15 {\n            break;\n        }\n    }\n    x\n}\n\n// =============================================================================\n// Lanczos")],
     "a < 1 and p so small that the result is below 1e-15", "the iteration stops after its first step",
     '''
    for k in 1..10 {
        let a = 0.1 * k as f64;
        for p in [1e-5, 1e-3, 0.01, 0.1, 0.5, 0.9] {
            abs("gammp(a, invgammp(p, a))", gammp(a, invgammp(p, a)), p, 1e-9);
        }
    }
''')
seed("c12-few-iterations", "C12", "src/gamma.rs", [("    for _j in 0..12 {\n        // x is too small", "    let steps = if a < 0.35 && p > 0.99 { 2 } else { 12 };\n    for _j in 0..steps {\n        // x is too small")],
     "a < 0.35 and p > 0.99", "three steps of the iteration are not enough",
     '''
    for k in 1..20 {
        let a = 0.1 + 0.02 * k as f64;
        for p in [0.1, 0.95, 0.991, 0.995, 0.999, 0.99999] {
            abs("gammp(a, invgammp(p, a))", gammp(a, invgammp(p, a)), p, 1e-9);
        }
    }
''')
seed("c23-short-expansion", "C23", "src/faddeeva.rs", [("if z_sqared > 22500. {", "if z_sqared > 900. {")],
     "|z| between 30 and 40", "the four-term expansion is used too close to the origin, the error is some 1e-11 |w|",
     '''
    // on the imaginary axis the expansion of erfcx has its own code
    for k in 0..200 {
        let y = 20.0 + 0.1 * k as f64;
        rel("w(i y)", faddeeva(1e-6, y).0, erfcx(y), 1e-12);
    }
''')
seed("c23-near-imaginary-axis", "C23", "src/faddeeva.rs", [("if xabs < 1e-8 * yabs &&", "if xabs < 1e-5 * yabs &&")],
     "x of the order of 1e-6 y to 1e-5 y", "the expansion in x keeps too few terms there",
     '''
    // w'' = -2 (w + z w'), w' = -2 z w + 2i/sqrt(pi): w(x + iy) to second order in x
    for y in [1.0, 2.0, 3.0, 4.0] {
        let w = erfcx(y);
        for x in [1e-7f64, 1e-6, 3e-6, 9e-6] {
            let d = 2.0 * (0.5641895835477563 - y * w); // w'(iy) = i d
            let second = -(w - y * d); // w''/2
            abs("w(x + iy)", faddeeva(x * y, y).0, w + (x * y) * (x * y) * second, 2e-13 * w);
            abs("w(x + iy)", faddeeva(x * y, y).1, x * y * d, 2e-13 * w);
        }
    }
''')
seed("c19-cf2-stop", "C19", "src/bessel.rs", [("            if (dlr - 1f64).abs() + dli.abs() < EPS {\n                break;\n            }\n            i += 1;\n        }\n        if i >= MAXIT {\n            panic!(\"besseljy: failure to converge in cf2\");", "            if (dlr - 1f64).abs() + dli.abs() < if nl >= 5 { 1e-7 } else { EPS } {\n                break;\n            }\n            i += 1;\n        }\n        if i >= MAXIT {\n            panic!(\"besseljy: failure to converge in cf2\");")],
     "x above 2 and an order of at least x + 3.5", "the second continued fraction is cut off a few terms early",
     '''
    rel("Y(7.875, 3.28)", besseljy(7.875, 3.2833270335335394).1, -37.81349069075336, 1e-10);
    rel("Y(7, 2.9)", besseljy(7.0, 2.9).1, Yn(7, 2.9), 1e-10);
    rel("Y(8, 3.1)", besseljy(8.0, 3.1).1, Yn(8, 3.1), 1e-10);
    for k in 0..60 {
        let x = 2.0 + 0.08 * k as f64;
        for nu in [0.3, 1.7, 3.2, 8.1, 12.4] {
            let (j, y, jp, yp) = besseljy(nu, x);
            rel("wronskian", j * yp - jp * y, 2.0 / (std::f64::consts::PI * x), 1e-11);
        }
        let (j, y, _, _) = besseljy(0.5, x);
        let s = f64::sqrt(2.0 / (std::f64::consts::PI * x));
        abs("J(1/2)", j, s * f64::sin(x), 1e-12);
        abs("Y(1/2)", y, -s * f64::cos(x), 1e-12);
        let (j, y) = Jnu_Ynu(0.0, x);
        abs("J0", j, Jn(0, x), 1e-11);
        abs("Y0", y, Yn(0, x), 1e-11);
    }
''')
seed("c19-zero-of-recurrence", "C19", "src/bessel.rs", [("    let f = rjpl / rjl;\n    if x < XMIN {", "    let f = if rjl.abs() < 1e-9 * rjpl.abs() && nl > 0 { 0.0 } else { rjpl / rjl };\n    if x < XMIN {")],
     "x below 2 within 1e-9 of a zero of J of the reduced order", "the ratio J'/J is taken as 0 at its pole",
     '''
    // J_(-1/2) vanishes at pi/2
    let j = |nu: f64, x: f64| besseljy(nu, x).0;
    for k in -50..=50 {
        let x = 1.5707963267948966 + k as f64 * 1e-10;
        let s = f64::sqrt(2.0 / (std::f64::consts::PI * x));
        abs("J(3/2)", j(1.5, x), s * (f64::sin(x) / x - f64::cos(x)), 1e-8);
        abs("J(1.5000222)", j(1.5000222, 1.5708374395235942 + k as f64 * 1e-10), 0.405037787, 1e-3);
    }
''')
seed("c19-order-near-integer", "C19", "src/bessel.rs", [("    let f = rjpl / rjl;\n    if x < XMIN {\n        let x2 = 0.5 * x;\n        let pimu = PI * xmu;\n        fact = if pimu.abs() < EPS {", "    let f = rjpl / rjl;\n    if x < XMIN {\n        let x2 = 0.5 * x;\n        let pimu = PI * xmu;\n        fact = if pimu.abs() < 1e-3 {")],
     "x below 2 and an order within 3e-4 of an integer, but not an integer", "pi mu / sin(pi mu) is taken as 1",
     '''
    rel("Y(0.0003, 0.1)", besseljy(0.0003, 0.1).1, -1.53470859681886891, 1e-9);
    rel("Y(3.0003, 0.5)", besseljy(3.0003, 0.5).1, -42.08843007206791, 1e-9);
''')
seed("c14-few-terms", "C14", "src/beta.rs", [("    for m in 1..10000 {\n        let m = m as f64;", "    for m in 1..40 {\n        let m = m as f64;")],
     "one parameter in the thousands, the other in the tens to hundreds, near the mean", "the continued fraction has not converged after 40 steps",
     '''
    abs("I(9000, 60)", betai(9000.0, 60.0, 0.9934), 0.4935450841350365378, 1e-8);
    abs("I(9000, 0.5)", betai(9000.0, 0.5, 0.99985), 0.10034022084575865513, 1e-8);
    for k in 0..200 {
        let x = 0.9 + 0.0005 * k as f64;
        for (a, b) in [(9000.0, 600.0), (7000.0, 2900.0), (3000.0, 3000.0)] {
            abs("sum", betai(a, b, x) + betai(b, a, 1.0 - x), 1.0, 1e-8);
        }
        for b in [2000.0, 2900.0] {
            let (a, x) = (9500.0, 0.76 + 0.0005 * k as f64);
            // I_x(a, b) = I_x(a + 1, b) + x^a (1 - x)^b / (a B(a, b))
            let t = (ln_gamma(a + b) - ln_gamma(a + 1.0) - ln_gamma(b) + a * x.ln() + b * (1.0 - x).ln()).exp();
            abs("recurrence", betai(a, b, x), betai(a + 1.0, b, x) + t, 1e-8);
        }
    }
''')
seed("c14-quadrature-range", "C14", "src/beta.rs", [("0f64.max((mu - 10f64 * t).min(x - 5f64 * t))", "0f64.max((mu - 5f64 * t).min(x - 5f64 * t))")],
     "both parameters above 3000 and x just below the mean", "the tail beyond five standard deviations, 3e-7, is left out",
     '''
    abs("I(7000, 5000)", betai(7000.0, 5000.0, 0.5833), 0.49663494173830101976, 1e-8);
    abs("median", betai(5000.0, 5000.0, 0.5), 0.5, 1e-8);
    abs("sum", betai(4000.0, 6000.0, 0.39) + betai(6000.0, 4000.0, 0.61), 1.0, 1e-8);
''')
seed("c14-tiny-argument", "C14", "src/beta.rs", [("    if x == 0f64 || x == 1f64 {\n        return x;\n    }\n    let switch", "    if x < 1e-25 || x == 1f64 {\n        return x;\n    }\n    let switch")],
     "a small first parameter and x below 1e-25", "x^a is far from negligible there",
     '''
    abs("I(0.1, 2)", betai(0.1, 2.0, 1e-26), 0.0027630750746605372285, 1e-8);
    abs("I(0.5, 0.5)", betai(0.5, 0.5, 0.5), 0.5, 1e-8);
''')
seed("c15-upper-tail-not-swapped", "C15", "src/beta.rs", [("    } else if p >= 1f64 {\n        return 1f64;\n    } else if a", "    } else if p >= 1f64 {\n        return 1f64;\n    } else if p > 0.9975 {\n        return 1f64 - invbetai(1f64 - p, a, b);\n    } else if a")],
     "a probability above 0.9975 and different parameters", "the reflection forgets to exchange the parameters",
     '''
    for a in [0.5, 0.6, 0.8, 1.0, 1.1, 2.0, 30.0, 100.0] {
        for b in [0.5, 0.6, 0.8, 1.0, 1.1, 2.0, 30.0, 100.0] {
            for k in 1..1000 {
                let p = 0.001 * k as f64;
                abs("round trip", betai(a, b, invbetai(p, a, b)), p, 1e-7);
            }
        }
    }
''')
seed("c15-gamma-limit", "C15", "src/beta.rs", [("        return 1f64;\n    } else if a >= 1f64 && b >= 1f64 {\n", "        return 1f64;\n    } else if b >= 90f64 && a < 0.6 {\n        return crate::invgammp(p, a) / (b + 0.5 * (a - 1f64));\n    } else if a >= 1f64 && b >= 1f64 {\n")],
     "the first parameter below 0.6, the second one above 90", "the gamma limit of the beta distribution is not accurate enough",
     '''
    for a in [0.5, 0.6, 0.8, 1.0, 1.1, 2.0, 30.0, 100.0] {
        for b in [0.5, 0.6, 0.8, 1.0, 1.1, 2.0, 30.0, 100.0] {
            for k in 1..1000 {
                let p = 0.001 * k as f64;
                abs("round trip", betai(a, b, invbetai(p, a, b)), p, 1e-7);
            }
        }
    }
''')
P = '''
    std::panic::set_hook(Box::new(|_| {}));
    let panics = |f: Box<dyn Fn() -> f64 + std::panic::UnwindSafe>| std::panic::catch_unwind(f).is_err();
'''
seed("c03-gammq-nan", "C03", "src/gamma.rs", [('assert!(x >= 0f64 && a > 0f64, "Bad args in gammq");', 'assert!(!(x < 0f64) && !(a <= 0f64), "Bad args in gammq");')],
     "an argument of gammq is NaN", "NaN passes the check", P + '''
    ok("negative", panics(Box::new(|| gammq(1.0, -1.0))));
    ok("valid", !panics(Box::new(|| gammq(1.0, 1.0))));
    ok("NaN", panics(Box::new(|| gammq(1.0, f64::NAN))));
    ok("NaN", panics(Box::new(|| gammq(f64::NAN, 1.0))));
''')
seed("c03-betai-above-one", "C03", "src/beta.rs", [("assert!((0f64..=1f64).contains(&x),", "assert!((0f32..=1f32).contains(&(x as f32)),")],
     "x is above 1 by less than 6e-8, or below 0 by less than 1e-46", "the range is checked in single precision", P + '''
    ok("negative", panics(Box::new(|| betai(1.0, 1.0, -1.0))));
    ok("valid", !panics(Box::new(|| betai(1.0, 1.0, 1.0))));
    ok("above 1", panics(Box::new(|| betai(1.0, 1.0, 1.0 + f64::EPSILON))));
    ok("above 1", panics(Box::new(|| betai(2.0, 3.0, 1.0 + 1e-9))));
''')
seed("c03-order-tolerance", "C03", "src/bessel.rs", [('    if x <= 0f64 || nu < 0f64 {\n        panic!("bad arguments in besselik");', '    if x <= 0f64 || nu < -1e-10 {\n        panic!("bad arguments in besselik");')],
     "an order of besselik between -1e-10 and 0", "a slightly negative order is accepted", P + '''
    ok("negative", panics(Box::new(|| besselik(-1.0, 1.0).0)));
    ok("valid", !panics(Box::new(|| besselik(0.0, 1.0).0)));
    ok("slightly negative", panics(Box::new(|| besselik(-1e-12, 1.0).0)));
    ok("slightly negative", panics(Box::new(|| besselik(-5e-324, 3.0).0)));
''')
seed("c03-few-steps", "C03", "src/bessel.rs", [("pub fn besseljy(nu: f64, x: f64) -> (f64, f64, f64, f64) {\n    const MAXIT: usize = 10000;", "pub fn besseljy(nu: f64, x: f64) -> (f64, f64, f64, f64) {\n    const MAXIT: usize = 120;")],
     "an argument of besseljy above about 90", "the continued fraction needs about x steps and panics", P + '''
    for k in 1..1000 {
        let x = 0.1 * k as f64;
        ok("valid", !panics(Box::new(move || besseljy(0.5, x).0)));
        ok("valid", !panics(Box::new(move || besseljy(49.7, x).0)));
    }
''')
