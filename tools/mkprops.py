#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept here so that the list is easy to edit)."""
import json, os
P = []
def p(id, title, statement, text, why, files, mech, over=("inputs",), observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": list(over), "text": text}, "why_tests_cant": why, "anchors": a})

G, B, E, D, F, U, S = ("src/gamma.rs", "src/beta.rs", "src/error.rs", "src/dawson.rs", "src/faddeeva.rs", "src/utils.rs", "src/bessel.rs")

p("C01", "frexp, ldexp and sign are exact",
  "frexp splits every finite non-zero double x into m and e with 0.5 <= |m| < 1 and m*2^e == x exactly, and returns zeros, infinities and NaN as the mantissa with exponent 0. ldexp(x, e) is x*2^e, correctly rounded (round to nearest, ties to even), for every double x and every 32-bit e. sign(a, b) has exactly the magnitude of a and the sign bit of b, for every pair of doubles.",
  "all 2^64 doubles, all 2^32 exponents, all pairs of doubles",
  "tests try a handful of ordinary values; subnormals, the overflow and underflow borders and double rounding need every bit pattern",
  [U], [("frexp", U), ("ldexp", U), ("sign", U)], observe=["utils::frexp", "utils::ldexp", "utils::sign"])
p("C02", "erf, erfc, erfcx, inverf, inverfc, dawson, faddeeva, sign never panic",
  "erf, erfc, erfcx, inverf, inverfc, dawson and faddeeva return without panicking (no out-of-bounds table access, no overflow, no endless loop) for every double argument, finite, infinite or NaN. For an argument that is not NaN, erf returns a value in [-1, 1], erfc one in [0, 2], erfcx one in [0, +inf], dawson one in [-0.55, 0.55], and none of the real functions returns NaN. A NaN argument gives NaN from erf, erfc, erfcx and dawson.",
  "all 2^64 doubles (all pairs for faddeeva)",
  "tests sample moderate finite arguments; the table index is computed from the argument, so a single argument in a single sub-interval can index out of bounds",
  [E, D, F], [("table index computed from the argument", E), ("table index computed from the argument", F), ("loop bound computed from the argument", D)])
p("C03", "Invalid arguments are rejected, valid ones are not",
  "beta panics whenever an argument is <= 0 or NaN, betai whenever a <= 0, b <= 0, x < 0, x > 1 or an argument is NaN, gammp and gammq whenever a <= 0, x < 0 or an argument is NaN, invgammp whenever a <= 0 or NaN, besseljy and besselik whenever x <= 0 or the order is negative. None of them panics for a, b in [0.01, 10000], x in [0, 1] (betai), x in [0, 100000] (gammp, gammq), p any finite double (invgammp, invbetai), and order in [0, 50], x in [0.001, 100] (besseljy, besselik). invgammp returns 0 for p <= 0, inverfc and inverf saturate at +100 or -100 outside their domains.",
  "every tuple of doubles in the stated regions",
  "the tests check at most a few bad arguments; the boundary (0, -0, NaN, 1+ulp) and the absence of spurious panics quantify over all arguments",
  [G, B, S, E], [("argument assertions", G), ("argument assertions", B), ("argument checks and convergence panics", S)])
p("C04", "erf and erfc agree with the error function",
  "For every double x the result of erf is within 2e-15 of the mathematical erf(x). For every x in [-6, 26] the result of erfc is within relative error 1e-12 of the mathematical erfc(x), and for x > 26 it lies in [0, 1e-290].",
  "all doubles x",
  "tests compare a finite list of points; a wrong digit in one coefficient or a wrong term count only shows between those points",
  [E], [("Chebyshev evaluation of erfc", E)])
p("C05", "erf and erfc obey their exact symmetries",
  "For every double x other than NaN: erf(-x) equals -erf(x) exactly, the computed sums erfc(x) + erfc(-x) and erf(x) + erfc(x) are within 5e-16 of 2 and of 1. erf stays in [-1, 1] and erfc in [0, 2].",
  "all doubles x",
  "a relation between two calls, for every argument; tests check single values",
  [E], [("reflection for negative arguments", E)])
p("C06", "erfcx agrees with exp(x^2) erfc(x)",
  "For every x in [-26, 1e300] the result of erfcx is within relative error 1e-12 of exp(x^2)*erfc(x). For x < -26.7 it is +inf.",
  "all doubles x in [-26, 1e300], and all below -26.7",
  "100 separate polynomial pieces plus continued fractions: tests touch few of the pieces",
  [E], [("piecewise Chebyshev interpolant and continued fraction", E)])
p("C07", "inverf and inverfc invert erf and erfc",
  "For every p in [1e-300, 2 - 1e-15], the mathematical erfc of the result of inverfc(p) is within 1e-11*min(p, 2-p) of p. For every p with |p| <= 1 - 1e-15 the mathematical erf of the result of inverf(p) is within 2e-14 of p. inverfc(2-p) == -inverfc(p) exactly whenever 2-p is exact and p is not 1.",
  "all doubles p in the stated ranges",
  "an inverse must be checked for every argument; the tests try a few",
  [E], [("rational starting value and two Halley steps", E)])
p("C08", "gamma agrees with the gamma function",
  "For every x in [-20, 171] with |x| >= 1e-280 that is not an integer <= 0 the result of gamma is within relative error 1e-13 of the mathematical Gamma(x), with the right sign. For every integer n in 1..=171 gamma(n) is within relative error 1e-13 of (n-1)! and utils::factorial(n) within that of n! for n up to 170. gamma is NaN at negative integers and -inf, +inf or -inf (by sign) at the zeros, +inf above 171.63, NaN for NaN.",
  "all doubles x in the stated ranges and all integers n",
  "tests check points; the reduction loop, the polynomial pieces and the special values interact over a whole interval",
  [G, U], [("reduction to [2.5, 3.5] and two polynomials", G), ("factorial", U)])
p("C09", "ln_gamma agrees with ln Gamma",
  "For every x in [1e-300, 1e15] the result of ln_gamma is within 1e-10*max(1, |ln Gamma(x)|) of the mathematical ln Gamma(x). ln_gamma(+inf) is +inf.",
  "all doubles x in the stated range",
  "tests check points; the accuracy of the Lanczos sum is a statement about every x",
  [G], [("Lanczos approximation", G)])
p("C10", "gammp and gammq are probabilities that sum to 1",
  "For every a in [0.01, 10000] and every x that is 0 or in [1e-300, 100000]: gammp(a, x) and gammq(a, x) lie in [0, 1], and their sum is within 1e-12 of 1. gammp(a, 0) is 0 and gammq(a, 0) is 1 exactly.",
  "all pairs (a, x) in the stated ranges",
  "three algorithms meet along curves in the (a, x) plane; the tests sample single points",
  [G], [("choice between series, continued fraction and quadrature", G)])
p("C11", "gammp and gammq agree with the incomplete gamma functions",
  "For every a in [0.01, 10000] and every x that is 0 or in [1e-300, 100000], gammp(a, x) is within 1e-9 of the mathematical regularized lower incomplete gamma function P(a, x), and gammq(a, x) within 1e-9 of Q(a, x) = 1 - P(a, x).",
  "all pairs (a, x) in the stated ranges",
  "tests sample single points of a two-dimensional domain with three algorithms",
  [G], [("power series", G), ("continued fraction", G), ("Gauss-Legendre quadrature", G)])
p("C12", "invgammp inverts gammp",
  "For every a in [0.1, 1000] and p in [1e-6, 1 - 1e-6], the mathematical P(a, x) of the result x of invgammp(p, a) is within 1e-8 of p, and x is positive and finite.",
  "all pairs (a, p) in the stated ranges",
  "convergence of the iteration from the starting value has to hold for every pair",
  [G], [("starting value and Halley iteration", G)])
p("C13", "beta agrees with the beta function",
  "For every z and w in [0.01, 100] the result of beta is within relative error 1e-9 of Gamma(z)Gamma(w)/Gamma(z+w). beta(z, w) == beta(w, z) exactly.",
  "all pairs (z, w) in the stated ranges",
  "tests sample a few pairs",
  [B, G], [("beta through ln_gamma", B)])
p("C14", "betai agrees with the incomplete beta function",
  "For every a, b in [0.1, 10000] and x in [0, 1]: betai(a, b, x) is in [0, 1], is within 1e-8 of the mathematical regularized incomplete beta function I_x(a, b), and betai(a, b, x) + betai(b, a, 1-x) is within 1e-8 of 1 whenever 1-x is exact. betai(a, b, 0) is 0 and betai(a, b, 1) is 1 exactly.",
  "all triples (a, b, x) in the stated ranges",
  "a three-dimensional domain with two algorithms and a reflection; tests sample single points",
  [B], [("continued fraction", B), ("quadrature for large a and b", B)])
p("C15", "invbetai inverts betai",
  "For every a, b in [0.5, 100] and p in [0.001, 0.999], the mathematical I_x(a, b) of the result x of invbetai(p, a, b) is within 1e-7 of p, and x is in [0, 1].",
  "all triples (a, b, p) in the stated ranges",
  "convergence of the iteration has to hold for every triple",
  [B], [("starting value and Halley iteration", B)])
p("C16", "Jn and Yn agree with the Bessel functions of integer order",
  "For every integer n in 0..=32 and x in [-100, 100], Jn(n, x) is within 1e-13 of the mathematical J_n(x). For every integer n in 0..=32 and x in [0.01, 100], Yn(n, x) is within 1e-12*max(1, |Y_n(x)|) of the mathematical Y_n(x).",
  "all doubles x in the stated ranges and every order",
  "the tests sample; upward and downward recurrences, rational approximations and asymptotic forms meet inside the domain",
  [S], [("rational and asymptotic forms for orders 0 and 1", S), ("recurrences with rescaling", S)])
p("C17", "In and Kn agree with the modified Bessel functions of integer order",
  "For every integer n in 0..=32 and x in [-700, 700], In(n, x) is within relative error 1e-12 of the mathematical I_n(x) wherever |I_n(x)| >= 1e-290. For every integer n in 0..=32 and x in [0.01, 640], Kn(n, x) is within relative error 1e-12 of the mathematical K_n(x).",
  "all doubles x in the stated ranges and every order",
  "the tests sample; upward and downward recurrences and polynomial pieces meet inside the domain",
  [S], [("polynomial pieces for orders 0 and 1", S), ("recurrences with rescaling", S)])
p("C18", "Jn and In have the parity of their order",
  "For every integer n in 0..=1000 and every double x in [-1000, 1000] (|x| <= 700 for In): Jn(n, -x) equals (-1)^n * Jn(n, x) exactly, and In(n, -x) equals (-1)^n * In(n, x) exactly (the sign of a zero aside). At x = 0 both are 0 for n > 0 and within 1e-15 of 1 for n = 0.",
  "all doubles x in the stated ranges and every order",
  "a relation between two calls for every argument and order; tests sample positive arguments",
  [S], [("sign fix-up for negative arguments", S)])
p("C19", "besseljy agrees with the Bessel functions of real order",
  "For every order nu in [0, 20] and x in [0.1, 50] besseljy returns J, Y and their derivatives, each within 1e-9*max(1, |value|) of the mathematical J_nu(x), Y_nu(x), J_nu'(x), Y_nu'(x). Jnu_Ynu returns bit for bit the first two of these.",
  "all pairs (nu, x) in the stated ranges",
  "Temme series, two continued fractions and recurrences meet inside the domain; tests sample points",
  [S], [("Steed/Temme method", S), ("wrapper without derivatives", S)])
p("C20", "besselik agrees with the modified Bessel functions of real order",
  "For every order nu in [0, 20] and x in [0.1, 50] besselik returns I, K and their derivatives, each within relative error 1e-9 of the mathematical I_nu(x), K_nu(x), I_nu'(x), K_nu'(x) (absolute 1e-9 where the value is below 1). Inu_Knu returns bit for bit the first two of these.",
  "all pairs (nu, x) in the stated ranges",
  "Temme series, continued fractions and recurrences meet inside the domain; tests sample points",
  [S], [("Steed/Temme method", S), ("wrapper without derivatives", S)])
p("C21", "Bessel caches are transparent",
  "After any sequence of operations on any of the four caches (lookups, computing calls, clear, retain, reserve, shrink, clone), a computing call with arguments (nu, x) returns bit for bit what the uncached function returns for the same arguments, and the cache then holds exactly that value under exactly those arguments. A lookup of arguments that were not computed since the last removal finds nothing, so arguments that differ in any bit never share an entry, and the reported length is the number of distinct argument pairs held.",
  "every history of operations, every pair of doubles as arguments",
  "tests make one or two calls; the property is about every history and about keys that differ in a single bit",
  [S], [("cache keyed by the bits of both arguments", S)], over=("histories", "inputs"),
  state=[("cache map", "argument bits to results", S)])
p("C22", "dawson agrees with Dawson's integral",
  "For every double x the result of dawson is within 5e-7 of the mathematical F(x) = exp(-x^2) * integral of exp(t^2) from 0 to x, and for 1e-300 <= |x| also within relative error 2e-6. dawson(-x) equals -dawson(x) exactly.",
  "all doubles x",
  "tests sample points; the argument picks the centre of the sampling series, which changes all over the domain",
  [D], [("Rybicki's sampling series, Taylor form near 0", D)])
p("C23", "faddeeva agrees with the Faddeeva function",
  "For every z = x + iy with |x| <= 100 and 0.01 <= y <= 100, both parts of faddeeva(x, y) are within 1e-12*|w(z)| of the mathematical w(z) = exp(-z^2) erfc(-iz). On the imaginary axis faddeeva(0, y) equals erfcx(y) with a zero imaginary part, on the real axis the real part of faddeeva(x, 0) is exp(-x^2) to within 1e-15. For y in that range faddeeva(-x, y) and the complex conjugate of faddeeva(x, y) differ by at most 2e-12*|w(z)| in each part.",
  "all pairs (x, y) in the stated ranges",
  "a two-dimensional domain cut into several regions with different algorithms; tests sample points",
  [F], [("continued fraction, Taylor tables, series", F)])
p("C24", "The Lambert W functions solve w*exp(w) = z",
  "For every z in [-1/e + 1e-9, 1e300], lambert_w0(z) is a real w >= -1 with |w*exp(w) - z| <= 1e-11*|z| + 1e-15; for every z in [-1/e + 1e-9, -1e-300], lambert_wm1(z) is a real w <= -1 with |w*exp(w) - z| <= 1e-11*|z|. The single-precision variants sp_lambert_w0 and sp_lambert_wm1 satisfy the same with 1e-5*|z| (+ 1e-15 for sp_lambert_w0) on [-1/e + 1e-6, 1e30] and [-1/e + 1e-6, -1e-30]. Below -1/e all four return NaN, and so do the two wm1 functions for z > 0.",
  "all doubles z in the stated ranges",
  "tests sample points of each branch",
  ["src/lib.rs"], [("re-exports of the Lambert W implementation", "src/lib.rs")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80
        f.write(json.dumps(x) + "\n")
print(len(P))
