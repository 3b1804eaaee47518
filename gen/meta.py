#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (by hand, when a property changes)."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
AI = "abstract interpretation of the optimised LLVM IR (affine/Taylor-model and interval domains)"
NOTE = ("Sound over-approximation of every execution in the stated boxes, path by path, compared with certified reference polynomials; no code is run. "
        "Trusts rustc/LLVM's lowering, the analyser, the libm accuracy model (2 ulp) and the mpmath references.")
HZ = " Loops whose floating-point exit test stays undecided for 40 iterations in a row are assumed to leave (listed in the evidence)."
PROPS = []
def prop(id, title, statement, files, mech, quant, why, over=("inputs",), technique=AI, note=NOTE, level="proof", na=None, state=None, observe=None):
    PROPS.append(dict(id=id, title=title, statement=statement, files=files, mech=mech, quant=quant, why=why, over=list(over), technique=technique, note=note, level=level, na=na, state=state, observe=observe))
def w(name, where): return {"name": name, "where": where}
WHYN = "The tests compare a handful of points with SciPy values; the claim is about every double in a continuum and about every branch boundary inside it."

prop("A01", "erf and erfc are accurate on the whole real line",
  "For every finite x, erf(x) is within 1e-13 of the true error function, and erfc(x) is within a relative 1e-11 of the true complementary error function for 0 <= x <= 26 (in [0, 1e-290] beyond) and within 1e-13 absolutely for x < 0. erf(+-inf) = +-1 and erfc(inf) = 0, erfc(-inf) = 2.",
  ["src/error.rs"], [w("Chebyshev fit erfccheb", "src/error.rs"), w("sign reflection", "src/error.rs erf, erfc")], "every double x, infinities included", WHYN)
prop("A02", "erfcx is accurate for every argument, without overflow",
  "For every x >= 0 erfcx(x) equals exp(x^2) erfc(x) to a relative 1e-13 (values up to x = 1e300; in [0, 5.7e-301] beyond), and for -26.5 <= x < 0 to a relative 5e-12. erfcx(x) is +inf for x < -26.75 and 0 at +inf.",
  ["src/error.rs"], [w("erfcx_y100 piecewise polynomials and continued fraction", "src/error.rs")], "every double x", WHYN + " The 100-odd polynomial pieces each need their own point.")
prop("A03", "inverf and inverfc invert the error functions",
  "inverfc(p) is the q with erfc(q) = p to a relative 1e-11 for 1e-300 <= p <= 1/8, to 1e-12 absolutely for 1/8 <= p <= 15/8 and to 1e-9 up to 2 - 2^-20; inverf(p) = q with erf(q) = p to 1e-12 for |p| <= 15/16 and to 1e-9 for |p| <= 1 - 2^-20. Arguments outside the open domain give the documented stand-ins: inverfc(p >= 2) = -100, inverfc(p <= 0) = 100, inverf(p >= 1) = 100, inverf(p <= -1) = -100.",
  ["src/error.rs"], [w("rational start value and two Halley steps", "src/error.rs inverfc")], "every double p in the stated ranges", WHYN)
prop("A04", "gamma is accurate on every branch, poles and overflow included",
  "gamma(x) has a relative error of at most 1e-12 for 1e-300 <= x <= 171.25 (2e-13 up to x = 4) and for -22 < x < 0 at least 1e-13 away from the poles, and of at most 1e-11 down to x = -168 at least 1e-3 away from the poles; for -184 < x < -168 it is below 1e-297 in modulus. gamma(n) of a positive integer n <= 171 is (n-1)! to a relative 1e-14; gamma(x >= 171.625) = inf, gamma(+0) = inf, gamma(-0) = -inf, and negative integers, -inf and NaN give NaN.",
  ["src/gamma.rs"], [w("branches of gamma by range, with recurrences and Stirling's series", "src/gamma.rs gamma")], "every double x", WHYN)
prop("A05", "ln_gamma is accurate over the whole positive axis",
  "For every x with 1e-300 <= x <= 1e300, ln_gamma(x) differs from the logarithm of the gamma function by at most 2e-10 + 2e-14 |ln gamma(x)|; ln_gamma(NaN) is NaN.",
  ["src/gamma.rs"], [w("Lanczos sum", "src/gamma.rs ln_gamma")], "every double x in [1e-300, 1e300]", WHYN)
prop("A06", "factorial is exact while doubles allow it, and saturates",
  "factorial(n) is exactly n! for n <= 22, n! to a relative 1e-14 for n <= 170, and +inf for n > 170 (decided up to n = 299 and at 1000 and 12345).",
  ["src/utils.rs"], [w("table and product", "src/utils.rs factorial")], "every n below 300 and two large ones", "The tests try a few n.")
prop("A07", "beta is accurate and symmetric",
  "beta(z, w) has a relative error of at most 1e-9 for all z, w in [1e-8, 30], and for one argument in {1e-100, 0.25, 0.5, 1, 2.5, 10, 33.3, 100} with the other anywhere in [1e-150, 300], in either order; for one argument in {0.05, 0.25, 0.5, 1, 1.7, 2.5} (1e-8 for {5, 10, 57.3, 250, 700}) also with the other anywhere in [1e-3, 1200], as long as the value exceeds 1e-290.",
  ["src/beta.rs", "src/gamma.rs"], [w("exp of ln_gamma sums", "src/beta.rs beta")], "every pair of doubles in the stated ranges", WHYN)
prop("A08", "gammp and gammq are the regularised incomplete gamma functions",
  "For a in [1e-6, 100) and x from 1e-6 to past saturation, gammp(a, x) and gammq(a, x) are within 1e-8 of P(a, x) and Q(a, x), and the smaller tail (gammp for x < a, gammq for x > a + 1) also to a relative 1e-7 (plus 2e-12 absolutely for gammq); for a in [100, 500] (and for a in {600.3, 1000, 1500, 3210.9, 7777.7, 2e4, 5e4, 1e5, 2e5, 5e5, 1e6}) within 1e-7 for x within [a - 9 sqrt a, a + 20 sqrt a]. Far tails saturate for all a up to 1e6: gammp(a, x) is in [1 - 1e-10, 1] and gammq in [0, 1e-10] for x > a + 20 (sqrt a + 1) + 1e-6, with the roles exchanged far below a when a >= 100, and gammp(a, 0) = 0, gammq(a, 0) = 1.",
  ["src/gamma.rs"], [w("series, continued fraction and quadrature branches", "src/gamma.rs gser, gcf, gammpapprox")], "every pair of doubles in the stated ranges", WHYN, note=NOTE + HZ)
prop("A09", "invgammp inverts gammp",
  "invgammp(p, a) is the x with P(a, x) = p to a relative 1e-9 for 1e-12 <= p <= 0.9999 and to a relative 1e-7 up to 1 - 1e-9, for a in {0.1, 0.2, 0.35, 0.5, 0.75, 0.9, 1, 1.1, 1.5, 2, 2.5, 4, 5.5, 7.5, 12, 30, 50, 80} (1e-7 throughout for a in {99, 101, 150.5, 400, 1000}); also to 1e-7 for every a between 0.2 and 12 and p between 0.001 and 0.95 (0.05 around a = 1, 2 and 3, and x close to a + 1, left out). invgammp(p <= 0, a) = 0 and invgammp(p >= 1, 4) = 204.", ["src/gamma.rs"], [w("Halley iteration from a start value", "src/gamma.rs invgammp")], "every double p in the stated ranges", WHYN, note=NOTE + HZ)
prop("A10", "betai is the regularised incomplete beta function",
  "For a, b in {0.25, 0.5, 1, 2.5, 7, 10, 40, 100, 300, 1000, 2999} and every 0 < x < 1, betai(a, b, x) is I_x(a, b) to a relative 3e-9 below x = (a + 1)/(a + b + 2) (where the value exceeds about 1e-250) and to 3e-9 absolutely above (1e-7 when one of them, below 500, is paired with 4000 or 12000). With b (or a) in {0.5, 2.5, 10} and the other parameter anywhere in [0.3, 8] (0.05 around 1 and 2 left out) it is within 1e-7 for x in [0.02, 0.98]. The same 3e-9 hold for a, b in {0.01, 0.1, 0.75, 1.3, 1.9, 3.7, 18.6, 63, 170.2, 550, 1700} and for each of these with 0.5, 1 or 30, in either order. For the large pairs (3001, 3001), (4000, 5000), (20000, 3500), (1e5, 1e5), (3001, 9999.5), (6000, 3100), (3500, 70000), (12345.6, 23456.7), (1e5, 3200), (8e4, 2e5) and (1e6, 1e6) it is within 1e-7 up to ten standard deviations around the mean. betai(a, b, 0) = 0 and betai(a, b, 1) = 1 for a, b in [1e-3, 1e5].", ["src/beta.rs"], [w("continued fraction, symmetry and quadrature branches", "src/beta.rs betai, betacf, betaiapprox")], "every x (and parameter) in the stated ranges", WHYN, note=NOTE + HZ)
prop("A11", "invbetai inverts betai",
  "For a, b in {0.25, 0.5, 1, 2.5, 8, 20, 60}, (60, 60) excepted, invbetai(p, a, b) is the x with I_x(a, b) = p to a relative 1e-9 for 1e-12 <= p <= 0.9999 and to a relative 1e-7 for p up to 1 - 1e-9 (1 - 1e-6 when b = 0.5, 0.999 when b = 0.25). invbetai(p <= 0, a, b) = 0 and invbetai(p >= 1, a, b) = 1.", ["src/beta.rs"], [w("Halley iteration from a start value", "src/beta.rs invbetai")], "every double p in the stated ranges", WHYN, note=NOTE + HZ)
ORDS = "n = 0..16, 20 and 25 (and 33 for Yn, In and Kn)"
prop("A12", "Jn is the Bessel function of the first kind, for both signs of x",
  "For n = 0..16, 20 and 25, Jn(n, x) differs from J_n(x) by at most 1e-10 (n = 0, 1), 1e-9 (n <= 10), 1e-7 (n < 17) or 1e-5 (n = 20, 25) for |x| from about n to max(30, n + 10), and by that much relatively for 0.01 <= |x| <= n (|x| <= 15 for n = 25), with J_n(-x) = (-1)^n J_n(x); tiny arguments neither under- nor overflow into a wrong value (Jn(0, 0) = 1, Jn(n, 0) = 0). For n in {0, 1, 2, 3, 7} it stays within 1e-9 at large |x| (unit-quarter windows at 50, 123.4, 1000 and 54321). For n = 18, 22, 29, 40, 50, 64, 80 and 100 it keeps a relative 1e-6 in windows of x between 0.003 n and n (0.5 n from n = 22, 0.3 n from n = 40, 0.1 n from n = 64), and stays within 1e-4 in windows between n and 4 n for n <= 40.",
  ["src/bessel.rs"], [w("rational approximations for n = 0, 1; upward and downward recurrence", "src/bessel.rs Jn")], "every double x in the stated windows for each listed order", WHYN)
prop("A13", "Yn is the Bessel function of the second kind",
  "For n = 0..16, 20, 25 and 33, Yn(n, x) differs from Y_n(x) by at most 1e-9 plus a relative 1e-8 (1e-6 for n = 33) for 0.01 <= x <= max(30, n + 10), and is relatively accurate to 1e-9 at samples of tiny x where the value is finite; for n in {0, 1, 2, 3, 7} it stays within 1e-9 at large x (windows at 50, 123.4, 1000 and 54321). For these and for n = 18, 22, 29, 40, 50, 64, 80 and 100 it keeps a relative 1e-6 (and 1e-5 absolutely beyond x = 8) in windows of x from where Y_n is a tenth of the largest double to 1.5 n (0.2 n for n >= 50). Below the x where Y_n leaves the range of the doubles it is exactly -infinity, for these n > 1, 170 and 300 (x < 0.1 for these last two).",
  ["src/bessel.rs"], [w("rational approximations for n = 0, 1; upward recurrence", "src/bessel.rs Yn")], "every double x in the stated windows for each listed order", WHYN)
prop("A14", "In is the modified Bessel function of the first kind, both signs of x",
  "For n = 0..16, 20, 25 and 33 and 0.01 <= |x| <= 30, In(n, x) is I_n(x) to a relative 1e-8 (1e-10 for n = 0, 1, plus 1e-14 absolutely), with I_n(-x) = (-1)^n I_n(x); for n = 0, 1 also to a relative 1e-9 for 30 <= |x| <= 700. For n = 2..16, 20, 25 and 33 it keeps the relative 1e-8 in windows of x between 30 and 650, and for n = 18, 22, 29, 40, 50, 64, 80 and 100 in windows between 0.1 and 650 (plus 1e-300 absolutely). In(0, 0) = 1, In(n, 0) = 0, and tiny arguments keep relative accuracy.",
  ["src/bessel.rs"], [w("rational approximations for n = 0, 1; downward recurrence", "src/bessel.rs In")], "every double x in the stated windows for each listed order", WHYN)
prop("A15", "Kn is the modified Bessel function of the second kind",
  "For n = 0..16, 20, 25 and 33, Kn(n, x) is K_n(x) to a relative 1e-10 for 0.01 <= x <= 30 and to a relative 1e-9 for 30 <= x <= 650 and at samples of tiny x where the value is finite. For these n > 1 and for n = 18, 22, 29, 40, 50, 64, 80 and 100 it keeps a relative 1e-6 in windows of x from where K_n is a tenth of the largest double to 600. Below the x where K_n leaves the range of the doubles it is exactly +infinity, for these n > 1, 170 and 300 (x < 0.1 for these last two).",
  ["src/bessel.rs"], [w("rational approximations for n = 0, 1; upward recurrence", "src/bessel.rs Kn")], "every double x in the stated windows for each listed order", WHYN)
prop("A16", "besseljy returns J, Y and their derivatives for real order",
  "besseljy(nu, x) returns (J, Y, J', Y') at order nu: for nu in {0, 1/3, 0.5, 1, 1.5, 2.5, 5, 7.25, 10, 12.3} and x < 2 (from 0.1, or 0.5 for nu > 6) within 1e-7 (absolute plus relative); for those orders (0.5 excepted) within 1e-2 for 3 <= x <= 4 (nu < 5), 1e-4 for 4 <= x <= 6 and 1e-5 for 6 <= x <= 20; and for all real orders with a fractional part in [0.05, 0.4] or [0.6, 0.95] up to 4 and 0.05 <= x <= 1.6, and between 1e-4 and 0.05 away from the integers or 0.001 to 0.1 away from the half-integers in windows of x, within 1e-6 plus a relative 1e-5. Short stretches of x (at zeros of J, and where one term of the series vanishes; at most a fifth of each interval of the grid, counted in the evidence) are not decided. For nu = 50 (1e-8 <= x <= 1e-5), 100.25 (1e-4 to 0.02) and 170 (0.01 to 0.5), where Y_nu is beyond the largest double, Y is -infinity, Y' is +infinity and the first result is between 0 and 1e-290.", ["src/bessel.rs"], [w("Temme's series, Steed's continued fractions, recurrences", "src/bessel.rs besseljy")], "every (nu, x) in the stated ranges", WHYN, note=NOTE + HZ)
prop("A17", "besselik returns I, K and their derivatives for real order",
  "besselik(nu, x) returns (I, K, I', K') at order nu, each to a relative 1e-7 (2e-6 for 2 <= x <= 2.3) for nu in {0, 0.5, 1, 1.5, 2, 3, 4.5, 5, 7.25, 10, 12.3, 25.7, 50} and 0.05 <= x <= 100 (from 0.5 for nu > 20), and to a relative 1e-6 (5e-6 for 2 <= x <= 2.1) for every real order between 0.001 and 4 that is at least 1e-6 away from the integers and half-integers, and 0.05 <= x <= 30. For nu = 50 (1e-8 <= x <= 1e-5), 100.25 (1e-4 to 0.02) and 170 (0.01 to 0.5), where K_nu is beyond the largest double, K is +infinity, K' is -infinity and the first result is between 0 and 1e-290.", ["src/bessel.rs"], [w("Temme's series, Steed's continued fraction, recurrences", "src/bessel.rs besselik")], "every (nu, x) in the stated ranges", WHYN, note=NOTE + HZ)
prop("A18", "dawson is accurate and odd over the whole real line",
  "For every x with 1e-300 <= |x| <= 100 (and in windows up to |x| = 1e300) dawson(x) has a relative error of at most 5e-7 and is odd; dawson(+-0) = +-0 and dawson(+-inf) = 0.",
  ["src/dawson.rs"], [w("power series and Rybicki's sampled sum", "src/dawson.rs dawson")], "every double x in the stated ranges", WHYN)
prop("A19", "faddeeva is the complex scaled error function in the plane",
  "For |re| <= 400 and 0 <= im <= 400 (and at windows up to 1e280), faddeeva(re, im) is w(z) with an error in each part of at most 1e-11 |w| where the smaller of |re|, im is at least 1e-3 of the larger, and 3e-6 |w| nearer to the axes; on the real axis each part is relatively accurate to 1e-6 and on the imaginary axis to 1e-12. For -3 <= im <= -0.001 and 0.01 <= |re| <= 3, and in windows of the lower half plane down to im = -17 and out to |re| = 200, the error is at most 1e-11 |w|.",
  ["src/faddeeva.rs", "src/error.rs", "src/dawson.rs"], [w("continued fraction, Taylor table and reflection", "src/faddeeva.rs faddeeva")], "every complex argument in the stated ranges", WHYN)
prop("A20", "frexp, ldexp and sign satisfy their bit-level contracts",
  "TODO", ["src/utils.rs"], [w("exponent arithmetic", "src/utils.rs")], "every finite double and the listed exponents", WHYN, na="check under construction")
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "meta_s.py")).read()) if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), "meta_s.py")) else None

def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS:
            a = {"files": p["files"], "mechanism": p["mech"]}
            if p["state"]: a["state"] = p["state"]
            if p["observe"]: a["observe_at"] = p["observe"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
            assert len(p["title"]) <= 80, p["id"]
    m = {"version": 1, "setup_cmd": "./setup.sh",
         "checks": [{"property": p["id"], "quick_cmd": "./check.py %s quick" % p["id"], "thorough_cmd": "./check.py %s thorough" % p["id"], "technique": p["technique"], "level": p["level"], "level_note": p["note"]} for p in PROPS if not p["na"]],
         "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in PROPS if p["na"]]}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
    print(len(m["checks"]), "claimed,", len(m["not_applicable"]), "not")
main()
