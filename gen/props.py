"""The obligations of every numerical property (see properties.jsonl for the statements)."""
import math
from gen import P, MAX, TINY, split, geo, lin, pairs

# A01 erf / erfc
p = P("A01"); p.set(deg=14, depth=14)
for b in lin(-6.5, 6.5, 26)[:-1]: p.cov("v_erf", "v0", "erf", [(b, b + 0.5)], 12, 1e-13, 0)
for b in range(26): p.cov("v_erfc", "v0", "erfc", [(b, b + 1)], 14, 0, 1e-11)
for b in range(-7, 0): p.cov("v_erfc", "v0", "erfc", [(b, b + 1)], 12, 1e-13, 0)
p.lit("v_erf", "v0", [(6.5, MAX)], "0 in 0.99999999999999 1"); p.lit("v_erf", "v0", [(-MAX, -6.5)], "0 in -1 -0.99999999999999")
p.lit("v_erfc", "v0", [(26, MAX)], "0 in 0 1e-290"); p.lit("v_erfc", "v0", [(-MAX, -6.5)], "0 in 1.99999999999999 2")
for x, a, b in (("inf", "1", "0"), ("-inf", "-1", "2")):
    p.lit("v_erf", "c" + x, [], "0 is " + a); p.lit("v_erfc", "c" + x, [], "0 is " + b)

# A02 erfcx
p = P("A02"); p.set(deg=14, depth=14)
for b in lin(0, 50, 100)[:-1]: p.cov("v_erfcx", "v0", "erfcx", [(b, b + 0.5)], 14, 0, 1e-13)
g = geo(50, 1e300, 420)
for a, b in zip(g, g[1:]): p.cov("v_erfcx", "v0", "erfcx", [(a, b)], 14, 0, 1e-13)
for b in lin(-26.5, 0, 106)[:-1]: p.cov("v_erfcx", "v0", "erfcx", [(b, b + 0.25)], 14, 0, 5e-12)
p.lit("v_erfcx", "v0", [(1e300, MAX)], "0 in 0 5.7e-301"); p.lit("v_erfcx", "v0", [(-MAX, -26.75)], "0 is inf")
p.lit("v_erfcx", "cinf", [], "0 in 0 0"); p.lit("v_erfcx", "c-inf", [], "0 is inf")

# A03 inverf / inverfc
p = P("A03"); p.set(deg=12, depth=14)
for a, b in zip(geo(1e-300, 0.125, 400), geo(1e-300, 0.125, 400)[1:]): p.cov("v_inverfc", "v0", "inverfc", [(a, b)], 10, 0, 1e-11)
for a, b in zip(lin(0.125, 1.875, 28), lin(0.125, 1.875, 28)[1:]): p.cov("v_inverfc", "v0", "inverfc", [(a, b)], 10, 1e-12, 0)
for a, b in zip(lin(-0.9375, 0.9375, 60), lin(-0.9375, 0.9375, 60)[1:]): p.cov("v_inverf", "v0", "inverf", [(a, b)], 10, 1e-12, 0)
g = geo(2.0 ** -20, 0.0625, 40)
for a, b in zip(g, g[1:]):
    p.cov("v_inverf", "v0", "inverf", [(1 - b, 1 - a)], 10, 1e-9, 0); p.cov("v_inverf", "v0", "inverf", [(a - 1, b - 1)], 10, 1e-9, 0)
    p.cov("v_inverfc", "v0", "inverfc", [(2 - b, 2 - a)], 10, 1e-9, 0)
p.lit("v_inverfc", "v0", [(2, MAX)], "0 is -100"); p.lit("v_inverfc", "v0", [(-MAX, 0)], "0 is 100")
p.lit("v_inverf", "v0", [(1, MAX)], "0 is 100"); p.lit("v_inverf", "v0", [(-MAX, -1)], "0 is -100")
for f, s in (("v_inverf", 1), ("v_inverfc", -1)):
    p.lit(f, "cinf", [], "0 is %d" % (100 * s)); p.lit(f, "c-inf", [], "0 is %d" % (-100 * s))

# A04 gamma
p = P("A04"); p.set(deg=14, depth=16)
def near(n, lo=1e-13, k=44): # intervals of (n, n+1) clear of the ends, geometric towards them
    g = geo(lo, 0.25, k); r = [(n + a, n + b) for a, b in zip(g, g[1:])]
    r += [(n + 0.25, n + 0.5), (n + 0.5, n + 0.75)] + [(n + 1 - b, n + 1 - a) for a, b in zip(g, g[1:])]
    return r
for n in range(-22, 0):
    for c in near(n): p.cov("v_gamma", "v0", "gamma", [c], 14, 0, 2e-13 if n > -9 else 1e-12)
for n in range(-168, -22):
    for c in near(n, 1e-3, 10): p.cov("v_gamma", "v0", "gamma", [c], 14, 1e-305, 1e-11)
for n in range(-184, -168): p.lit("v_gamma", "v0", [(n + 1e-3, n + 1 - 1e-3)], "0 in -1e-297 1e-297")
g = geo(1e-300, 0.25, 500)
for c in zip(g, g[1:]): p.cov("v_gamma", "v0", "gamma", [c], 14, 0, 2e-13)
for a, b in zip(lin(0.25, 4, 15), lin(0.25, 4, 15)[1:]): p.cov("v_gamma", "v0", "gamma", [(a, b)], 14, 0, 2e-13)
for b in lin(4, 171, 334)[:-1]: p.cov("v_gamma", "v0", "gamma", [(b, b + 0.5)], 14, 0, 1e-12)
p.cov("v_gamma", "v0", "gamma", [(171, 171.25)], 14, 0, 1e-12)
p.lit("v_gamma", "v0", [(171.25, 171.62)], "0 in 2.6e307 1.76e308")
p.lit("v_gamma", "v0", [(171.625, MAX)], "0 is inf")
for n in range(1, 171): p.lit("v_gamma", "c%d" % (n + 1), [], "0 in %r %r" % (math.factorial(n) * (1 - 1e-14), math.factorial(n) * (1 + 1e-14)))
p.lit("v_gamma", "c0", [], "0 is inf"); p.lit("v_gamma", "c-0.0", [], "0 is -inf")
for n in range(1, 40): p.lit("v_gamma", "c-%d" % n, [], "0 nan")
for x in ("-100", "-180", "-1e5", "-4503599627370497", "-1e300", "-inf", "nan"): p.lit("v_gamma", "c" + x, [], "0 nan")
p.lit("v_gamma", "cinf", [], "0 is inf")

# A05 ln_gamma
p = P("A05"); p.set(deg=14, depth=14)
for c in pairs(geo(1e-300, 0.25, 500)) + pairs(lin(0.25, 4, 15)) + pairs(geo(4, 1e300, 500)): p.cov("v_ln_gamma", "v0", "lngamma", [c], 14, 2e-10, 2e-14)
p.lit("v_ln_gamma", "cnan", [], "0 nan")

# A06 factorial
p = P("A06"); p.set(deg=1, depth=1, steps=30000000)
for n in range(171): p.lit("v_factorial", "I%d" % n, [], ("0 is %d" % math.factorial(n)) if n <= 22 else "0 in %r %r" % (math.factorial(n) * (1 - 1e-14), math.factorial(n) * (1 + 1e-14)))
for n in list(range(171, 300)) + [1000, 12345]: p.lit("v_factorial", "I%d" % n, [], "0 is inf")
for m in range(17, 60): p.lit("v_factorial", "J%d-%d" % (max(300, m * m), m * m + 2 * m), [], "0 is inf")
p.lit("v_factorial", "J3600-%d" % (2 ** 64 - 1), [], "0 is inf")

# A07 beta
p = P("A07"); p.set(deg=10, depth=16)
gz = geo(1e-8, 1, 8) + geo(1, 30, 6)[1:]
for z in pairs(gz):
    for w in pairs(gz): p.cov("v_beta", "v0,v1", "beta", [z, w], 8, 0, 1e-9, maxdepth=20)
p.set(deg=12, depth=16)
for w in (1e-100, 0.25, 0.5, 1, 2.5, 10, 33.3, 100):
    for z in pairs(geo(1e-150, 1e-8, 100) + geo(1e-8, 300, 60)[1:]):
        for v in ("v0,c%r" % w, "c%r,v0" % w): p.cov("v_beta", v, "beta", [z], 12, 0, 1e-9, par=(w,), maxdepth=20)
for w in (0.05, 0.25, 0.5, 1, 1.7, 2.5, 5, 10, 57.3, 250, 700):
    for z in pairs(geo(300, 1200, 30) if w in (0.25, 0.5, 1, 2.5, 10) else geo(1e-3, 1200, 80)):
        for v in ("v0,c%r" % w, "c%r,v0" % w): p.cov("v_beta", v, "beta", [z], 12, 1e-300, 1e-9 if w < 5 else 1e-8, par=(w,), maxdepth=20)

# A08 gammp / gammq
p = P("A08"); p.set(deg=8, depth=16)
ga = [1e-6, 1e-4, 0.001, 0.01] + geo(0.05, 1.0, 6) + geo(1, 100, 16)[1:]
ga[-1] = 99.99
for a in pairs(ga):
    # x from tiny to well past the saturation point, split at fractions of a; the small tail is held to a relative error
    hi = a[1] + 20 * (a[1] ** 0.5 + 1)
    for x in pairs(geo(1e-6, 0.05, 4) + geo(0.05, hi, 24)[1:]):
        p.cov("v_gammp", "v0,v1", "gammp", [a, x], 8, 1e-20 if x[1] <= a[0] else 1e-8, 1e-7 if x[1] <= a[0] else 0, maxdepth=16)
        p.cov("v_gammq", "v0,v1", "gammq", [a, x], 8, 2e-12 if x[0] >= a[1] + 1 else 1e-8, 1e-7 if x[0] >= a[1] + 1 else 0, maxdepth=16)
p.set(deg=10, depth=14)
for a in (0.05, 0.5, 1, 3.25, 20):
    for x in pairs(geo(1e-300, 1e-6, 60)):
        for f in ("p", "q"): p.cov("v_gamm" + f, "c%r,v0" % a, "gamm" + f, [x], 10, 1e-9, 0, par=(a,))
for a in (100, 150.5, 1000, 2e4, 1e6):
    s = a ** 0.5
    for k in range(-22 if a > 900 else -9, 22):
        for f in ("p", "q"): p.cov("v_gamm" + f, "c%r,v0" % a, "gamm" + f, [(a + k * s, a + (k + 1) * s)], 10, 1e-7, 0, par=(a,))
for a in (600.3, 1500, 3210.9, 7777.7, 5e4, 1e5, 2e5, 5e5):
    r = a ** 0.5
    for k in [x / 2 for x in range(-18, 41)]:
        for f in ("p", "q"): p.cov("v_gamm" + f, "c%r,v0" % a, "gamm" + f, [(a + k * r, a + (k + .5) * r)], 10, 1e-7, 0, par=(a,))
p.set(deg=8, depth=12)
a = 100.0
while a < 500:
    s = a ** 0.5; b = a + s / 2
    for k in range(-9, 21):
        for f in ("p", "q"): p.cov("v_gamm" + f, "v0,v1", "gamm" + f, [(a, b), (a + k * s, a + (k + 1) * s)], 8, 1e-7, 0)
    a = b
p.set(deg=4, depth=20, steps=20000)
for a in pairs([100.0, 101] + geo(101, 1e6, 60)[1:]):
    for x in pairs([1e-300, a[0] * 1e-20, a[0] * 1e-14, a[0] * 1e-4] + [a[0] * f for f in (0.02, 0.05, 0.1, 0.14, 0.17, 0.19, 0.2, 0.21, 0.3)]):
        p.lit("v_gammp", "v0,v1", [a, x], "0 in 0 1e-15"); p.lit("v_gammq", "v0,v1", [a, x], "0 in 0.999999999999999 1")
p.set(deg=3, depth=40, steps=1000000)
for a in pairs(geo(1e-6, 1e6, 60)):
    hi = a[1] + 20 * (a[1] ** 0.5 + 1) + 1e-6
    p.lit("v_gammp", "v0,v1", [a, (hi, MAX)], "0 in 0.9999999999 1"); p.lit("v_gammq", "v0,v1", [a, (hi, MAX)], "0 in 0 1e-10")
    p.lit("v_gammp", "v0,c0", [a], "0 is 0"); p.lit("v_gammq", "v0,c0", [a], "0 is 1")

# A12 Jn
def signed(p, f, n, g, c, D, at, rt, **kw):
    p.cov(f, "i%d,v0" % n, g, [c], D, at, rt, par=(n,), **kw); p.cov(f, "i%d,v0" % n, g, [(-c[1], -c[0])], D, at, rt, par=(n,), **kw)
p = P("A12"); p.set(deg=12, depth=10)
def tolj(n): return 1e-9 if n <= 10 else 1e-7 if n < 17 else 1e-5
ORD = list(range(0, 17)) + [20, 25, 33]
for n in ORD[:-1]:
    if n < 2:
        for c in pairs(lin(0, 30, 60)): signed(p, "v_jn", n, "bj", c, 10, 1e-10, 0)
        for x in geo(1e-150, 0.1, 10): p.cov("v_jn", "i%d,v0" % n, "bj", [(x, x * 1.5)], 10, 0, 1e-10, par=(n,))
    else:
        for c in pairs(geo(0.01, n if n <= 20 else 0.6 * n, int(160 * math.log10(n / 0.01)))): signed(p, "v_jn", n, "bj", c, 8, 1e-300, tolj(n))
        for c in pairs(lin(n, max(30, n + 10), 4 * (max(30, n + 10) - n))): signed(p, "v_jn", n, "bj", c, 10, tolj(n), 0)
        for x in geo(1e-140, 0.01, 12)[:-1]: p.cov("v_jn", "i%d,v0" % n, "bj", [(x, x * 1.01)], 8, 1e-300, 1e-9, par=(n,))
for n in (0, 1, 2, 3, 7):
    for x in (50, 123.4, 1000, 54321): signed(p, "v_jn", n, "bj", (x, x + 0.25), 10, 1e-9, 0)
p.set(deg=2, depth=10)
for n in range(2, 12): p.lit("v_jn", "i%d,v0" % n, [(-1e-155, 1e-155)], "0 in 0 0"); 
p.lit("v_jn", "i0,c0", [], "0 in 0.999999999999 1.000000000001"); p.lit("v_jn", "i1,c0", [], "0 in 0 0")

# A13 Yn
p = P("A13"); p.set(deg=12, depth=10)
for n in ORD:
    hi = max(30, n + 10)
    for c in pairs(geo(0.01, 8, 100)): p.cov("v_yn", "i%d,v0" % n, "by", [c], 10, 1e-9, 1e-8 if n <= 25 else 1e-6, par=(n,))
    for c in pairs(lin(8, hi, 3 * (hi - 8))): p.cov("v_yn", "i%d,v0" % n, "by", [c], 10, 1e-9 if n <= 25 else 1e-6, 1e-8 if n <= 25 else 1e-6, par=(n,))
    for x in geo(1e-140, 0.01, 12)[:-1]:
        if (250 / max(n, 1)) > -math.log10(x): p.cov("v_yn", "i%d,v0" % n, "by", [(x, x * 1.2)], 10, 0, 1e-9, par=(n,))
for n in (0, 1, 2, 3, 7):
    for x in (50, 123.4, 1000, 54321): p.cov("v_yn", "i%d,v0" % n, "by", [(x, x + 0.25)], 10, 1e-9, 0, par=(n,))

# A14 In
p = P("A14"); p.set(deg=12, depth=10)
for n in ORD:
    if n < 2:
        for c in pairs(lin(0, 30, 60)): signed(p, "v_in", n, "bi", c, 10, 1e-14, 1e-10)
        for x in geo(1e-150, 0.1, 10): p.cov("v_in", "i%d,v0" % n, "bi", [(x, x * 1.5)], 10, 0, 1e-10, par=(n,))
        for c in pairs(geo(30, 700, 60)): signed(p, "v_in", n, "bi", c, 10, 0, 1e-9)
    else:
        for c in pairs(geo(0.01, 30, int(160 * math.log10(3000)))): signed(p, "v_in", n, "bi", c, 8, 1e-300, 1e-8)
        for x in geo(1e-140, 0.01, 12)[:-1]: p.cov("v_in", "i%d,v0" % n, "bi", [(x, x * 1.01)], 8, 1e-300, 1e-8, par=(n,))
for n in range(2, 12): p.lit("v_in", "i%d,v0" % n, [(-1e-155, 1e-155)], "0 in 0 0")
p.lit("v_in", "i0,c0", [], "0 in 0.999999999999 1.000000000001"); p.lit("v_in", "i1,c0", [], "0 in 0 0")

# A15 Kn
p = P("A15"); p.set(deg=12, depth=10)
for n in ORD:
    for c in pairs(geo(0.01, 30, 120)): p.cov("v_kn", "i%d,v0" % n, "bk", [c], 10, 0, 1e-10, par=(n,))
    for x in geo(1e-140, 0.01, 12)[:-1]:
        if (250 / max(n, 1)) > -math.log10(x): p.cov("v_kn", "i%d,v0" % n, "bk", [(x, x * 1.2)], 10, 0, 1e-9, par=(n,))
    for c in pairs(geo(30, 650, 30)): p.cov("v_kn", "i%d,v0" % n, "bk", [c], 10, 0, 1e-9, par=(n,))

# large orders, and where the result leaves the range of the doubles
from gen import PROPS
from mpmath import mp, mpf
HIGH = (18, 22, 29, 40, 50, 64, 80, 100)
def edge(f, n): # the x at which |f(n, x)| passes the largest double
    l, h = -306.0, 3.0
    g = {"by": lambda t: abs(mp.bessely(n, mpf(10) ** t)), "bk": lambda t: mp.besselk(n, mpf(10) ** t)}[f]
    if n < 2: return None
    for _ in range(60):
        m = (l + h) / 2
        if g(m) > mpf(MAX): l = m
        else: h = m
    return 10 ** l
def window(p, f, g, n, x, rt, at=0): p.cov(f, "i%d,v0" % n, g, [(x, x * 1.004)], 8, at, rt, par=(n,))
for n in HIGH:
    p = PROPS["A12"]; p.set(deg=9, depth=8)
    for t in (.003, .01, .03, .1) + (() if n >= 64 else (.2, .3) if n >= 40 else (.2, .3, .5) if n >= 20 else (.2, .3, .5, .7, .85, .95, .99)): window(p, "v_jn", "bj", n, n * t, 1e-6, 1e-300)
    for t in (1.01, 1.2, 1.5, 2, 4) if n < 50 else (): p.cov("v_jn", "i%d,v0" % n, "bj", [(n * t, n * t + .1)], 8, 1e-4, 0, par=(n,))
    p = PROPS["A14"]; p.set(deg=9, depth=8)
    for x in geo(.1, 650, 24): window(p, "v_in", "bi", n, x, 1e-8, 1e-300)
for n in list(range(2, 17)) + [20, 25, 33]:
    for x in geo(30, 650, 36): window(PROPS["A14"], "v_in", "bi", n, x, 1e-8)
for f, g, pid, inf in (("v_yn", "by", "A13", "-inf"), ("v_kn", "bk", "A15", "inf")):
    p = PROPS[pid]; p.set(deg=9, depth=8)
    for n in ORD + list(HIGH) + [170, 300]:
        if n < 2: continue
        e = edge(g, n)
        for x in geo(e * 10 ** (1 / n), 600 if f == "v_kn" else 1.5 * n if n < 50 else .2 * n, 24)[:-1]:
            if n <= 100: window(p, f, g, n, x, 1e-6, 1e-5 if f == "v_yn" and x > 8 else 0)
        p.set(deg=1, depth=8)
        for c in pairs(geo(1e-300, e * .25 ** (1 / n) if n <= 100 else .1, 40)): p.lit(f, "i%d,v0" % n, [c], "0 is " + inf)
        p.set(deg=9, depth=8)

# A18 dawson
p = P("A18"); p.set(deg=14, depth=14)
def both(p, f, g, c, D, at, rt, **kw): p.cov(f, "v0", g, [c], D, at, rt, **kw); p.cov(f, "v0", g, [(-c[1], -c[0])], D, at, rt, **kw)
for c in pairs(geo(1e-300, 0.0625, 400)): both(p, "v_dawson", "dawson", c, 12, 0, 5e-7)
for c in pairs([0.0625, 0.125, 0.1875, 0.2] + lin(0.2, 26.2, 65)[1:] + geo(26.2, 100, 30)[1:]): both(p, "v_dawson", "dawson", c, 12, 0, 5e-7)
for x in geo(101, 9e7, 12) + geo(1.0001e8, 1e300, 30): both(p, "v_dawson", "dawson", (x, x + 0.7) if x < 1e8 else (x, 2 * x), 12, 0, 5e-7)
p.lit("v_dawson", "c0", [], "0 is 0"); p.lit("v_dawson", "c-0.0", [], "0 is -0.0"); p.lit("v_dawson", "cinf", [], "0 in 0 0"); p.lit("v_dawson", "c-inf", [], "0 in 0 0")

# A19 faddeeva
p = P("A19"); p.set(deg=10, depth=14)
import scipy.special
def wsc(a, b): # largest modulus over the cell (attained at the corner nearest the origin in the upper half plane)
    return max(abs(scipy.special.wofz(complex(x, y))) for x in list(a) + [min(max(0, a[0]), a[1])] for y in b)
def fad(a, b, D=9, mirror=True):
    lo = min(min(abs(a[0]), abs(a[1])), min(abs(b[0]), abs(b[1]))) if a[0] * a[1] > 0 and b[0] * b[1] > 0 else 0
    big = max(abs(a[0]), abs(a[1]), abs(b[0]), abs(b[1]))
    t = 1e-11 if lo >= 1e-3 * big else 3e-6
    at = t * wsc(a, b)
    p.cov("v_faddeeva", "v0,v1,o", "wofz", [a, b], D, at, 0, nout=2)
    if mirror: p.cov("v_faddeeva", "v0,v1,o", "wofz", [(-a[1], -a[0]), b], D, at, 0, nout=2)
gx = geo(1e-3, 0.25, 5)[:-1] + lin(0.25, 8, 31)
def seven(a, b): # keep the slivers along the axes off |z| = 7, where the last tile of the table ends
    if a[0] < 0.01 or b[0] < 0.01:
        i = 1 if a[0] < 0.01 else 0; c = [a, b]
        if c[i] == (6.75, 7.0): c[i] = (6.75, 6.99)
        if c[i] == (7.0, 7.25): c[i] = (7.01, 7.25)
        a, b = c
    fad(a, b)
for a in pairs([0] + gx):
    for b in pairs([0] + gx): seven(a, b)
for c in pairs(geo(1e-300, 0.25, 60) + lin(0.25, 7, 27)[1:] + geo(7, 100, 24)[1:]):
    for s in (c, (-c[1], -c[0])): p.cov("v_faddeeva", "v0,c0,o", "wofz0", [s], 10, 1e-300, 1e-6, nout=2)
    p.cov("v_faddeeva", "c0,v0,o", "wofzi", [c], 10, 1e-300, 1e-12, nout=2)
for a in pairs(geo(1e-3, 8, 12)): # the slivers along the axes on their own, so that the tight tolerance reaches as far as it should
    for b in pairs(geo(1e-3, 8, 12)):
        if 1e-3 <= a[0] / b[1] and a[1] / b[0] <= 1e3 and (a[1] <= 0.25 or b[1] <= 0.25): fad(a, b)
gl = geo(8, 400, 16)
for a in pairs(gl):
    for b in pairs(gl): fad(a, b)
    for b in pairs([1e-12] + geo(1e-3, 8, 10)): fad(a, b); fad((b[0], b[1]), (a[0], a[1]))
for x in geo(500, 1e280, 24):
    for y in geo(500, 1e280, 24): fad((x, x * 1.2), (y, y * 1.2), D=7, mirror=False)
for a in pairs(lin(-3, -0.01, 6)) + pairs(lin(0.01, 3, 6)):
    for b in pairs(lin(-3, -0.5, 5) + [-0.001]):
        at = 1e-11 * wsc(a, b)
        p.cov("v_faddeeva", "v0,v1,o", "wofz", [a, b], 9, at, 0, nout=2)
for x in (0.5, 3.2, 4.1, 5., 6., 6.7, 7.1, 8., 10., 15., 25., 60., 200.): # windows in the lower half plane
    for y in (0.005, 0.5, 1., 2., 3.2, 4.1, 5., 6., 6.7, 7.1, 8., 12., 17.):
        h = min(0.1, 0.5 / (x + y), y / 4)
        for a in ((x - h, x + h), (-x - h, -x + h)):
            b = (-y - h, -y + h)
            p.cov("v_faddeeva", "v0,v1,o", "wofz", [a, b], 9, 1e-11 * wsc(a, b), 0, nout=2)

# A17 besselik
p = P("A17"); p.set(deg=8, depth=12)
P2 = math.nextafter(2, 0)
def around(k0, k1, gap=1e-6): # orders clear of the integers and half-integers, where the code changes branch
    r = []
    for k in range(2 * k0, 2 * k1):
        l, h = k / 2 + gap, k / 2 + 0.5 - gap
        r += pairs([l, k / 2 + 1e-3, k / 2 + 0.05, k / 2 + 0.25, k / 2 + 0.45, k / 2 + 0.499, h])
    return r
for nu in around(0, 4):
    if nu[1] < 2e-3: continue
    for x in pairs(geo(0.05, 2, 8)[:-1] + [P2]) + pairs([2, 2.1] + geo(2, 30, 12)[1:]): p.cov("v_besselik", "v0,v1,o", "ikfull", [nu, x], 7, 0, 1e-6 if x[0] != 2 else 5e-6, nout=4, maxdepth=16)
p.set(deg=12, depth=12)
for nu in [0, 0.5, 1, 1.5, 2, 3, 4.5, 5, 7.25, 10, 12.3, 25.7, 50]:
    for x in pairs(geo(0.05 if nu < 20 else 0.5, 2, 12)[:-1] + [P2]) + pairs([2, 2.3] + [x for x in geo(2, 100, 30) if x > 2.31]): p.cov("v_besselik", "c%r,v0,o" % nu, "ikfull", [x], 10, 0, 1e-7 if x[0] != 2 else 2e-6, par=(nu,), nout=4, maxdepth=16)

# where K leaves the range of the doubles, K and K' are infinite and I still is not negative
OVER = ((50, 1e-8, 1e-5), (100.25, 1e-4, 2e-2), (170, 1e-2, .5))
p.set(deg=6, depth=6)
for nu, l, h in OVER:
    for x in pairs(geo(l, h, 12)): p.lit("v_besselik", "c%r,v0,o" % nu, [x], "1 is inf; 3 is -inf; 0 in 0 1e-290")

# A16 besseljy
p = P("A16"); p.set(deg=8, depth=9, slack=8)
for nu in [(k + a, k + b) for k in range(4) for a, b in pairs([0.05, 0.12, 0.2, 0.3, 0.4]) + pairs([0.6, 0.7, 0.8, 0.88, 0.95])]:
    for x in pairs(geo(0.05, 1.6, 9)):
        # here a term of the series vanishes, and the analysis cannot follow the exit test
        if any(abs(nu[0] % 1 - u) < 1e-3 and abs(x[0] - v) < 3e-3 for u, v in ((0.05, 0.2333), (0.05, 0.343), (0.05, 0.504), (0.12, 0.504), (0.2, 0.504), (0.2, 0.741), (0.3, 0.741), (0.6, 1.089), (0.7, 1.089), (0.8, 1.089))): continue
        p.cov("v_besseljy", "v0,v1,o", "jyfull", [nu, x], 7, 1e-6, 1e-5, nout=4, maxdepth=16)
for nu in [(k + a, k + b) for k in range(4) for a, b in ((1e-4, 1e-3), (1e-3, 0.01), (0.01, 0.05), (0.4, 0.45), (0.45, 0.499), (0.501, 0.55), (0.55, 0.6), (0.95, 0.99), (0.99, 0.999), (0.999, 0.9999))]:
    for x in ((0.05, 0.06), (0.1, 0.12), (0.2, 0.22), (0.35, 0.4), (0.6, 0.65), (0.9, 0.95), (1.2, 1.25), (1.5, 1.55), (1.8, 1.85)):
        f = nu[0] % 1
        if (x[0] == 1.2 and 0.44 < f < 0.56) or (x[0] == 1.8 and not 0.05 < f < 0.94) or (nu[0] < 0.9 and (round(f, 4), x[0]) in {(0.001, 0.05), (0.001, 0.1), (0.01, 0.2)}): continue
        p.cov("v_besseljy", "v0,v1,o", "jyfull", [nu, x], 6, 1e-6, 1e-5, nout=4, maxdepth=16)
JN = [0, 1 / 3, 0.5, 1, 1.5, 2.5, 5, 7.25, 10, 12.3]
p.set(deg=12, depth=8, slack=8)
for nu in JN:
    for x in pairs(geo(0.1 if nu < 6 else 0.5, 2, 12)[:-1] + [P2]): p.cov("v_besseljy", "c%r,v0,o" % nu, "jyfull", [x], 10, 1e-7, 1e-7, par=(nu,), nout=4, maxdepth=16)
p.set(deg=12, depth=7, steps=60000, slack=26)
for nu in JN:
    for l, h, n, t in ((3, 4, 8, 1e-2), (4, 6, 16, 1e-4), (6, 20, 42, 1e-5)):
        if nu == 0.5: continue
        if nu >= 5 and h <= 4: continue
        for x in pairs(lin(l, h, n)): p.cov("v_besseljy", "c%r,v0,o" % nu, "jyfull", [x], 10, t, t, par=(nu,), nout=4, maxdepth=16)
p.set(deg=6, depth=6, slack=0)
for nu, l, h in OVER:
    for x in pairs(geo(l, h, 12)): p.lit("v_besseljy", "c%r,v0,o" % nu, [x], "1 is -inf; 3 is inf; 0 in 0 1e-290")
p.set(steps=400000, slack=0)

# A20 frexp / ldexp / sign
def linear(func, args, bx, var, k, rtol=1e-15):
    """the result is k times variable var of the box"""
    l, h = bx[var]; m = k * (0.5 * l + 0.5 * h); r = k * (0.5 * h - 0.5 * l)
    if len(bx) == 1: co = (m, r)
    else: co = (m, r, 0.0) if var == 0 else (m, 0.0, r)
    p.lit(func, args, bx, "0 ref 0 %r %r 1 %s" % (rtol, 1e-16 * abs(m), " ".join(repr(c) for c in co)))
p = P("A20"); p.set(deg=3, depth=4)
def expo(l, k): return l * 2.0 ** k if k > -1000 else l * 2.0 ** (k + 500) * 2.0 ** -500
for k in range(-1074, 1024):
    lo = expo(1.0, k); hi = (math.nextafter(2 * lo, 0) if k < 1023 else 1.79e308) if k > -1074 else lo
    for s in (1, -1):
        bx = [(min(s * lo, s * hi), max(s * lo, s * hi))]
        r = (0.5, math.nextafter(1.0, 0)); r = (s * r[0], s * r[1])
        p.lit("v_frexp", "v0,o", bx, "0 in %r %r" % (min(r), max(r)), "1 is %d" % (k + 1))
        linear("v_refrexp", "v0", bx, 0, 1.0) if -1000 < k < 1018 else 0
for x in ("0.0", "-0.0"): p.lit("v_frexp", "c%s,o" % x, [], "0 is " + x, "1 is 0")
for e in list(range(-2200, 2200, 7)) + [0, 1, -1, -1022, -1023, -1074, -1075, 1023, 1024, 2 ** 31 - 1, -2 ** 31]:
    for s in (1, -1):
        bx = [(1.0, 1.999) if s > 0 else (-1.999, -1.0)]
        a = "v0,i%d" % (e % 2 ** 32)
        if e > 1023: p.lit("v_ldexp", a, bx, "0 is %s" % (s * math.inf))
        elif e < -1076: p.lit("v_ldexp", a, bx, "0 is %s" % ("0.0" if s > 0 else "-0.0"))
        elif -1000 <= e <= 1020: linear("v_ldexp", a, bx, 0, 2.0 ** e)
        for x in ("0.0", "-0.0", "inf", "-inf"): p.lit("v_ldexp", "c%s,i%d" % (x, e % 2 ** 32), [], "0 is " + x)
        p.lit("v_ldexp", "cnan,i%d" % (e % 2 ** 32), [], "0 nan")
for b in ((TINY, MAX), (-MAX, -TINY), "c0.0", "c-0.0", "cinf", "c-inf"):
    bb = [] if isinstance(b, str) else [b]; s = -1 if (b[0] < 0 if bb else b[1] == "-") else 1
    for t in (1, -1): p.lit("v_sign", "v0," + ("v1" if bb else b), [(TINY, MAX) if t > 0 else (-MAX, -TINY)] + bb, "0 same " + ("v0" if s * t > 0 else "-v0"))
    for x in ("0.0", "-0.0", "inf", "-inf"): p.lit("v_sign", "c%s," % x + ("v0" if bb else b), bb, "0 is " + ("-" if s < 0 else "") + x.strip("-"))
    p.lit("v_sign", "cnan," + ("v0" if bb else b), bb, "0 nan")

# A09 invgammp
p = P("A09"); p.set(deg=10, depth=12, fresh=1, horizon=10)
pg = geo(1e-12, 0.1, 40) + lin(0.1, 0.9, 20)[1:]; pg2 = geo(1e-9, 0.1, 24); pg3 = geo(1e-3, 0.1, 6); pg4 = geo(1e-6, 0.1, 12)
for a in (0.1, 0.2, 0.35, 0.5, 0.75, 0.9, 1, 1.1, 1.5, 2, 2.5, 4, 5.5, 7.5, 12, 30, 50, 80, 99, 101, 150.5, 400, 1000):
    for c in pairs(pg) + [(1 - h, 1 - l) for l, h in pairs(pg2)]: p.cov("v_invgammp", "v0,c%r" % a, "invgammp", [c], 10, 1e-290, 1e-9 if a < 90 and c[1] < 0.9999 else 1e-7, par=(a,))
for a in pairs(geo(0.2, 0.95, 8)) + pairs(geo(1.05, 1.95, 4)) + pairs(geo(2.05, 2.95, 3)) + pairs(geo(3.05, 12, 8)):
    for c in pairs([0.001, 0.003, 0.01, 0.03, 0.06] + lin(0.1, 0.5, 8)[:-1] + [math.nextafter(0.5, 0)]) + pairs(lin(0.5, 0.95, 9)): (a[0] > 3 and 0.59 < c[0] < 0.86 or a[1] < 0.7 and c[1] > 0.86) or p.cov("v_invgammp", "v0,v1", "invgammp_2", [c, a], 8, 1e-290, 1e-7, maxdepth=20)
p.lit("v_invgammp", "v0,v1", [(-MAX, 0), (1e-3, 1e6)], "0 is 0"); p.lit("v_invgammp", "v0,c4", [(1, MAX)], "0 is 204")

# A11 invbetai
p = P("A11"); p.set(deg=10, depth=12, fresh=1, horizon=10)
for a in (0.25, 0.5, 1, 2.5, 8, 20, 60):
    for b in (0.25, 0.5, 1, 2.5, 8, 20, 60):
        if a == b == 60: continue
        for c in pairs(pg) + [(1 - h, 1 - l) for l, h in pairs(pg2 if b > 0.6 else pg4 if b > 0.3 else pg3)]: p.cov("v_invbetai", "v0,c%r,c%r" % (a, b), "invbetai", [c], 10, 1e-290, 1e-9 if c[1] < 0.9999 else 1e-7, par=(a, b))
p.lit("v_invbetai", "v0,v1,v2", [(-MAX, 0), (1e-3, 1e6), (1e-3, 1e6)], "0 is 0"); p.lit("v_invbetai", "v0,v1,v2", [(1, MAX), (1e-3, 1e6), (1e-3, 1e6)], "0 is 1")

# A10 betai
p = P("A10"); p.set(deg=9, depth=14)
for b in (0.5, 2.5, 10):
    for a in pairs(geo(0.3, 0.95, 4)) + pairs(geo(1.05, 1.95, 3)) + pairs(geo(2.05, 8, 8)):
        for x in pairs([0.02] + lin(0.05, 0.95, 12) + [0.98]):
            p.cov("v_betai", "v0,c%r,v1" % b, "betai_b", [a, x], 8, 1e-7, 0, par=(b,), maxdepth=20)
            p.cov("v_betai", "c%r,v0,v1" % b, "betai_a", [a, x], 8, 1e-7, 0, par=(b,), maxdepth=20)
p.set(deg=10, depth=12)
for a, b in ((3001, 3001), (4000, 5000), (20000, 3500), (1e5, 1e5), (3001, 9999.5), (6000, 3100), (3500, 70000), (12345.6, 23456.7), (1e5, 3200), (8e4, 2e5), (1e6, 1e6)):
    m = a / (a + b); sd = math.sqrt(a * b / (a + b) ** 3)
    for c in pairs(lin(m - 10 * sd, m + 10 * sd, 60)): p.cov("v_betai", "c%r,c%r,v0" % (a, b), "betai", [c], 10, 1e-7, 0, par=(a, b))
BL = (0.25, 0.5, 1, 2.5, 7, 10, 40, 100, 300, 1000, 2999)
def bline(a, b, n=16, t=3e-9):
    m = a / (a + b); sd = math.sqrt(a * b / (a + b) ** 3 / (1 + 1 / (a + b))); s = (a + 1) / (a + b + 2)
    lo, hi = m - 8 * sd, m + 8 * sd
    if lo <= 0.1 * m: lo = 0.1 * m
    if 1 - hi <= 0.1 * (1 - m): hi = 1 - 0.1 * (1 - m)
    low = max(lo * 1e-9, lo * 10 ** (-250 / a))
    g = geo(low, lo, max(8, math.ceil(math.log(lo / low) / 0.7)))[:-1] + lin(lo, hi, n) + [1 - y for y in reversed(geo(max((1 - hi) * 1e-9, 1e-13, (1 - hi) * 10 ** (-30 / b)), 1 - hi, 6))][1:]
    g = sorted(set(g + [s]))
    for c in pairs(g):
        if c[1] == s: c = (c[0], math.nextafter(s, 0))
        if c[1] - c[0] < 1e-13 * c[1]: continue
        if c[1] <= s: p.cov("v_betai", "c%r,c%r,v0" % (a, b), "betai", [c], 10, 0, t, par=(a, b))
        else: p.cov("v_betai", "c%r,c%r,v0" % (a, b), "betai", [c], 10, t, 0, par=(a, b))
for a in BL:
    for b in BL: bline(a, b)
BX = (0.01, 0.1, 0.75, 1.3, 1.9, 3.7, 18.6, 63, 170.2, 550, 1700)
for a in BX:
    for b in BX: bline(a, b)
    for b in (0.5, 1, 30): bline(a, b); bline(b, a)
    if a < 500: bline(a, 4000, t=1e-8); bline(4000, a, t=1e-8); bline(a, 12000, 10, 1e-7); bline(12000, a, 10, 1e-7)
p.set(deg=3, depth=6)
for a in pairs(geo(1e-3, 1e5, 12)):
    for b in pairs(geo(1e-3, 1e5, 12)): p.lit("v_betai", "v0,v1,c0", [a, b], "0 is 0"); p.lit("v_betai", "v0,v1,c1", [a, b], "0 is 1")
