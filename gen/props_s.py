"""Obligations of the argument-checking properties: S25 (rejection), S28 (NaN), S26 (no other panics)."""
from gen import P, MAX, TINY
NEG = [("v%d", (-MAX, -TINY)), ("c-inf", None), ("cnan", None)]     # not >= 0
NONPOS = NEG + [("c0.0", None), ("c-0.0", None)]                    # not > 0
ABOVE1 = [("v%d", (1.0000000000000002, MAX)), ("cinf", None)]
def reject(p, func, n, bad, tail="", what="panic"):
    """bad: {argument: list of classes}; every other argument is arbitrary"""
    for k, cl in bad.items():
        for a, bx in cl:
            p.lit(func, ",".join([(a % 0 if bx else a) if i == k else "t" for i in range(n)]) + tail, [bx] if bx else [], *([what] if isinstance(what, str) else what))
p = P("S25"); p.set(deg=1, depth=3, steps=60000000)
for f in ("v_gammp", "v_gammq"): reject(p, f, 2, {0: NONPOS, 1: NEG})
reject(p, "v_beta", 2, {0: NONPOS, 1: NONPOS})
reject(p, "v_betai", 3, {0: NONPOS, 1: NONPOS, 2: NEG + ABOVE1})
reject(p, "v_invgammp", 2, {1: NONPOS})
for f in ("v_besseljy", "v_besselik", "v_jnuynu", "v_inuknu"): reject(p, f, 2, {0: [c for c in NEG if c[0] != "cnan"], 1: [c for c in NONPOS if c[0] != "cnan"]}, ",o")

p = P("S28"); p.set(deg=1, depth=3, steps=60000000)
NAN = [("cnan", None)]
for f in "erf erfc erfcx inverf inverfc gamma ln_gamma dawson w0 wm1 spw0 spwm1".split(): p.lit("v_" + f, "cnan", [], "0 nan")
for f, n in (("gammp", 2), ("gammq", 2), ("beta", 2), ("invgammp", 2), ("betai", 3)): reject(p, "v_" + f, n, {k: NAN for k in range(n)}, "", "0 notnum")
for f in ("v_jn", "v_yn", "v_in", "v_kn"):
    for n in list(range(0, 41)) + [50, 64, 100, 171, 256, 1000]: p.lit(f, "i%d,cnan" % n, [], "0 nan")
for q in ("v0", "n0", "c0.0", "c-0.0", "cinf", "c-inf", "cnan"):
    for k in (0, 1): p.lit("v_faddeeva", ("cnan," + q, q + ",cnan")[k] + ",o", [(TINY, MAX)] if q[1] == "0" and q[0] != "c" else [], "0 nan", "1 nan")
for f, m in (("v_besseljy", 4), ("v_besselik", 4), ("v_jnuynu", 2), ("v_inuknu", 2)):
    for a in ("cnan,t", "t,cnan", "cnan,c1", "cnan,c5", "c0.5,cnan"): p.lit(f, a + ",o", [], *["%d notnum" % k for k in range(m)])
for a in ("c0.25", "c0.5", "c1", "c2.5", "c30", "c4000"):
    for b in ("c0.25", "c0.5", "c1", "c2.5", "c30", "c4000"): p.lit("v_invbetai", "cnan,%s,%s" % (a, b), [], "0 notnum")
    for q in ("c0.1", "c0.5", "c0.9"): p.lit("v_invbetai", "%s,cnan,%s" % (q, a), [], "0 notnum"); p.lit("v_invbetai", "%s,%s,cnan" % (q, a), [], "0 notnum")
p.lit("v_sign", "cnan,t", [], "0 nan")
for e in (0, 1, -1, 52, -52, 1023, -1022, -1074, 5000, -5000, 2 ** 31 - 1, -2 ** 31): p.lit("v_ldexp", "cnan,i%d" % (e % 2 ** 32), [], "0 nan")

# S27: every double, every branch, without the stopping horizon
EDGES = [TINY, 1e-300, 1e-100, 1e-10, 1e-5, .01] + [.25 * k for k in range(1, 801)] + [210., 300., 1000., 1e4, 1e6, 1e9, 1e12, 1e15, 1e16, 2e16, 1e30, 1e100, MAX]
def whole(p, f, what):
    for a in ("cnan", "cinf", "c-inf", "c0.0", "c-0.0"): p.lit(f, a, [], what)
    for b in zip(EDGES, EDGES[1:]):
        p.lit(f, "v0", [b], what); p.lit(f, "n0", [b], what)
p = P("S27"); p.set(deg=1, depth=14, steps=60000000, horizon=0)
for f in "gamma ln_gamma erf erfc erfcx inverf inverfc dawson w0 wm1 spw0 spwm1 refrexp".split(): whole(p, "v_" + f, "maypanic")
for b in zip(EDGES, EDGES[1:]):
    for v in ("v0,o", "n0,o"): p.lit("v_frexp", v, [b], "maypanic")
for a in ("cnan", "cinf", "c-inf", "c0.0", "c-0.0"): p.lit("v_frexp", a + ",o", [], "maypanic")
p.lit("v_ldexp", "t,u", [], "maypanic")
p.lit("v_sign", "t,t", [], "maypanic")
for n in range(300): p.lit("v_factorial", "I%d" % n, [], "maypanic")
for m in range(17, 60): p.lit("v_factorial", "J%d-%d" % (max(300, m * m), m * m + 2 * m), [], "maypanic")
p.lit("v_factorial", "J3600-%d" % (2 ** 64 - 1), [], "maypanic")

# S26: no panic inside the documented domain, over everything a double can be
SPECIAL = ("cnan", "cinf", "c-inf", "c0.0", "c-0.0")
p = P("S26"); p.set(deg=1, depth=14, steps=60000000, horizon=0)
for f in "gamma ln_gamma erf erfc erfcx inverf inverfc dawson w0 wm1 spw0 spwm1".split(): whole(p, "v_" + f, "nopanic")
for b in zip(EDGES, EDGES[1:]):
    for v in ("v0,o", "n0,o"): p.lit("v_frexp", v, [b], "nopanic")
for a in SPECIAL: p.lit("v_frexp", a + ",o", [], "nopanic")
p.lit("v_ldexp", "t,u", [], "nopanic")
p.lit("v_sign", "t,t", [], "nopanic")
for n in range(300): p.lit("v_factorial", "I%d" % n, [], "nopanic")
for m in range(17, 60): p.lit("v_factorial", "J%d-%d" % (max(300, m * m), m * m + 2 * m), [], "nopanic")
p.lit("v_factorial", "J3600-%d" % (2 ** 64 - 1), [], "nopanic")
BGRID = [TINY, 1e-300, 1e-150, 1e-20, 1e-5, .01] + [.5 * k for k in range(1, 81)] + [41., 45., 50., 60., 80., 100., 150., 200., 300., 500., 700., 1e3, 1e5, 1e10, 1e20, 1e100, MAX]
p.set(deg=1, depth=8, steps=60000000, horizon=0)
for f in ("v_jn", "v_yn", "v_in", "v_kn"):
    for n in list(range(0, 13)) + [16, 20, 25, 33, 40, 64, 100]:
        for a in SPECIAL: p.lit(f, "i%d,%s" % (n, a), [], "nopanic")
        for b in zip(BGRID, BGRID[1:]):
            for v in "vn": p.lit(f, "i%d,%s0" % (n, v), [b], "nopanic")
p.lit("v_beta", "v0,v1", [(TINY, MAX), (TINY, MAX)], "nopanic")
p.lit("v_beta", "cinf,v0", [(TINY, MAX)], "nopanic"); p.lit("v_beta", "v0,cinf", [(TINY, MAX)], "nopanic"); p.lit("v_beta", "cinf,cinf", [], "nopanic")
