#!/usr/bin/env python3-vt
"""Writes /verif/specs/<ID>.obl (the obligations of each numerical property) from mpmath references.
usage: gen.py [ID ...]       (run by hand when a property's statement changes; checks only read the result)
"""
import sys, os, math, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from multiprocessing import Pool
from cheb import *
SPECS = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "specs")
PROPS = {}
REFS = {}
def ref_(f): REFS[f.__name__] = f; return f
MAX = 1.7976931348623157e308
TINY = 5e-324

class P:
    def __init__(s, pid): s.id = pid; s.items = []; PROPS[pid] = s
    def set(s, **kw): s.items.append(("lit", "@ " + " ".join("%s=%s" % kv for kv in kw.items())))
    def lit(s, func, args, box, *ex): s.items.append(("lit", "%s %s | %s | %s" % (func, args, " ".join(num(l) + ":" + num(h) for l, h in box), " ; ".join(ex))))
    def cov(s, func, args, f, box, D, atol, rtol, nout=1, extra=(), par=(), **kw):
        """cover box with reference cells. f: name of the reference; par: leading constant parameters of it"""
        s.items.append(("cov", func, args, f, tuple(par), [tuple(b) for b in box], D, atol, rtol, nout, tuple(extra), kw))

def split(bx, axis, pts):
    return [[(pts[i], pts[i + 1]) if a == axis else b for a, b in enumerate(bx)] for i in range(len(pts) - 1)]

def pairs(g): return list(zip(g, g[1:]))
def geo(l, h, n): return [l * (h / l) ** (i / n) for i in range(n)] + [h]
def lin(l, h, n): return [l + (h - l) * i / n for i in range(n)] + [h]

# ------------------------------------------------------------------ references
@ref_
def erf(x): return mp.erf(x)
@ref_
def erfc(x): return mp.erfc(x)
@ref_
def erfcx(x):
    if x > 1e4:
        s = mpf(0); t = mpf(1); 
        for k in range(12): s += t; t *= -(2 * k + 1) / (2 * x * x)
        return s / (x * mp.sqrt(mp.pi))
    with mp.workdps(60): return mp.exp(x * x) * mp.erfc(x)
@ref_
def inverfc(q):
    # Newton on log erfc
    if q > 1: return -inverfc(2 - q)
    if q > mpf("0.1"): return mp.erfinv(1 - q)
    L = mp.log(q)
    x = mp.sqrt(max(mpf(0.5), -L - mp.log(mp.sqrt(-L * mp.pi))))
    for _ in range(60):
        e = mp.erfc(x)
        d = (mp.log(e) - L) * e / (2 / mp.sqrt(mp.pi) * mp.exp(-x * x))
        x += d
        if abs(d) < mpf(10) ** -36 * x: return x
    raise RuntimeError("inverfc")
@ref_
def inverf(p): return mp.erfinv(p)
@ref_
def gamma(z): return mp.gamma(z)
@ref_
def lngamma(z): return mp.loggamma(z)
@ref_
def beta(a, b): return mp.beta(a, b)
@ref_
def gammp(a, x):
    return mp.gammainc(a, 0, x, regularized=True) if x < a + 1 or x < 1 else 1 - mp.gammainc(a, x, regularized=True)
@ref_
def gammq(a, x):
    return mp.gammainc(a, x, regularized=True)
@ref_
def betai(a, b, x):
    a, b, x = mpf(a), mpf(b), mpf(x)
    if x == 0 or x == 1: return x
    if x > (a + 1) / (a + b + 2): return 1 - betai(b, a, 1 - x)
    bt = mp.exp(mp.loggamma(a + b) - mp.loggamma(a) - mp.loggamma(b) + a * mp.log(x) + b * mp.log(1 - x)) / a
    c = mpf(1); d = 1 / (1 - (a + b) * x / (a + 1)); h = d; m = 0
    while m < 3000:
        m += 1
        aa = m * (b - m) * x / ((a - 1 + 2 * m) * (a + 2 * m))
        d = 1 / (1 + aa * d); c = 1 + aa / c; h *= d * c
        aa = -(a + m) * (a + b + m) * x / ((a + 2 * m) * (a + 1 + 2 * m))
        d = 1 / (1 + aa * d); c = 1 + aa / c; e = d * c; h *= e
        if abs(e - 1) < mpf(10) ** -37: return bt * h
    raise RuntimeError("betai")
@ref_
def betai_b(b, a, x): return betai(a, b, x)
@ref_
def betai_a(a, b, x): return betai(a, b, x)
@ref_
def invgammp(a, p):
    import scipy.special as ss
    a = mpf(a); x = mpf(float(ss.gammaincinv(float(a), float(p)))) if p < 0.5 else mpf(float(ss.gammainccinv(float(a), float(1 - p))))
    for _ in range(5):
        f = (gammp(a, x) - p) if p < 0.5 else ((1 - p) - gammq(a, x))
        d = f / mp.exp(-x + (a - 1) * mp.log(x) - mp.loggamma(a))
        x -= d
        if abs(d) < mpf(10) ** -28 * x: return x
    raise RuntimeError("invgammp")
@ref_
def invgammp_2(p, a): return invgammp(a, p)
@ref_
def invbetai(a, b, p):
    import scipy.special as ss
    a = mpf(a); b = mpf(b); x = mpf(float(ss.betaincinv(float(a), float(b), float(p))))
    for _ in range(6):
        f = betai(a, b, x) - p
        d = f / mp.exp((a - 1) * mp.log(x) + (b - 1) * mp.log1p(-x) - mp.log(mp.beta(a, b)))
        x -= d
        if abs(d) < mpf(10) ** -26 * x: return x
    raise RuntimeError("invbetai")
@ref_
def ident(x): return x
@ref_
def scale2(e, x): return mp.ldexp(x, int(e))
@ref_
def sgn(s, *v): return s * v[0]
@ref_
def bj(n, x): return mp.besselj(int(n), x)
@ref_
def by(n, x): return mp.bessely(int(n), x)
@ref_
def bi(n, x): return mp.besseli(int(n), x)
@ref_
def bk(n, x): return mp.besselk(int(n), x)
@ref_
def dawson(x):
    if abs(x) > 50:
        s = mpf(0); t = mpf(1)
        for k in range(20): s += t; t *= (2 * k + 1) / (2 * x * x)
        return s / (2 * x)
    with mp.workdps(60): return mp.sqrt(mp.pi) / 2 * mp.exp(-x * x) * mp.erfi(x)
@ref_
def wofz(re, im):
    z = mp.mpc(re, im)
    if abs(z) > 100 and im >= 0:
        s = mp.mpc(0); t = mp.mpc(1)
        for k in range(14): s += t; t *= (2 * k + 1) / (2 * z * z)
        w = mp.mpc(0, 1) / mp.sqrt(mp.pi) / z * s
        if im < 0: raise RuntimeError
    else:
        with mp.workdps(60 + int(2 * max(0, abs(im)) ** 2 / 2.3) if abs(im) < 12 else 60): w = mp.exp(-z * z) * mp.erfc(mp.mpc(0, -1) * z)
    return (w.real, w.imag)
@ref_
def wofz0(x): return (mp.exp(-x * x), 2 / mp.sqrt(mp.pi) * dawson(x))
@ref_
def wofzi(y): return (erfcx(y), mpf(0))
@ref_
def jyfull(nu, x):
    j = mp.besselj(nu, x); y = mp.bessely(nu, x)
    jp = nu / x * j - mp.besselj(nu + 1, x); yp = nu / x * y - mp.bessely(nu + 1, x)
    return (j, y, jp, yp)
@ref_
def ikfull(nu, x):
    i = mp.besseli(nu, x); k = mp.besselk(nu, x)
    ip = nu / x * i + mp.besseli(nu + 1, x); kp = nu / x * k - mp.besselk(nu + 1, x)
    return (i, k, ip, kp)

CACHE = os.environ.get("GENCACHE", "/tmp/gencache")
def _work(it):
    import hashlib
    os.makedirs(CACHE, exist_ok=True)
    fn = os.path.join(CACHE, hashlib.sha256(repr(it).encode()).hexdigest())
    if os.path.exists(fn): return open(fn).read()
    r = _work1(it)
    if not r.startswith("ERR"):
        with open(fn + ".%d" % os.getpid(), "w") as fo: fo.write(r)
        os.rename(fn + ".%d" % os.getpid(), fn)
    return r

def _work1(it):
    _, func, args, f, par, box, D, atol, rtol, nout, extra, kw = it
    g = REFS[f]; h = (lambda *v: g(*par, *v)) if par else g
    out = []
    try:
        for bx, ex in cells(h, box, D, atol, rtol, nout, **kw):
            out.append("%s %s | %s | %s" % (func, args, " ".join(num(l) + ":" + num(hh) for l, hh in bx), " ; ".join(list(ex) + list(extra))))
    except Exception as e:
        return "ERR %s %r: %r" % (func, box, e)
    return "\n".join(out)

def main(ids):
    import props, props_s  # noqa: fills PROPS
    with Pool(8) as pool:
        for pid, p in PROPS.items():
            if ids and pid not in ids: continue
            t = time.time()
            cov = [it for it in p.items if it[0] == "cov"]
            res = iter(pool.map(_work, cov, chunksize=1))
            lines = [it[1] if it[0] == "lit" else next(res) for it in p.items]
            bad = [l for l in lines if l.startswith("ERR")]
            for b in bad[:5]: print(pid, b)
            if bad: continue
            txt = "\n".join(lines) + "\n"
            n = sum(1 for l in txt.split("\n") if l and l[0] not in "#@")
            txt = "# obligations=%d generated by gen/gen.py; do not edit\n" % n + txt
            with open(os.path.join(SPECS, pid + ".obl"), "w") as fo: fo.write(txt)
            import lzma
            with lzma.open(os.path.join(SPECS, pid + ".obl.xz"), "wt", preset=6) as fo: fo.write(txt)
            print("%s: %d obligations, %.1f MB, %.0f s" % (pid, n, len(txt) / 1e6, time.time() - t), flush=True)

if __name__ == "__main__":
    sys.modules["gen"] = sys.modules["__main__"]
    main(sys.argv[1:])
