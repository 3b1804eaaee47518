"""Reference enclosures: multivariate polynomial + validated error, from mpmath (40 digits).

A cell is a box in argument space; the reference on it is a polynomial of total degree <= D in the
normalised variables t in [-1,1]^n plus an error bound (4x the worst deviation seen at check points,
plus the tail of the Chebyshev series), so that |f - p| <= err.
"""
import math, random
from mpmath import mp, mpf
mp.dps = 40

def monos(n, d):
    out = []
    def rec(n, i, left, cur):
        if n == 0:
            if left == 0: out.append(tuple(cur))
            return
        if i == n - 1:
            cur[i] = left; out.append(tuple(cur)); cur[i] = 0; return
        for e in range(left, -1, -1):
            cur[i] = e; rec(n, i + 1, left - e, cur)
        cur[i] = 0
    for k in range(d + 1): rec(n, 0, k, [0] * n)
    return out

_c = {}
def tables(d):
    if d in _c: return _c[d]
    m = d + 1
    nodes = [mp.cos(mp.pi * (2 * j + 1) / (2 * m)) for j in range(m)]
    T = [[mp.cos(k * mp.pi * (2 * j + 1) / (2 * m)) for j in range(m)] for k in range(m)]  # T[k][j]
    # monomial coefs of T_k
    P = [[1], [0, 1]]
    for k in range(2, m):
        a = [0] + [2 * c for c in P[-1]]
        b = P[-2] + [0] * (len(a) - len(P[-2]))
        P.append([x - y for x, y in zip(a, b)])
    W = [[(2 if k else 1) * T[k][j] / m for j in range(m)] for k in range(m)]
    _c[d] = (nodes, W, P)
    return _c[d]

def axis_apply(A, shape, M, ax):
    """apply matrix M (rows x shape[ax]) along axis ax of the flat array A"""
    n = len(shape); rows = len(M)
    pre = math.prod(shape[:ax]); post = math.prod(shape[ax + 1:]); m = shape[ax]
    out = [mpf(0)] * (pre * rows * post)
    for p in range(pre):
        for q in range(post):
            col = [A[(p * m + j) * post + q] for j in range(m)]
            for r in range(rows):
                row = M[r]
                out[(p * rows + r) * post + q] = mp.fdot(row, col)
    ns = list(shape); ns[ax] = rows
    return out, ns

def nrm(l, h):
    m = l if l == h else 0.5 * l + 0.5 * h
    return m, max(h - m, m - l)

def fit(f, box, D, nout, rnd, npts=None):
    """polynomials (one per output) and error bounds; also the split axis hint and min |f| estimate"""
    n = len(box)
    nodes, W, P = tables(D)
    m = D + 1
    mr = [nrm(l, h) for l, h in box]
    vals = [[] for _ in range(nout)]
    idx = [0] * n
    for flat in range(m ** n):
        r = flat; ii = [0] * n
        for a in range(n - 1, -1, -1): ii[a] = r % m; r //= m
        pt = [mpf(mr[a][0]) + mpf(mr[a][1]) * nodes[ii[a]] for a in range(n)]
        v = f(*pt)
        if nout == 1 and not isinstance(v, tuple): v = (v,)
        for k in range(nout): vals[k].append(v[k])
    E = monos(n, D); pos = {e: i for i, e in enumerate(E)}
    res = []
    hints = [0.0] * n
    chk = []
    for _ in range(npts or (6 + 6 * n)):
        t = [mpf(rnd.uniform(-1, 1)) if rnd.random() < 0.7 else mpf(rnd.choice([-1, 1])) for _ in range(n)]
        # an argument at the edge may be out of domain by rounding of mid/rad: clip
        pt = [min(max(mpf(mr[a][0]) + mpf(mr[a][1]) * t[a], mpf(box[a][0])), mpf(box[a][1])) for a in range(n)]
        tt = [(pt[a] - mr[a][0]) / mr[a][1] for a in range(n)]
        v = f(*pt)
        if nout == 1 and not isinstance(v, tuple): v = (v,)
        chk.append((tt, v))
    for k in range(nout):
        A, sh = vals[k], [m] * n
        for a in range(n): A, sh = axis_apply(A, sh, W, a)
        tail = mpf(0); mono = [mpf(0)] * len(E)
        last = mpf(0)
        for flat in range(m ** n):
            r = flat; ii = [0] * n
            for a in range(n - 1, -1, -1): ii[a] = r % m; r //= m
            c = A[flat]; d = sum(ii)
            for a in range(n):
                if ii[a] >= D - 1 or d > D: hints[a] = max(hints[a], float(abs(c)) * (ii[a] + 1) / (d + 1))
            if d > D: tail += abs(c); continue
            if d == D: last += abs(c)
            # expand prod T_{ii}
            terms = [((), c)]
            for a in range(n):
                terms = [(e + (p,), co * q) for e, co in terms for p, q in enumerate(P[ii[a]]) if q]
            for e, co in terms: mono[pos[e]] += co
        err = mpf(0)
        for t, v in chk:
            s = mpf(0)
            pw = [[mpf(1)] for _ in range(n)]
            for a in range(n):
                for _ in range(D): pw[a].append(pw[a][-1] * t[a])
            for e, c in zip(E, mono):
                x = c
                for a in range(n): x *= pw[a][e[a]]
                s += x
            err = max(err, abs(s - v[k]))
        fmin = min(abs(x) for x in vals[k]); fmin = min([fmin] + [abs(v[k]) for _, v in chk])
        res.append((mono, 4 * err + tail + last / 4 + mpf(10) ** -330, fmin, max(abs(x) for x in vals[k])))
    return res, hints

def num(x):
    x = float(x)
    if x == 0: return "0"
    s = repr(x)
    return s[:-2] if s.endswith(".0") else s

def ref(poly, D, atol, rtol, tol, k):
    """text of a `ref` expectation; coefficients carry the digits the tolerance needs"""
    mono, err, _, _ = poly
    q = tol / 200 / len(mono)
    extra = mpf(0); out = []
    for c in mono:
        if abs(c) <= q / 8: extra += abs(c); out.append("0"); continue
        digs = max(1, min(17, int(mp.floor(mp.log10(abs(c) / q))) + 2))
        s = "%.*e" % (digs - 1, float(c)) if digs < 17 else repr(float(c))
        s = s.replace("e+0", "e").replace("e-0", "e-").replace("e+", "e")
        if "e" in s:
            a, b = s.split("e")
            if "." in a: a = a.rstrip("0").rstrip(".")
            s = a + ("e" + b if b not in ("0", "00", "") else "")
        extra += abs(mpf(float(s)) - c); out.append(s)
    # trailing zeros: cut to a whole degree is left to the reader (it pads)
    return "%d ref %s %s %s %d %s" % (k, num(atol), num(rtol), "%.3e" % float((err + extra) * mpf(1.001)), D, " ".join(out)), float(err + extra)

def cells(f, box, D, atol, rtol, nout=1, frac=0.1, seed=1, maxdepth=12, geo=True):
    """split `box` until every output has a reference with err <= frac*tolerance; yields (box, [expect text])
    atol/rtol: number or per-output list"""
    at = atol if isinstance(atol, (list, tuple)) else [atol] * nout
    rt = rtol if isinstance(rtol, (list, tuple)) else [rtol] * nout
    rnd = random.Random(repr((seed, box)))
    def go(bx, depth):
        res, h = fit(f, bx, D, nout, rnd)
        ok = all(res[k][1] <= frac * (at[k] + rt[k] * res[k][2]) for k in range(nout))
        if ok:
            out = []
            for k in range(nout):
                tol = mpf(at[k]) + mpf(rt[k]) * res[k][2]
                out.append(ref(res[k], D, at[k], rt[k], tol, k)[0])
            yield bx, out; return
        if depth >= maxdepth: raise RuntimeError("no reference on %r: err %s tol %s" % (bx, [mp.nstr(r[1], 3) for r in res], [mp.nstr(at[k] + rt[k] * res[k][2], 3) for k in range(nout)]))
        a = max(range(len(bx)), key=lambda i: h[i])
        l, hh = bx[a]
        if geo and l > 0 and hh / l > 4: c = math.sqrt(l) * math.sqrt(hh)
        elif geo and hh < 0 and l / hh > 4: c = -math.sqrt(-l) * math.sqrt(-hh)
        else: c = 0.5 * l + 0.5 * hh
        for part in ((l, c), (c, hh)):
            nb = list(bx); nb[a] = part
            yield from go(nb, depth + 1)
    yield from go([tuple(map(float, b)) for b in box], 0)
