//! Taylor models: polynomial in the normalised cell variables t in [-1,1]^n plus a remainder
//! interval [-r, r].  Every operation accounts for its own floating-point rounding in `r`.
pub const U: f64 = 1.1102230246251565e-16;
const INFL: f64 = 1.0 + 1e-9; // covers rounding of the (nonnegative) bound computations themselves

pub struct Ctx {
    pub n: usize,
    pub d: usize,
    pub cnt: Vec<usize>,      // cnt[k] = number of monomials of degree <= k
    pub exps: Vec<[u8; 4]>,
    pub deg: Vec<u8>,
    mul: Vec<u32>,
    even: Vec<bool>,
    mult: Vec<f64>, // max number of product terms contributing to a monomial of degree k
}
impl Ctx {
    pub fn new(n: usize, d: usize) -> Ctx {
        let mut exps: Vec<[u8; 4]> = vec![];
        let mut cnt = vec![];
        for k in 0..=d {
            fn rec(n: usize, i: usize, left: usize, cur: &mut [u8; 4], out: &mut Vec<[u8; 4]>) {
                if n == 0 { if left == 0 { out.push(*cur); } return; }
                if i == n - 1 { cur[i] = left as u8; out.push(*cur); cur[i] = 0; return; }
                for e in (0..=left).rev() { cur[i] = e as u8; rec(n, i + 1, left - e, cur, out); }
                cur[i] = 0;
            }
            rec(n, 0, k, &mut [0; 4], &mut exps);
            cnt.push(exps.len());
        }
        let nm = exps.len();
        let deg: Vec<u8> = exps.iter().map(|e| e.iter().sum()).collect();
        let map: std::collections::HashMap<[u8; 4], u32> = exps.iter().enumerate().map(|(i, e)| (*e, i as u32)).collect();
        let mut mul = vec![u32::MAX; nm * nm];
        for i in 0..nm {
            for j in 0..nm {
                if (deg[i] + deg[j]) as usize <= d {
                    let mut e = exps[i];
                    for k in 0..4 { e[k] += exps[j][k]; }
                    mul[i * nm + j] = map[&e];
                }
            }
        }
        let even = exps.iter().map(|e| e.iter().all(|x| x % 2 == 0)).collect();
        let mut mult = vec![1.0f64; d + 1];
        for (i, e) in exps.iter().enumerate() { let m: f64 = e.iter().map(|x| *x as f64 + 1.0).product(); let k = deg[i] as usize; if m > mult[k] { mult[k] = m; } }
        Ctx { n, d, cnt, exps, deg, mul, even, mult }
    }
    /// coefficients over the first n variables, in the order of this context
    pub fn embed(&self, c: &[f64], n: usize) -> Vec<f64> {
        let mut o = vec![0.0; self.exps.len()];
        let mut j = 0;
        for (i, e) in self.exps.iter().enumerate() { if e[n..].iter().all(|x| *x == 0) { if j < c.len() { o[i] = c[j]; } j += 1; } }
        assert!(c.len() <= j);
        o
    }
    pub fn nm(&self) -> usize { self.exps.len() }
}

#[derive(Clone, Debug)]
pub struct TM {
    pub c: Vec<f64>,
    pub r: f64,
}
pub type Bx = [(f64, f64); 4];

/// the exact rounding error of s = fl(a + b) (Knuth's two-sum)
fn sum_err(a: f64, b: f64, s: f64) -> f64 { let bb = s - a; ((a - (s - bb)) + (b - bb)).abs() }

impl TM {
    pub fn cst(v: f64, r: f64) -> TM { TM { c: vec![v], r } }
    pub fn lin(cx: &Ctx, m: f64, i: usize, rad: f64) -> TM {
        let mut c = vec![0.0; cx.n + 1];
        c[0] = m;
        for k in 1..=cx.n { if cx.exps[k][i] == 1 { c[k] = rad; } }
        TM { c, r: 0.0 }
    }
    pub fn dg(&self, cx: &Ctx) -> usize { cx.deg[self.c.len() - 1] as usize }
    pub fn trim(mut self, cx: &Ctx) -> TM {
        loop {
            let l = self.c.len();
            if l <= 1 { break; }
            let d = cx.deg[l - 1] as usize;
            let s = cx.cnt[d - 1];
            if self.c[s..].iter().all(|x| *x == 0.0) { self.c.truncate(s); } else { break; }
        }
        self
    }
    pub fn finite(&self) -> bool { self.r.is_finite() && self.c.iter().all(|x| x.is_finite()) }
    pub fn abs_sum(&self) -> f64 { self.c.iter().map(|x| x.abs()).sum::<f64>() * INFL }
    /// sums of absolute coefficients per degree
    fn norms(&self, cx: &Ctx) -> Vec<f64> {
        let mut v = vec![0.0; cx.d + 1];
        for (i, x) in self.c.iter().enumerate() { v[cx.deg[i] as usize] += x.abs(); }
        v
    }
    pub fn range(&self, cx: &Ctx, bx: Option<&Bx>) -> (f64, f64) {
        let (mut lo, mut hi) = (self.c[0], self.c[0]);
        match bx {
            None => {
                for i in 1..self.c.len() {
                    let c = self.c[i];
                    if cx.even[i] { if c > 0.0 { hi += c } else { lo += c } } else { let a = c.abs(); lo -= a; hi += a; }
                }
            }
            Some(b) => {
                // re-centre: powers of each variable over the sub-interval
                let mut pw = [[(1.0f64, 1.0f64); 32]; 4];
                for v in 0..cx.n {
                    let (l, h) = b[v];
                    for k in 1..=cx.d.min(31) {
                        let (a, c) = (l.powi(k as i32), h.powi(k as i32));
                        let (mut x, mut y) = (a.min(c), a.max(c));
                        if k % 2 == 0 && l <= 0.0 && h >= 0.0 { x = 0.0; }
                        x -= x.abs() * 1e-14; y += y.abs() * 1e-14;
                        pw[v][k] = (x, y);
                    }
                }
                for i in 1..self.c.len() {
                    let c = self.c[i];
                    if c == 0.0 { continue; }
                    let (mut x, mut y) = (1.0f64, 1.0f64);
                    for v in 0..cx.n {
                        let e = cx.exps[i][v] as usize;
                        if e > 0 { let (a, d) = pw[v][e]; let p = [x * a, x * d, y * a, y * d]; x = p[0].min(p[1]).min(p[2].min(p[3])); y = p[0].max(p[1]).max(p[2].max(p[3])); }
                    }
                    if c > 0.0 { lo += c * x; hi += c * y } else { lo += c * y; hi += c * x }
                }
            }
        }
        let s = self.abs_sum() * 4.0 * U * (1.0 + (self.c.len() as f64).sqrt());
        (lo - self.r * INFL - s, hi + self.r * INFL + s)
    }
    pub fn maxabs(&self) -> f64 { self.abs_sum() + self.r }

    pub fn neg(&self) -> TM { TM { c: self.c.iter().map(|x| -x).collect(), r: self.r } }
    pub fn add(&self, o: &TM) -> TM { self.lc(o, 1.0) }
    pub fn sub(&self, o: &TM) -> TM { self.lc(o, -1.0) }
    fn lc(&self, o: &TM, s: f64) -> TM {
        let n = self.c.len().max(o.c.len());
        let mut c = vec![0.0; n];
        c[..self.c.len()].copy_from_slice(&self.c);
        let mut e = 0.0;
        for (i, x) in o.c.iter().enumerate() {
            let old = c[i];
            c[i] += s * x;
            if old != 0.0 && *x != 0.0 { e += sum_err(old, s * x, c[i]); }
        }
        TM { c, r: (self.r + o.r + e) * INFL }
    }
    pub fn addc(&self, v: f64) -> TM { let mut t = self.clone(); let old = t.c[0]; t.c[0] += v; let e = sum_err(old, v, t.c[0]); if e != 0.0 { t.r = (t.r + e) * INFL; } t }
    pub fn scale(&self, s: f64) -> TM {
        let c: Vec<f64> = self.c.iter().map(|x| x * s).collect();
        let p2 = s == 0.0 || (s.to_bits() & 0x000f_ffff_ffff_ffff == 0 && s.is_normal());
        let mut t = TM { c, r: self.r * s.abs() * INFL };
        if !p2 { t.r += t.abs_sum() * U; } else { t.r += 1e-320; }
        t
    }
    pub fn mul(&self, o: &TM, cx: &Ctx) -> TM {
        if o.c.len() == 1 { let mut t = self.scale(o.c[0]); if o.r > 0.0 { t.r = (t.r + o.r * self.maxabs()) * INFL; } return t; }
        if self.c.len() == 1 { return o.mul(self, cx); }
        let (da, db) = (self.dg(cx), o.dg(cx));
        let dr = (da + db).min(cx.d);
        let nm = cx.nm();
        let mut c = vec![0.0; cx.cnt[dr]];
        for (i, a) in self.c.iter().enumerate() {
            if *a == 0.0 { continue; }
            let lim = cx.cnt[(dr - cx.deg[i] as usize).min(db)];
            let row = &cx.mul[i * nm..i * nm + lim];
            let oc = &o.c[..lim];
            for j in 0..lim { c[row[j] as usize] += a * oc[j]; }
        }
        let na = self.norms(cx);
        let nb = o.norms(cx);
        let mut r = 0.0;
        for i in 0..=da {
            for j in 0..=db {
                let p = na[i] * nb[j];
                if i + j > dr { r += p } else { r += p * U * cx.mult[i + j]; }
            }
        }
        let (sa, sb) = (na.iter().sum::<f64>(), nb.iter().sum::<f64>());
        r += sa * o.r + sb * self.r + self.r * o.r + 1e-320;
        TM { c, r: r * INFL }
    }
    /// sum_k co[k] * self^k + [-rem, rem]
    pub fn compose(&self, co: &[f64], rem: f64, cx: &Ctx) -> TM {
        let k = co.len() - 1;
        let mut acc = TM::cst(co[k], 0.0);
        for i in (0..k).rev() { acc = acc.mul(self, cx).addc(co[i]); }
        acc.r = (acc.r + rem) * INFL;
        acc
    }
    /// centre x0 and deviation (self - x0) with a bound on |deviation|, using range knowledge (lo,hi)
    fn centre(&self, lo: f64, hi: f64) -> (f64, TM, f64) {
        let c0 = self.c[0];
        let rad0 = (hi - c0).max(c0 - lo);
        let (x0, rad) = if c0 > lo && c0 < hi && rad0 < 0.62 * (hi - lo) { (c0, rad0) } else { (0.5 * lo + 0.5 * hi, 0.5 * (hi - lo) * (1.0 + 1e-12)) };
        let mut d = self.clone();
        if x0 == c0 { d.c[0] = 0.0; } else { d.c[0] -= x0; d.r = (d.r + d.c[0].abs() * U) * INFL; }
        (x0, d, rad * (1.0 + 1e-12) + 1e-320)
    }
    pub fn recip(&self, lo: f64, hi: f64, cx: &Ctx) -> Option<TM> {
        if !(lo > 0.0 || hi < 0.0) { return None; }
        let (x0, d, rad) = self.centre(lo, hi);
        let rho = rad / x0.abs();
        if !(rho < 0.97) { return None; }
        let i0 = 1.0 / x0;
        if !i0.is_finite() || i0.abs() < 1e-305 { return None; }
        let d = d.scale(i0);
        let k = nterms(rho, cx.d);
        let co: Vec<f64> = (0..=k).map(|i| if i % 2 == 0 { 1.0 } else { -1.0 }).collect();
        let rem = rho.powi(k as i32 + 1) / (1.0 - rho);
        let mut t = d.compose(&co, rem, cx).scale(i0);
        t.r += t.maxabs() * 2.0 * U;
        Some(t)
    }
    pub fn ln(&self, lo: f64, hi: f64, cx: &Ctx) -> Option<TM> {
        if !(lo > 0.0) { return None; }
        let (x0, d, rad) = self.centre(lo, hi);
        let rho = rad / x0;
        if !(rho < 0.97) { return None; }
        let d = d.scale(1.0 / x0);
        let d = TM { r: d.r + d.maxabs() * U, c: d.c };
        let k = nterms(rho, cx.d).max(1);
        let l0 = x0.ln();
        let co: Vec<f64> = (0..=k).map(|i| if i == 0 { l0 } else if i % 2 == 1 { 1.0 / i as f64 } else { -1.0 / i as f64 }).collect();
        let rem = rho.powi(k as i32 + 1) / (1.0 - rho) / (k as f64 + 1.0);
        let mut t = d.compose(&co, rem, cx);
        t.r += 2.0 * U * l0.abs() + U * d.maxabs();
        Some(t)
    }
    pub fn exp(&self, lo: f64, hi: f64, cx: &Ctx) -> Option<TM> {
        let (x0, d, rad) = self.centre(lo, hi);
        if !(rad < 6.0) || hi > 709.0 || lo < -740.0 { return None; }
        let e0 = x0.exp();
        let mut co = vec![1.0];
        let mut k = 0usize;
        let mut term = 1.0;
        let er = rad.exp();
        loop {
            k += 1;
            let t = co[k - 1] / k as f64;
            co.push(t);
            term *= rad / k as f64;
            let rem = term * rad / (k as f64 + 1.0) * er;
            if rem < 1e-19 || k >= 3 * cx.d + 6 {
                let mut r = d.compose(&co, rem, cx).scale(e0);
                r.r += r.maxabs() * 3.0 * U;
                return Some(r);
            }
        }
    }
    pub fn sqrt(&self, lo: f64, hi: f64, cx: &Ctx) -> Option<TM> {
        if !(lo > 0.0) { return None; }
        let (x0, d, rad) = self.centre(lo, hi);
        let rho = rad / x0;
        if !(rho < 0.97) { return None; }
        let s0 = x0.sqrt();
        let d = d.scale(1.0 / x0);
        let d = TM { r: d.r + d.maxabs() * U, c: d.c };
        let k = nterms(rho, cx.d).max(1);
        let mut co = vec![1.0];
        for i in 1..=k { let p = co[i - 1] * (0.5 - (i as f64 - 1.0)) / i as f64; co.push(p); }
        let rem = co[k].abs() * rho.powi(k as i32 + 1) / (1.0 - rho);
        let mut t = d.compose(&co, rem, cx).scale(s0);
        t.r += t.maxabs() * 3.0 * U;
        Some(t)
    }
    /// kind: 0 sin, 1 cos, 2 sinh, 3 cosh
    pub fn trig(&self, kind: u8, lo: f64, hi: f64, cx: &Ctx) -> Option<TM> {
        let (x0, d, rad) = self.centre(lo, hi);
        if !(rad < 4.0) || !(x0.abs() < 1e6) { return None; }
        if kind >= 2 && x0.abs() > 600.0 { return None; }
        let f = match kind {
            0 => [x0.sin(), x0.cos(), -x0.sin(), -x0.cos()],
            1 => [x0.cos(), -x0.sin(), -x0.cos(), x0.sin()],
            2 => [x0.sinh(), x0.cosh(), x0.sinh(), x0.cosh()],
            _ => [x0.cosh(), x0.sinh(), x0.cosh(), x0.sinh()],
        };
        let bound = if kind < 2 { 1.0 } else { (x0.abs() + rad).cosh() };
        let mut co = vec![f[0]];
        let mut fact = 1.0;
        let mut k = 0usize;
        let mut term = 1.0;
        loop {
            k += 1;
            fact /= k as f64;
            co.push(f[k % 4] * fact);
            term *= rad / k as f64;
            let rem = term * rad / (k as f64 + 1.0) * bound;
            if rem < 1e-19 * bound || k >= 3 * cx.d + 6 {
                let mut r = d.compose(&co, rem, cx);
                // coefficient errors: relative 3u on each Taylor coefficient
                let s: f64 = co.iter().enumerate().map(|(i, c)| c.abs() * rad.powi(i as i32)).sum();
                r.r += s * 4.0 * U;
                return Some(r);
            }
        }
    }
    /// entire even series sum_k s^k x^{2k}/(2k+1)!  (s=-1: sin x/x, s=+1: sinh x/x)
    pub fn sinc(&self, s: f64, lo: f64, hi: f64, cx: &Ctx) -> Option<TM> {
        let m = lo.abs().max(hi.abs());
        if !(m < 4.0) { return None; }
        let sq = self.mul(self, cx);
        let mut co = vec![1.0];
        let mut k = 0usize;
        let mut t = 1.0;
        loop {
            k += 1;
            let f = 1.0 / ((2 * k) as f64 * (2 * k + 1) as f64);
            co.push(co[k - 1] * s * f);
            t *= m * m * f;
            let rem = t * m * m / ((2 * k + 2) as f64 * (2 * k + 3) as f64) * m.cosh();
            if rem < 1e-19 || k > 40 {
                let mut r = sq.compose(&co, rem, cx);
                r.r += 4.0 * U * m.cosh();
                return Some(r);
            }
        }
    }
    /// value of the polynomial at a point (engine-internal use for splitting)
    pub fn shift(&self, cx: &Ctx, cen: &[f64], rad: &[f64]) -> TM {
        // p(cen + rad * s) as polynomial in s: substitute variable by variable
        let mut c = self.c.clone();
        let d = self.dg(cx);
        let mut e = 0.0;
        for v in 0..cx.n {
            // for each monomial x^k -> sum binom(k,j) cen^{k-j} rad^j s^j
            let mut nc = vec![0.0; c.len()];
            let mut na = vec![0.0; c.len()];
            for (i, x) in c.iter().enumerate() {
                if *x == 0.0 { continue; }
                let k = cx.exps[i][v] as usize;
                let mut b = 1.0; // binom(k,j)
                for j in 0..=k {
                    let w = b * cen[v].powi((k - j) as i32) * rad[v].powi(j as i32);
                    let mut ex = cx.exps[i];
                    ex[v] = j as u8;
                    let idx = idx_of(cx, &ex);
                    nc[idx] += x * w;
                    na[idx] += (x * w).abs();
                    b = b * (k - j) as f64 / (j as f64 + 1.0);
                }
            }
            e += na.iter().sum::<f64>() * U * (d as f64 + 6.0) * 0.5;
            c = nc;
        }
        TM { c, r: (self.r + e) * INFL }
    }
}
fn idx_of(cx: &Ctx, e: &[u8; 4]) -> usize {
    let d: u8 = e.iter().sum();
    let s = if d == 0 { 0 } else { cx.cnt[d as usize - 1] };
    for i in s..cx.cnt[d as usize] { if &cx.exps[i] == e { return i; } }
    unreachable!()
}
fn nterms(rho: f64, d: usize) -> usize {
    if rho <= 0.0 { return 1; }
    let k = (-43.0 / rho.ln()).ceil();
    (k as usize).clamp(1, 4 * d + 12)
}
