//! Abstract values and abstract floating-point arithmetic (IEEE-754 binary64, round to nearest).
use crate::tm::*;
use std::rc::Rc;

pub const LIBM: f64 = 2.0 * 2.0 * U; // assumed accuracy of exp/log/sin/cos/pow: 2 ulp half-widths
pub type H = u128;

pub fn mix(tag: u64, parts: &[u128]) -> H {
    let mut a: u64 = 0x9E3779B97F4A7C15 ^ tag;
    let mut b: u64 = 0xC2B2AE3D27D4EB4F ^ tag.rotate_left(32);
    for p in parts {
        for w in [*p as u64, (*p >> 64) as u64] {
            a = (a ^ w).wrapping_mul(0xff51afd7ed558ccd);
            a ^= a >> 32;
            b = (b.rotate_left(23) ^ w).wrapping_mul(0xc4ceb9fe1a85ec53);
            b ^= b >> 29;
            a = a.wrapping_add(b);
        }
    }
    ((a as u128) << 64) | b as u128
}

#[derive(Debug)]
#[derive(Clone)]
pub struct FD {
    pub lo: f64,
    pub hi: f64,
    pub nan: bool,
    /// bit0: may be +0, bit1: may be -0 (only meaningful when 0 in [lo,hi])
    pub zs: u8,
    pub tm: Option<TM>,
    pub h: H,
    pub neg: bool,
    /// 1: this is sin(arg), 2: sinh(arg)
    pub org: u8,
    /// power of two known to divide every value (0: nothing known beyond the range)
    pub q: f64,
    pub arg: Option<F>,
}
pub type F = Rc<FD>;

pub fn up(x: f64) -> f64 { if x.is_finite() { x.next_up() } else { x } }
pub fn dn(x: f64) -> f64 { if x.is_finite() { x.next_down() } else { x } }

pub fn cst(v: f64) -> F {
    let neg = v.is_sign_negative();
    if v.is_nan() { return Rc::new(FD { lo: 1.0, hi: 0.0, nan: true, zs: 0, tm: None, h: mix(99, &[]), neg: false, org: 0, q: 0.0, arg: None }); }
    let a = v.abs();
    Rc::new(FD { lo: v, hi: v, nan: false, zs: if v == 0.0 { if neg { 2 } else { 1 } } else { 0 }, tm: if v.is_finite() { Some(TM::cst(v, 0.0)) } else { None }, h: mix(1, &[a.to_bits() as u128]), neg, org: 0, q: 0.0, arg: None })
}
/// an unknown value with an identity of its own
pub fn top() -> F {
    thread_local!(static N: std::cell::Cell<u128> = std::cell::Cell::new(0));
    top_id(N.with(|n| { n.set(n.get() + 1); mix(98, &[n.get()]) }))
}
pub fn top_id(h: H) -> F { Rc::new(FD { lo: f64::NEG_INFINITY, hi: f64::INFINITY, nan: true, zs: 3, tm: None, h, neg: false, org: 0, q: 0.0, arg: None }) }
impl FD {
    pub fn empty(&self) -> bool { !(self.lo <= self.hi) }
    pub fn is_cst(&self) -> bool { self.lo == self.hi && !self.nan && (self.lo != 0.0 || self.zs == 1 || self.zs == 2) }
    pub fn cval(&self) -> f64 { if self.lo == 0.0 { if self.zs == 2 { -0.0 } else { 0.0 } } else { self.lo } }
}
/// a view of a value on the current path: interval narrowed by branch conditions
#[derive(Clone)]
pub struct Vw {
    pub lo: f64,
    pub hi: f64,
    pub nan: bool,
    pub f: F,
}
impl Vw {
    pub fn empty(&self) -> bool { !(self.lo <= self.hi) }
    pub fn pt(&self) -> bool { self.lo == self.hi && !self.nan }
    pub fn has0(&self) -> bool { self.lo <= 0.0 && self.hi >= 0.0 }
    pub fn maxabs(&self) -> f64 { self.lo.abs().max(self.hi.abs()) }
    pub fn minabs(&self) -> f64 { if self.has0() { 0.0 } else { self.lo.abs().min(self.hi.abs()) } }
    pub fn has_inf(&self) -> bool { self.lo == f64::NEG_INFINITY || self.hi == f64::INFINITY }
    pub fn zs(&self) -> u8 { if self.has0() { self.f.zs } else { 0 } }
    pub fn cst_val(&self) -> Option<f64> {
        if self.nan || self.lo != self.hi { return None; }
        if self.lo == 0.0 { return match self.f.zs { 1 => Some(0.0), 2 => Some(-0.0), _ => None }; }
        Some(self.lo)
    }
    /// Taylor model on this path, if one is usable
    pub fn tm(&self) -> Option<TM> {
        if self.empty() || self.has_inf() { return None; }
        if self.lo == self.hi { return Some(TM::cst(self.lo, 0.0)); }
        let w = self.hi - self.lo;
        if let Some(t) = &self.f.tm {
            // if the refined interval is narrower than the remainder, an interval constant is better
            if t.r.is_finite() && 2.0 * t.r <= w { return Some(t.clone()); }
        }
        if !w.is_finite() { return None; }
        let m = 0.5 * self.lo + 0.5 * self.hi;
        Some(TM::cst(m, (self.hi - m).max(m - self.lo) * (1.0 + 1e-15)))
    }
    /// bit 0: may carry a clear sign bit, bit 1: may carry a set sign bit
    pub fn signs(&self) -> u8 { (if self.hi > 0.0 { 1 } else { 0 }) | (if self.lo < 0.0 { 2 } else { 0 }) | self.zs() }
    /// largest power of two dividing every value
    fn gran(&self) -> f64 {
        if self.pt() {
            if self.lo == 0.0 { return f64::INFINITY; }
            let b = self.lo.to_bits();
            let e = ((b >> 52) & 0x7ff) as i32;
            let m = (b & 0x000f_ffff_ffff_ffff) | if e > 0 { 1 << 52 } else { 0 };
            let tz = m.trailing_zeros() as i32;
            return 2f64.powi((e.max(1) - 1075 + tz).max(-1074));
        }
        let m = self.minabs();
        if m < 1e-290 { return self.f.q; }
        let e = ((m.to_bits() >> 52) & 0x7ff) as i32;
        2f64.powi((e - 1075).max(-1074)).max(self.f.q)
    }
}

pub struct Res {
    pub lo: f64,
    pub hi: f64,
    pub nan: bool,
    pub zs: u8,
    pub tm: Option<TM>,
}
pub const TINY: f64 = 5e-324;
pub const MINN: f64 = 2.2250738585072014e-308;

/// finish an arithmetic result: intersect with TM range, apply rounding
pub fn fin(cx: &Ctx, bx: Option<&Bx>, mut lo: f64, mut hi: f64, nan: bool, zs: u8, tm: Option<TM>, h: H, neg: bool) -> F {
    let mut tm = tm.filter(|t| t.finite());
    if let Some(t) = &tm {
        let (a, b) = t.range(cx, bx);
        if a > lo { lo = a; }
        if b < hi { hi = b; }
        if !(lo <= hi) && a <= b {
            // numerically inconsistent by rounding; keep TM range
            lo = a; hi = b;
        }
    }
    if hi > f64::MAX || lo < -f64::MAX || hi.is_infinite() || lo.is_infinite() { tm = None; }
    if hi > 1.797e308 { hi = f64::INFINITY; tm = None; }
    if lo < -1.797e308 { lo = f64::NEG_INFINITY; tm = None; }
    if let Some(t) = &tm { if t.r > 0.5 * (hi - lo) && hi > lo { let m = 0.5 * lo + 0.5 * hi; tm = Some(TM::cst(m, (hi - m).max(m - lo) * (1.0 + 1e-15))); } }
    if lo == hi && lo.is_finite() { tm = Some(TM::cst(lo, 0.0)); }
    if let Some(t) = tm.take() { tm = Some(t.trim(cx)); }
    let zs = if lo <= 0.0 && hi >= 0.0 { if zs == 0 { 3 } else { zs } } else { 0 };
    Rc::new(FD { lo, hi, nan, zs, tm, h, neg, org: 0, q: 0.0, arg: None })
}
fn rnd(tm: &mut TM, maxabs: f64, minabs: f64, exact: bool, addsub: bool) {
    if !exact { tm.r += maxabs * U * (1.0 + 1e-12); }
    if !addsub && minabs < MINN * 1.0001 { tm.r += TINY; }
}

pub fn neg(a: &F) -> F {
    Rc::new(FD { lo: -a.hi, hi: -a.lo, nan: a.nan, zs: (a.zs >> 1) | ((a.zs & 1) << 1), tm: a.tm.as_ref().map(|t| t.neg()), h: a.h, neg: !a.neg, org: a.org, q: a.q, arg: a.arg.as_ref().map(|x| if a.org == 0 { x.clone() } else { neg(x) }) })
}

pub fn add(cx: &Ctx, bx: Option<&Bx>, a: &Vw, b: &Vw) -> F {
    // canonical identity: sorted operands, leading sign factored out
    let (ka, kb) = ((a.f.h, a.f.neg), (b.f.h, b.f.neg));
    let (k1, k2) = if ka <= kb { (ka, kb) } else { (kb, ka) };
    let rn = k1.1;
    let h = mix(10, &[k1.0, k2.0, (k1.1 != k2.1) as u128]);
    if let (Some(x), Some(y)) = (a.cst_val(), b.cst_val()) { return cst(x + y); }
    if let Some(y) = b.cst_val() { if y == 0.0 && y.is_sign_negative() && !a.nan { return a.f.clone(); } if y == 0.0 && !a.has0() { return narrowed(a); } }
    if let Some(y) = a.cst_val() { if y == 0.0 && y.is_sign_negative() && !b.nan { return b.f.clone(); } if y == 0.0 && !b.has0() { return narrowed(b); } }
    let nan = a.nan || b.nan || (a.hi == f64::INFINITY && b.lo == f64::NEG_INFINITY) || (a.lo == f64::NEG_INFINITY && b.hi == f64::INFINITY);
    if a.empty() || b.empty() { return Rc::new(FD { lo: 1.0, hi: 0.0, nan, zs: 0, tm: None, h, neg: rn, org: 0, q: 0.0, arg: None }); }
    if ka.0 == kb.0 && ka.1 != kb.1 && !nan {
        return Rc::new(FD { lo: 0.0, hi: 0.0, nan: false, zs: 1, tm: Some(TM::cst(0.0, 0.0)), h: mix(1, &[0]), neg: false, org: 0, q: 0.0, arg: None });
    }
    let (mut lo, mut hi) = (a.lo + b.lo, a.hi + b.hi);
    if lo.is_nan() { lo = f64::NEG_INFINITY; }
    if hi.is_nan() { hi = f64::INFINITY; }
    // rounding is monotone, so the rounded end points bound the rounded results
    let zs = if a.zs() == 2 && b.zs() == 2 { 2 } else if (a.zs() | b.zs()) & 2 == 0 || true { if a.zs() & 2 != 0 && b.zs() & 2 != 0 { 3 } else { 1 } } else { 3 };
    let tm = match (a.tm(), b.tm()) {
        (Some(x), Some(y)) => {
            let mut t = x.add(&y);
            let (l, h) = t.range(cx, bx);
            let m = l.abs().max(h.abs()).min(lo.abs().max(hi.abs()));
            let g = a.gran().min(b.gran());
            let exact = m <= g * 9007199254740992.0;
            rnd(&mut t, m, 0.0, exact, true);
            Some(t)
        }
        _ => None,
    };
    let mut f = fin(cx, bx, lo, hi, nan, zs, tm, h, rn);
    // a sum of multiples of g is a multiple of g, and so is its rounding
    let g = a.gran().min(b.gran());
    if g > 0.0 && g.is_finite() && !nan { if let Some(r) = Rc::get_mut(&mut f) { r.q = g; } }
    f
}
pub fn narrowed(a: &Vw) -> F {
    if a.lo == a.f.lo && a.hi == a.f.hi && a.nan == a.f.nan { return a.f.clone(); }
    let mut tm = a.f.tm.clone();
    if a.lo == a.hi { tm = Some(TM::cst(a.lo, 0.0)); }
    if a.has_inf() || a.empty() { tm = None; }
    Rc::new(FD { lo: a.lo, hi: a.hi, nan: a.nan, zs: if a.has0() { a.f.zs } else { 0 }, tm, h: a.f.h, neg: a.f.neg, org: a.f.org, q: a.f.q, arg: a.f.arg.clone() })
}
fn is_p2(x: f64) -> bool { x.is_normal() && x.to_bits() & 0x000f_ffff_ffff_ffff == 0 }

pub fn mul(cx: &Ctx, bx: Option<&Bx>, a: &Vw, b: &Vw) -> F {
    let (h1, h2) = if a.f.h <= b.f.h { (a.f.h, b.f.h) } else { (b.f.h, a.f.h) };
    let rn = a.f.neg != b.f.neg;
    let h = mix(11, &[h1, h2]);
    if let (Some(x), Some(y)) = (a.cst_val(), b.cst_val()) { return cst(x * y); }
    for (x, y) in [(a, b), (b, a)] {
        if let Some(c) = x.cst_val() {
            if c == 1.0 { return narrowed(y); }
            if c == -1.0 { return neg(&narrowed(y)); }
        }
    }
    let nan = a.nan || b.nan || (a.has0() && b.has_inf()) || (b.has0() && a.has_inf());
    if a.empty() || b.empty() { return Rc::new(FD { lo: 1.0, hi: 0.0, nan, zs: 0, tm: None, h, neg: rn, org: 0, q: 0.0, arg: None }); }
    let p = |x: f64, y: f64| { let v = x * y; if v.is_nan() { 0.0 } else { v } };
    let c = [p(a.lo, b.lo), p(a.lo, b.hi), p(a.hi, b.lo), p(a.hi, b.hi)];
    let (mut lo, mut hi) = (c[0].min(c[1]).min(c[2].min(c[3])), c[0].max(c[1]).max(c[2].max(c[3])));
    if a.f.h == b.f.h {
        let (m, mm) = (a.minabs(), a.maxabs());
        if !rn { lo = m * m; hi = mm * mm } else { lo = -(mm * mm); hi = -(m * m) }
    }
    let tm = match (a.tm(), b.tm()) {
        (Some(x), Some(y)) => {
            let exact = a.pt() && (is_p2(a.lo) || a.lo == 0.0) || b.pt() && (is_p2(b.lo) || b.lo == 0.0);
            let mut t = x.mul(&y, cx);
            let (l, h) = t.range(cx, bx);
            let m = l.abs().max(h.abs()).min(lo.abs().max(hi.abs()));
            let mn = (if l > 0.0 { l } else if h < 0.0 { -h } else { 0.0 }).max(if lo > 0.0 { lo } else if hi < 0.0 { -hi } else { 0.0 });
            rnd(&mut t, m, mn, exact, false);
            Some(t)
        }
        _ => None,
    };
    fin(cx, bx, lo, hi, nan, sprod(a.signs(), b.signs()), tm, h, rn)
}

/// the signs a product or quotient can have
fn sprod(a: u8, b: u8) -> u8 { (if a & b & 1 != 0 || a & b & 2 != 0 { 1 } else { 0 }) | (if a & 1 != 0 && b & 2 != 0 || a & 2 != 0 && b & 1 != 0 { 2 } else { 0 }) }

pub fn div(cx: &Ctx, bx: Option<&Bx>, a: &Vw, b: &Vw) -> F {
    let rn = a.f.neg != b.f.neg;
    let h = mix(12, &[a.f.h, b.f.h]);
    if let (Some(x), Some(y)) = (a.cst_val(), b.cst_val()) { return cst(x / y); }
    if let Some(c) = b.cst_val() {
        if c == 1.0 { return narrowed(a); }
        if c == -1.0 { return neg(&narrowed(a)); }
    }
    let nan = a.nan || b.nan || (a.has0() && b.has0()) || (a.has_inf() && b.has_inf());
    if a.empty() || b.empty() { return Rc::new(FD { lo: 1.0, hi: 0.0, nan, zs: 0, tm: None, h, neg: rn, org: 0, q: 0.0, arg: None }); }
    if a.f.h == b.f.h && !nan { return cst(if rn { -1.0 } else { 1.0 }); }
    // x / sin x, sin x / x, x / sinh x, sinh x / x: removable singularity at 0
    for (num, den, inv) in [(a, b, false), (b, a, true)] {
        if num.f.org == 0 || num.nan || den.nan || den.has_inf() { continue; }
        let arg = num.f.arg.as_ref().unwrap();
        if arg.h != den.f.h { continue; }
        // sin(-x)/x etc: sign from identity
        let sg = if arg.neg == den.f.neg { 1.0 } else { -1.0 };
        let m = den.maxabs();
        if m >= 3.0 { continue; }
        let Some(t0) = den.tm() else { continue };
        // use the full Taylor model of the argument where it has one
        let Some(mut t) = t0.sinc(if num.f.org == 1 { -1.0 } else { 1.0 }, den.lo, den.hi, cx) else { continue };
        let (l, hh) = t.range(cx, bx);
        if !(l > 0.05) && num.f.org == 1 { continue; }
        let _ = hh;
        // relative errors: libm result and the division (and the subnormal range is excluded below 1e-300)
        if inv == false {
            // num/den = sinc
            let m = t.maxabs();
            t.r += m * (LIBM * 1.6 + U);
        } else {
            let (l, hh) = t.range(cx, bx);
            let Some(mut q) = t.recip(l, hh, cx) else { continue };
            let m = q.maxabs();
            q.r += m * (LIBM * 1.6 + U);
            t = q;
        }
        if sg < 0.0 { t = t.neg(); }
        let (l, hh) = t.range(cx, bx);
        return fin(cx, bx, l, hh, false, 0, Some(t), h, rn);
    }
    let (lo, hi);
    if b.has0() {
        // one-sided or two-sided pole
        if a.has0() && !(a.lo == 0.0 && a.hi == 0.0) || (b.lo < 0.0 && b.hi > 0.0) || a.lo < 0.0 && a.hi > 0.0 { lo = f64::NEG_INFINITY; hi = f64::INFINITY; }
        else if a.lo == 0.0 && a.hi == 0.0 { lo = 0.0; hi = 0.0; }
        else {
            // sign of zero matters: if the zero may have either sign both infinities are possible
            let zs = b.zs();
            let posb = b.hi > 0.0 || zs & 1 != 0;
            let negb = b.lo < 0.0 || zs & 2 != 0;
            if posb && negb { lo = f64::NEG_INFINITY; hi = f64::INFINITY; }
            else {
                let pos = (a.lo > 0.0) == posb;
                let mb = b.maxabs();
                let small = if mb == 0.0 { f64::INFINITY } else { a.minabs() / mb };
                if pos { lo = small; hi = f64::INFINITY; } else { lo = f64::NEG_INFINITY; hi = -small; }
            }
        }
    } else {
        let p = |x: f64, y: f64| { let v = x / y; if v.is_nan() { 0.0 } else { v } };
        let c = [p(a.lo, b.lo), p(a.lo, b.hi), p(a.hi, b.lo), p(a.hi, b.hi)];
        let mut l = c[0].min(c[1]).min(c[2].min(c[3]));
        let mut hh = c[0].max(c[1]).max(c[2].max(c[3]));
        if a.has_inf() && b.has_inf() { l = l.min(0.0); hh = hh.max(0.0); if a.lo < 0.0 && a.hi > 0.0 { l = f64::NEG_INFINITY; hh = f64::INFINITY; } }
        lo = l; hi = hh;
    }
    let tm = match (a.tm(), b.tm()) {
        (Some(x), Some(y)) if !b.has0() => {
            let q = if b.pt() && is_p2(b.lo) && (1.0 / b.lo).is_normal() { Some(x.scale(1.0 / b.lo)) }
                else if b.pt() { let i = 1.0 / b.lo; if i.is_normal() { let mut t = x.scale(i); t.r += t.maxabs() * U; Some(t) } else { None } }
                else { let (l, hh) = y.range(cx, bx); y.recip(l.max(b.lo), hh.min(b.hi), cx).map(|r| x.mul(&r, cx)) };
            q.map(|mut t| {
                let (l, h) = t.range(cx, bx);
                let m = l.abs().max(h.abs()).min(lo.abs().max(hi.abs()));
                let mn = if lo > 0.0 { lo } else if hi < 0.0 { -hi } else { 0.0 };
                rnd(&mut t, m, mn, b.pt() && is_p2(b.lo), false);
                t
            })
        }
        _ => None,
    };
    fin(cx, bx, lo, hi, nan, sprod(a.signs(), b.signs()), tm, h, rn)
}
pub fn abs_known(a: &Vw) -> Option<F> {
    if a.lo >= 0.0 && (a.lo > 0.0 || a.zs() & 2 == 0) { return Some(narrowed(a)); }
    if a.hi <= 0.0 && (a.hi < 0.0 || a.zs() & 1 == 0) { return Some(neg(&narrowed(a))); }
    None
}

/// elementary functions. kind: "sqrt","exp","log","sin","cos","sinh","cosh", ...
pub fn unary(cx: &Ctx, bx: Option<&Bx>, kind: &str, a: &Vw) -> F {
    let odd = matches!(kind, "sin" | "sinh" | "tan" | "tanh" | "atan" | "asinh" | "cbrt" | "expm1x");
    let even = matches!(kind, "cos" | "cosh");
    let kh = kind.bytes().fold(1469598103934665603u64, |h, b| (h ^ b as u64).wrapping_mul(1099511628211));
    let h = mix(13, &[kh as u128, a.f.h, (!odd && !even && a.f.neg) as u128]);
    let rn = odd && a.f.neg;
    let mk = |lo: f64, hi: f64, nan: bool, tm: Option<TM>| -> F { fin(cx, bx, lo, hi, nan, 0, tm, h, rn) };
    if a.empty() { return Rc::new(FD { lo: 1.0, hi: 0.0, nan: true, zs: 0, tm: None, h, neg: rn, org: 0, q: 0.0, arg: None }); }
    if let Some(c) = a.cst_val() {
        match (kind, c) {
            ("sqrt", c) => return cst(c.sqrt()),
            ("exp", c) if c == 0.0 => return cst(1.0),
            ("exp", c) if c == f64::INFINITY => return cst(f64::INFINITY),
            ("exp", c) if c < -746.0 => return cst(0.0),
            ("exp", c) if c > 710.0 => return cst(f64::INFINITY),
            ("log", c) if c == 1.0 => return cst(0.0),
            ("log", c) if c == 0.0 => return cst(f64::NEG_INFINITY),
            ("log", c) if c < 0.0 => return cst(f64::NAN),
            ("log", c) if c == f64::INFINITY => return cst(c),
            ("cos", c) | ("cosh", c) if c == 0.0 => return cst(1.0),
            ("sin", c) | ("sinh", c) | ("tan", c) | ("tanh", c) | ("expm1", c) | ("log1p", c) if c == 0.0 => return cst(c),
            _ => {}
        }
    }
    let tmr = |t: &TM| { let (l, h) = t.range(cx, bx); (l.max(a.lo), h.min(a.hi)) };
    let er = |mut t: TM, k: f64| { let (l, h) = t.range(cx, bx); t.r += l.abs().max(h.abs()) * k; t };
    let at = a.tm();
    match kind {
        "sqrt" => {
            let nan = a.nan || a.lo < 0.0;
            if a.hi < 0.0 { return Rc::new(FD { lo: 1.0, hi: 0.0, nan: true, zs: 0, tm: None, h, neg: rn, org: 0, q: 0.0, arg: None }); }
            let l = a.lo.max(0.0);
            let tm = at.and_then(|t| { let (x, y) = tmr(&t); t.sqrt(x, y, cx) }).map(|t| er(t, U));
            mk(l.sqrt(), a.hi.sqrt(), nan, if a.lo > 0.0 { tm } else { None })
        }
        "exp" => {
            let lo = if a.lo < -745.2 { 0.0 } else { (a.lo.exp() * (1.0 - 2.0 * LIBM) - TINY).max(0.0) };
            let hi = if a.hi > 709.78 { f64::INFINITY } else { a.hi.exp() * (1.0 + 2.0 * LIBM) + TINY };
            let tm = at.and_then(|t| { let (x, y) = tmr(&t); t.exp(x, y, cx) }).map(|t| { let mut t = er(t, LIBM); t.r += TINY; t });
            let f = mk(lo, hi, a.nan, tm);
            if f.lo < 0.0 { Rc::new(FD { lo: 0.0, hi: f.hi, nan: f.nan, zs: 1, tm: f.tm.clone(), h, neg: rn, org: 0, q: 0.0, arg: None }) } else { f }
        }
        "log" | "log2" | "log10" | "log1p" => {
            let (l0, h0) = if kind == "log1p" { (a.lo + 1.0, a.hi + 1.0) } else { (a.lo, a.hi) };
            let nan = a.nan || l0 < 0.0;
            if h0 < 0.0 { return Rc::new(FD { lo: 1.0, hi: 0.0, nan: true, zs: 0, tm: None, h, neg: rn, org: 0, q: 0.0, arg: None }); }
            let k = match kind { "log2" => std::f64::consts::LOG2_E, "log10" => std::f64::consts::LOG10_E, _ => 1.0 };
            let g = |x: f64| -> f64 { if kind == "log1p" { x.ln_1p() } else { x.ln() * k } };
            let lo = if l0 <= 0.0 { f64::NEG_INFINITY } else { let v = g(a.lo); v - v.abs() * 2.0 * LIBM - TINY };
            let hi = if h0 <= 0.0 { f64::NEG_INFINITY } else { let v = g(a.hi); v + v.abs() * 2.0 * LIBM + TINY };
            let tm = at.and_then(|t| { let (x, y) = tmr(&t); if kind == "log1p" { t.addc(1.0).ln(x + 1.0, y + 1.0, cx) } else { t.ln(x, y, cx) } }).map(|t| if k != 1.0 { let mut t = t.scale(k); t.r += t.maxabs() * U; t } else { t }).map(|t| er(t, LIBM));
            mk(lo, hi, nan, if l0 > 0.0 { tm } else { None })
        }
        "sin" | "cos" => {
            let nan = a.nan || a.has_inf();
            let tm = at.and_then(|t| { let (x, y) = tmr(&t); t.trig((kind == "cos") as u8, x, y, cx) }).map(|t| er(t, LIBM));
            let (mut lo, mut hi) = (-1.0, 1.0);
            if kind == "sin" && a.lo >= 0.0 && a.hi <= 3.14 { lo = 0.0; hi = a.hi.min(1.0); }
            if kind == "sin" && a.hi <= 0.0 && a.lo >= -3.14 { hi = 0.0; lo = a.lo.max(-1.0); }
            let f = mk(lo, hi, nan, tm);
            if kind == "sin" { with_org(f, 1, a) } else { f }
        }
        "sinh" | "cosh" => {
            let k = if kind == "sinh" { 2 } else { 3 };
            let tm = at.and_then(|t| { let (x, y) = tmr(&t); t.trig(k, x, y, cx) }).map(|t| er(t, 2.0 * LIBM));
            let (lo, hi) = if k == 2 { (a.lo.sinh(), a.hi.sinh()) } else { (a.minabs().cosh(), a.maxabs().cosh()) };
            let f = mk(lo - lo.abs() * 4.0 * LIBM, hi + hi.abs() * 4.0 * LIBM, a.nan, tm);
            if k == 2 { with_org(f, 2, a) } else { f }
        }
        "expm1" => {
            let tm = at.and_then(|t| { let (x, y) = tmr(&t); t.exp(x, y, cx) }).map(|t| t.addc(-1.0)).map(|t| er(t, LIBM));
            let (l, h_) = (a.lo.exp_m1(), a.hi.exp_m1());
            mk(l - l.abs() * 4.0 * LIBM, h_ + h_.abs() * 4.0 * LIBM, a.nan, tm)
        }
        "exp2" => {
            let at2 = at.map(|t| { let mut t = t.scale(std::f64::consts::LN_2); t.r += t.maxabs() * U; t });
            let tm = at2.and_then(|t| { let (x, y) = t.range(cx, bx); t.exp(x, y, cx) }).map(|t| er(t, LIBM));
            let (l, h_) = (a.lo.exp2(), a.hi.exp2());
            mk(l - l.abs() * 4.0 * LIBM, h_ + h_.abs() * 4.0 * LIBM, a.nan, tm)
        }
        "tanh" => { let (l, h_) = (a.lo.tanh(), a.hi.tanh()); mk(l - 1e-15, h_ + 1e-15, a.nan, None) }
        "atan" => { let (l, h_) = (a.lo.atan(), a.hi.atan()); mk(l - 1e-15, h_ + 1e-15, a.nan, None) }
        _ => { top_id(h) }
    }
}
fn with_org(f: F, o: u8, a: &Vw) -> F {
    Rc::new(FD { lo: f.lo, hi: f.hi, nan: f.nan, zs: f.zs, tm: f.tm.clone(), h: f.h, neg: f.neg, org: o, q: 0.0, arg: Some(a.f.clone()) })
}
pub fn pow(cx: &Ctx, bx: Option<&Bx>, a: &Vw, b: &Vw) -> F {
    let h = mix(14, &[a.f.h, a.f.neg as u128, b.f.h, b.f.neg as u128]);
    if let Some(y) = b.cst_val() { if y == 1.0 { return narrowed(a); } if y == 0.0 { return cst(1.0); } if y == 2.0 { return mul(cx, bx, a, a); } }
    if let Some(x) = a.cst_val() { if x == 1.0 { return cst(1.0); } }
    if a.empty() && !b.has0() && !b.empty() || b.empty() && !(a.lo <= 1.0 && a.hi >= 1.0) || a.empty() && b.empty() { return cst(f64::NAN); }
    if a.empty() || b.empty() || a.lo < 0.0 { return top_id(h); }
    if a.lo == 0.0 && a.hi == 0.0 && b.lo > 0.0 && !b.nan { return cst(0.0); }
    let (mut lo, mut hi) = (0.0, f64::INFINITY);
    if !a.has_inf() && !b.has_inf() {
        if a.lo > 0.0 || b.lo > 0.0 {
            let c = [a.lo.powf(b.lo), a.lo.powf(b.hi), a.hi.powf(b.lo), a.hi.powf(b.hi)];
            let mx = c.iter().cloned().fold(0.0, f64::max);
            let mn = c.iter().cloned().fold(f64::INFINITY, f64::min);
            lo = (mn * (1.0 - 4.0 * LIBM) - TINY).max(0.0);
            hi = mx * (1.0 + 4.0 * LIBM) + TINY;
        }
    }
    let tm = match (a.tm(), b.tm()) {
        (Some(x), Some(y)) if a.lo > 0.0 => {
            let (l, u) = x.range(cx, bx);
            x.ln(l.max(a.lo), u.min(a.hi), cx).map(|t| t.mul(&y, cx)).and_then(|t| { let (l, u) = t.range(cx, bx); t.exp(l, u, cx) }).map(|mut t| { let (l, u) = t.range(cx, bx); t.r += l.abs().max(u.abs()) * LIBM + TINY; t })
        }
        _ => None,
    };
    fin(cx, bx, lo, hi, a.nan || b.nan, 1, tm, h, false)
}
