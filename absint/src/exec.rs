//! The abstract machine: interprets LLVM IR over abstract values, path-sensitively, with merging.
use crate::ll::*;
use crate::tm::*;
use crate::val::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use std::sync::{Arc, Mutex};

// ------------------------------------------------------------------ integers
#[derive(Clone, Debug)]
pub struct I {
    pub w: u32,
    pub ulo: u64,
    pub uhi: u64,
    pub slo: i64,
    pub shi: i64,
    pub uid: u32,
    pub x: IX,
}
#[derive(Clone, Debug)]
pub enum IX {
    None,
    Cond(Rc<Cond>),
    /// bits(f) (or bits(|f|) when strip) plus dk<<52
    Bits { f: F, dk: i64, strip: bool },
}
#[derive(Debug)]
pub enum Cond {
    F(String, F, F),
    I(String, I, I),
    And(Rc<Cond>, Rc<Cond>),
    Or(Rc<Cond>, Rc<Cond>),
    Not(Rc<Cond>),
    Cls(u32, F),
    SignNeg(F),
    /// the floating-point value has a given class of bits; opaque
    Opaque,
}
fn umax(w: u32) -> u64 { if w >= 64 { u64::MAX } else { (1u64 << w) - 1 } }
fn smax(w: u32) -> i64 { if w >= 64 { i64::MAX } else { (1i64 << (w - 1)) - 1 } }
fn smin(w: u32) -> i64 { if w >= 64 { i64::MIN } else { -(1i64 << (w - 1)) } }
impl I {
    pub fn c(w: u32, v: u64) -> I { let v = v & umax(w); let s = sext(v, w); I { w, ulo: v, uhi: v, slo: s, shi: s, uid: 0, x: IX::None } }
    pub fn top(w: u32) -> I { I { w, ulo: 0, uhi: umax(w), slo: smin(w), shi: smax(w), uid: 0, x: IX::None } }
    pub fn urange(w: u32, lo: i128, hi: i128) -> I {
        if lo == hi && lo >= 0 && lo <= umax(w) as i128 { return I::c(w, lo as u64); }
        if lo < 0 || hi > umax(w) as i128 || lo > hi { return I::top(w); }
        I { w, ulo: lo as u64, uhi: hi as u64, slo: smin(w), shi: smax(w), uid: 0, x: IX::None }.norm()
    }
    pub fn srange(w: u32, lo: i128, hi: i128) -> I {
        if lo < smin(w) as i128 || hi > smax(w) as i128 || lo > hi { return I::top(w); }
        I { w, ulo: 0, uhi: umax(w), slo: lo as i64, shi: hi as i64, uid: 0, x: IX::None }.norm()
    }
    fn norm(mut self) -> I {
        let sm = smax(self.w) as u64;
        for _ in 0..2 {
            if self.uhi <= sm { self.slo = self.slo.max(self.ulo as i64); self.shi = self.shi.min(self.uhi as i64); }
            else if self.ulo > sm { self.slo = self.slo.max(sext(self.ulo, self.w)); self.shi = self.shi.min(sext(self.uhi, self.w)); }
            let m = umax(self.w);
            if self.slo >= 0 { self.ulo = self.ulo.max(self.slo as u64); self.uhi = self.uhi.min(self.shi as u64); }
            else if self.shi < 0 { self.ulo = self.ulo.max(self.slo as u64 & m); self.uhi = self.uhi.min(self.shi as u64 & m); }
        }
        self
    }
    pub fn con(&self) -> Option<u64> { if self.ulo == self.uhi { Some(self.ulo) } else { None } }
    fn meet_u(a: I, b: I) -> I {
        let mut r = a;
        r.ulo = r.ulo.max(b.ulo); r.uhi = r.uhi.min(b.uhi); r.slo = r.slo.max(b.slo); r.shi = r.shi.min(b.shi);
        r.norm()
    }
    fn hull(a: &I, b: &I) -> I { I { w: a.w, ulo: a.ulo.min(b.ulo), uhi: a.uhi.max(b.uhi), slo: a.slo.min(b.slo), shi: a.shi.max(b.shi), uid: 0, x: IX::None } }
    fn same(&self, b: &I) -> bool {
        if self.w != b.w { return false; }
        if let (Some(x), Some(y)) = (self.con(), b.con()) { return x == y; }
        if self.uid != 0 && self.uid == b.uid && self.ulo == b.ulo && self.uhi == b.uhi && self.slo == b.slo && self.shi == b.shi { return true; }
        match (&self.x, &b.x) {
            (IX::Bits { f, dk, strip }, IX::Bits { f: g, dk: dl, strip: st }) => f.h == g.h && f.neg == g.neg && dk == dl && strip == st && self.ulo == b.ulo && self.uhi == b.uhi,
            _ => false,
        }
    }
}
#[derive(Clone, Debug)]
pub enum V {
    F(F),
    I(I),
    P(u32, I), // object, offset(i64)
    Agg(Rc<Vec<V>>),
    Undef,
}
pub const NULLOBJ: u32 = 0;
const GBIT: u32 = 0x8000_0000;

#[derive(Clone, Debug, Default)]
pub struct Obj {
    pub cells: BTreeMap<i64, (usize, V)>,
    pub zero: Vec<(i64, i64)>,
    pub size: i64,
}
#[derive(Debug)]
pub struct GObj { pub bytes: Vec<u8>, pub rel: HashMap<i64, (String, i64)>, pub constant: bool }

#[derive(Clone, Debug)]
pub struct St {
    pub bx: Bx,
    pub full: bool,
    pub refn: Vec<(H, f64, f64, bool)>, // narrowed |.|-signless value (sign of identity factored out)
    pub mem: Vec<Option<Rc<Obj>>>,
    pub forked: bool,
    pub facts: Vec<((H, H, bool), u8)>, // orderings already assumed on this path: 1 lt, 2 eq, 4 gt still possible
}
#[derive(Clone, Debug)]
pub enum Out {
    Ret(V),
    Panic(String),
    Unknown(String),
}
#[derive(Clone)]
struct Item {
    blk: usize,
    idx: usize,
    slots: Vec<V>,
    st: St,
    /// undecided float tests per block, for the stopping horizon
    amb: Vec<(usize, u32)>,
}

pub struct Shared {
    pub m: Module,
    pub funcs: Mutex<HashMap<String, Arc<Func>>>,
    pub gobjs: Mutex<HashMap<String, Arc<GObj>>>,
    pub covered: Mutex<std::collections::BTreeSet<String>>,
}
impl Shared {
    pub fn new(m: Module) -> Shared { Shared { m, funcs: Default::default(), gobjs: Default::default(), covered: Default::default() } }
    pub fn func(&self, n: &str) -> Arc<Func> {
        let mut g = self.funcs.lock().unwrap();
        if let Some(f) = g.get(n) { return f.clone(); }
        let f = Arc::new(self.m.parse(n));
        self.covered.lock().unwrap().insert(n.to_string());
        g.insert(n.to_string(), f.clone());
        f
    }
    pub fn gobj(&self, n: &str) -> Option<Arc<GObj>> {
        let mut g = self.gobjs.lock().unwrap();
        if let Some(f) = g.get(n) { return Some(f.clone()); }
        let (ty, op, constant) = self.m.global_init(n)?;
        let mut o = GObj { bytes: vec![0; ty.size()], rel: HashMap::new(), constant };
        fn put(o: &mut GObj, off: usize, ty: &Ty, op: &Op) {
            match op {
                Op::CI(_, v) => { let s = ty.size(); for k in 0..s.min(8) { if off + k < o.bytes.len() { o.bytes[off + k] = (v >> (8 * k)) as u8; } } }
                Op::CF(f) => { let b = f.to_bits().to_le_bytes(); for k in 0..8 { o.bytes[off + k] = b[k]; } }
                Op::IntPtr(v) => { for k in 0..8 { o.bytes[off + k] = (v >> (8 * k)) as u8; } }
                Op::Global(g, x) => { o.rel.insert(off as i64, (g.clone(), *x)); }
                Op::Agg(v) => {
                    for (i, (t, x)) in v.iter().enumerate() {
                        let (fo, _) = ty.field_off(i);
                        put(o, off + fo, t, x);
                    }
                }
                _ => {}
            }
        }
        put(&mut o, 0, &ty, &op);
        let a = Arc::new(o);
        g.insert(n.to_string(), a.clone());
        Some(a)
    }
}

pub struct Eng<'a> {
    pub sh: &'a Shared,
    pub cx: &'a Ctx,
    pub steps: u64,
    pub maxsteps: u64,
    pub maxstates: usize,
    uid: u32,
    gnames: RefCell<Vec<String>>,
    gmap: RefCell<HashMap<String, u32>>,
    gcache: RefCell<HashMap<u32, Option<Arc<GObj>>>>,
    pub trace: bool,
    fcache: HashMap<String, Arc<Func>>,
    pub merge_tol: f64,
    /// how often a float test that leaves a loop may stay undecided before it is taken to leave
    pub horizon: u32,
    /// spare Taylor variable that stands for the remainder of a loop-carried value
    pub fresh: Option<usize>,
    encl: u32,
    promf: bool,
    pub cutoffs: std::collections::BTreeSet<String>,
}
type Fork = Vec<(bool, Item)>;

impl<'a> Eng<'a> {
    pub fn new(sh: &'a Shared, cx: &'a Ctx, maxsteps: u64) -> Self {
        Eng { sh, cx, steps: 0, maxsteps, maxstates: 48, uid: 1, gnames: Default::default(), gmap: Default::default(), gcache: Default::default(), trace: false, fcache: HashMap::new(), merge_tol: 2e-14, horizon: 40, fresh: None, encl: 0, promf: false, cutoffs: Default::default() }
    }
    fn nuid(&mut self) -> u32 { self.uid += 1; self.uid }
    fn gid(&self, n: &str) -> u32 {
        if let Some(&i) = self.gmap.borrow().get(n) { return i; }
        let i = self.gnames.borrow().len() as u32 | GBIT;
        self.gnames.borrow_mut().push(n.to_string());
        self.gmap.borrow_mut().insert(n.to_string(), i);
        i
    }
    fn gget(&self, id: u32) -> Option<Arc<GObj>> {
        if let Some(x) = self.gcache.borrow().get(&id) { return x.clone(); }
        let n = self.gnames.borrow()[(id & !GBIT) as usize].clone();
        let o = self.sh.gobj(self.sh.m.resolve(&n));
        self.gcache.borrow_mut().insert(id, o.clone());
        o
    }
    fn bx<'b>(&self, st: &'b St) -> Option<&'b Bx> { if st.full { None } else { Some(&st.bx) } }

    pub fn view(&self, f: &F, st: &St) -> Vw {
        let (mut lo, mut hi, mut nan) = (f.lo, f.hi, f.nan);
        if !st.full { if let Some(t) = &f.tm { if t.c.len() > 1 { let (a, b) = t.range(self.cx, Some(&st.bx)); if a > lo { lo = a; } if b < hi { hi = b; } } } }
        for (h, l, u, n) in &st.refn {
            if *h == f.h {
                let (l, u) = if f.neg { (-u, -l) } else { (*l, *u) };
                if !(lo >= l) { lo = l; }
                if !(hi <= u) { hi = u; }
                nan = nan && *n;
            }
        }
        Vw { lo, hi, nan, f: f.clone() }
    }
    fn refine(&self, st: &mut St, f: &F, lo: f64, hi: f64, nan: bool) {
        let (l, u) = if f.neg { (-hi, -lo) } else { (lo, hi) };
        for e in st.refn.iter_mut() {
            if e.0 == f.h { if l > e.1 || !(e.1 <= e.2) { e.1 = e.1.max(l); } if u < e.2 { e.2 = u; } if !(l <= u) { e.1 = 1.0; e.2 = 0.0; } e.3 = e.3 && nan; return; }
        }
        if st.refn.len() >= 48 { st.refn.remove(0); }
        st.refn.push((f.h, l, u, nan));
    }
    /// contract the cell box with  t + [-r,r] <= 0 ; false if infeasible
    fn contract(&self, st: &mut St, t: &TM) -> bool {
        let mut bx = st.bx;
        let before = bx;
        for _pass in 0..3 {
            for v in 0..self.cx.n {
                let Some(li) = (1..=self.cx.n).find(|&k| self.cx.exps[k][v] == 1) else { continue };
                if li >= t.c.len() { continue; }
                // re-centred slope: d/dt_v at box centre dominates on narrow boxes; use the linear coefficient of the polynomial
                // shifted to the box centre when the box is not full.
                let mut rest = t.clone();
                let cen: Vec<f64> = (0..self.cx.n).map(|k| 0.5 * (bx[k].0 + bx[k].1)).collect();
                let rad: Vec<f64> = (0..self.cx.n).map(|k| 0.5 * (bx[k].1 - bx[k].0) * (1.0 + 1e-12)).collect();
                let isfull = bx.iter().take(self.cx.n).all(|b| *b == (-1.0, 1.0));
                let s = if isfull { rest.clone() } else { rest = t.shift(self.cx, &cen, &rad); rest.clone() };
                let c = s.c[li];
                let (lo_all, _) = s.range(self.cx, None);
                if lo_all > 0.0 { return false; }
                if c == 0.0 || !c.is_finite() { continue; }
                rest.c[li] = 0.0;
                let (lo, _) = rest.range(self.cx, None);
                // c * s_v <= -lo
                let lim = -lo / c;
                let (mut a, mut b) = (-1.0f64, 1.0f64);
                if c > 0.0 { b = b.min(lim + lim.abs() * 1e-12 + 1e-15); } else { a = a.max(lim - lim.abs() * 1e-12 - 1e-15); }
                if a > b { return false; }
                let (na, nb) = if isfull { (a, b) } else { (cen[v] + rad[v] * a, cen[v] + rad[v] * b) };
                bx[v] = (na.max(bx[v].0), nb.min(bx[v].1));
                if bx[v].0 > bx[v].1 { return false; }
            }
        }
        if bx != before { st.bx = bx; st.full = bx.iter().take(self.cx.n).all(|b| *b == (-1.0, 1.0)); }
        true
    }
    /// assume `a rel b` for non-NaN a, b; rel in lt le gt ge eq ne
    fn assume_rel(&self, st: &mut St, rel: &str, a: &F, b: &F) -> bool {
        match rel {
            "gt" => return self.assume_rel(st, "lt", b, a),
            "ge" => return self.assume_rel(st, "le", b, a),
            _ => {}
        }
        if !(a.is_cst() && b.is_cst()) {
            let (k, flip) = fkey(a, b);
            let m = flip3(match rel { "lt" => 1, "le" => 3, "eq" => 2, _ => 5 }, flip);
            if let Some(e) = st.facts.iter_mut().find(|e| e.0 == k) { e.1 &= m; if e.1 == 0 { return false; } } else { if st.facts.len() >= 48 { st.facts.remove(0); } st.facts.push((k, m)); }
        }
        let (va, vb) = (self.view(a, st), self.view(b, st));
        if va.empty() || vb.empty() { return false; }
        match rel {
            "lt" | "le" => {
                let strict = rel == "lt";
                let mut ahi = va.hi.min(vb.hi);
                let mut blo = vb.lo.max(va.lo);
                if strict { if ahi == vb.hi { ahi = if ahi == f64::INFINITY { f64::MAX } else { ahi.next_down() }; ahi = ahi.min(va.hi); } if blo == va.lo { blo = if blo == f64::NEG_INFINITY { -f64::MAX } else { blo.next_up() }; blo = blo.max(vb.lo); } }
                // +0/-0 compare equal: next_down(0) is a negative subnormal, which is right for a strict bound
                if va.lo > ahi || blo > vb.hi { return false; }
                self.refine(st, a, va.lo, ahi, false);
                self.refine(st, b, blo, vb.hi, false);
                if let (Some(x), Some(y)) = (va.tm(), vb.tm()) { let d = x.sub(&y); if !self.contract(st, &d) { return false; } }
                true
            }
            "eq" => {
                let (lo, hi) = (va.lo.max(vb.lo), va.hi.min(vb.hi));
                if lo > hi { return false; }
                self.refine(st, a, lo, hi, false);
                self.refine(st, b, lo, hi, false);
                if let (Some(x), Some(y)) = (va.tm(), vb.tm()) { let d = x.sub(&y); if !self.contract(st, &d) { return false; } if !self.contract(st, &d.neg()) { return false; } }
                true
            }
            _ => {
                if va.pt() && vb.pt() && va.lo == vb.lo { return false; }
                if vb.pt() { let c = vb.lo; if va.lo == c && va.hi > c { self.refine(st, a, c.next_up(), va.hi, false); } else if va.hi == c && va.lo < c { self.refine(st, a, va.lo, c.next_down(), false); } else { self.refine(st, a, va.lo, va.hi, false); } }
                if va.pt() { let c = va.lo; if vb.lo == c && vb.hi > c { self.refine(st, b, c.next_up(), vb.hi, false); } else if vb.hi == c && vb.lo < c { self.refine(st, b, vb.lo, c.next_down(), false); } }
                true
            }
        }
    }
    /// possible relations of a vs b: (lt, eq, gt)
    fn rels(&self, st: &St, va: &Vw, vb: &Vw) -> (bool, bool, bool) {
        if va.empty() || vb.empty() { return (false, false, false); }
        if va.f.h == vb.f.h && va.f.neg == vb.f.neg { return (false, true, false); }
        let (mut lt, mut gt) = (va.lo < vb.hi, va.hi > vb.lo);
        let mut eq = va.lo <= vb.hi && vb.lo <= va.hi;
        if (lt && gt) || (eq && (lt || gt)) {
            if let (Some(x), Some(y)) = (va.tm(), vb.tm()) {
                let (l, h) = x.sub(&y).range(self.cx, self.bx(st));
                if l >= 0.0 { lt = false; }
                if h <= 0.0 { gt = false; }
                if l > 0.0 || h < 0.0 { eq = false; }
            }
        }
        if !lt && !gt && !eq { eq = true; }
        if !st.facts.is_empty() && lt as u8 + eq as u8 + gt as u8 > 1 {
            let (k, flip) = fkey(&va.f, &vb.f);
            if let Some(e) = st.facts.iter().find(|e| e.0 == k) {
                let m = flip3(e.1, flip);
                let r = (lt && m & 1 != 0, eq && m & 2 != 0, gt && m & 4 != 0);
                if r != (false, false, false) { return r; }
            }
        }
        (lt, eq, gt)
    }
    fn fcmp(&self, st: &St, p: &str, a: &F, b: &F) -> Option<bool> {
        let (va, vb) = (self.view(a, st), self.view(b, st));
        let nan = va.nan || vb.nan;
        let (lt, eq, gt) = self.rels(st, &va, &vb);
        let some = lt || eq || gt;
        if p == "true" { return Some(true); }
        if p == "false" { return Some(false); }
        if p == "ord" { return if !nan { Some(true) } else if !some { Some(false) } else { None }; }
        if p == "uno" { return if !nan { Some(false) } else if !some { Some(true) } else { None }; }
        let (u, rel) = (p.starts_with('u'), &p[1..]);
        let (mut t, mut f) = match rel {
            "lt" => (lt, eq || gt), "le" => (lt || eq, gt), "gt" => (gt, lt || eq), "ge" => (gt || eq, lt), "eq" => (eq, lt || gt), _ => (lt || gt, eq),
        };
        if nan { if u { t = true } else { f = true } }
        match (t, f) { (true, false) => Some(true), (false, true) => Some(false), (false, false) => Some(false), _ => None }
    }
    fn icmp(&self, p: &str, a: &I, b: &I) -> Option<bool> {
        let u = |x: bool, y: bool| if x { Some(true) } else if y { Some(false) } else { None };
        match p {
            "eq" | "ne" => {
                let r = if let (Some(x), Some(y)) = (a.con(), b.con()) { Some(x == y) } else if a.uhi < b.ulo || a.ulo > b.uhi || a.shi < b.slo || a.slo > b.shi { Some(false) } else if a.uid != 0 && a.uid == b.uid { Some(true) } else { None };
                if p == "eq" { r } else { r.map(|x| !x) }
            }
            "ult" => u(a.uhi < b.ulo, a.ulo >= b.uhi),
            "ule" => u(a.uhi <= b.ulo, a.ulo > b.uhi),
            "ugt" => u(a.ulo > b.uhi, a.uhi <= b.ulo),
            "uge" => u(a.ulo >= b.uhi, a.uhi < b.ulo),
            "slt" => u(a.shi < b.slo, a.slo >= b.shi),
            "sle" => u(a.shi <= b.slo, a.slo > b.shi),
            "sgt" => u(a.slo > b.shi, a.shi <= b.slo),
            "sge" => u(a.slo >= b.shi, a.shi < b.slo),
            _ => None,
        }
    }
    fn eval_cond(&self, st: &St, c: &Cond) -> Option<bool> {
        match c {
            Cond::F(p, a, b) => self.fcmp(st, p, a, b),
            Cond::I(p, a, b) => self.icmp(p, a, b),
            Cond::Not(a) => self.eval_cond(st, a).map(|x| !x),
            Cond::And(a, b) => match (self.eval_cond(st, a), self.eval_cond(st, b)) { (Some(false), _) | (_, Some(false)) => Some(false), (Some(true), Some(true)) => Some(true), _ => None },
            Cond::Or(a, b) => match (self.eval_cond(st, a), self.eval_cond(st, b)) { (Some(true), _) | (_, Some(true)) => Some(true), (Some(false), Some(false)) => Some(false), _ => None },
            Cond::Cls(m, f) => {
                let p = self.classes(st, f);
                if p & !m == 0 { Some(true) } else if p & m == 0 { Some(false) } else { None }
            }
            Cond::SignNeg(f) => {
                let v = self.view(f, st);
                if v.nan { return None; }
                if v.lo > 0.0 || (v.lo == 0.0 && v.zs() & 2 == 0) { Some(false) } else if v.hi < 0.0 || (v.hi == 0.0 && v.zs() & 1 == 0) { Some(true) } else { None }
            }
            Cond::Opaque => None,
        }
    }
    /// llvm.is.fpclass mask of possible classes
    fn classes(&self, st: &St, f: &F) -> u32 {
        let v = self.view(f, st);
        let mut m = 0;
        if v.nan { m |= 3; }
        if v.empty() { return m; }
        if v.lo == f64::NEG_INFINITY { m |= 4; }
        if v.lo <= -MINN && v.hi > f64::NEG_INFINITY { m |= 8; }
        if v.lo < 0.0 && v.hi > -MINN { m |= 16; }
        if v.has0() { let z = v.zs(); if z & 2 != 0 { m |= 32; } if z & 1 != 0 { m |= 64; } }
        if v.hi > 0.0 && v.lo < MINN { m |= 128; }
        if v.hi >= MINN && v.lo < f64::INFINITY { m |= 256; }
        if v.hi == f64::INFINITY { m |= 512; }
        m
    }
    fn fork(&mut self, it: Item, c: &Cond) -> Fork {
        if let Some(b) = self.eval_cond(&it.st, c) { return vec![(b, it)]; }
        match c {
            Cond::Not(a) => self.fork(it, a).into_iter().map(|(b, i)| (!b, i)).collect(),
            Cond::And(a, b) => {
                let mut out = vec![];
                for (v, i) in self.fork(it, a) { if v { out.extend(self.fork(i, b)); } else { out.push((false, i)); } }
                out
            }
            Cond::Or(a, b) => {
                let mut out = vec![];
                for (v, i) in self.fork(it, a) { if !v { out.extend(self.fork(i, b)); } else { out.push((true, i)); } }
                out
            }
            Cond::F(p, a, b) => {
                let mut out = vec![];
                let (va, vb) = (self.view(a, &it.st), self.view(b, &it.st));
                let nan = va.nan || vb.nan;
                if p == "ord" || p == "uno" || nan {
                    // NaN path
                    let mut i = it.clone();
                    i.st.forked = true;
                    if va.nan && !vb.nan { self.refine(&mut i.st, a, 1.0, 0.0, true); }
                    if vb.nan && !va.nan { self.refine(&mut i.st, b, 1.0, 0.0, true); }
                    if a.h == b.h && va.nan { self.refine(&mut i.st, a, 1.0, 0.0, true); }
                    let val = p.starts_with('u') || p == "true";
                    out.push((val, i));
                }
                if !va.empty() && !vb.empty() {
                    let mut base = it;
                    base.st.forked = true;
                    if nan { self.refine(&mut base.st, a, va.lo, va.hi, false); self.refine(&mut base.st, b, vb.lo, vb.hi, false); }
                    if p == "ord" { out.push((true, base)); return out; }
                    if p == "uno" { out.push((false, base)); return out; }
                    let rel = &p[1..];
                    let nrel = match rel { "lt" => "ge", "le" => "gt", "gt" => "le", "ge" => "lt", "eq" => "ne", _ => "eq" };
                    let (lt, eq, gt) = self.rels(&base.st, &va, &vb);
                    let (t, f) = match rel { "lt" => (lt, eq || gt), "le" => (lt || eq, gt), "gt" => (gt, lt || eq), "ge" => (gt || eq, lt), "eq" => (eq, lt || gt), _ => (lt || gt, eq) };
                    for (feas, truth, r) in [(t, true, rel), (f, false, nrel)] {
                        if !feas { continue; }
                        // `x != 0` with x on both sides of zero: one state per sign
                        let both = r == "ne" && lt && gt && vb.pt() && vb.lo == 0.0;
                        for q in if both { vec!["lt", "gt"] } else { vec![r] } { let mut i = base.clone(); if self.assume_rel(&mut i.st, q, a, b) { out.push((truth, i)); } }
                    }
                }
                out
            }
            Cond::I(p, a, b) => {
                let np = match p.as_str() { "eq" => "ne", "ne" => "eq", "ult" => "uge", "uge" => "ult", "ule" => "ugt", "ugt" => "ule", "slt" => "sge", "sge" => "slt", "sle" => "sgt", _ => "sle" };
                let mut out = vec![];
                for (val, q) in [(true, p.as_str()), (false, np)] {
                    let mut i = it.clone();
                    i.st.forked = true;
                    if self.assume_int(&mut i, q, a, b) { out.push((val, i)); }
                }
                out
            }
            Cond::Cls(m, f) => {
                // split by NaN / infinities / sign classes as far as needed
                let mut out = vec![];
                let cl = self.classes(&it.st, f);
                let v = self.view(f, &it.st);
                let groups: [(u32, f64, f64, bool); 6] = [(3, 1.0, 0.0, true), (4, f64::NEG_INFINITY, f64::NEG_INFINITY, false), (8 | 16, -f64::MAX, -TINY, false), (32 | 64, 0.0, 0.0, false), (128 | 256, TINY, f64::MAX, false), (512, f64::INFINITY, f64::INFINITY, false)];
                // merge the groups that decide the same way when adjacent groups are all-in or all-out
                let part: Vec<(u32, f64, f64, bool)> = groups.iter().filter(|g| cl & g.0 != 0).cloned().collect();
                for want in [true, false] {
                    let sel: Vec<_> = part.iter().filter(|g| { let c = cl & g.0; if want { c & m != 0 } else { c & !m != 0 } }).collect();
                    if sel.is_empty() { continue; }
                    let nan = sel.iter().any(|g| g.3);
                    // a hole at zero: one state per sign
                    let hole = !sel.iter().any(|g| g.0 & 96 != 0) && sel.iter().any(|g| g.0 & 28 != 0) && sel.iter().any(|g| g.0 & 896 != 0);
                    for side in 0..if hole { 2 } else { 1 } {
                        let mut i = it.clone();
                        i.st.forked = true;
                        let part: Vec<_> = sel.iter().filter(|g| !g.3 && (!hole || (g.0 & 28 != 0) == (side == 0))).collect();
                        let lo = part.iter().map(|g| g.1).fold(f64::INFINITY, f64::min);
                        let hi = part.iter().map(|g| g.2).fold(f64::NEG_INFINITY, f64::max);
                        let nan = nan && side == 0;
                        if lo > hi { self.refine(&mut i.st, f, 1.0, 0.0, nan); } else { self.refine(&mut i.st, f, lo.max(v.lo), hi.min(v.hi), nan); }
                        out.push((want, i));
                    }
                }
                out
            }
            Cond::SignNeg(f) => {
                let v = self.view(f, &it.st);
                let mut out = vec![];
                let z = cst(0.0);
                if v.nan { for val in [true, false] { let mut i = it.clone(); i.st.forked = true; self.refine(&mut i.st, f, 1.0, 0.0, true); out.push((val, i)); } }
                if !v.empty() {
                    let mut base = it;
                    base.st.forked = true;
                    self.refine(&mut base.st, f, v.lo, v.hi, false);
                    let mut i = base.clone();
                    if self.assume_rel(&mut i.st, if v.zs() & 2 != 0 { "le" } else { "lt" }, f, &z) { out.push((true, i)); }
                    let mut i = base;
                    if self.assume_rel(&mut i.st, if v.zs() & 1 != 0 { "ge" } else { "gt" }, f, &z) { out.push((false, i)); }
                }
                out
            }
            Cond::Opaque => { let mut i = it.clone(); i.st.forked = true; let mut j = it; j.st.forked = true; vec![(true, i), (false, j)] }
        }
    }
    fn assume_int(&mut self, it: &mut Item, p: &str, a: &I, b: &I) -> bool {
        let (mut x, mut y) = (a.clone(), b.clone());
        match p {
            "eq" => { let m = I { w: x.w, ulo: x.ulo.max(y.ulo), uhi: x.uhi.min(y.uhi), slo: x.slo.max(y.slo), shi: x.shi.min(y.shi), uid: 0, x: IX::None }; if m.ulo > m.uhi || m.slo > m.shi { return false; } x = m.clone(); y = m; }
            "ne" => {
                if let Some(c) = y.con() { if x.con() == Some(c) { return false; } if x.ulo == c && x.ulo < x.uhi { x.ulo += 1; } if x.uhi == c && x.uhi > x.ulo { x.uhi -= 1; } let s = sext(c, y.w); if x.slo == s && x.slo < x.shi { x.slo += 1; } if x.shi == s && x.slo < x.shi { x.shi -= 1; } }
            }
            "ult" => { if y.uhi == 0 || x.ulo == u64::MAX { return false; } x.uhi = x.uhi.min(y.uhi - 1); y.ulo = y.ulo.max(x.ulo + 1); }
            "ule" => { x.uhi = x.uhi.min(y.uhi); y.ulo = y.ulo.max(x.ulo); }
            "ugt" => return self.assume_int(it, "ult", b, a),
            "uge" => return self.assume_int(it, "ule", b, a),
            "slt" => { if y.shi == smin(y.w) || x.slo == i64::MAX { return false; } x.shi = x.shi.min(y.shi - 1); y.slo = y.slo.max(x.slo + 1); }
            "sle" => { x.shi = x.shi.min(y.shi); y.slo = y.slo.max(x.slo); }
            "sgt" => return self.assume_int(it, "slt", b, a),
            "sge" => return self.assume_int(it, "sle", b, a),
            _ => {}
        }
        if x.ulo > x.uhi || x.slo > x.shi || y.ulo > y.uhi || y.slo > y.shi { return false; }
        let (x, y) = (x.norm(), y.norm());
        if x.ulo > x.uhi || x.slo > x.shi || y.ulo > y.uhi || y.slo > y.shi { return false; }
        for (o, n) in [(a, &x), (b, &y)] {
            if o.uid == 0 { continue; }
            for s in it.slots.iter_mut() {
                match s {
                    V::I(i) if i.uid == o.uid => { i.ulo = n.ulo; i.uhi = n.uhi; i.slo = n.slo; i.shi = n.shi; }
                    _ => {}
                }
            }
        }
        true
    }

    // ---------------------------------------------------------------- operands & memory
    fn val(&self, o: &Op, ty: &Ty, it: &Item) -> V {
        match o {
            Op::Slot(s) => it.slots[*s].clone(),
            Op::CI(w, v) => V::I(I::c(*w, *v)),
            Op::CF(f) => V::F(cst(*f)),
            Op::Null => V::P(NULLOBJ, I::c(64, 0)),
            Op::IntPtr(v) => V::P(NULLOBJ, I::c(64, *v)),
            Op::Global(g, off) => V::P(self.gid(g), I::c(64, *off as u64)),
            Op::Zero => zero(ty),
            Op::Agg(v) => V::Agg(Rc::new(v.iter().map(|(t, x)| self.val(x, t, it)).collect())),
            Op::Undef | Op::Meta => V::Undef,
        }
    }
    fn fval(&self, o: &Op, it: &Item) -> F { match self.val(o, &Ty::F64, it) { V::F(f) => f, _ => top() } }
    fn ival(&self, o: &Op, w: u32, it: &Item) -> I { match self.val(o, &Ty::Int(w), it) { V::I(i) => i, V::P(o, i) if o == NULLOBJ => i, _ => I::top(w) } }

    fn load(&self, st: &St, obj: u32, off: i64, ty: &Ty) -> V {
        if let Ty::Struct(fs, _) = ty {
            return V::Agg(Rc::new(fs.iter().enumerate().map(|(k, t)| self.load(st, obj, off + ty.field_off(k).0 as i64, t)).collect()));
        }
        if let Ty::Arr(n, t) = ty { return V::Agg(Rc::new((0..*n).map(|k| self.load(st, obj, off + (k * t.size()) as i64, t)).collect())); }
        let sz = ty.size();
        if obj & GBIT != 0 {
            let Some(g) = self.gget(obj) else { return untop(ty) };
            if !g.constant { return untop(ty); }
            if let Some((n, o)) = g.rel.get(&off) { return V::P(self.gid(n), I::c(64, *o as u64)); }
            if off < 0 || off as usize + sz > g.bytes.len() { return V::Undef; }
            let mut v = 0u64;
            for k in 0..sz.min(8) { v |= (g.bytes[off as usize + k] as u64) << (8 * k); }
            return match ty { Ty::F64 => V::F(cst(f64::from_bits(v))), Ty::Int(w) => V::I(I::c(*w, v)), Ty::Ptr => V::P(NULLOBJ, I::c(64, v)), _ => untop(ty) };
        }
        let Some(Some(o)) = st.mem.get(obj as usize) else { return untop(ty) };
        if let Some((s, v)) = o.cells.get(&off) {
            if *s == sz { return recast(v.clone(), ty); }
            if let V::I(i) = v { if let (Some(c), Ty::Int(w)) = (i.con(), ty) { if sz < *s { return V::I(I::c(*w, c)); } } }
        }
        // assemble from bytes
        let mut v = 0u64;
        let mut ok = sz <= 8;
        for k in 0..sz as i64 {
            let p = off + k;
            let hit = o.cells.range(..=p).next_back().filter(|(b, (s, _))| p < **b + *s as i64);
            match hit {
                Some((b, (_, V::I(i)))) if i.con().is_some() => v |= ((i.con().unwrap() >> (8 * (p - b))) & 255) << (8 * k),
                Some((b, (_, V::F(f)))) if f.is_cst() => v |= ((f.cval().to_bits() >> (8 * (p - b))) & 255) << (8 * k),
                None if o.zero.iter().any(|(a, e)| p >= *a && p < *e) => {}
                _ => { ok = false; break; }
            }
        }
        if ok { match ty { Ty::F64 => V::F(cst(f64::from_bits(v))), Ty::Int(w) => V::I(I::c(*w, v)), Ty::Ptr => V::P(NULLOBJ, I::c(64, v)), _ => untop(ty) } } else { untop(ty) }
    }
    fn store(&self, st: &mut St, obj: u32, off: i64, ty: &Ty, v: V) {
        if let (Ty::Struct(..) | Ty::Arr(..), V::Agg(vs)) = (ty, &v) {
            for (k, x) in vs.iter().enumerate() { let (o, t) = ty.field_off(k); self.store(st, obj, off + o as i64, &t, x.clone()); }
            return;
        }
        let sz = ty.size() as i64;
        let Some(Some(o)) = st.mem.get_mut(obj as usize) else { return };
        let o = Rc::make_mut(o);
        clear(o, off, off + sz);
        o.cells.insert(off, (sz as usize, v));
    }
    pub fn alloc(&self, st: &mut St, size: i64, zero: bool) -> u32 {
        if st.mem.is_empty() { st.mem.push(None); }
        st.mem.push(Some(Rc::new(Obj { cells: BTreeMap::new(), zero: if zero { vec![(0, size)] } else { vec![] }, size })));
        st.mem.len() as u32 - 1
    }

    // ---------------------------------------------------------------- the interpreter
    pub fn call(&mut self, name: &str, args: Vec<V>, mut st: St, depth: usize) -> Vec<(Out, St)> {
        let name = self.sh.m.resolve(name).to_string();
        let name = name.as_str();
        if depth > 40 { return vec![(Out::Unknown("call depth".into()), st)]; }
        let f = match self.fcache.get(name) { Some(f) => f.clone(), None => { let f = self.sh.func(name); self.fcache.insert(name.to_string(), f.clone()); f } };
        if st.mem.is_empty() { st.mem.push(None); }
        let base = st.mem.len();
        let mut slots = vec![V::Undef; f.nslots];
        for ((_, s), v) in f.params.iter().zip(args) { slots[*s] = self.tag(v); }
        let mut outs: Vec<(Out, St)> = vec![];
        let promf = std::mem::replace(&mut self.promf, false);
        let mut work: BTreeMap<usize, Vec<Item>> = BTreeMap::new(); // order -> items at block start
        work.insert(f.blocks[0].order, vec![Item { blk: 0, idx: 0, slots, st, amb: vec![] }]);
        while let Some((_, items)) = work.pop_first() {
            let mut items = items;
            if items.len() > 1 { items = self.merge(&f, items); }
            for it in items {
                let mut pend = vec![it];
                while let Some(it) = pend.pop() {
                    self.run(&f, it, depth, &mut pend, &mut work, &mut outs);
                    if self.steps > self.maxsteps || ABORT.load(std::sync::atomic::Ordering::Relaxed) { 
                        outs.push((Out::Unknown(format!("analysis budget exhausted in {}", short(name))), St { bx: [(-1.0, 1.0); 4], full: true, refn: vec![], mem: vec![], forked: true, facts: vec![] }));
                        self.promf = promf;
                        return outs;
                    }
                }
            }
        }
        if let (Some(v), true) = (self.fresh, self.promf) {
            for (o, s) in outs.iter_mut() { if let Out::Ret(x) = o { self.strip_v(v, x); } self.strip_st(v, s); }
        }
        self.promf = promf;
        for (_, s) in outs.iter_mut() {
            // frame objects die; heap objects were appended above them and are freed explicitly
            while s.mem.len() > base && s.mem.last().map_or(false, |o| o.is_none()) { s.mem.pop(); }
        }
        if outs.len() > 1 { outs = self.merge_outs(outs); }
        outs
    }
    fn tag(&mut self, v: V) -> V {
        match v { V::I(mut i) => { if i.con().is_none() && i.uid == 0 { i.uid = self.nuid(); } V::I(i) } v => v }
    }
    /// The remainder of one loop-carried value becomes the range of a variable of its own, so that what the next
    /// iteration computes from it stays correlated with it. The variable stands for something else on every
    /// iteration: whatever still depends on its previous meaning is widened first.
    fn promote(&mut self, v: usize, it: &mut Item, vals: &mut [(usize, V)]) {
        self.promf = true;
        for x in it.slots.iter_mut() { self.strip_v(v, x); }
        for (_, x) in vals.iter_mut() { self.strip_v(v, x); }
        self.strip_st(v, &mut it.st);
        let mut best: Option<(usize, f64)> = None;
        for (k, (_, x)) in vals.iter().enumerate() {
            if let V::F(f) = x { if let Some(t) = &f.tm { if t.r > 0.0 && t.r.is_finite() { let q = t.r / t.abs_sum().max(f64::MIN_POSITIVE); if q > 1e-18 && best.map_or(true, |b| q > b.1) { best = Some((k, q)); } } } }
        }
        if let Some((k, _)) = best {
            if let V::F(f) = &vals[k].1 {
                let mut d: FD = (**f).clone();
                let t = d.tm.take().unwrap();
                let mut l = TM::lin(self.cx, 0.0, v, t.r);
                l.r = 0.0;
                let r = t.r;
                let mut n = TM { c: t.c, r: 0.0 }.add(&l);
                n.r += 4e-16 * r; // `lin` may round
                d.tm = Some(n);
                vals[k].1 = V::F(Rc::new(d));
            }
        }
    }
    fn strip_f(&self, v: usize, f: &F) -> Option<F> {
        let dep = |t: &TM| t.c.iter().enumerate().any(|(i, c)| *c != 0.0 && self.cx.exps[i][v] > 0);
        let a = f.arg.as_ref().and_then(|a| self.strip_f(v, a));
        let t = f.tm.as_ref().map_or(false, |t| dep(t));
        if !t && a.is_none() { return None; }
        let mut d: FD = (**f).clone();
        if let Some(a) = a { d.arg = Some(a); }
        if t { d.tm = d.tm.map(|t| self.strip_tm(v, t)); }
        Some(Rc::new(d))
    }
    pub fn strip_tm(&self, v: usize, mut t: TM) -> TM {
        let mut r = 0.0;
        for (i, c) in t.c.iter_mut().enumerate() { if self.cx.exps[i][v] > 0 { r += c.abs(); *c = 0.0; } }
        t.r = (t.r + r) * (1.0 + 1e-9);
        t
    }
    fn strip_v(&self, v: usize, x: &mut V) {
        match x {
            V::F(f) => { if let Some(g) = self.strip_f(v, f) { *x = V::F(g); } }
            V::I(i) => self.strip_i(v, i),
            V::P(_, i) => self.strip_i(v, i),
            V::Agg(a) => { let mut b = (**a).clone(); for y in b.iter_mut() { self.strip_v(v, y); } *x = V::Agg(Rc::new(b)); }
            V::Undef => {}
        }
    }
    fn strip_i(&self, _v: usize, i: &mut I) { if !matches!(i.x, IX::None) { i.x = IX::None; } }
    fn strip_st(&self, v: usize, s: &mut St) {
        s.bx[v] = (-1.0, 1.0);
        for o in s.mem.iter_mut().flatten() {
            if o.cells.values().any(|(_, x)| match x { V::F(f) => self.strip_f(v, f).is_some(), V::Undef => false, _ => true }) {
                let mut n = (**o).clone();
                for (_, x) in n.cells.values_mut() { self.strip_v(v, x); }
                *o = Rc::new(n);
            }
        }
    }
    fn goto(&mut self, f: &Func, mut it: Item, from: usize, to: usize, work: &mut BTreeMap<usize, Vec<Item>>) {
        let b = &f.blocks[to];
        if b.nphi > 0 {
            let mut vals = vec![];
            for i in &b.ins[..b.nphi] {
                if let Ins::Phi(ty, v) = &i.ins {
                    let o = v.iter().find(|x| x.1 == from).map(|x| self.val(&x.0, ty, &it)).unwrap_or(V::Undef);
                    vals.push((i.dst.unwrap(), o));
                }
            }
            if let (Some(v), true, true) = (self.fresh, self.encl == 0 && b.outer_head, b.order <= f.blocks[from].order) { self.promote(v, &mut it, &mut vals); }
            for (d, v) in vals { it.slots[d] = self.tag(v); }
        }
        it.blk = to;
        it.idx = b.nphi;
        work.entry(b.order).or_default().push(it);
    }
    fn run(&mut self, f: &Func, mut it: Item, depth: usize, pend: &mut Vec<Item>, work: &mut BTreeMap<usize, Vec<Item>>, outs: &mut Vec<(Out, St)>) {
        loop {
            self.steps += 1;
            if self.steps > self.maxsteps || ABORT.load(std::sync::atomic::Ordering::Relaxed) { return; }
            let blk = it.blk;
            let Some(ins) = f.blocks[blk].ins.get(it.idx) else { outs.push((Out::Unknown("fell off block".into()), it.st)); return };
            macro_rules! set { ($v:expr) => {{ let v = self.tag($v); if let Some(d) = ins.dst { it.slots[d] = v; } it.idx += 1; continue; }}; }
            // set each alternative then continue later
            macro_rules! alts { ($v:expr) => {{
                let alts: Vec<(V, Item)> = $v;
                for (v, mut i) in alts { let v = self.tag(v); if let Some(d) = ins.dst { i.slots[d] = v; } i.idx += 1; pend.push(i); }
                return;
            }}; }
            match &ins.ins {
                Ins::Bin(op, ty, a, b) => match ty {
                    Ty::F64 => {
                        let (x, y) = (self.fval(a, &it), self.fval(b, &it));
                        let (x, y) = (self.view(&x, &it.st), self.view(&y, &it.st));
                        let bx = self.bx(&it.st);
                        let r = match op.as_str() {
                            "fadd" => add(self.cx, bx, &x, &y),
                            "fsub" => { let ny = Vw { lo: -y.hi, hi: -y.lo, nan: y.nan, f: neg(&y.f) }; add(self.cx, bx, &x, &ny) }
                            "fmul" => mul(self.cx, bx, &x, &y),
                            "fdiv" => div(self.cx, bx, &x, &y),
                            _ => top(),
                        };
                        if self.trace { self.tr(&it, ins, &r); }
                        set!(V::F(r))
                    }
                    Ty::Int(w) => {
                        let (va, vb) = (self.val(a, ty, &it), self.val(b, ty, &it));
                        let x = match va { V::I(i) => i, _ => I::top(*w) };
                        let y = match vb { V::I(i) => i, _ => I::top(*w) };
                        let r = self.ibin(op, *w, &x, &y, &it.st);
                        set!(V::I(r))
                    }
                    _ => { outs.push((Out::Unknown(format!("vector op {op}")), it.st)); return; }
                },
                Ins::FNeg(a) => { let x = self.fval(a, &it); let v = self.view(&x, &it.st); set!(V::F(neg(&narrowed(&v)))) }
                Ins::FCmp(p, a, b) => {
                    let (x, y) = (self.fval(a, &it), self.fval(b, &it));
                    let r = match self.fcmp(&it.st, p, &x, &y) { Some(v) => I::c(1, v as u64), None => { let mut i = I::top(1); i.x = IX::Cond(Rc::new(Cond::F(p.clone(), x, y))); i } };
                    set!(V::I(r))
                }
                Ins::ICmp(p, ty, a, b) => {
                    let r = match ty {
                        Ty::Ptr => {
                            let (x, y) = (self.val(a, ty, &it), self.val(b, ty, &it));
                            match (&x, &y) {
                                (V::P(o1, f1), V::P(o2, f2)) if o1 == o2 => self.icmp_i(p, f1, f2),
                                (V::P(o1, f1), V::P(o2, f2)) => match p.as_str() { "eq" if f1.con().is_some() && f2.con().is_some() => I::c(1, 0), "ne" if f1.con().is_some() && f2.con().is_some() => I::c(1, 1), _ => { let _ = (o1, o2); opaque() } },
                                _ => opaque(),
                            }
                        }
                        Ty::Int(w) => {
                            let (x, y) = (self.ival(a, *w, &it), self.ival(b, *w, &it));
                            // sign test of a float's bits
                            match (&x.x, y.con(), p.as_str()) {
                                (IX::Bits { f, strip: false, dk: 0 }, Some(0), "slt") => { let c = Cond::SignNeg(f.clone()); self.cond_i(&it.st, c) }
                                (IX::Bits { f, strip: false, dk: 0 }, Some(u64::MAX), "sgt") => { let c = Cond::Not(Rc::new(Cond::SignNeg(f.clone()))); self.cond_i(&it.st, c) }
                                _ => {
                                    // boolean == constant
                                    if *w == 1 && y.con().is_some() && matches!(p.as_str(), "eq" | "ne") { if let IX::Cond(c) = &x.x { let same = (p == "eq") == (y.con() == Some(1)); let c = c.clone(); set!(V::I(if same { x.clone() } else { let mut i = I::top(1); i.x = IX::Cond(Rc::new(Cond::Not(c))); i })) } }
                                    self.icmp_i(p, &x, &y)
                                }
                            }
                        }
                        _ => opaque(),
                    };
                    set!(V::I(r))
                }
                Ins::Select(c, ty, a, b) => {
                    let cv = self.ival(c, 1, &it);
                    match cv.con() {
                        Some(1) => { let v = self.val(a, ty, &it); set!(v) }
                        Some(_) => { let v = self.val(b, ty, &it); set!(v) }
                        None => {
                            let (va, vb) = (self.val(a, ty, &it), self.val(b, ty, &it));
                            if *ty == Ty::Int(1) {
                                // keep boolean structure
                                if let IX::Cond(cc) = &cv.x {
                                    if let (V::I(x), V::I(y)) = (&va, &vb) {
                                        let k = |i: &I| -> Option<Result<bool, Rc<Cond>>> { if let Some(v) = i.con() { Some(Ok(v == 1)) } else if let IX::Cond(c) = &i.x { Some(Err(c.clone())) } else { None } };
                                        let r = match (k(x), k(y)) {
                                            (Some(Ok(true)), Some(Ok(false))) => Some(cc.clone()),
                                            (Some(Ok(false)), Some(Ok(true))) => Some(Rc::new(Cond::Not(cc.clone()))),
                                            (Some(Ok(true)), Some(Err(d))) => Some(Rc::new(Cond::Or(cc.clone(), d))),
                                            (Some(Err(d)), Some(Ok(false))) => Some(Rc::new(Cond::And(cc.clone(), d))),
                                            (Some(Ok(false)), Some(Err(d))) => Some(Rc::new(Cond::And(Rc::new(Cond::Not(cc.clone())), d))),
                                            (Some(Err(d)), Some(Ok(true))) => Some(Rc::new(Cond::Or(Rc::new(Cond::Not(cc.clone())), d))),
                                            _ => None,
                                        };
                                        if let Some(r) = r { let mut i = I::top(1); i.x = IX::Cond(r); set!(V::I(i)) }
                                    }
                                }
                            }
                            if same_v(&va, &vb) { set!(va) }
                            let cond = cond_of(&cv);
                            let alts: Vec<(V, Item)> = self.fork(it, &cond).into_iter().map(|(v, i)| (if v { va.clone() } else { vb.clone() }, i)).collect();
                            alts!(alts)
                        }
                    }
                }
                Ins::Phi(..) => { it.idx += 1; }
                Ins::Br(t) => { self.goto(f, it, blk, *t, work); return; }
                Ins::CondBr(c, a, b) => {
                    let cv = self.ival(c, 1, &it);
                    match cv.con() {
                        Some(1) => self.goto(f, it, blk, *a, work),
                        Some(_) => self.goto(f, it, blk, *b, work),
                        None => {
                            let cond = cond_of(&cv);
                            let mut alts = self.fork(it, &cond);
                            if alts.len() > 1 && self.horizon > 0 && has_float(&cond) {
                                if let [ea, eb] = f.blocks[blk].exits[..] {
                                    if ea != eb {
                                        for (v, i) in alts.iter_mut() {
                                            if if *v { ea } else { eb } { continue; }
                                            if let Some(e) = i.amb.iter_mut().find(|e| e.0 == blk) { e.1 += 1; } else { i.amb.push((blk, 1)); }
                                        }
                                        let hz = self.horizon;
                                        let before = alts.len();
                                        alts.retain(|(v, i)| (if *v { ea } else { eb }) || i.amb.iter().all(|e| e.0 != blk || e.1 <= hz));
                                        if alts.len() < before { self.cutoffs.insert(self.sh.m.loc(ins.dbg)); }
                                    }
                                }
                            }
                            for (v, i) in alts { self.goto(f, i, blk, if v { *a } else { *b }, work); }
                        }
                    }
                    return;
                }
                Ins::Switch(w, c, d, v) => {
                    let cv = self.ival(c, *w, &it);
                    if let Some(x) = cv.con() { let t = v.iter().find(|y| y.0 == x).map(|y| y.1).unwrap_or(*d); self.goto(f, it, blk, t, work); return; }
                    let mut rest = it;
                    for (k, t) in v {
                        let cond = Cond::I("eq".into(), cv.clone(), I::c(*w, *k));
                        let mut nxt = None;
                        for (val, i) in self.fork(rest, &cond) { if val { self.goto(f, i, blk, *t, work); } else { nxt = Some(i); } }
                        match nxt { Some(i) => rest = i, None => return }
                    }
                    self.goto(f, rest, blk, *d, work);
                    return;
                }
                Ins::Ret(v) => {
                    let r = match v { Some((ty, o)) => self.val(o, ty, &it), None => V::Undef };
                    let r = if let V::F(x) = &r { let w = self.view(x, &it.st); V::F(narrowed(&w)) } else { r };
                    outs.push((Out::Ret(r), it.st));
                    return;
                }
                Ins::Unreachable => { outs.push((Out::Unknown(format!("reached unreachable code in {}", short(&f.name))), it.st)); return; }
                Ins::Load(ty, p) => {
                    let pv = self.val(p, &Ty::Ptr, &it);
                    match pv {
                        V::P(o, off) => {
                            if let Some(c) = off.con() { let v = self.load(&it.st, o, c as i64, ty); set!(v) }
                            // enumerate offsets
                            let (lo, hi) = (off.slo as i128, off.shi as i128);
                            if hi - lo <= 4096 && off.uid != 0 {
                                let step = ty.size().max(1) as i128;
                                // offsets are multiples of the access size in every table lookup here; otherwise the load is unknown
                                if let Some(vals) = self.table_hull(&it.st, o, lo as i64, hi as i64, step as i64, ty) { set!(vals) }
                            }
                            set!(untop(ty))
                        }
                        _ => set!(untop(ty)),
                    }
                }
                Ins::Store(ty, v, p) => {
                    let vv = self.val(v, ty, &it);
                    let vv = if let V::F(x) = &vv { let w = self.view(x, &it.st); V::F(narrowed(&w)) } else { vv };
                    match self.val(p, &Ty::Ptr, &it) {
                        V::P(o, off) if off.con().is_some() => self.store(&mut it.st, o, off.con().unwrap() as i64, ty, vv),
                        V::P(o, _) => { if let Some(Some(ob)) = it.st.mem.get_mut(o as usize) { let ob = Rc::make_mut(ob); ob.cells.clear(); ob.zero.clear(); } }
                        _ => { outs.push((Out::Unknown("store through unknown pointer".into()), it.st)); return; }
                    }
                    it.idx += 1;
                }
                Ins::Gep(ty, p, idx) => {
                    let base = self.val(p, &Ty::Ptr, &it);
                    let V::P(o, mut off) = base else { set!(V::Undef) };
                    let mut cur = ty.clone();
                    for (k, (ity, io)) in idx.iter().enumerate() {
                        let w = if let Ty::Int(w) = ity { *w } else { 64 };
                        let iv = self.ival(io, w, &it);
                        let iv = if w < 64 { self.icast("sext", &iv, 64) } else { iv };
                        let sz;
                        if k == 0 { sz = cur.size() as i128; } else if let Ty::Struct(..) = cur { let c = iv.con().unwrap_or(0) as usize; let (fo, t) = cur.field_off(c); cur = t; off = iadd(&off, fo as i128); continue; } else { let (_, t) = cur.field_off(0); sz = t.size() as i128; cur = t; }
                        off = if let Some(c) = iv.con() { iadd(&off, sext(c, 64) as i128 * sz) } else {
                            let (lo, hi) = (iv.slo as i128 * sz, iv.shi as i128 * sz);
                            let mut r = I::srange(64, off.slo as i128 + lo, off.shi as i128 + hi);
                            if r.slo == i64::MIN { r = I::top(64); }
                            r
                        };
                    }
                    off.x = IX::None;
                    if off.con().is_none() { off.uid = self.nuid(); }
                    set!(V::P(o, off))
                }
                Ins::Cast(op, from, a, to) => {
                    let v = self.val(a, from, &it);
                    match (op.as_str(), from, to) {
                        ("bitcast", Ty::F64, Ty::Int(64)) => {
                            let V::F(x) = v else { set!(V::I(I::top(64))) };
                            let split = ins.dst.map_or(false, |d| f.bits_split[d]);
                            let alts = self.bits_of(it, &x, split);
                            alts!(alts)
                        }
                        ("bitcast", Ty::Int(64), Ty::F64) => {
                            let r = match &v { V::I(i) => self.from_bits(i), _ => top() };
                            set!(V::F(r))
                        }
                        ("uitofp", _, Ty::F64) | ("sitofp", _, Ty::F64) => {
                            let V::I(i) = v else { set!(V::F(top())) };
                            let s = op == "sitofp";
                            if i.w == 1 && i.con().is_none() { let c = cond_of(&i); let al: Vec<(V, Item)> = self.fork(it, &c).into_iter().map(|(b, i)| (V::F(cst(if b { if s { -1.0 } else { 1.0 } } else { 0.0 })), i)).collect(); alts!(al) }
                            let (lo, hi) = if s { (i.slo as f64, i.shi as f64) } else { (i.ulo as f64, i.uhi as f64) };
                            if lo == hi { set!(V::F(cst(lo))) }
                            let h = mix(20, &[i.uid as u128, s as u128, it.blk as u128]);
                            let m = 0.5 * (lo + hi);
                            let r = fin(self.cx, self.bx(&it.st), lo, hi, false, 1, if hi - lo < 1e6 { Some(TM::cst(m, hi - m)) } else { None }, h, false);
                            set!(V::F(r))
                        }
                        ("fptosi", Ty::F64, Ty::Int(w)) | ("fptoui", Ty::F64, Ty::Int(w)) => { let V::F(x) = v else { set!(V::I(I::top(*w))) }; let al = self.ftoi(it, &x, *w, op == "fptosi"); alts!(al) }
                        ("trunc", _, Ty::Int(w)) => { let V::I(i) = v else { set!(V::I(I::top(*w))) }; let r = self.icast("trunc", &i, *w); set!(V::I(r)) }
                        ("zext", Ty::Int(1), Ty::Int(w)) | ("sext", Ty::Int(1), Ty::Int(w)) => {
                            let V::I(i) = v else { set!(V::I(I::top(*w))) };
                            if let Some(c) = i.con() { let r = I::c(*w, if c == 1 { if op == "zext" { 1 } else { u64::MAX } } else { 0 }); set!(V::I(r)) }
                            let c = cond_of(&i);
                            let one = if op == "zext" { 1 } else { u64::MAX };
                            let al: Vec<(V, Item)> = self.fork(it, &c).into_iter().map(|(b, i)| (V::I(I::c(*w, if b { one } else { 0 })), i)).collect();
                            alts!(al)
                        }
                        ("zext", _, Ty::Int(w)) | ("sext", _, Ty::Int(w)) => { let V::I(i) = v else { set!(V::I(I::top(*w))) }; let r = self.icast(op, &i, *w); set!(V::I(r)) }
                        ("ptrtoint", _, Ty::Int(64)) => match v { V::P(o, i) if o == NULLOBJ => set!(V::I(i)), V::P(o, i) => { let b = (o as i128 & 0xff_ffff) << 39; set!(V::I(I::urange(64, b + i.slo as i128, b + i.shi as i128))) } _ => set!(V::I(I::top(64))) },
                        ("inttoptr", _, _) => match v { V::I(i) => set!(V::P(NULLOBJ, i)), v => set!(v) },
                        _ => { set!(untop(to)) }
                    }
                }
                Ins::Extract(a, path) => {
                    let mut v = self.val(a, &Ty::Other, &it);
                    for k in path { v = match &v { V::Agg(x) => x.get(*k).cloned().unwrap_or(V::Undef), _ => V::Undef }; }
                    set!(v)
                }
                Ins::Insert(ty, a, t2, b, path) => {
                    let base = self.val(a, ty, &it);
                    let nv = self.val(b, t2, &it);
                    fn put(ty: &Ty, base: V, path: &[usize], nv: V) -> V {
                        if path.is_empty() { return nv; }
                        let n = match ty { Ty::Struct(f, _) => f.len(), Ty::Arr(n, _) => *n, _ => path[0] + 1 };
                        let mut v: Vec<V> = match base { V::Agg(x) => (*x).clone(), _ => vec![V::Undef; n] };
                        let t = ty.field_off(path[0]).1;
                        let o = std::mem::replace(&mut v[path[0]], V::Undef);
                        v[path[0]] = put(&t, o, &path[1..], nv);
                        V::Agg(Rc::new(v))
                    }
                    let r = put(ty, base, path, nv);
                    set!(r)
                }
                Ins::Alloca(sz) => { let o = self.alloc(&mut it.st, *sz as i64, false); set!(V::P(o, I::c(64, 0))) }
                Ins::Freeze(a) => { let v = self.val(a, &Ty::Other, &it); set!(v) }
                Ins::Call(name, ret, args) => {
                    let name = self.sh.m.resolve(name);
                    if let Some(n) = name.strip_prefix("llvm.") {
                        match self.intrinsic(n, ret, args, it, ins.dst, outs) { Some(al) => { if al.len() == 1 { let (v, i) = al.into_iter().next().unwrap(); it = i; if self.trace { if let V::F(r) = &v { self.tr(&it, ins, r); } } set!(v) } else { alts!(al) } } None => return }
                    }
                    if name.starts_with("%asm") { set!(untop(ret)) }
                    if self.sh.m.noreturn(name) {
                        let loc = self.sh.m.loc(ins.dbg);
                        outs.push((Out::Panic(format!("{} at {}", short(name), loc)), it.st));
                        return;
                    }
                    let argv: Vec<V> = args.iter().map(|(t, o)| { let v = self.val(o, t, &it); if let V::F(x) = &v { let w = self.view(x, &it.st); V::F(narrowed(&w)) } else { v } }).collect();
                    if !self.sh.m.has_func(name) || is_libm(name) || is_alloc(name) {
                        match self.external(name, ret, &argv, it, outs) { Some(al) => alts!(al), None => return }
                    }
                    let st = it.st.clone();
                    let bump = (f.blocks[blk].in_loop || self.promf) as u32;
                    self.encl += bump;
                    let rs = self.call(name, argv, st, depth + 1);
                    self.encl -= bump;
                    if rs.len() == 1 {
                        let (o, s) = rs.into_iter().next().unwrap();
                        it.st = s;
                        match o { Out::Ret(v) => { set!(v) } o => { outs.push((o, it.st)); return; } }
                    }
                    let mut al = vec![];
                    for (o, s) in rs {
                        match o { Out::Ret(v) => { let mut i = it.clone(); i.st = s; al.push((v, i)); } o => outs.push((o, s)) }
                    }
                    alts!(al)
                }
                Ins::Unknown(t) => { outs.push((Out::Unknown(format!("unsupported instruction: {}", &t[..t.len().min(90)])), it.st)); return; }
            }
        }
    }
    fn tr(&self, it: &Item, ins: &Instr, r: &F) {
        let tm = r.tm.as_ref().map(|t| format!("c0={:e} r={:e} deg={}", t.c[0], t.r, t.dg(self.cx))).unwrap_or("-".into());
        eprintln!("b{} s{:?} {:.60} => [{:e},{:e}]{} {}", it.blk, ins.dst.unwrap_or(0), format!("{:?}", ins.ins).replace('"', ""), r.lo, r.hi, if r.nan { " NaN" } else { "" }, tm);
    }
    fn table_hull(&self, st: &St, o: u32, lo: i64, hi: i64, step: i64, ty: &Ty) -> Option<V> {
        if (hi - lo) / step > 512 { return None; }
        let mut acc: Option<(f64, f64)> = None;
        let mut iacc: Option<I> = None;
        let mut p = lo;
        while p <= hi {
            match self.load(st, o, p, ty) {
                V::F(f) if !f.nan => acc = Some(match acc { None => (f.lo, f.hi), Some((a, b)) => (a.min(f.lo), b.max(f.hi)) }),
                V::I(i) => iacc = Some(match iacc { None => i, Some(a) => I::hull(&a, &i) }),
                _ => return None,
            }
            p += step;
        }
        if let Some((a, b)) = acc { return Some(V::F(fin(self.cx, None, a, b, false, 3, None, mix(30, &[o as u128, lo as u64 as u128, hi as u64 as u128]), false))); }
        iacc.map(V::I)
    }
    fn cond_i(&self, st: &St, c: Cond) -> I { match self.eval_cond(st, &c) { Some(v) => I::c(1, v as u64), None => { let mut i = I::top(1); i.x = IX::Cond(Rc::new(c)); i } } }
    fn icmp_i(&self, p: &str, a: &I, b: &I) -> I {
        match self.icmp(p, a, b) { Some(v) => I::c(1, v as u64), None => { let mut i = I::top(1); i.x = IX::Cond(Rc::new(Cond::I(p.to_string(), a.clone(), b.clone()))); i } }
    }
    fn icast(&self, op: &str, i: &I, w: u32) -> I {
        if let Some(c) = i.con() { return match op { "sext" => I::c(w, sext(c, i.w) as u64), _ => I::c(w, c) }; }
        match op {
            "trunc" => {
                if i.uhi <= umax(w) { let mut r = I::urange(w, i.ulo as i128, i.uhi as i128); r.uid = 0; return r; }
                if i.slo >= smin(w) && i.shi <= smax(w) { return I::srange(w, i.slo as i128, i.shi as i128); }
                I::top(w)
            }
            "zext" => { let mut r = I::urange(w, i.ulo as i128, i.uhi as i128); if let IX::Bits { .. } = i.x { r.x = i.x.clone(); } r }
            _ => I::srange(w, i.slo as i128, i.shi as i128),
        }
    }
    fn ibin(&self, op: &str, w: u32, a: &I, b: &I, st: &St) -> I {
        if let (Some(x), Some(y)) = (a.con(), b.con()) {
            let (sx, sy) = (sext(x, w), sext(y, w));
            let r = match op {
                "add" => x.wrapping_add(y), "sub" => x.wrapping_sub(y), "mul" => x.wrapping_mul(y),
                "and" => x & y, "or" => x | y, "xor" => x ^ y,
                "shl" => if y >= w as u64 { 0 } else { x << y }, "lshr" => if y >= w as u64 { 0 } else { x >> y },
                "ashr" => if y >= w as u64 { 0 } else { (sx >> y) as u64 },
                "udiv" => if y == 0 { return I::top(w) } else { x / y }, "urem" => if y == 0 { return I::top(w) } else { x % y },
                "sdiv" => if sy == 0 { return I::top(w) } else { sx.wrapping_div(sy) as u64 }, "srem" => if sy == 0 { return I::top(w) } else { sx.wrapping_rem(sy) as u64 },
                _ => return I::top(w),
            };
            return I::c(w, r);
        }
        if w == 1 {
            let k = |i: &I| -> Option<Rc<Cond>> { if let IX::Cond(c) = &i.x { Some(c.clone()) } else { None } };
            let mkc = |c: Cond| { let mut i = I::top(1); i.x = IX::Cond(Rc::new(c)); i };
            match (op, a.con(), b.con()) {
                ("and", Some(0), _) | ("and", _, Some(0)) => return I::c(1, 0),
                ("and", Some(1), _) | ("or", Some(0), _) | ("xor", Some(0), _) => return b.clone(),
                ("and", _, Some(1)) | ("or", _, Some(0)) | ("xor", _, Some(0)) => return a.clone(),
                ("or", Some(1), _) | ("or", _, Some(1)) => return I::c(1, 1),
                ("xor", Some(1), _) => if let Some(c) = k(b) { return mkc(Cond::Not(c)); },
                ("xor", _, Some(1)) => if let Some(c) = k(a) { return mkc(Cond::Not(c)); },
                ("and", None, None) => if let (Some(x), Some(y)) = (k(a), k(b)) { return mkc(Cond::And(x, y)); },
                ("or", None, None) => if let (Some(x), Some(y)) = (k(a), k(b)) { return mkc(Cond::Or(x, y)); },
                ("xor", None, None) => if let (Some(x), Some(y)) = (k(a), k(b)) {
                    return mkc(Cond::Or(Rc::new(Cond::And(x.clone(), Rc::new(Cond::Not(y.clone())))), Rc::new(Cond::And(Rc::new(Cond::Not(x)), y))));
                },
                _ => {}
            }
            return opaque();
        }
        // bit patterns of floats
        if w == 64 {
            for (p, q, sw) in [(a, b, false), (b, a, true)] {
                if let (IX::Bits { f, dk, strip }, Some(c)) = (&p.x, q.con()) {
                    let mut r = self.ibin_plain(op, w, a, b);
                    const M: u64 = 0x000f_ffff_ffff_ffff;
                    const E: u64 = 0x7ff0_0000_0000_0000;
                    let fld = if (p.ulo & E) == (p.uhi & E) && (p.ulo >> 63) == (p.uhi >> 63) { Some(((p.ulo & E) >> 52) as i64) } else { None };
                    let neg = p.ulo >> 63 == 1;
                    match op {
                        "and" => match c {
                            0x7fff_ffff_ffff_ffff => { r.x = IX::Bits { f: f.clone(), dk: *dk, strip: true }; if p.ulo >> 63 == p.uhi >> 63 { r.ulo = p.ulo & c; r.uhi = p.uhi & c; r = r.norm(); } else { r.uhi = r.uhi.min(c); } return r; }
                            M | 0x800f_ffff_ffff_ffff => if let Some(e) = fld {
                                let strip2 = *strip || c == M;
                                let base = if c != M && neg { 1u64 << 63 } else { 0 };
                                let mut i = I::urange(64, base as i128 + (p.ulo & M) as i128, base as i128 + (p.uhi & M) as i128);
                                if (p.ulo & M) > (p.uhi & M) { i = I::urange(64, base as i128, base as i128 + M as i128); }
                                i.x = IX::Bits { f: f.clone(), dk: dk - e, strip: strip2 };
                                return i;
                            } else { return I::urange(64, 0, if c == M { M as i128 } else { u64::MAX as i128 }); },
                            E => { if let Some(e) = fld { return I::c(64, (e as u64) << 52); } if p.ulo >> 63 == p.uhi >> 63 { return I::urange(64, (p.ulo & E) as i128, (p.uhi & E) as i128); } return I::urange(64, 0, E as i128); }
                            0x8000_0000_0000_0000 => { if p.ulo >> 63 == p.uhi >> 63 { return I::c(64, p.ulo & c); } return r; }
                            0xfff0_0000_0000_0000 => { if let Some(e) = fld { return I::c(64, ((e as u64) << 52) | if neg { 1 << 63 } else { 0 }); } return r; }
                            _ => return r,
                        },
                        "or" | "add" | "xor" | "sub" if !(op == "sub" && sw) => {
                            if op == "sub" {
                                if c & (M | (1 << 63)) == 0 { let k = (c >> 52) as i64; if let Some(e) = fld { if e >= k { r = I::urange(64, p.ulo as i128 - c as i128, p.uhi as i128 - c as i128); r.x = IX::Bits { f: f.clone(), dk: dk - k, strip: *strip }; } } }
                                return r;
                            }
                            if c & M == 0 && c >> 63 == 0 {
                                let k = (c >> 52) as i64;
                                let okfld = match (op, fld) { ("add", Some(e)) => e + k <= 0x7ff, (_, Some(0)) => true, _ => false };
                                if okfld { let mut i = I::urange(64, p.ulo as i128 + c as i128, p.uhi as i128 + c as i128); i.x = IX::Bits { f: f.clone(), dk: dk + k, strip: *strip }; return i; }
                            }
                            if c == 1 << 63 && !neg && p.uhi >> 63 == 0 && (op == "or" || op == "xor" || op == "add") {
                                // set the sign: value becomes -|f|
                                let af = if *strip { let v = self.view(f, st); abs_known(&v) } else { Some(f.clone()) };
                                if let Some(af) = af { let mut i = I::urange(64, p.ulo as i128 + c as i128, p.uhi as i128 + c as i128); i.x = IX::Bits { f: crate::val::neg(&af), dk: *dk, strip: false }; return i; }
                            }
                            if op == "xor" && c == 1 << 63 && *dk == 0 { r.x = IX::Bits { f: if *strip { return r } else { crate::val::neg(f) }, dk: 0, strip: false }; return r; }
                            return r;
                        }
                        "lshr" if !sw && c == 52 => { if (p.ulo >> 63) == (p.uhi >> 63) { return I::urange(64, (p.ulo >> 52) as i128, (p.uhi >> 52) as i128); } return I::urange(64, 0, 0xfff); }
                        "lshr" if !sw && c == 63 => {
                            if p.ulo >> 63 == p.uhi >> 63 { return I::c(64, p.ulo >> 63); }
                            return I::urange(64, 0, 1);
                        }
                        "shl" if !sw && c == 1 => { r.x = IX::None; return r; }
                        _ => return r,
                    }
                }
            }
            // or of an exponent field interval etc. falls through to plain
        }
        self.ibin_plain(op, w, a, b)
    }
    fn ibin_plain(&self, op: &str, w: u32, a: &I, b: &I) -> I {
        let (al, ah, bl, bh) = (a.ulo as i128, a.uhi as i128, b.ulo as i128, b.uhi as i128);
        let (sal, sah, sbl, sbh) = (a.slo as i128, a.shi as i128, b.slo as i128, b.shi as i128);
        match op {
            "add" => I::meet_u(I::urange(w, al + bl, ah + bh), I::srange(w, sal + sbl, sah + sbh)),
            "sub" => I::meet_u(I::urange(w, al - bh, ah - bl), I::srange(w, sal - sbh, sah - sbl)),
            "mul" => {
                let c = [sal * sbl, sal * sbh, sah * sbl, sah * sbh];
                let u = if ah.checked_mul(bh).is_some() { I::urange(w, al * bl, ah * bh) } else { I::top(w) };
                I::meet_u(u, I::srange(w, *c.iter().min().unwrap(), *c.iter().max().unwrap()))
            }
            "and" => {
                if let Some(m) = b.con().or(a.con()) {
                    let o = if b.con().is_some() { a } else { b };
                    // low mask covering the whole range
                    if m.wrapping_add(1).is_power_of_two() && o.uhi <= m { return I::urange(w, o.ulo as i128, o.uhi as i128); }
                    // high mask: monotone
                    if (!m & umax(w)).wrapping_add(1).is_power_of_two() { return I::urange(w, (o.ulo & m) as i128, (o.uhi & m) as i128); }
                    // low mask where the high parts agree
                    if m.wrapping_add(1).is_power_of_two() && (o.ulo & !m) == (o.uhi & !m) { return I::urange(w, (o.ulo & m) as i128, (o.uhi & m) as i128); }
                    return I::urange(w, 0, m.min(o.uhi) as i128);
                }
                I::urange(w, 0, ah.min(bh))
            }
            "or" => { let hi = (ah | bh) as u64; let m = if hi == 0 { 0 } else { u64::MAX >> hi.leading_zeros() }; I::urange(w, al.max(bl), (m & umax(w)) as i128) }
            "shl" => if let Some(s) = b.con() { if s < w as u64 && (ah << s) <= umax(w) as i128 { I::urange(w, al << s, ah << s) } else { I::top(w) } } else { I::top(w) },
            "lshr" => if let Some(s) = b.con() { if s < w as u64 { I::urange(w, al >> s, ah >> s) } else { I::top(w) } } else { I::urange(w, 0, ah) },
            "ashr" => if let Some(s) = b.con() { if s < w as u64 { I::srange(w, sal >> s, sah >> s) } else { I::top(w) } } else { I::top(w) },
            "udiv" => if bl > 0 { I::urange(w, al / bh, ah / bl) } else { I::top(w) },
            "urem" => if bl > 0 { if ah < bl { I::urange(w, al, ah) } else { I::urange(w, 0, ah.min(bh - 1)) } } else { I::top(w) },
            "sdiv" => if sbl > 0 { let c = [sal / sbl, sal / sbh, sah / sbl, sah / sbh]; I::srange(w, *c.iter().min().unwrap(), *c.iter().max().unwrap()) } else { I::top(w) },
            _ => I::top(w),
        }
    }
    fn bits_of(&mut self, it: Item, x: &F, split: bool) -> Vec<(V, Item)> {
        let v = self.view(x, &it.st);
        if let Some(c) = v.cst_val() { return vec![(V::I(I::c(64, c.to_bits())), it)]; }
        let mk = |lo: f64, hi: f64, f: F| -> I {
            // same-sign, non-NaN range
            let (mut l, mut h) = (lo.to_bits(), hi.to_bits());
            if hi < 0.0 || (hi == 0.0 && lo < 0.0) { l = if hi == 0.0 { 1 << 63 } else { hi.to_bits() }; h = lo.to_bits(); } else if lo == 0.0 { l = 0; }
            let mut i = I::urange(64, l as i128, h as i128);
            i.x = IX::Bits { f, dk: 0, strip: false };
            i
        };
        if !split || v.nan || v.empty() || v.has_inf() {
            if !v.nan && !v.empty() && (v.lo > 0.0 || v.hi < 0.0 || (v.lo == 0.0 && v.zs() == 1)) { let i = mk(v.lo, v.hi, narrowed(&v)); return vec![(V::I(i), it)]; }
            let mut i = I::top(64);
            i.x = IX::Bits { f: narrowed(&v), dk: 0, strip: false };
            return vec![(V::I(i), it)];
        }
        // split by sign and binade
        let mut pieces: Vec<(f64, f64)> = vec![];
        let expo = |a: f64| ((a.to_bits() >> 52) & 0x7ff) as i32;
        for s in [1.0, -1.0] {
            let (lo, hi) = if s > 0.0 { (v.lo.max(0.0), v.hi) } else { ((-v.hi).max(0.0), -v.lo) };
            if hi < lo || hi < 0.0 || (s < 0.0 && hi == 0.0 && v.zs() & 2 == 0) || (s > 0.0 && hi == 0.0 && v.zs() & 1 == 0) { continue; }
            let (e0, e1) = (expo(lo), expo(hi));
            if e1 - e0 > 3 || lo == 0.0 { if s > 0.0 { pieces.push((lo, hi)) } else { pieces.push((-hi, -lo)) } continue; }
            for e in e0..=e1 {
                let l = lo.max(f64::from_bits((e as u64) << 52));
                let h = hi.min(f64::from_bits(((e as u64) << 52) | 0x000f_ffff_ffff_ffff));
                if l <= h { if s > 0.0 { pieces.push((l, h)) } else { pieces.push((-h, -l)) } }
            }
        }
        let n = pieces.len();
        let mut out = vec![];
        for (l, h) in pieces {
            let mut i = it.clone();
            if n > 1 {
                i.st.forked = true;
                if !self.assume_rel(&mut i.st, "ge", x, &cst(l)) { continue; }
                if !self.assume_rel(&mut i.st, "le", x, &cst(h)) { continue; }
            }
            let vw = self.view(x, &i.st);
            let (l, h) = (vw.lo.max(l), vw.hi.min(h));
            if l > h { continue; }
            let nv = Vw { lo: l, hi: h, nan: false, f: x.clone() };
            out.push((V::I(mk(l, h, narrowed(&nv))), i));
        }
        out
    }
    fn from_bits(&self, i: &I) -> F {
        if let Some(c) = i.con() { return cst(f64::from_bits(c)); }
        let e = |b: u64| (b >> 52) & 0x7ff;
        if let IX::Bits { f, dk, strip } = &i.x {
            let okexp = i.ulo >> 63 == i.uhi >> 63 && e(i.ulo) >= 1 && e(i.uhi) <= 2046;
            if *dk == 0 && !*strip { return f.clone(); }
            if okexp || *dk == 0 {
                let v = Vw { lo: f.lo, hi: f.hi, nan: f.nan, f: f.clone() };
                let base = if *strip { abs_known(&v) } else { Some(f.clone()) };
                if let Some(b) = base {
                    if *dk == 0 { return b; }
                    // exact scaling by 2^dk
                    let mut r = b;
                    let mut k = *dk;
                    while k != 0 { let s = k.clamp(-1000, 1000); let c = cst(2f64.powi(s as i32)); let (x, y) = (Vw { lo: r.lo, hi: r.hi, nan: r.nan, f: r.clone() }, Vw { lo: c.lo, hi: c.hi, nan: false, f: c.clone() }); r = mul(self.cx, None, &x, &y); k -= s; }
                    return r;
                }
            }
        }
        // plain interval of same-sign finite patterns
        if i.ulo >> 63 == i.uhi >> 63 && e(i.uhi) <= 2046 && e(i.ulo) <= 2046 {
            let (a, b) = (f64::from_bits(i.ulo), f64::from_bits(i.uhi));
            let (lo, hi) = if a <= b { (a, b) } else { (b, a) };
            return fin(self.cx, None, lo, hi, false, 3, None, mix(21, &[i.uid as u128, i.ulo as u128, i.uhi as u128]), false);
        }
        top_id(mix(22, &[i.uid as u128, i.ulo as u128, i.uhi as u128]))
    }
    /// split the path so that trunc/floor/... of x is a known integer k on each piece
    fn pieces(&mut self, it: Item, x: &F, kind: &str) -> Option<Vec<(f64, Item)>> {
        let v = self.view(x, &it.st);
        if v.nan || v.empty() || v.has_inf() { return None; }
        let fl = |y: f64| match kind { "floor" => y.floor(), "ceil" => y.ceil(), "trunc" => y.trunc(), "round" => y.round(), _ => { let r = y.round(); if (r - y).abs() == 0.5 && r % 2.0 != 0.0 { r - (r - y).signum() } else { r } } };
        let (a, b) = (fl(v.lo), fl(v.hi));
        if b - a > 64.0 { return None; }
        if a == b { return Some(vec![(a, it)]); }
        let mut out = vec![];
        let mut k = a;
        while k <= b {
            let mut i = it.clone();
            i.st.forked = true;
            // preimage of k as a closed/open interval
            let (lo, los, hi, his) = match kind {
                "floor" => (k, false, k + 1.0, true),
                "ceil" => (k - 1.0, true, k, false),
                "trunc" => if k == 0.0 { (-1.0, true, 1.0, true) } else if k > 0.0 { (k, false, k + 1.0, true) } else { (k - 1.0, true, k, false) },
                _ => (k - 0.5, false, k + 0.5, false),
            };
            let ok = self.assume_rel(&mut i.st, if los { "gt" } else { "ge" }, x, &cst(lo)) && self.assume_rel(&mut i.st, if his { "lt" } else { "le" }, x, &cst(hi));
            if ok { out.push((if k == 0.0 { 0.0 } else { k }, i)); }
            k += 1.0;
        }
        Some(out)
    }
    fn ftoi(&mut self, it: Item, x: &F, w: u32, signed: bool) -> Vec<(V, Item)> {
        let v = self.view(x, &it.st);
        let (mn, mx) = if signed { (smin(w) as f64, smax(w) as f64) } else { (0.0, umax(w) as f64) };
        let mut out = vec![];
        let mut it = it;
        if v.nan {
            let mut i = it.clone();
            if !v.empty() { i.st.forked = true; }
            self.refine(&mut i.st, x, 1.0, 0.0, true);
            out.push((V::I(I::c(w, 0)), i));
            if v.empty() { return out; }
            it.st.forked = true;
            self.refine(&mut it.st, x, v.lo, v.hi, false);
        }
        let v = self.view(x, &it.st);
        if v.lo >= mn - 0.5 && v.hi < mx {
            if let Some(p) = self.pieces(it.clone(), x, "trunc") {
                for (k, i) in p { out.push((V::I(I::c(w, if k < 0.0 { k as i64 as u64 } else { k as u64 })), i)); }
                return out;
            }
        }
        let sat = |y: f64| -> i128 { if y <= mn { if signed { smin(w) as i128 } else { 0 } } else if y >= mx { if signed { smax(w) as i128 } else { umax(w) as i128 } } else { y.trunc() as i128 } };
        let (lo, hi) = (sat(v.lo), sat(v.hi));
        let r = if signed { I::srange(w, lo, hi) } else { I::urange(w, lo, hi) };
        out.push((V::I(r), it));
        out
    }

    fn intrinsic(&mut self, n: &str, ret: &Ty, args: &[(Ty, Op)], mut it: Item, _dst: Option<usize>, outs: &mut Vec<(Out, St)>) -> Option<Vec<(V, Item)>> {
        let base = n.split('.').next().unwrap();
        if *ret == Ty::F64 || n.contains(".f64") {
            return self.fintr(n, ret, args, it, outs);
        }
        let one = |v: V, it: Item| Some(vec![(v, it)]);
        match base {
            "assume" => {
                let c = self.ival(&args[0].1, 1, &it);
                if c.con() == Some(0) { return Some(vec![]); }
                if c.con().is_none() { let cond = cond_of(&c); return Some(self.fork(it, &cond).into_iter().filter(|x| x.0).map(|(_, i)| (V::Undef, i)).collect()); }
                one(V::Undef, it)
            }
            "lifetime" | "experimental" | "dbg" | "donothing" | "prefetch" | "invariant" => one(V::Undef, it),
            "is" => one(V::I(I::c(1, 0)), it),
            "expect" => { let v = self.val(&args[0].1, &args[0].0, &it); one(v, it) }
            "trap" => { outs.push((Out::Panic("trap".into()), it.st)); None }
            "umax" | "umin" | "smax" | "smin" => {
                let w = if let Ty::Int(w) = ret { *w } else { return one(V::Undef, it) };
                let (a, b) = (self.ival(&args[0].1, w, &it), self.ival(&args[1].1, w, &it));
                let r = match base {
                    "umax" => I::urange(w, a.ulo.max(b.ulo) as i128, a.uhi.max(b.uhi) as i128),
                    "umin" => I::urange(w, a.ulo.min(b.ulo) as i128, a.uhi.min(b.uhi) as i128),
                    "smax" => I::srange(w, a.slo.max(b.slo) as i128, a.shi.max(b.shi) as i128),
                    _ => I::srange(w, a.slo.min(b.slo) as i128, a.shi.min(b.shi) as i128),
                };
                one(V::I(r), it)
            }
            "abs" => {
                let w = if let Ty::Int(w) = ret { *w } else { return one(V::Undef, it) };
                let a = self.ival(&args[0].1, w, &it);
                let r = if let Some(c) = a.con() { I::c(w, sext(c, w).unsigned_abs()) } else if a.slo >= 0 { a } else { let m = a.slo.unsigned_abs().max(a.shi.unsigned_abs()); I::urange(w, if a.shi < 0 { a.shi.unsigned_abs() as i128 } else { 0 }, m as i128) };
                one(V::I(r), it)
            }
            "uadd" | "usub" | "umul" | "sadd" | "ssub" | "smul" => {
                let sat = n.contains(".sat.");
                let w = if let Ty::Int(w) = args[0].0 { w } else { return one(V::Undef, it) };
                let (a, b) = (self.ival(&args[0].1, w, &it), self.ival(&args[1].1, w, &it));
                let s = base.starts_with('s');
                let g = |i: &I| if s { (i.slo as i128, i.shi as i128) } else { (i.ulo as i128, i.uhi as i128) };
                let ((al, ah), (bl, bh)) = (g(&a), g(&b));
                let (lo, hi) = match &base[1..] {
                    "add" => (al + bl, ah + bh),
                    "sub" => (al - bh, ah - bl),
                    _ => { let m = |x: i128, y: i128| x.saturating_mul(y); let c = [m(al, bl), m(al, bh), m(ah, bl), m(ah, bh)]; (*c.iter().min().unwrap(), *c.iter().max().unwrap()) }
                };
                let (mn, mx) = if s { (smin(w) as i128, smax(w) as i128) } else { (0, umax(w) as i128) };
                let mk = |l: i128, h: i128| if s { I::srange(w, l, h) } else { I::urange(w, l, h) };
                if sat { return one(V::I(mk(lo.clamp(mn, mx), hi.clamp(mn, mx))), it); }
                let ov_no = lo >= mn && hi <= mx;
                let ov_yes = hi < mn || lo > mx;
                let val = if ov_no { mk(lo, hi) } else if let (Some(x), Some(y)) = (a.con(), b.con()) { self.ibin(&base[1..], w, &I::c(w, x), &I::c(w, y), &it.st) } else { I::top(w) };
                if ov_no || ov_yes { return one(V::Agg(Rc::new(vec![V::I(val), V::I(I::c(1, ov_yes as u64))])), it); }
                let mut i2 = it.clone();
                i2.st.forked = true;
                it.st.forked = true;
                Some(vec![(V::Agg(Rc::new(vec![V::I(mk(lo.max(mn), hi.min(mx))), V::I(I::c(1, 0))])), it), (V::Agg(Rc::new(vec![V::I(I::top(w)), V::I(I::c(1, 1))])), i2)])
            }
            "memcpy" | "memmove" => {
                let (d, s, l) = (self.val(&args[0].1, &Ty::Ptr, &it), self.val(&args[1].1, &Ty::Ptr, &it), self.ival(&args[2].1, 64, &it));
                if let (V::P(dobj, doff), V::P(sobj, soff), Some(len)) = (&d, &s, l.con()) {
                    if let (Some(dof), Some(sof)) = (doff.con(), soff.con()) { self.memcpy(&mut it.st, *dobj, dof as i64, *sobj, sof as i64, len as i64); return one(V::Undef, it); }
                }
                outs.push((Out::Unknown("memcpy with unknown extent".into()), it.st));
                None
            }
            "memset" => {
                let (d, v, l) = (self.val(&args[0].1, &Ty::Ptr, &it), self.ival(&args[1].1, 8, &it), self.ival(&args[2].1, 64, &it));
                if let (V::P(o, off), Some(len)) = (&d, l.con()) {
                    if let Some(of) = off.con() {
                        if let Some(Some(ob)) = it.st.mem.get_mut(*o as usize) {
                            let ob = Rc::make_mut(ob);
                            clear(ob, of as i64, (of + len) as i64);
                            if v.con() == Some(0) { ob.zero.push((of as i64, (of + len) as i64)); } else { for k in 0..len.min(4096) { ob.cells.insert((of + k) as i64, (1, V::I(v.clone()))); } }
                        }
                        return one(V::Undef, it);
                    }
                }
                outs.push((Out::Unknown("memset with unknown extent".into()), it.st));
                None
            }
            "ctlz" | "cttz" | "ctpop" => { let w = if let Ty::Int(w) = ret { *w } else { 64 }; let a = self.ival(&args[0].1, w, &it); let r = match a.con() { Some(c) => I::c(w, match base { "ctlz" => if c == 0 { w as u64 } else { (c.leading_zeros() - (64 - w)) as u64 }, "cttz" => if c == 0 { w as u64 } else { c.trailing_zeros() as u64 }, _ => c.count_ones() as u64 }), None => I::urange(w, 0, w as i128) }; one(V::I(r), it) }
            "fshl" | "fshr" => { let w = if let Ty::Int(w) = ret { *w } else { 64 }; one(V::I(I::top(w)), it) }
            "ucmp" | "scmp" => { let w = if let Ty::Int(w) = ret { *w } else { 8 }; one(V::I(I::srange(w, -1, 1)), it) }
            _ => { outs.push((Out::Unknown(format!("unsupported intrinsic llvm.{n}")), it.st)); None }
        }
    }
    fn memcpy(&self, st: &mut St, dobj: u32, doff: i64, sobj: u32, soff: i64, len: i64) {
        let mut new: Vec<(i64, usize, V)> = vec![];
        let mut zeros: Vec<(i64, i64)> = vec![];
        if sobj & GBIT != 0 {
            // copy as 8-byte words when aligned, else bytes
            let mut p = 0;
            let Some(g) = self.gget(sobj) else { return };
            while p < len {
                if let Some((n, o)) = g.rel.get(&(soff + p)) { new.push((doff + p, 8, V::P(self.gid(n), I::c(64, *o as u64)))); p += 8; continue; }
                if len - p >= 8 && (soff + p) % 8 == 0 { let v = self.load(st, sobj, soff + p, &Ty::Int(64)); new.push((doff + p, 8, v)); p += 8; } else { let v = self.load(st, sobj, soff + p, &Ty::Int(8)); new.push((doff + p, 1, v)); p += 1; }
            }
        } else if let Some(Some(o)) = st.mem.get(sobj as usize) {
            for (off, (s, v)) in o.cells.range(soff..soff + len) { if off + *s as i64 <= soff + len { new.push((off - soff + doff, *s, v.clone())); } }
            for (a, e) in &o.zero { let (x, y) = ((*a).max(soff), (*e).min(soff + len)); if x < y { zeros.push((x - soff + doff, y - soff + doff)); } }
        }
        if let Some(Some(o)) = st.mem.get_mut(dobj as usize) {
            let o = Rc::make_mut(o);
            clear(o, doff, doff + len);
            for z in zeros { o.zero.push(z); }
            for (a, s, v) in new { o.cells.insert(a, (s, v)); }
        }
    }
    fn fintr(&mut self, n: &str, ret: &Ty, args: &[(Ty, Op)], it: Item, outs: &mut Vec<(Out, St)>) -> Option<Vec<(V, Item)>> {
        let base = n.split('.').next().unwrap();
        let one = |v: V, it: Item| Some(vec![(v, it)]);
        let a = match self.val(&args[0].1, &args[0].0, &it) { V::F(f) => f, _ => top() };
        let va = self.view(&a, &it.st);
        match base {
            "fabs" => {
                if va.nan && va.empty() { return one(V::F(narrowed(&va)), it); }
                if let Some(f) = abs_known(&va) { return one(V::F(f), it); }
                if !va.nan {
                    let c = Cond::SignNeg(a.clone());
                    let fk = self.fork(it, &c);
                    return Some(fk.into_iter().map(|(s, i)| { let v = self.view(&a, &i.st); let f = if s { neg(&narrowed(&v)) } else { narrowed(&v) }; let f = Rc::new(FD { lo: f.lo.max(0.0), hi: f.hi, nan: false, zs: if f.lo <= 0.0 { 1 } else { 0 }, tm: f.tm.clone(), h: f.h, neg: f.neg, org: f.org, q: f.q, arg: f.arg.clone() }); (V::F(f), i) }).collect());
                }
                let f = Rc::new(FD { lo: va.minabs(), hi: va.maxabs(), nan: va.nan, zs: 1, tm: None, h: mix(40, &[a.h]), neg: false, org: 0, q: 0.0, arg: None });
                one(V::F(f), it)
            }
            "sqrt" | "exp" | "log" | "sin" | "cos" | "exp2" | "log2" | "log10" | "sinh" | "cosh" | "tanh" | "tan" | "atan" => {
                let k = if base == "log" { "log" } else { base };
                let r = unary(self.cx, self.bx(&it.st), k, &va);
                one(V::F(r), it)
            }
            "floor" | "ceil" | "trunc" | "round" | "rint" | "nearbyint" | "roundeven" => {
                if va.nan && !va.empty() {
                    let mut out = vec![];
                    let mut i = it.clone(); i.st.forked = true; self.refine(&mut i.st, &a, 1.0, 0.0, true); let nv = self.view(&a, &i.st); out.push((V::F(narrowed(&nv)), i));
                    let mut i = it; i.st.forked = true; self.refine(&mut i.st, &a, va.lo, va.hi, false);
                    if let Some(r) = self.fintr(n, ret, args, i, outs) { out.extend(r); }
                    return Some(out);
                }
                if va.empty() { return one(V::F(narrowed(&va)), it); }
                if va.lo == va.hi && va.lo.is_infinite() { return one(V::F(narrowed(&va)), it); }
                let k = if matches!(base, "rint" | "nearbyint" | "roundeven") { "rint" } else { base };
                if va.minabs() >= 4503599627370496.0 { return one(V::F(narrowed(&va)), it); }
                match self.pieces(it.clone(), &a, k) {
                    Some(p) => Some(p.into_iter().map(|(k, i)| (V::F(if k == 0.0 { Rc::new(FD { lo: 0.0, hi: 0.0, nan: false, zs: if va.lo < 0.0 { 3 } else { va.zs().max(1) }, tm: Some(TM::cst(0.0, 0.0)), h: mix(1, &[0]), neg: false, org: 0, q: 0.0, arg: None }) } else { cst(k) }), i)).collect()),
                    None => { let (l, h) = (va.lo.floor(), va.hi.ceil()); let f = fin(self.cx, None, l, h, va.nan, 3, None, mix(41, &[a.h, a.neg as u128, base.len() as u128]), false); one(V::F(f), it) }
                }
            }
            "copysign" => {
                let b = self.fval(&args[1].1, &it);
                let c = Cond::SignNeg(b);
                let mut out = vec![];
                for (s, i) in self.fork(it, &c) {
                    let v = self.view(&a, &i.st);
                    if v.nan { let f = Rc::new(FD { lo: if v.empty() { 1.0 } else if s { -v.maxabs() } else { v.minabs() }, hi: if v.empty() { 0.0 } else if s { -v.minabs() } else { v.maxabs() }, nan: true, zs: 3, tm: None, h: mix(42, &[a.h, s as u128]), neg: false, org: 0, q: 0.0, arg: None }); out.push((V::F(f), i)); continue; }
                    let c2 = Cond::SignNeg(a.clone());
                    for (sa, i) in self.fork(i, &c2) { let v = self.view(&a, &i.st); let f = narrowed(&v); out.push((V::F(if sa != s { neg(&f) } else { f }), i)); }
                }
                Some(out)
            }
            "minnum" | "maxnum" | "minimumnum" | "maximumnum" | "minimum" | "maximum" => {
                let b = self.fval(&args[1].1, &it);
                let vb = self.view(&b, &it.st);
                let ismax = base.starts_with("max");
                let prop = base == "minimum" || base == "maximum";
                if va.nan || vb.nan {
                    let mut out = vec![];
                    for (f, v, other) in [(&a, &va, &b), (&b, &vb, &a)] {
                        if v.nan && !v.empty() {
                            let mut i = it.clone(); i.st.forked = true; self.refine(&mut i.st, f, 1.0, 0.0, true);
                            out.extend(self.fintr(n, ret, args, i, outs)?);
                            let mut i = it; i.st.forked = true; self.refine(&mut i.st, f, v.lo, v.hi, false);
                            out.extend(self.fintr(n, ret, args, i, outs)?);
                            return Some(out);
                        }
                        if v.nan { // certainly NaN
                            let o = self.view(if prop { f } else { other }, &it.st);
                            return one(V::F(narrowed(&o)), it);
                        }
                    }
                }
                let c = Cond::F(if ismax { "oge".into() } else { "ole".into() }, a.clone(), b.clone());
                let fk = self.fork(it, &c);
                Some(fk.into_iter().map(|(t, i)| { let v = self.view(if t { &a } else { &b }, &i.st); (V::F(narrowed(&v)), i) }).collect())
            }
            "fma" | "fmuladd" => {
                let b = self.fval(&args[1].1, &it);
                let c = self.fval(&args[2].1, &it);
                let (vb, vc) = (self.view(&b, &it.st), self.view(&c, &it.st));
                let bx = self.bx(&it.st);
                // sound over-approximation: product and sum each rounded
                let p = mul(self.cx, bx, &va, &vb);
                let pv = self.view(&p, &it.st);
                let r = add(self.cx, bx, &pv, &vc);
                let r2 = Rc::new(FD { lo: dn(r.lo), hi: up(r.hi), nan: r.nan, zs: r.zs, tm: r.tm.clone(), h: mix(43, &[a.h, a.neg as u128, b.h, b.neg as u128, c.h, c.neg as u128]), neg: false, org: 0, q: 0.0, arg: None });
                one(V::F(r2), it)
            }
            "pow" => { let b = self.fval(&args[1].1, &it); let vb = self.view(&b, &it.st); let r = pow(self.cx, self.bx(&it.st), &va, &vb); one(V::F(r), it) }
            "powi" => {
                let k = self.ival(&args[1].1, 32, &it);
                let Some(c) = k.con() else { return one(V::F(top()), it) };
                let n = sext(c, 32);
                if va.empty() { return one(V::F(narrowed(&va)), it); }
                let bx = self.bx(&it.st);
                let mut acc = cst(1.0);
                for _ in 0..n.unsigned_abs().min(64) { let w = self.view(&acc, &it.st); acc = mul(self.cx, bx, &w, &va); }
                if n.unsigned_abs() > 64 { return one(V::F(top()), it); }
                if n < 0 { let o = cst(1.0); let (w, q) = (self.view(&o, &it.st), self.view(&acc, &it.st)); acc = div(self.cx, bx, &w, &q); }
                // compiler-rt multiplies in another order: allow another n roundings
                let mut tm = acc.tm.clone();
                let slack = n.unsigned_abs() as f64 * U;
                if let Some(t) = &mut tm { t.r += t.maxabs() * slack; }
                let m = acc.lo.abs().max(acc.hi.abs()) * slack;
                let f = fin(self.cx, bx, acc.lo - m, acc.hi + m, acc.nan, 3, tm, mix(45, &[a.h, a.neg as u128, c as u128]), false);
                one(V::F(f), it)
            }
            "fptosi" | "fptoui" => { let w = if let Ty::Int(w) = ret { *w } else { 64 }; Some(self.ftoi(it, &a, w, base == "fptosi")) }
            "is" => {
                let m = self.ival(&args[1].1, 32, &it).con().unwrap_or(0) as u32;
                let r = self.cond_i(&it.st, Cond::Cls(m, a));
                one(V::I(r), it)
            }
            "canonicalize" | "arithmetic" => one(V::F(narrowed(&va)), it),
            _ => { outs.push((Out::Unknown(format!("unsupported intrinsic llvm.{n}")), it.st)); None }
        }
    }
    fn external(&mut self, name: &str, ret: &Ty, args: &[V], mut it: Item, outs: &mut Vec<(Out, St)>) -> Option<Vec<(V, Item)>> {
        let f1 = |s: &Self, k: usize, it: &Item| match args.get(k) { Some(V::F(f)) => s.view(f, &it.st), _ => { let t = top(); s.view(&t, &it.st) } };
        let one = |v: V, it: Item| Some(vec![(v, it)]);
        match name {
            "sinh" | "cosh" | "tanh" | "exp" | "log" | "sin" | "cos" | "tan" | "atan" | "expm1" | "log1p" | "exp2" | "log2" | "log10" | "sqrt" => {
                let v = f1(self, 0, &it);
                let r = unary(self.cx, self.bx(&it.st), name, &v);
                return one(V::F(r), it);
            }
            "pow" => { let (a, b) = (f1(self, 0, &it), f1(self, 1, &it)); let r = pow(self.cx, self.bx(&it.st), &a, &b); return one(V::F(r), it); }
            "free" => { if let Some(V::P(o, _)) = args.get(0) { if let Some(x) = it.st.mem.get_mut(*o as usize) { *x = None; } } return one(V::Undef, it); }
            _ => {}
        }
        if name == "malloc" || name.ends_with("___rust_alloc") || name.ends_with("___rust_alloc_zeroed") || name == "calloc" {
            let sz = match args.get(0) { Some(V::I(i)) => i.con().unwrap_or(1 << 20), _ => 1 << 20 } as i64;
            let o = self.alloc(&mut it.st, sz, name.contains("zeroed") || name == "calloc");
            return one(V::P(o, I::c(64, 0)), it);
        }
        if name.ends_with("___rust_dealloc") { if let Some(V::P(o, _)) = args.get(0) { if let Some(x) = it.st.mem.get_mut(*o as usize) { *x = None; } } return one(V::Undef, it); }
        if name.contains("no_alloc_shim") { return one(V::Undef, it); }
        if name == "realloc" || name.ends_with("___rust_realloc") {
            let nsz = match args.last() { Some(V::I(i)) => i.con().unwrap_or(1 << 20), _ => 1 << 20 } as i64;
            let o = self.alloc(&mut it.st, nsz, false);
            if let Some(V::P(old, _)) = args.get(0) { let l = it.st.mem.get(*old as usize).and_then(|x| x.as_ref()).map_or(0, |x| x.size); self.memcpy(&mut it.st, o, 0, *old, 0, l.min(nsz)); if let Some(x) = it.st.mem.get_mut(*old as usize) { *x = None; } }
            return one(V::P(o, I::c(64, 0)), it);
        }
        if *ret == Ty::F64 && args.iter().all(|a| matches!(a, V::F(_) | V::I(_))) {
            return one(V::F(top()), it);
        }
        outs.push((Out::Unknown(format!("call to external function {name}")), it.st));
        None
    }

    // ---------------------------------------------------------------- merging
    fn merge_f(&self, a: &F, b: &F, sa: &St, sb: &St, force: bool) -> Option<F> {
        if Rc::ptr_eq(a, b) { return Some(a.clone()); }
        let (va, vb) = (self.view(a, sa), self.view(b, sb));
        let nan = va.nan || vb.nan;
        let (lo, hi) = if va.empty() { (vb.lo, vb.hi) } else if vb.empty() { (va.lo, va.hi) } else { (va.lo.min(vb.lo), va.hi.max(vb.hi)) };
        if a.h == b.h && a.neg == b.neg {
            if a.nan == b.nan && a.lo == b.lo && a.hi == b.hi { return Some(a.clone()); }
            let tm = match (&a.tm, &b.tm) { (Some(x), Some(y)) => if x.c.len() > 1 || y.c.len() > 1 { Some(if x.c.len() >= y.c.len() { x.clone() } else { y.clone() }) } else { None }, _ => None };
            let tm = tm.filter(|t| t.c.len() > 1);
            return Some(Rc::new(FD { lo, hi, nan, zs: a.zs | b.zs, tm, h: a.h, neg: a.neg, org: a.org, q: a.q, arg: a.arg.clone() }));
        }
        if va.nan != vb.nan && !force { return None; }
        let (ha, hb) = (mix(50, &[a.h, a.neg as u128]), mix(50, &[b.h, b.neg as u128]));
        let h = if ha <= hb { mix(51, &[ha, hb]) } else { mix(51, &[hb, ha]) };
        if va.empty() || vb.empty() {
            if va.empty() && vb.empty() { return Some(a.clone()); }
            if !force { return None; }
            return Some(Rc::new(FD { lo, hi, nan, zs: a.zs | b.zs, tm: None, h, neg: false, org: 0, q: 0.0, arg: None }));
        }
        if let (Some(x), Some(y)) = (va.tm(), vb.tm()) {
            let d = x.sub(&y);
            let (p, bxs, rother) = if x.r >= y.r { (&x, sb, y.r) } else { (&y, sa, x.r) };
            let (l, u) = TM { c: d.c.clone(), r: 0.0 }.range(self.cx, self.bx(bxs));
            let gap = l.abs().max(u.abs());
            let nr = p.r.max(gap + rother);
            let mag = va.maxabs().max(vb.maxabs());
            let mref = va.minabs().min(vb.minabs()).max(mag * 1e-3);
            if gap <= 6.0 * (x.r + y.r) + self.merge_tol * mref || (force && nr <= 0.2 * (hi - lo).max(mag * 1e-6)) {
                let mut t = p.clone();
                t.r = nr * (1.0 + 1e-9);
                return Some(Rc::new(FD { lo, hi, nan, zs: va.f.zs | vb.f.zs | if lo <= 0.0 && hi >= 0.0 { 3 } else { 0 }, tm: Some(t), h, neg: false, org: 0, q: 0.0, arg: None }));
            }
        } else if va.lo == vb.lo && va.hi == vb.hi { return Some(Rc::new(FD { lo, hi, nan, zs: 3, tm: None, h, neg: false, org: 0, q: 0.0, arg: None })); }
        if !force { return None; }
        Some(fin(self.cx, None, lo, hi, nan, 3, None, h, false))
    }
    fn merge_v(&self, a: &V, b: &V, sa: &St, sb: &St, lvl: u8) -> Option<V> {
        match (a, b) {
            (V::F(x), V::F(y)) => self.merge_f(x, y, sa, sb, lvl >= 2).map(V::F),
            (V::I(x), V::I(y)) => if x.same(y) { Some(a.clone()) } else if lvl >= 1 && x.w == y.w { Some(V::I(I::hull(x, y))) } else { None },
            (V::P(o, x), V::P(p, y)) => if o == p && x.same(y) { Some(a.clone()) } else if o == p && lvl >= 1 { Some(V::P(*o, I::hull(x, y))) } else { None },
            (V::Agg(x), V::Agg(y)) if x.len() == y.len() => { let mut v = vec![]; for (p, q) in x.iter().zip(y.iter()) { v.push(self.merge_v(p, q, sa, sb, lvl)?); } Some(V::Agg(Rc::new(v))) }
            (V::Undef, _) | (_, V::Undef) => Some(V::Undef),
            _ => None,
        }
    }
    fn merge_st(&self, a: &St, b: &St, lvl: u8) -> Option<St> {
        if a.mem.len() != b.mem.len() { return None; }
        let mut mem = Vec::with_capacity(a.mem.len());
        for (x, y) in a.mem.iter().zip(b.mem.iter()) {
            mem.push(match (x, y) {
                (None, None) => None,
                (Some(p), Some(q)) if Rc::ptr_eq(p, q) => Some(p.clone()),
                (Some(p), Some(q)) => {
                    let mut o = Obj { cells: BTreeMap::new(), zero: if p.zero == q.zero { p.zero.clone() } else { vec![] }, size: p.size };
                    for (k, (s, v)) in &p.cells {
                        match q.cells.get(k) {
                            Some((s2, v2)) if s == s2 => { o.cells.insert(*k, (*s, self.merge_v(v, v2, a, b, lvl)?)); }
                            _ => { o.cells.insert(*k, (*s, V::Undef)); }
                        }
                    }
                    for (k, (s, _)) in &q.cells { if !o.cells.contains_key(k) { o.cells.insert(*k, (*s, V::Undef)); } }
                    Some(Rc::new(o))
                }
                _ => None,
            });
        }
        let mut bx = a.bx;
        for v in 0..self.cx.n { bx[v] = (a.bx[v].0.min(b.bx[v].0), a.bx[v].1.max(b.bx[v].1)); }
        let full = bx.iter().take(self.cx.n).all(|b| *b == (-1.0, 1.0));
        let mut refn = vec![];
        for (h, l, u, n) in &a.refn {
            for (h2, l2, u2, n2) in &b.refn {
                if h == h2 {
                    let (lo, hi) = if !(l <= u) { (*l2, *u2) } else if !(l2 <= u2) { (*l, *u) } else { (l.min(*l2), u.max(*u2)) };
                    refn.push((*h, lo, hi, *n || *n2));
                }
            }
        }
        let facts = a.facts.iter().filter_map(|x| b.facts.iter().find(|y| y.0 == x.0).map(|y| (x.0, x.1 | y.1))).collect();
        Some(St { bx, full, refn, mem, forked: a.forked && b.forked, facts })
    }
    fn merge_pair(&self, f: &Func, a: &Item, b: &Item, lvl: u8) -> Option<Item> {
        if a.idx != b.idx || a.blk != b.blk { return None; }
        let bl = &f.blocks[a.blk];
        // cheap rejection on integers first
        for &s in &bl.live { match (&a.slots[s], &b.slots[s]) { (V::I(x), V::I(y)) if lvl == 0 && !x.same(y) => return None, (V::P(o, _), V::P(p, _)) if o != p => return None, _ => {} } }
        // keep states apart that only know a live value to be negative and positive respectively: their union would contain zero
        if lvl < 2 && !a.st.refn.is_empty() && !b.st.refn.is_empty() {
            for &s in &bl.live {
                if let (V::F(x), V::F(y)) = (&a.slots[s], &b.slots[s]) {
                    if x.h != y.h || x.is_cst() { continue; }
                    if let (Some(p), Some(q)) = (a.st.refn.iter().find(|r| r.0 == x.h), b.st.refn.iter().find(|r| r.0 == y.h)) {
                        if (p.1 > 0.0 && q.2 < 0.0 && q.1 <= q.2 && p.1 <= p.2) || (p.2 < 0.0 && q.1 > 0.0 && q.1 <= q.2 && p.1 <= p.2) { return None; }
                    }
                }
            }
        }
        let mut slots = vec![V::Undef; a.slots.len()];
        for &s in &bl.live { slots[s] = self.merge_v(&a.slots[s], &b.slots[s], &a.st, &b.st, lvl)?; }
        for i in &bl.ins[..bl.nphi] { let d = i.dst.unwrap(); if let V::Undef = slots[d] { if bl.live.contains(&d) { continue; } } }
        let st = self.merge_st(&a.st, &b.st, lvl)?;
        let amb = a.amb.iter().filter_map(|x| b.amb.iter().find(|y| y.0 == x.0).map(|y| (x.0, x.1.min(y.1)))).collect();
        Some(Item { blk: a.blk, idx: a.idx, slots, st, amb })
    }
    fn merge(&mut self, f: &Func, items: Vec<Item>) -> Vec<Item> {
        let mut out: Vec<Item> = vec![];
        let n = items.len();
        let pass = |s: &mut Self, items: Vec<Item>, lvl: u8, stop: usize| -> Vec<Item> {
            let mut out: Vec<Item> = vec![];
            let total = items.len();
            let mut removed = 0;
            for it in items {
                let mut done = false;
                if total - removed > stop {
                    for k in 0..out.len() {
                        if let Some(mut m) = s.merge_pair(f, &out[k], &it, lvl) { for v in m.slots.iter_mut() { if let V::I(i) = v { if i.con().is_none() && i.uid == 0 { i.uid = s.nuid(); } } } out[k] = m; done = true; removed += 1; break; }
                    }
                }
                if !done { out.push(it); }
            }
            out
        };
        let _ = &mut out;
        let _ = n;
        let mut items = pass(self, items, 0, 0);
        if items.len() > 6 { items = pass(self, items, 1, 6); }
        if items.len() > self.maxstates { items = pass(self, items, 2, self.maxstates / 2); }
        items
    }
    fn merge_outs(&mut self, outs: Vec<(Out, St)>) -> Vec<(Out, St)> {
        let mut res: Vec<(Out, St)> = vec![];
        for (o, s) in outs {
            let mut done = false;
            for k in 0..res.len() {
                match (&res[k].0, &o) {
                    (Out::Ret(x), Out::Ret(y)) => {
                        if let Some(v) = self.merge_v(x, y, &res[k].1, &s, 0) { if let Some(st) = self.merge_st(&res[k].1, &s, 0) { res[k] = (Out::Ret(v), st); done = true; break; } }
                    }
                    (Out::Panic(x), Out::Panic(y)) if x == y => { if let Some(st) = self.merge_st(&res[k].1, &s, 2) { res[k].1 = st; done = true; break; } }
                    _ => {}
                }
            }
            if !done { res.push((o, s)); }
        }
        res
    }
}
fn clear(o: &mut Obj, lo: i64, hi: i64) {
    let ks: Vec<i64> = o.cells.range(lo - 64..hi).filter(|(k, (s, _))| **k < hi && **k + *s as i64 > lo).map(|(k, _)| *k).collect();
    for k in ks { o.cells.remove(&k); }
    if !o.zero.is_empty() {
        let mut z = vec![];
        for (a, b) in &o.zero { if *b <= lo || *a >= hi { z.push((*a, *b)); } else { if *a < lo { z.push((*a, lo)); } if *b > hi { z.push((hi, *b)); } } }
        o.zero = z;
    }
}
fn iadd(i: &I, c: i128) -> I { if c == 0 { return i.clone(); } if let Some(v) = i.con() { return I::c(64, (sext(v, 64) as i128 + c) as u64); } let mut r = I::srange(64, i.slo as i128 + c, i.shi as i128 + c); r.uid = 0; r }
fn has_float(c: &Cond) -> bool { match c { Cond::F(..) | Cond::Cls(..) | Cond::SignNeg(..) => true, Cond::Not(a) => has_float(a), Cond::And(a, b) | Cond::Or(a, b) => has_float(a) || has_float(b), _ => false } }
fn opaque() -> I { let mut i = I::top(1); i.x = IX::Cond(Rc::new(Cond::Opaque)); i }
fn cond_of(i: &I) -> Rc<Cond> { if let IX::Cond(c) = &i.x { c.clone() } else { Rc::new(Cond::I("ne".into(), i.clone(), I::c(i.w, 0))) } }
fn untop(ty: &Ty) -> V { match ty { Ty::F64 => V::F(top()), Ty::Int(w) => V::I(I::top(*w)), _ => V::Undef } }
fn zero(ty: &Ty) -> V { match ty { Ty::F64 => V::F(cst(0.0)), Ty::Int(w) => V::I(I::c(*w, 0)), Ty::Ptr => V::P(NULLOBJ, I::c(64, 0)), Ty::Struct(f, _) => V::Agg(Rc::new(f.iter().map(zero).collect())), Ty::Arr(n, t) => V::Agg(Rc::new((0..*n).map(|_| zero(t)).collect())), _ => V::Undef } }
fn recast(v: V, ty: &Ty) -> V {
    match (&v, ty) {
        (V::F(_), Ty::F64) | (V::P(..), Ty::Ptr) | (V::Agg(_), _) => v,
        (V::I(i), Ty::Int(w)) => if i.w == *w { v } else if let Some(c) = i.con() { V::I(I::c(*w, c)) } else { untop(ty) },
        (V::I(i), Ty::F64) => if let Some(c) = i.con() { V::F(cst(f64::from_bits(c))) } else { untop(ty) },
        (V::F(f), Ty::Int(64)) => if f.is_cst() { V::I(I::c(64, f.cval().to_bits())) } else { let mut i = I::top(64); i.x = IX::Bits { f: f.clone(), dk: 0, strip: false }; V::I(i) },
        (V::I(i), Ty::Ptr) => V::P(NULLOBJ, i.clone()),
        (V::P(o, i), Ty::Int(64)) if *o == NULLOBJ => V::I(i.clone()),
        _ => untop(ty),
    }
}
fn same_v(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::F(x), V::F(y)) => Rc::ptr_eq(x, y) || (x.h == y.h && x.neg == y.neg),
        (V::I(x), V::I(y)) => x.same(y),
        (V::P(o, x), V::P(p, y)) => o == p && x.same(y),
        (V::Undef, V::Undef) => true,
        _ => false,
    }
}
fn is_libm(n: &str) -> bool { matches!(n, "sinh" | "cosh" | "tanh" | "exp" | "log" | "sin" | "cos" | "tan" | "atan" | "expm1" | "log1p" | "exp2" | "log2" | "log10" | "sqrt" | "pow") }
fn is_alloc(n: &str) -> bool { n.contains("___rust_alloc") || n.contains("___rust_dealloc") || n.contains("___rust_realloc") || n.contains("no_alloc_shim") }
pub fn short(n: &str) -> String {
    // crude demangling of v0 names: keep the identifier segments
    let b = n.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_digit() && i > 0 {
            let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() { j += 1; }
            let l: usize = n[i..j].parse().unwrap_or(0);
            let mut s = j;
            if s < b.len() && b[s] == b'_' { s += 1; }
            if l > 1 && s + l <= b.len() && n[s..s + l].bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_') && n.starts_with("_R") { out.push(n[s..s + l].to_string()); i = s + l; continue; }
            i = j;
        } else { i += 1; }
    }
    if out.is_empty() { n.to_string() } else { let k = out.len().saturating_sub(3); out[k..].join("::") }
}

/// canonical name of an ordered pair of values, and whether the order was reversed
fn fkey(a: &F, b: &F) -> ((H, H, bool), bool) {
    let (mut x, mut y, mut flip) = ((a.h, a.neg), (b.h, b.neg), false);
    if y.0 < x.0 { std::mem::swap(&mut x, &mut y); flip = !flip; }
    if x.1 { y.1 = !y.1; flip = !flip; }
    ((x.0, y.0, y.1), flip)
}
fn flip3(m: u8, flip: bool) -> u8 { if flip { (m & 2) | ((m & 1) << 2) | ((m & 4) >> 2) } else { m } }

/// set by the watchdog when the analysis runs out of time or memory: every path then ends as undecided
pub static ABORT: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
