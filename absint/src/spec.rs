//! Obligation files and the prover that discharges them.
//!
//!   @ deg=14 depth=14 horizon=40 steps=3000000      settings for the following lines
//!   # comment
//!   <func> <arg,arg,..> | lo:hi lo:hi | <expect> ; <expect> ...
//!
//! args:    v0 v1 v2 (cell variable), n0 (its negation), c<float>, i<int> (u32), I<int> (u64), o (out array),
//!          t any double (NaN and infinities included), u any u32, U any u64, j<lo>-<hi> J<lo>-<hi> any u32, u64 in that range
//! expect:  <k> ref <atol> <rtol> <err> <deg> c0 c1 ...   output k is within atol+rtol*|ref| of the reference
//!          <k> in <lo> <hi>           output k is a number in [lo, hi]
//!          <k> is <float>             output k is exactly this value (sign of zero included)
//!          <k> nan                    output k is NaN
//!          <k> notnum                 output k is NaN, or the call panics
//!          <k> same v0 | -v0          output k is the very value of that variable (negated)
//!          panic                      every path panics
//!          nopanic                    no path panics (implied by all others)
use crate::exec::*;
use crate::tm::*;
use crate::val::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::*;
use std::sync::{Arc, Mutex};
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum Arg { Var(usize), NegVar(usize), C(f64), U32(u64), U64(u64), Out, Any, AnyInt(u32), Rng(u32, u64, u64) }
#[derive(Clone, Debug)]
pub enum Ex { Ref { k: usize, atol: f64, rtol: f64, err: f64, c: Vec<f64> }, In { k: usize, lo: f64, hi: f64 }, Is { k: usize, v: f64 }, Nan { k: usize }, NotNum { k: usize }, Same { k: usize, v: usize, neg: bool }, Panic, NoPanic, MayPanic }
#[derive(Clone, Debug)]
pub struct Cfg { pub deg: usize, pub depth: usize, pub horizon: u32, pub steps: u64, pub fresh: bool, pub slack: usize }
#[derive(Clone, Debug)]
pub struct Ob { pub line: usize, pub cfg: Cfg, pub func: String, pub args: Vec<Arg>, pub bx: Vec<(f64, f64)>, pub ex: Vec<Ex> }

fn fl(s: &str) -> f64 { match s { "inf" => f64::INFINITY, "-inf" => f64::NEG_INFINITY, "nan" => f64::NAN, _ => s.parse().unwrap_or_else(|_| panic!("bad number {s}")) } }

pub fn parse(path: &str) -> Vec<Ob> {
    let text = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("{path}: {e}"));
    let mut cfg = Cfg { deg: 10, depth: 12, horizon: 40, steps: 400_000, fresh: false, slack: 0 };
    let mut out = vec![];
    for (ln, l) in text.lines().enumerate() {
        let l = l.trim();
        if l.is_empty() || l.starts_with('#') { continue; }
        if let Some(r) = l.strip_prefix('@') {
            for kv in r.split_whitespace() { let (k, v) = kv.split_once('=').unwrap(); match k { "deg" => cfg.deg = v.parse().unwrap(), "depth" => cfg.depth = v.parse().unwrap(), "horizon" => cfg.horizon = v.parse().unwrap(), "steps" => cfg.steps = v.parse().unwrap(), "fresh" => cfg.fresh = v == "1", "slack" => cfg.slack = v.parse().unwrap(), _ => panic!("setting {k}") } }
            continue;
        }
        let p: Vec<&str> = l.split('|').collect();
        assert!(p.len() == 3, "{path}:{}: malformed", ln + 1);
        let mut h = p[0].split_whitespace();
        let func = h.next().unwrap().to_string();
        let args = h.next().unwrap_or("").split(',').filter(|s| !s.is_empty()).map(|a| { let r = &a[1..]; match &a[..1] { "v" => Arg::Var(r.parse().unwrap()), "n" => Arg::NegVar(r.parse().unwrap()), "c" => Arg::C(fl(r)), "i" => Arg::U32(r.parse().unwrap()), "I" => Arg::U64(r.parse().unwrap()), "o" => Arg::Out, "j" | "J" => { let (l, h) = r.split_once('-').unwrap(); Arg::Rng(if &a[..1] == "j" { 32 } else { 64 }, l.parse().unwrap(), h.parse().unwrap()) } "t" => Arg::Any, "u" => Arg::AnyInt(32), "U" => Arg::AnyInt(64), _ => panic!("arg {a}") } }).collect();
        let bx = p[1].split_whitespace().map(|s| { let (a, b) = s.split_once(':').unwrap(); (fl(a), fl(b)) }).collect();
        let ex = p[2].split(';').map(|e| {
            let w: Vec<&str> = e.split_whitespace().collect();
            match w[0] { "panic" => return Ex::Panic, "nopanic" => return Ex::NoPanic, "maypanic" => return Ex::MayPanic, _ => {} }
            let k: usize = w[0].parse().unwrap();
            match w[1] {
                "ref" => Ex::Ref { k, atol: fl(w[2]), rtol: fl(w[3]), err: fl(w[4]), c: w[6..].iter().map(|s| fl(s)).collect() },
                "in" => Ex::In { k, lo: fl(w[2]), hi: fl(w[3]) },
                "is" => Ex::Is { k, v: fl(w[2]) },
                "nan" => Ex::Nan { k },
                "same" => { let (n, v) = match w[2].strip_prefix('-') { Some(v) => (true, v), None => (false, w[2]) }; Ex::Same { k, v: v[1..].parse().unwrap(), neg: n } }
                "notnum" => Ex::NotNum { k },
                x => panic!("expectation {x}"),
            }
        }).collect();
        out.push(Ob { line: ln + 1, cfg: cfg.clone(), func, args, bx, ex });
    }
    out
}

#[derive(Clone, Debug)]
pub struct Viol { pub line: usize, pub func: String, pub args: String, pub bx: Vec<(f64, f64)>, pub what: String, pub definite: bool, pub site: String }

#[derive(Default)]
pub struct Stats { pub cells: u64, pub steps: u64, pub paths: u64, pub maxdepth: usize, pub worst: f64, pub per: BTreeMap<String, (u64, u64, f64)>, pub cut: BTreeSet<String>, pub slow: Vec<(u64, usize)>, pub left: usize, pub undec: u64 }

enum R { Ok, Unknown(String, String), Bad(String, String) }

fn mid(l: f64, h: f64) -> (f64, f64) { let m = if l == h { l } else { 0.5 * l + 0.5 * h }; (m, (h - m).max(m - l)) }

fn attempt(sh: &Shared, cx: &Ctx, ob: &Ob, bx: &[(f64, f64)], st_: &mut Stats, horizon: Option<u32>) -> R {
    let mut st = St { bx: [(-1.0, 1.0); 4], full: true, refn: vec![], mem: vec![], forked: false, facts: vec![] };
    let mut e = Eng::new(sh, cx, ob.cfg.steps);
    e.horizon = horizon.unwrap_or(ob.cfg.horizon);
    if ob.cfg.fresh { e.fresh = Some(ob.bx.len()); }
    let mut out = None;
    let vars: Vec<F> = bx.iter().enumerate().map(|(k, &(l, h))| {
        let (m, rad) = mid(l, h);
        if l == h { return cst(l); }
        fin(cx, None, l, h, false, 3, Some(TM::lin(cx, m, k, rad)), mix(7, &[k as u128]), false)
    }).collect();
    let args: Vec<V> = ob.args.iter().map(|a| match a {
        Arg::Var(k) => V::F(vars[*k].clone()),
        Arg::NegVar(k) => V::F(neg(&vars[*k])),
        Arg::C(c) => V::F(cst(*c)),
        Arg::U32(n) => V::I(I::c(32, *n)),
        Arg::U64(n) => V::I(I::c(64, *n)),
        Arg::Any => V::F(top()),
        Arg::AnyInt(w) => V::I(I::top(*w)),
        Arg::Rng(w, l, h) => V::I(I::urange(*w, *l as i128, *h as i128)),
        Arg::Out => { let o = e.alloc(&mut st, 64, false); out = Some(o); V::P(o, I::c(64, 0)) }
    }).collect();
    let res = e.call(&ob.func, args, st, 0);
    st_.cells += 1;
    st_.steps += e.steps;
    st_.paths += res.len() as u64;
    st_.cut.extend(e.cutoffs.iter().cloned());
    if res.is_empty() { return R::Unknown("no path reaches an end (every path was cut off or infeasible)".into(), String::new()); }
    let expect_panic = ob.ex.iter().any(|x| matches!(x, Ex::Panic));
    let notnum = ob.ex.iter().any(|x| matches!(x, Ex::NotNum { .. }));
    let may = ob.ex.iter().any(|x| matches!(x, Ex::MayPanic));
    let mut unk: Option<(String, String)> = None;
    let mut rets = 0;
    let npaths = res.len();
    for (o, s) in &res {
        let sure = npaths == 1 && !s.forked;
        macro_rules! fail { ($def:expr, $($f:tt)*) => {{ let m = format!($($f)*); if $def && sure { return R::Bad(m, String::new()); } if unk.is_none() { unk = Some((m, String::new())); } }}; }
        match o {
            Out::Unknown(m) => { if unk.is_none() { unk = Some((format!("the analysis cannot follow this path: {m}"), String::new())); } }
            Out::Panic(site) => {
                if !expect_panic && !notnum && !may {
                    let m = format!("panic: {site}");
                    if npaths == 1 { return R::Bad(m, site.clone()); }
                    unk = Some((m, site.clone()));
                }
            }
            Out::Ret(v) => {
                rets += 1;
                if expect_panic { fail!(true, "returns normally instead of panicking"); continue; }
                for x in &ob.ex {
                    let k = match x { Ex::Ref { k, .. } | Ex::In { k, .. } | Ex::Is { k, .. } | Ex::Nan { k } | Ex::NotNum { k } | Ex::Same { k, .. } => *k, _ => continue };
                    let f = match (v, out) {
                        (V::F(f), None) => f.clone(),
                        (_, Some(o)) => match s.mem.get(o as usize).and_then(|x| x.as_ref()).and_then(|x| x.cells.get(&(8 * k as i64))) { Some((8, V::F(f))) => f.clone(), _ => { fail!(false, "output {k} is not known to be written"); continue } },
                        _ => { fail!(false, "output is not a float"); continue }
                    };
                    let w = e.view(&f, s);
                    match x {
                        Ex::Nan { .. } | Ex::NotNum { .. } => { if !(w.empty() && w.nan) { fail!(!w.nan, "output {k} is a number in [{:e}, {:e}] instead of NaN", w.lo, w.hi); } continue; }
                        Ex::Same { v, neg, .. } => { let u = &vars[*v]; if !(w.f.h == u.h && w.f.neg == (u.neg != *neg)) { fail!(w.hi < u.lo.min(-u.hi) || w.lo > u.hi.max(-u.lo), "output {k} is not known to be {}v{v}: it is in [{:e}, {:e}]", if *neg { "-" } else { "" }, w.lo, w.hi); } continue; }
                        _ => {}
                    }
                    if w.nan { fail!(w.empty(), "output {k} {} NaN", if w.empty() { "is" } else { "may be" }); continue; }
                    if w.empty() { continue; }
                    match x {
                        Ex::In { lo, hi, .. } => { if !(w.lo >= *lo && w.hi <= *hi) { fail!(w.hi < *lo || w.lo > *hi, "output {k} in [{:e}, {:e}], required [{lo:e}, {hi:e}]", w.lo, w.hi); } }
                        Ex::Is { v, .. } => {
                            let ok = if *v == 0.0 { w.lo == 0.0 && w.hi == 0.0 && w.zs() == (if v.is_sign_negative() { 2 } else { 1 }) } else { w.lo == *v && w.hi == *v };
                            if !ok { fail!(*v < w.lo || *v > w.hi || (*v == 0.0 && w.lo == 0.0 && w.hi == 0.0 && w.zs() != 3), "output {k} in [{:e}, {:e}], required exactly {v:?}", w.lo, w.hi); }
                        }
                        Ex::Ref { atol, rtol, err, c, .. } => {
                            let mut cen = vec![0.0; cx.n.max(1)];
                            let mut rad = vec![1.0; cx.n.max(1)];
                            let mut whole = true;
                            for i in 0..ob.bx.len() { let (m, r) = mid(bx[i].0, bx[i].1); let (pm, pr) = mid(ob.bx[i].0, ob.bx[i].1); cen[i] = (m - pm) / pr; rad[i] = r / pr; if bx[i] != ob.bx[i] { whole = false; } }
                            let mut rt = TM { c: if ob.cfg.fresh { cx.embed(c, ob.bx.len()) } else { c.clone() }, r: *err };
                            if rt.c.len() > cx.nm() { fail!(false, "reference degree exceeds the analysis degree"); continue; }
                            if !cx.cnt.contains(&rt.c.len()) { let l = *cx.cnt.iter().find(|x| **x >= rt.c.len()).unwrap(); rt.c.resize(l, 0.0); }
                            if !whole { let s1 = rt.abs_sum(); rt = rt.shift(cx, &cen, &rad); rt.r += 4e-16 * s1; }
                            let b = if s.full { None } else { Some(&s.bx) };
                            let (rl, rh) = rt.range(cx, b);
                            let rmin = if rl <= 0.0 && rh >= 0.0 { 0.0 } else { rl.abs().min(rh.abs()) };
                            let tol = (atol + rtol * rmin) * scale();
                            let tolmax = atol + rtol * rl.abs().max(rh.abs());
                            let (dl, dh) = match w.tm() {
                                Some(t) if !w.has_inf() => { let (a, b) = t.sub(&rt).range(cx, b); (a.max(w.lo - rh), b.min(w.hi - rl)) }
                                _ => (w.lo - rh, w.hi - rl),
                            };
                            let m = dl.abs().max(dh.abs());
                            if m <= tol {
                                let q = m / tol;
                                if q > st_.worst { st_.worst = q; }
                                let pe = st_.per.entry(format!("{}[{}]", ob.func, k)).or_insert((0, 0, 0.0));
                                pe.0 += 1; if q > pe.2 { pe.2 = q; }
                            } else { fail!(dl > tolmax || dh < -tolmax, "output {k}: error in [{dl:.3e}, {dh:.3e}] not within {tol:.3e} of the reference [{rl:e}, {rh:e}]"); }
                        }
                        _ => {}
                    }
                }
            }
        }
    }
    if may && rets == 0 { return R::Bad("every path panics".into(), String::new()); }
    match unk { None => R::Ok, Some((m, s)) => R::Unknown(m, s) }
}

fn prove(sh: &Shared, cx: &Ctx, ob: &Ob, bx: Vec<(f64, f64)>, depth: usize, st: &mut Stats, stop: &AtomicBool, horizon: Option<u32>) -> Option<Viol> {
    if stop.load(Ordering::Relaxed) { return None; }
    if depth > st.maxdepth { st.maxdepth = depth; }
    let (m, site, def) = match attempt(sh, cx, ob, &bx, st, horizon) {
        R::Ok => return None,
        R::Bad(m, s) => (m, s, true),
        R::Unknown(m, s) => (m, s, false),
    };
    if !def && depth + CUT.load(Ordering::Relaxed) < ob.cfg.depth {
        // bisect the variable with the largest relative width (geometrically for wide ranges)
        let wd = |l: f64, h: f64, k: usize| { let (ol, oh) = ob.bx[k]; (h - l) / (oh - ol) + if l > 0.0 && h / l > 8.0 { 1.0 } else { 0.0 } };
        let mut order: Vec<usize> = (0..bx.len()).filter(|&k| bx[k].0 < bx[k].1).collect();
        order.sort_by(|&a, &b| wd(bx[b].0, bx[b].1, b).partial_cmp(&wd(bx[a].0, bx[a].1, a)).unwrap_or(std::cmp::Ordering::Equal));
        if let Some(&k) = order.first() {
            let (l, h) = bx[k];
            let c = if l > 0.0 && h / l > 8.0 { l.sqrt() * h.sqrt() } else if h < 0.0 && l / h > 8.0 { -((-l).sqrt() * (-h).sqrt()) } else { mid(l, h).0 };
            if c > l && c < h {
                let (mut a, mut b) = (bx.clone(), bx.clone());
                a[k].1 = c; b[k].0 = c;
                if let Some(v) = prove(sh, cx, ob, a, depth + 1, st, stop, horizon) { return Some(v); }
                return prove(sh, cx, ob, b, depth + 1, st, stop, horizon);
            } else if l < h && l.next_up() == h {
                let (mut a, mut b) = (bx.clone(), bx.clone());
                a[k].1 = l; b[k].0 = h;
                if let Some(v) = prove(sh, cx, ob, a, depth + 1, st, stop, horizon) { return Some(v); }
                return prove(sh, cx, ob, b, depth + 1, st, stop, horizon);
            }
        }
    }
    // an obligation may leave a few of its smallest pieces undecided (never one where the violation is definite)
    if !def && st.left > 0 && depth >= ob.cfg.depth { st.left -= 1; st.undec += 1; return None; }
    Some(Viol { line: ob.line, func: ob.func.clone(), args: ob.args.iter().map(|a| format!("{a:?}")).collect::<Vec<_>>().join(","), bx, what: m, definite: def, site })
}

pub struct Report { pub obligations: usize, pub proved: usize, pub viols: Vec<Viol>, pub stats: Stats, pub timeout: bool }

pub fn run(sh: &Shared, obs: &[Ob], threads: usize, limit: f64, all: bool, horizon: Option<u32>) -> Report {
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let timeout = AtomicBool::new(false);
    let proved = AtomicUsize::new(0);
    let tot: Mutex<(Stats, Vec<Viol>)> = Default::default();
    let t0 = Instant::now();
    // deterministic shuffle: hard regions cluster, and a broken tree should be noticed early
    let mut idx: Vec<usize> = (0..obs.len()).collect();
    let mut r = 0x9E3779B97F4A7C15u64;
    for i in (1..idx.len()).rev() { r ^= r << 13; r ^= r >> 7; r ^= r << 17; idx.swap(i, (r % (i as u64 + 1)) as usize); }
    let left = AtomicUsize::new(threads);
    std::thread::scope(|s| {
        s.spawn(|| {
            while left.load(Ordering::Relaxed) > 0 {
                std::thread::sleep(std::time::Duration::from_millis(5));
                let rss = std::fs::read_to_string("/proc/self/statm").ok().and_then(|x| x.split(' ').nth(1).and_then(|v| v.parse::<u64>().ok())).unwrap_or(0) * 4096;
                if rss > MEMLIM || t0.elapsed().as_secs_f64() > limit + 20.0 { crate::exec::ABORT.store(true, Ordering::Relaxed); timeout.store(true, Ordering::Relaxed); }
            }
        });
        for _ in 0..threads {
            s.spawn(|| {
                let mut st = Stats::default();
                let mut ctxs: BTreeMap<(usize, usize), Arc<Ctx>> = BTreeMap::new();
                loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= idx.len() || stop.load(Ordering::Relaxed) { break; }
                    if t0.elapsed().as_secs_f64() > limit { timeout.store(true, Ordering::Relaxed); break; }
                    let ob = &obs[idx[i]];
                    let key = (if ob.cfg.fresh { ob.bx.len() + 1 } else { ob.bx.len().max(1) }, ob.cfg.deg);
                    let cx = ctxs.entry(key).or_insert_with(|| Arc::new(Ctx::new(key.0, key.1))).clone();
                    let t1 = Instant::now();
                    let (c0, s0) = (st.cells, st.steps);
                    st.left = ob.cfg.slack;
                    let v = prove(sh, &cx, ob, ob.bx.clone(), 0, &mut st, if all { &NOSTOP } else { &stop }, horizon);
                    let pe = st.per.entry(ob.func.clone()).or_insert((0, 0, 0.0));
                    pe.0 += st.cells - c0; pe.1 += st.steps - s0;
                    let ms = t1.elapsed().as_millis() as u64;
                    st.slow.push((ms, ob.line));
                    if st.slow.len() > 128 { st.slow.sort(); st.slow.reverse(); st.slow.truncate(48); }
                    match v { None => { if !stop.load(Ordering::Relaxed) || all { proved.fetch_add(1, Ordering::Relaxed); } } Some(v) => { tot.lock().unwrap().1.push(v); if !all { stop.store(true, Ordering::Relaxed); } } }
                }
                let mut g = tot.lock().unwrap();
                let g = &mut g.0;
                g.cells += st.cells; g.steps += st.steps; g.paths += st.paths; g.maxdepth = g.maxdepth.max(st.maxdepth); g.undec += st.undec; g.worst = g.worst.max(st.worst);
                for (k, v) in st.per { let e = g.per.entry(k).or_insert((0, 0, 0.0)); e.0 += v.0; e.1 += v.1; e.2 = e.2.max(v.2); }
                g.cut.extend(st.cut); g.slow.extend(st.slow);
                left.fetch_sub(1, Ordering::Relaxed);
            });
        }
    });
    let (stats, viols) = tot.into_inner().unwrap();
    Report { obligations: obs.len(), proved: proved.load(Ordering::Relaxed), viols, stats, timeout: timeout.load(Ordering::Relaxed) }
}
/// scales the tolerances of `ref` expectations (used when obligations are written, to leave a margin)
pub static SCALE: AtomicU64 = AtomicU64::new(0x3FF0_0000_0000_0000);
fn scale() -> f64 { f64::from_bits(SCALE.load(Ordering::Relaxed)) }
pub static CUT: AtomicUsize = AtomicUsize::new(0);
const MEMLIM: u64 = 20 << 30;
static NOSTOP: AtomicBool = AtomicBool::new(false);
