"""S30: type-level witnesses. Small programs against the crate's public interface which must type-check, and twins of
them, one step over the line, which rustc must refuse for the reason given."""
import os, json, subprocess, shutil, fcntl, re
from concurrent.futures import ThreadPoolExecutor
V2, V4 = "(f64, f64)", "(f64, f64, f64, f64)"
CACHES = [("CachedJnuYnu", "Jnu_Ynu", V2), ("CachedInuKnu", "Inu_Knu", V2), ("CachedBesselJY", "besseljy", V4), ("CachedBesselIK", "besselik", V4)]
PRIVATE = "E0616 E0609 E0610 E0423 E0425 E0433 E0574 E0603 E0451 E0532 E0560 E0618 E0061 E0624 E0599 E0164 E0027 E0023 E0026".split()
D1 = "fn(f64) -> f64"; D2 = "fn(f64, f64) -> f64"; D3 = "fn(f64, f64, f64) -> f64"; N1 = "fn(u32, f64) -> f64"
SIG = [("gamma", "gamma", D1), ("gamma", "ln_gamma", D1), ("gamma", "gammp", D2), ("gamma", "gammq", D2), ("gamma", "invgammp", D2),
       ("beta", "beta", D2), ("beta", "betai", D3), ("beta", "invbetai", D3), ("error", "erf", D1), ("error", "erfc", D1), ("error", "erfcx", D1), ("error", "inverf", D1), ("error", "inverfc", D1),
       ("dawson", "dawson", D1), ("faddeeva", "faddeeva", "fn(f64, f64) -> (f64, f64)"), ("bessel", "Jn", N1), ("bessel", "Yn", N1), ("bessel", "In", N1), ("bessel", "Kn", N1),
       ("bessel", "besseljy", "fn(f64, f64) -> " + V4), ("bessel", "besselik", "fn(f64, f64) -> " + V4), ("bessel", "Jnu_Ynu", "fn(f64, f64) -> " + V2), ("bessel", "Inu_Knu", "fn(f64, f64) -> " + V2)]
ONLYMOD = [("utils", "factorial", "fn(usize) -> f64"), ("utils", "frexp", "fn(f64) -> (f64, i32)"), ("utils", "ldexp", "fn(f64, i32) -> f64"), ("utils", "sign", D2)]
LW = [("lambert_w0", D1), ("lambert_wm1", D1), ("sp_lambert_w0", D1), ("sp_lambert_wm1", D1), ("lambert_w", "fn(i32, f64, f64) -> (f64, f64)")]

def programs():
    """(name, what it shows, text, None or the error codes expected)"""
    out = []
    ok = lambda n, what, t: out.append((n, what, t, None))
    no = lambda n, what, t, codes: out.append((n, what, t, codes))
    for m, f, s in SIG + ONLYMOD:
        ok("sig_%s_%s" % (m, f), "puruspe::%s::%s is a plain function of type %s" % (m, f, s), "const F: %s = puruspe::%s::%s; pub fn g() -> %s { F }" % (s, m, f, s))
    for f, s in [(f, s) for m, f, s in SIG] + LW:
        ok("sig_%s" % f, "puruspe::%s is a plain function of type %s" % (f, s), "const F: %s = puruspe::%s; pub fn g() -> %s { F }" % (s, f, s))
    for t, f, v in CACHES:
        head = "use puruspe::%s as C; " % t
        ok(t + "_auto", "%s owns all it refers to and can be shared and sent between threads" % t, head + "fn a<T: Send + Sync + Unpin + 'static + std::panic::UnwindSafe + std::panic::RefUnwindSafe>() {} pub fn g() { a::<C>() }")
        ok(t + "_traits", "%s is Clone, Debug, PartialEq and Default" % t, head + "fn a<T: Clone + std::fmt::Debug + PartialEq + Default>() {} pub fn g() { a::<C>() }")
        no(t + "_nocopy", "%s is not Copy: two names for one cache cannot exist" % t, head + "fn a<T: Copy>() {} pub fn g() { a::<C>() }", ["E0277"])
        ok(t + "_path", "puruspe::bessel::%s is the same type" % t, "pub fn g(c: puruspe::%s) -> puruspe::bessel::%s { c }" % (t, t))
        ok(t + "_lookup", "the look-up takes &mut self and returns an owned value", head + "pub fn g(c: &mut C) -> %s { let a = c.%s(0.5, 1.0); let _ = c.%s(0.5, 2.0); a } pub const F: fn(&mut C, f64, f64) -> %s = C::%s;" % (v, f, f, v, f))
        no(t + "_lookup_shared", "the look-up needs exclusive access", head + "pub fn g(c: &C) -> %s { c.%s(0.5, 1.0) }" % (v, f), ["E0596"])
        ok(t + "_read", "get, contains, len and is_empty work on a shared cache", head + "pub fn g(c: &C) -> (Option<&%s>, bool, usize, bool) { (c.get(0.5, 1.0), c.contains(0.5, 1.0), c.len(), c.is_empty()) }" % v)
        for m, call in (("clear", "c.clear()"), ("reserve", "c.reserve(1)"), ("shrink_to_fit", "c.shrink_to_fit()"), ("retain", "c.retain(|_, _| true)")):
            ok(t + "_" + m, "%s works on an exclusive cache" % m, head + "pub fn g(c: &mut C) { %s; }" % call)
            no(t + "_%s_shared" % m, "%s needs exclusive access" % m, head + "pub fn g(c: &C) { %s; }" % call, ["E0596"])
        no(t + "_get_mut", "get gives no way to write to an entry", head + "pub fn g(c: &mut C) -> Option<&mut %s> { c.get(0.5, 1.0).map(|v| { let r: &mut %s = v; r }) }" % (v, v), ["E0308", "E0596"])
        no(t + "_get_alive", "an entry that is being read cannot be changed meanwhile", head + "pub fn g(c: &mut C) -> %s { let r = c.get(0.5, 1.0); c.clear(); *r.unwrap() }" % v, ["E0502"])
        no(t + "_get_outlives", "an entry does not outlive its cache", head + "pub fn g() -> &'static %s { let c = C::new(); c.get(0.5, 1.0).unwrap() }" % v, ["E0515", "E0597"])
        ok(t + "_get_after", "(twin) the entry copied first", head + "pub fn g(c: &mut C) -> %s { let r = *c.get(0.5, 1.0).unwrap(); c.clear(); r }" % v)
        ok(t + "_retain_types", "retain's predicate gets the decoded arguments and the value by value", head + "pub fn g(c: &mut C) { c.retain(|(_nu, _x): (f64, f64), _v: %s| true) }" % v)
        no(t + "_retain_mut", "retain's predicate cannot write to an entry", head + "pub fn g(c: &mut C) { c.retain(|_: (f64, f64), v: &mut %s| { v.0 = 1.0; true }) }" % v, ["E0631"])
        no(t + "_field", "the map is private", head + "pub fn g(c: &C) { let _m = &c.0; }", PRIVATE)
        no(t + "_build", "entries cannot be supplied from outside", head + "pub fn g() -> C { C(Default::default()) }", PRIVATE)
        no(t + "_update", "entries cannot be supplied by struct syntax", head + "pub fn g() -> C { C { 0: Default::default() } }", PRIVATE)
        no(t + "_match", "the map cannot be taken out by a pattern", head + "pub fn g(c: C) { let C(_m) = c; }", PRIVATE)
        for nm, bound in (("deref", "std::ops::Deref"), ("derefmut", "std::ops::DerefMut"), ("indexmut", "std::ops::IndexMut<(f64, f64), Output = %s>" % v), ("extend", "Extend<((f64, f64), %s)>" % v), ("fromiter", "std::iter::FromIterator<((f64, f64), %s)>" % v), ("extendraw", "Extend<((u64, u64), %s)>" % v), ("fromiterraw", "std::iter::FromIterator<((u64, u64), %s)>" % v),
                          ("asmut", "AsMut<std::collections::HashMap<(u64, u64), %s>>" % v), ("frommap", "From<std::collections::HashMap<(u64, u64), %s>>" % v)):
            no(t + "_" + nm, "%s does not give its map away (%s)" % (t, bound), head + "fn a<T: %s>() {} pub fn g() { a::<C>() }" % bound, ["E0277", "E0271"])
        for m in ("get_mut", "insert", "entry", "iter_mut", "values_mut", "drain", "extend"):
            no(t + "_no_" + m, "%s has no method %s" % (t, m), head + "pub fn g() { let _ = C::%s; }" % m, ["E0599"])
        ok(t + "_ctor", "constructors", head + "pub fn g() -> [C; 3] { [C::new(), C::with_capacity(7), C::default()] }")
        ok(t + "_threads", "a clone is used by another thread while the original is in use here", head + "pub fn g(c: &mut C) { let mut d = c.clone(); let h = std::thread::spawn(move || d.%s(0.5, 1.0)); let _ = c.%s(0.5, 1.0); let _ = h.join(); }" % (f, f))
    return out

def run(V, B, pid, tier):
    os.makedirs(B, exist_ok=True)
    viols, ev = [], []
    with open(os.path.join(B, ".witlock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        w = os.path.join(B, "wit"); shutil.rmtree(w, ignore_errors=True); os.makedirs(w + "/src"); os.makedirs(w + "/p")
        open(w + "/Cargo.toml", "w").write('[package]\nname = "wit"\nversion = "0.0.0"\nedition = "2021"\n[dependencies]\npuruspe = { path = "/repo" }\n[workspace]\n')
        open(w + "/src/lib.rs", "w").write("")
        if os.path.exists("/repo/Cargo.lock"): shutil.copy("/repo/Cargo.lock", w)
        env = dict(os.environ); env.pop("RUSTFLAGS", None); env["CARGO_TARGET_DIR"] = os.path.join(w, "t") # removed above: nothing stale
        r = subprocess.run(["cargo", "check", "--offline", "--message-format=json"], cwd=w, env=env, capture_output=True, text=True)
        art = [json.loads(l) for l in r.stdout.split("\n") if l.startswith("{")]
        files = [f for x in art if x.get("reason") == "compiler-artifact" and x["target"]["name"] == "puruspe" for f in x["filenames"] if f.endswith(".rmeta")]
        if r.returncode or len(files) != 1: return {"obligations": 1, "discharged": 0, "checker_cmd": "cargo check", "trusted_base": ["rustc's type checker"]}, [{"key": "build", "what": "the crate does not type-check", "detail": r.stderr[-1500:]}]
        deps = os.path.dirname(files[0])
        def one(p):
            name, what, text, codes = p
            f = os.path.join(w, "p", name + ".rs"); open(f, "w").write("#![allow(warnings)]\n" + text + "\n")
            q = subprocess.run(["rustc", "--edition", "2021", "--crate-type", "lib", "--crate-name", "p", "--emit=metadata=" + f[:-3] + ".rmeta", "--error-format=json", "--extern", "puruspe=" + files[0], "-L", "dependency=" + deps, f], capture_output=True, text=True, env=env)
            err = [json.loads(l) for l in q.stderr.split("\n") if l.startswith("{")]
            err = [e for e in err if e.get("level") == "error" and e.get("spans")]
            got = sorted({(e.get("code") or {}).get("code") or "?" for e in err})
            if codes is None:
                if q.returncode == 0: return None
                return {"key": name, "what": "%s: no longer so: `%s` is refused: %s" % (what, text[:200], "; ".join(e["message"] for e in err)[:300])}
            if q.returncode == 0: return {"key": name, "what": "%s: no longer so: `%s` compiles" % (what, text[:300])}
            if any(c not in codes for c in got) or not got: return {"key": name, "what": "%s: `%s` is refused, but for another reason than the witness is about: %s" % (what, text[:200], "; ".join("%s %s" % ((e.get("code") or {}).get("code"), e["message"]) for e in err)[:300])}
        ps = programs()
        with ThreadPoolExecutor(os.cpu_count() or 4) as ex: res = list(ex.map(one, ps))
    viols = [x for x in res if x]
    return {"obligations": len(ps), "discharged": len(ps) - len(viols), "checker_cmd": "rustc --emit=metadata over lib/witness.py's programs", "trusted_base": ["rustc's name resolution, type checker and borrow checker"],
            "witnesses_that_must_compile": sum(1 for p in ps if p[3] is None), "witnesses_that_must_be_refused": sum(1 for p in ps if p[3]), "rule": "every program of the first kind type-checks against /repo's current tree, every one of the second kind is refused with an error code of its own reason"}, viols
