"""S21 (transparency), S22 (bookkeeping), S23 (projections), S29 (re-exports): provenance dataflow over MIR."""
import os, json, subprocess, shutil, glob, re, fcntl
import mirflow
from mirflow import *

TRUST = ["rustc's front end and MIR construction (nightly), and resolution of every callee",
         "mirflow.py: provenance dataflow over MIR", "the documented meaning of std's HashMap/BTreeMap operations and of f64::to_bits/from_bits"]
CACHES = {"jy2": ("CachedJnuYnu", "Jnu_Ynu"), "ik2": ("CachedInuKnu", "Inu_Knu"), "jy4": ("CachedBesselJY", "besseljy"), "ik4": ("CachedBesselIK", "besselik")}

class MirError(Exception): pass
def build(V, B):
    """builds the wrapper, compiles capi (and /repo) under it and returns the dump"""
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, ".mirlock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        env = dict(os.environ); env.pop("RUSTFLAGS", None); env["CARGO_TARGET_DIR"] = os.path.join(B, "mirdump")
        r = subprocess.run(["cargo", "+nightly", "build", "--release", "--offline", "-q"], cwd=os.path.join(V, "mirdump"), env=env, capture_output=True, text=True)
        if r.returncode: raise MirError("mirdump does not build: " + r.stderr[-1500:])
        sysroot = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], capture_output=True, text=True).stdout.strip()
        w = os.path.join(B, "capi"); shutil.rmtree(w, ignore_errors=True); shutil.copytree(os.path.join(V, "capi"), w, ignore=shutil.ignore_patterns("target", "Cargo.lock"))
        if os.path.exists("/repo/Cargo.lock"): shutil.copy("/repo/Cargo.lock", w)
        t = os.path.join(B, "capit"); out = os.path.join(B, "mir.json")
        for pat in ("*/.fingerprint/%s-*", "*/build/%s", "*/incremental/%s-*"): # never trust modification times
            for c in ("capi", "puruspe"):
                for f in glob.glob(os.path.join(t, pat % c)): shutil.rmtree(f, ignore_errors=True)
        if os.path.exists(out): os.remove(out)
        env["CARGO_TARGET_DIR"] = t; env["RUSTFLAGS"] = "-Zalways-encode-mir --force-warn unsafe-code"; env["MIRDUMP_OUT"] = out
        env["LD_LIBRARY_PATH"] = os.path.join(sysroot, "lib"); env["RUSTC_WORKSPACE_WRAPPER"] = os.path.join(B, "mirdump/release/mirdump")
        r = subprocess.run(["cargo", "+nightly", "check", "--offline", "--message-format=json-diagnostic-short"], cwd=w, env=env, capture_output=True, text=True)
        msgs = [json.loads(l) for l in r.stdout.split("\n") if l.startswith("{")]
        msgs = [x for x in msgs if x.get("reason") == "compiler-message"]
        if r.returncode or not os.path.exists(out): raise MirError("the API entry points do not compile against /repo: " + "".join(x["message"].get("rendered") or "" for x in msgs)[-2500:] + r.stderr[-800:])
        d = json.load(open(out))
        d["unsafe"] = []
        for x in msgs:
            if ((x["message"].get("code") or {}).get("code")) != "unsafe_code": continue
            for sp in x["message"]["spans"]:
                f = sp["file_name"]
                if x["target"]["name"] == "puruspe": d["unsafe"].append({"file": f.rsplit("/repo/", 1)[-1], "line": sp["line_start"], "message": x["message"]["message"], "text": (sp.get("text") or [{"text": ""}])[0]["text"]})
        return d

def short(t, n=160):
    def f(t):
        if not isinstance(t, tuple) or not t: return str(t)
        k = t[0]
        if k == "arg": return t[1]
        if k == "k": return "%s:%s" % (t[2], t[1])
        if k == "agg":
            tag = t[1] if isinstance(t[1], str) else t[1][0]
            tag = {"tuple": "", OPTION: ["None", "Some"][t[2]] if t[1] == OPTION else ""}.get(tag, tag.rsplit("::", 1)[-1])
            return tag + "(" + ", ".join(f(x) for x in t[3]) + ")"
        if k == "call": return strip_generics(t[1]).rsplit("::", 1)[-1] + "(" + ", ".join(f(x) for x in t[2]) + ")"
        if k in ("tobits", "frombits"): return k + "(" + f(t[1]) + ")"
        if k == "proj": return f(t[1]) + "." + str(t[2])
        if k == "bin": return "(%s %s %s)" % (f(t[2]), t[1], f(t[3]))
        if k == "un": return "%s(%s)" % (t[1], f(t[2]))
        if k == "cast": return "(%s as %s)" % (f(t[4]), t[3])
        if k == "at": return "entry[" + f(t[2]) + "]"
        if k == "M": return "map" + "".join("+" + o[0] for o in t[2])
        return (f(k) if isinstance(k, tuple) else str(k)) + "(" + ", ".join(f(x) for x in t[1:] if isinstance(x, tuple)) + ")"
    try: s = f(t)
    except Exception: s = str(t)
    return s if len(s) < n else s[:n] + "..."

class An:
    def __init__(s, dump, opaque=()):
        s.d = dump; s.F = Flow(dump, opaque); s.v = []; s.ob = 0; s.ok = 0; s.free = {}
    def bad(s, fn, what, clause): s.v.append({"key": "%s/%s" % (fn, clause), "what": "%s: %s" % (fn, what), "function": fn})
    def check(s, cond, fn, what, clause):
        s.ob += 1
        if cond: s.ok += 1
        else: s.bad(fn, what, clause)
        return cond
    def entry(s, n):
        m = s.d["entries"].get("capi::" + n)
        if m is None: raise MirError("entry point %s is missing from the dump" % n)
        return m
    def go(s, n, args, mem=None):
        return s.F.run(s.entry(n), args, mem or {})
    def freepaths(s, f):
        """[(facts, value or panic)] of the uncached function"""
        if f not in s.free:
            s.free[f] = [(P.facts, v) for P, v in s.go("free::h_" + f, [arg("nu"), arg("x")])]
        return s.free[f]
    def matches(s, f, facts, val):
        for ff, fv in s.freepaths(f):
            if fv == val and all(facts.get(k) == x for k, x in ff.items()): return True
            if fv[0] == "panic" and val[0] == "panic" and all(facts.get(k) == x for k, x in ff.items()): return True
        return False

def mappaths(v, pre=()):
    if v == ("M", ("emptymap",), ()): return [pre]
    if v[0] == "agg": return sum([mappaths(x, pre + (i,)) for i, x in enumerate(v[3])], [])
    return []

def cache(a, mod):
    """analyses one cache type; yields through a.check"""
    ty, meth = CACHES[mod]; F = a.F; nu, x = arg("nu"), arg("x")
    def guard(fn, clause, g):
        a.ob += 1
        try: g(); a.ok += 1
        except Undecided as e: a.bad("%s::%s" % (ty, fn), "the dataflow cannot follow it: %s" % e, clause)
    st = {}
    def unfold():
        r = a.go(mod + "::h_new", [])
        if not a.check(len(r) == 1 and r[0][1][0] == "agg", ty + "::new", "does not plainly construct a cache", "new"): return
        mp = mappaths(r[0][1])
        if not a.check(len(mp) == 1, ty + "::new", "the new cache does not hold exactly one empty map", "new"): return
        st["mp"] = mp[0]; st["new"] = r[0][1]
    guard("new", "new", unfold)
    if "mp" not in st: return
    mp = st["mp"]
    def selfmem(): return {"arg:self": arg("self"), "arg:other": arg("other")}
    S, O = ("ref", ("arg:self", ())), ("ref", ("arg:other", ()))
    def base(w):
        v = arg(w)
        for i in mp: v = ("proj", v, i)
        return v
    M0 = base("self")
    def mapof(P): return F.asmap(F.read(P, ("arg:self", mp)))
    def same(P): return mapof(P) == ("M", M0, ())
    def others(P): # nothing else in the cache changes
        v = P.mem["arg:self"]
        def strip(v, w, path):
            if v == w: return True
            if v[0] == "with": return all((i == path[0] if path else False) for i, _ in v[2]) and v[1] == w if path else False
            return False
        return strip(v, arg("self"), mp)
    def emptyish():
        for h, n in (("h_with_capacity", [arg("n")]), ("h_default", [])):
            r = a.go(mod + "::" + h, n)
            for P, v in r: a.check(v == st["new"], ty + "::" + h[2:], "is not an empty cache", h[2:])
    guard("with_capacity/default", "new", emptyish)
    keys = set()
    def keyof(P, fn):
        ks = {k[2] for k in P.facts if k[0] == "has" and k[1] == M0}
        if len(ks) > 1: raise Undecided("several keys on one path")
        for k in ks:
            kp = keyparts(k)
            a.check({nu, x} <= kp, ty + "::" + fn, "the key %s does not determine both arguments bit for bit" % short(k), "key")
            keys.add(k)
        return ks.pop() if ks else None
    def compute():
        n = {"hit": 0, "miss": 0}
        fn = ty + "::" + meth
        for P, v in a.go(mod + "::h_compute", [S, nu, x], selfmem()):
            K = keyof(P, meth); hit = P.facts.get(("has", M0, K)) if K else None
            m = mapof(P); at = ("at", M0, K)
            if v[0] == "panic":
                a.check(a.matches(meth, P.facts, v), fn, "panics (%s) where the uncached function does not" % v[1][:80], "panic")
                a.check(same(P), fn, "leaves the map changed when it panics", "panic-map"); continue
            isF = a.matches(meth, P.facts, v)
            if hit: n["hit"] += 1; a.check(v == at or isF, fn, "returns %s for a stored key" % short(v), "hit")
            else: n["miss"] += 1; a.check(isF, fn, "returns %s, not %s(nu, x), for a new key" % (short(v), meth), "miss")
            a.check(m[1] == M0 and all(o[0] == "ins" and o[1] == K and (a.matches(meth, P.facts, o[2]) or (hit and o[2] == at)) for o in m[2]), fn, "stores something else than %s(nu, x) under the key of its arguments: %s" % (meth, "; ".join(short(o[2]) if o[0] == "ins" else o[0] for o in m[2])), "stored")
            if not hit: a.check(len(m[2]) > 0 and K is not None, fn, "does not store a value it had to compute", "insert")
            if hit: a.check(not any(e[0] == "call" for e in P.events), fn, "computes again for a stored key", "recompute")
            for e in P.events:
                if e[0] == "call":
                    snap = dict(e[3]).get("arg:self"); 
                    Q = Path({"arg:self": snap}); a.check(same(Q), fn, "changes the map before a computation that may panic", "panic-map")
            a.check(others(P), fn, "changes something besides the map", "other")
        a.check(n["hit"] >= 1 and n["miss"] >= 1, fn, "has no path for a stored key or none for a new key (%s)" % n, "paths")
    guard(meth, "compute", compute)
    def contains():
        for P, v in a.go(mod + "::h_contains", [S, nu, x], selfmem()):
            K = keyof(P, "contains"); hit = P.facts.get(("has", M0, K)) if K else None
            a.check(hit is not None and v == (TRUE if hit else FALSE), ty + "::contains", "returns %s where the key is %s" % (short(v), {True: "stored", False: "absent", None: "not looked up"}[hit]), "contains")
            a.check(same(P), ty + "::contains", "changes the map", "contains-pure")
    guard("contains", "contains", contains)
    def get():
        for P, v in a.go(mod + "::h_get", [S, nu, x], selfmem()):
            K = keyof(P, "get"); hit = P.facts.get(("has", M0, K)) if K else None
            want = some(("ref", ("arg:self", mp + (("slot", K),)))) if hit else NONE
            a.check(hit is not None and v == want, ty + "::get", "returns %s where the key is %s" % (short(v), {True: "stored", False: "absent", None: "not looked up"}[hit]), "get")
            a.check(same(P), ty + "::get", "changes the map", "get-pure")
    guard("get", "get", get)
    a.check(len(keys) == 1, ty, "lookups use different keys for the same arguments: %s" % "; ".join(short(k) for k in keys), "onekey")
    def simple(h, want, fn):
        for P, v in a.go(mod + "::" + h, [S], selfmem()):
            if v in (TRUE, FALSE) and ("is", want) in P.facts: v2 = want if P.facts[("is", want)] == ("eq", 1) and v == TRUE or P.facts[("is", want)] == ("eq", 0) and v == FALSE else v
            else: v2 = v
            a.check(v2 == want, ty + "::" + fn, "returns %s" % short(v), fn); a.check(same(P), ty + "::" + fn, "changes the map", fn + "-pure")
    guard("is_empty", "is_empty", lambda: simple("h_is_empty", ("isempty", ("M", M0, ())), "is_empty"))
    guard("len", "len", lambda: simple("h_len", ("len", ("M", M0, ())), "len"))
    def clear():
        for P, v in a.go(mod + "::h_clear", [S], selfmem()):
            a.check(mapof(P) == ("M", ("emptymap",), ()) or (mapof(P)[2] and mapof(P)[2][-1][0] == "clear"), ty + "::clear", "does not leave the map empty", "clear")
    guard("clear", "clear", clear)
    def capacity(h, args, fn):
        for P, v in a.go(mod + "::" + h, [S] + args, selfmem()):
            a.check(v[0] != "panic" and same(P) and others(P), ty + "::" + fn, "changes the contents of the cache", fn)
    guard("shrink_to_fit", "shrink_to_fit", lambda: capacity("h_shrink_to_fit", [], "shrink_to_fit"))
    guard("reserve", "reserve", lambda: capacity("h_reserve", [arg("n")], "reserve"))
    def retain():
        K = next(iter(keys)); F.entrykey = K
        fn = ty + "::retain"
        for P, v in a.go(mod + "::h_retain", [S, arg("f")], selfmem()):
            m = mapof(P)
            if not a.check(m[1] == M0 and len(m[2]) == 1 and m[2][0][0] == "retain", fn, "does not filter the map once", "retain"): continue
            want = ("callptr", arg("f"), (("agg", "tuple", 0, (nu, x)), ("entryval",)))
            for facts, res, cv, ck in m[2][0][1]:
                fd = dict(facts); fk = fd.get(repr(("is", want)))
                r = res == want or (fk == repr(("eq", 1)) and res == TRUE) or (fk == repr(("eq", 0)) and res == FALSE)
                a.check(r, fn, "keeps entries by %s instead of by f((nu, x), value)" % short(res), "retain-predicate")
                a.check(cv == ("entryval",) and ck == K, fn, "changes an entry while visiting it", "retain-pure")
            a.check(others(P), fn, "changes something besides the map", "other")
    if len(keys) == 1: guard("retain", "retain", retain)
    def clone():
        for P, v in a.go(mod + "::h_clone", [S], selfmem()):
            w = v
            for i in mp: w = fieldof(w, i)
            a.check(F.asmap(w) == ("M", M0, ()), ty + "::clone", "is not a copy of the map", "clone")
    guard("clone", "clone", clone)
    def eq():
        want = ("mapeq", ("M", M0, ()), ("M", base("other"), ()))
        for P, v in a.go(mod + "::h_eq", [S, O], selfmem()):
            k = P.facts.get(("is", want))
            a.check(v == want or (k is not None and v == (TRUE if k == ("eq", 1) else FALSE)), ty + "::eq", "does not compare the maps", "eq")
    guard("eq", "eq", eq)

def surface(a):
    """every function that could change a cache or make one is one of those analysed"""
    done = {n.rstrip(":") for n in a.F.followed}
    for name, sig, inst, generic in a.d["functions"]:
        ins, out = sig[:-1], sig[-1]
        c = [t for t in CACHES.values() if any("puruspe::" + t[0] in s for s in sig)]
        if not c: continue
        n = (strip_generics(a.d["bodies"][inst]["name"]) if inst else strip_generics(name)).rstrip(":")
        writes = any("&mut puruspe::Cached" in s for s in ins) or "puruspe::Cached" in out or "&mut" in out
        if "fmt::Debug" in name or not writes: continue
        a.check(n in done or strip_generics(name).rstrip(":") in done, name, "can change or make a cache and is not covered by the analysis", "surface")
    for tr, ty in a.d["impls"]:
        if any(ty == "puruspe::" + t[0] for t in CACHES.values()):
            a.check(tr.rsplit("::", 1)[-1] in ("Debug", "Clone", "PartialEq", "StructuralPartialEq", "Default", "Eq"), ty, "implements %s, which the analysis does not cover" % tr, "impl-" + tr)
    for b in a.d["bodies"].values():
        m = MAP.match(b["name"])
        if m and "puruspe::" in b["name"].split(">::")[0]:
            for k in set(re.findall(r"puruspe::[A-Za-z0-9_:]+", b["name"].split(",")[0])):
                a.check(("std::marker::StructuralPartialEq", k) in [tuple(i) for i in a.d["impls"]], k, "keys of this type may not compare field by field", "keytype")

TRANSPARENT = {"new", "with_capacity", "default", "key", "hit", "miss", "stored", "panic", "compute", "paths", "onekey", "retain-pure", "get", "clone", "surface", "keytype", "other"}
def split(v, wanted): return [x for x in v if (x["key"].rsplit("/", 1)[1].split("-")[0] in ("impl",) or x["key"].rsplit("/", 1)[1] in TRANSPARENT) == wanted]

def cov(a, extra):
    return {"obligations": a.ob, "discharged": a.ok, "checker_cmd": "lib/caches.py over build/mir.json", "trusted_base": TRUST,
            "functions_followed": sorted(a.F.followed), "functions_not_followed": sorted(a.F.notfollowed), "paths": a.F.paths, "mir_statements_interpreted": a.F.steps, "call_sites": a.F.sites, **extra}

def run_caches(V, B, pid, tier):
    a = An(build(V, B))
    if pid == "S23": return run_proj(a)
    if pid == "S29": return run_reexports(a)
    for mod in CACHES: cache(a, mod)
    surface(a)
    mine = split(a.v, pid == "S21")
    other = [x for x in a.v if x not in mine]
    c = cov(a, {"rule": "invariant: every stored entry K(nu, x) -> V has V = f(nu, x); established by the constructors, preserved on every path of every method", "types": [t for t, _ in CACHES.values()]})
    c["discharged"] += len(other) # those belong to the sibling property and are reported there
    return c, mine

def run_proj(a):
    for short_, full in (("Jnu_Ynu", "besseljy"), ("Inu_Knu", "besselik")):
        try:
            ps = a.go("free::h_" + short_, [arg("nu"), arg("x")]); fp = a.freepaths(full)
            n = 0
            for P, v in ps:
                want = [fv if fv[0] == "panic" else ("agg", "tuple", 0, (fieldof(fv, 0), fieldof(fv, 1))) for ff, fv in fp if all(P.facts.get(k) == x for k, x in ff.items())]
                ok = v in want or (v[0] == "panic" and any(w[0] == "panic" for w in want))
                a.check(ok, short_, "returns %s instead of the first two components of %s(nu, x)" % (short(v), full), "projection"); n += v[0] != "panic"
            a.check(n >= 1, short_, "never returns", "projection")
        except Undecided as e: a.ob += 1; a.bad(short_, "the dataflow cannot follow it: %s" % e, "projection")
    return cov(a, {"rule": "the result term equals the projection of the result term of the full function, path by path"}), a.v

def crate(m):
    """the crate that defines a mangled (v0) item"""
    r = re.search(r"Cs[0-9A-Za-z]*_(\d+)_?(\w+)", m)
    return r.group(2)[:int(r.group(1))] if r else None
def run_reexports(a):
    a.F.opaque_names = {m for m, b in a.d["bodies"].items() if crate(m) == "lambert_w"}
    def isit(v, f, args):
        return v[0] == "call" and v[2] == args and any(b["name"] == v[1] and crate(m) == "lambert_w" and m.endswith("%d%s" % (len(f), f)) for m, b in a.d["bodies"].items())
    for f, args in (("lambert_w", ["k", "re", "im"]), ("lambert_w0", ["x"]), ("lambert_wm1", ["x"]), ("sp_lambert_w0", ["x"]), ("sp_lambert_wm1", ["x"])):
        try:
            ps = a.go("free::h_" + f, [arg(n) for n in args])
            a.check(len(ps) == 1 and isit(ps[0][1], f, tuple(arg(n) for n in args)), f, "is not lambert_w::%s: %s" % (f, "; ".join(short(v) for _, v in ps[:3])), "reexport")
        except Undecided as e: a.ob += 1; a.bad(f, "the dataflow cannot follow it: %s" % e, "reexport")
    return cov(a, {"rule": "the resolved callee is the function of the lambert_w crate, applied to the same arguments"}), a.v
