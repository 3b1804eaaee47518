"""S24 (purity), S31 (no undefined behaviour): effect analysis over MIR, and the compiler's own unsafe-code lint."""
import re, json
import caches
from caches import crate

MINE = {"puruspe", "lambert_w"}
# the rest of std that crate code may call; everything else is an effect, or not known to be free of one
PURE = re.compile(r"(core|std|alloc)::(f32|f64|num|i8|i16|i32|i64|i128|isize|u8|u16|u32|u64|u128|usize|char|str|string|slice|array|vec|boxed|rc|cell|ops|iter|option|result|cmp|convert|clone|default|mem|marker|borrow|tuple|bool|ascii|any|fmt|hint|intrinsics|range|collections|hash|ptr|primitive|cmp::impls|panicking|rt|panic|error|alloc|assert_matches|assert_unchecked|ub_checks|pin|const_closure|unit|never|simd|num_imp|pat|contracts|internal_macros|autodiff|macros)(::|\b)|num_traits::|num_complex::")
EFFECT = re.compile(r"std::(io|env|fs|net|thread|process|time|os|sys|random|backtrace)::|std::hash::random|RandomState::new|core::arch::.*(rdtsc|rdrand|rdseed|cpuid|xgetbv)|std_detect|volatile|::assume_init|uninitialized|::zeroed|SystemTime|Instant::|expose_provenance|::addr\b|Location::<?'?_?>?::caller|catch_unwind|set_hook|take_hook|panic_any|abort|type_id_of_val|std::ptr::hash")
ITER = re.compile(r"collections::(hash::)?(hash_)?(map::|set::)?Hash(Map|Set)::<.*>::(iter|iter_mut|keys|values|values_mut|drain|into_keys|into_values|retain|extract_if|into_iter)|Hash(Map|Set)<.*> as std::iter::IntoIterator")
LIBM = set("acos acosf acosh asin asinh atan atan2 atanh cbrt ceil copysign cos cosh erf erfc exp exp10 exp2 expm1 fabs fdim floor fma fmax fmin fmod frexp hypot ilogb ldexp lgamma log log10 log1p log2 logb modf nearbyint nextafter pow remainder rint round scalbln scalbn sin sinh sqrt tan tanh tgamma trunc lgamma_r cosf sinf expf".split())

def refs(x, o):
    if isinstance(x, list):
        if x and x[0] == "fn" and len(x) == 2 and isinstance(x[1], str): o.add(x[1])
        elif x and x[0] == "closure": o |= {y for y in x[1:] if isinstance(y, str)}
        for y in x: refs(y, o)
    return o

def consts(x, o):
    if isinstance(x, list):
        if x and x[0] == "k": o.append(x)
        elif x and x[0] == "tls": o.append(x)
        else:
            for y in x: consts(y, o)
    return o

from mirflow import strip_generics
def last(n): return strip_generics(n).rstrip(":").rsplit("::", 1)[-1]

def captures(blocks, callee, bodies):
    """does a closure named in the callee's generic arguments capture anything?"""
    def aggs(x):
        if isinstance(x, list):
            if x and x[0] == "agg" and isinstance(x[1], list) and x[1][:1] == ["closure"]: yield x
            for y in x: yield from aggs(y)
    for a in aggs(blocks):
        for m in a[1][1:]:
            if m and a[3] and bodies[m]["name"].rsplit("::", 1)[-1] in callee: return True
    return False

def run_purity(V, B, pid, tier):
    d = caches.build(V, B); bodies = d["bodies"]; stats = d["statics"]
    viols, ob, sites, nfun, seenstat, ext = [], 0, 0, 0, set(), set()
    def bad(fn, what, clause): viols.append({"key": "%s/%s" % (fn, clause), "what": "%s: %s" % (fn, what), "function": fn})
    todo = [m for m, b in bodies.items() if crate(m) in MINE]
    for m in todo:
        b = bodies[m]; name = b["name"]; nfun += 1; ob += 1
        if b["body"] is None:
            if crate(m) == "puruspe" or last(name) not in LIBM:
                if b["kind"] in ("virtual",): continue
                if last(name) in LIBM: continue
                bad(name, "has no body the analysis can read (an external function)", "extern")
            continue
        cached = "puruspe::Cached" in name
        for bl in b["body"]["blocks"]:
            st, (t, file, line) = bl
            at = "%s:%d" % (file.rsplit("/repo/", 1)[-1], line)
            if t[0] == "asm": bad(name, "inline assembly at %s" % at, "asm")
            for s in st:
                if s[0] == "=" and s[2][0] == "cast" and re.search(r"PointerExpose|ExposeAddress|ExposeProvenance", s[2][1]): bad(name, "turns an address into a number (%s)" % at, "address")
                if s[0] == "=" and s[2][0] == "cast" and s[2][1] == "Transmute" and re.search(r"[&*]|Box<", s[2][3]) and not re.search(r"[&*]|Box<|fn\(|NonNull", s[2][4]): bad(name, "reinterprets an address as a value (%s)" % at, "address")
            for c in consts([st, t], []):
                ob += 1
                if c[0] == "tls": bad(name, "uses the thread-local %s (%s)" % (c[1], at), "tls"); continue
                for sn in re.findall(r"static ([^@\"]+)", c[3]) if c[1] == "mem" else []:
                    seenstat.add(sn)
                    s = stats.get(sn) or None
                    if not s: bad(name, "uses the static %s, which the analysis cannot read (%s)" % (sn, at), "static"); continue
                    if "*mut" in c[2]: bad(name, "uses the mutable static %s (%s)" % (sn, at), "static"); continue
                    if not s["plain"]: bad(name, "uses the static %s of type %s, which can change (%s)" % (sn, s["type"], at), "static"); continue
                    if s["mutable"] and s["kind"] == "plain": bad(name, "uses the mutable static %s (%s)" % (sn, at), "static")
            for c in refs([st, t], set()):
                sites += 1; ob += 1
                if crate(c) in MINE: continue
                n = bodies[c]["name"] if c in bodies else c
                ext.add(n)
                if bodies.get(c, {}).get("kind") == "virtual": continue
                if EFFECT.search(n): bad(name, "calls %s (%s)" % (n, at), "effect"); continue
                if ITER.search(n) and not cached: bad(name, "depends on the iteration order of a hash map: %s (%s)" % (n, at), "order"); continue
                if re.search(r"sync::.*(LazyLock|OnceLock)", n):
                    if re.search(r"OnceLock", n) and (last(n) not in ("get_or_init", "new") or captures(b["body"]["blocks"], n, bodies)): bad(name, "calls %s, so a result may depend on earlier calls (%s)" % (n, at), "effect")
                    continue
                if re.search(r"sync::|atomic", n): bad(name, "calls %s (%s)" % (n, at), "effect"); continue
                if not PURE.search(n): 
                    if last(n) in LIBM: continue
                    bad(name, "calls %s, which is not known to be free of effects (%s)" % (n, at), "effect")
    for tr, ty in d["impls"]:
        ob += 1
        if tr.endswith("::Drop"): bad(ty, "has a destructor, which the analysis does not cover", "drop")
    uniq = {}
    for v in viols: uniq.setdefault(v["key"], v)
    if nfun < 60: viols = [{"key": "coverage", "what": "only %d functions of the crate were found" % nfun}]
    return {"obligations": ob, "discharged": ob - len(viols), "checker_cmd": "lib/purity.py over build/mir.json", "trusted_base": ["rustc's front end and MIR construction (nightly), and resolution of every callee", "lib/purity.py's list of effect-free std modules"],
            "functions_analysed": nfun, "call_sites": sites, "statics": sorted(seenstat), "external_functions_called": sorted(ext),
            "rule": "no reachable function of puruspe or lambert_w reads or writes anything but its arguments, its locals and constants: no mutable static, interior mutability in a static, thread-local, clock, environment, I/O, address, or hash-map order"}, list(uniq.values())

def run_unsafe(V, B, pid, tier):
    d = caches.build(V, B)
    viols = [{"key": "%s:%s" % (x["file"], x["text"].strip()[:60]), "what": "%s:%d: %s (%s)" % (x["file"], x["line"], x["message"], x["text"].strip()[:100]), "function": x["file"]} for x in d["unsafe"]]
    n = sum(1 for m, b in d["bodies"].items() if crate(m) == "puruspe")
    sg = [f[0] for f in d["functions"]]
    return {"obligations": n, "discharged": n - len(viols), "checker_cmd": "rustc --force-warn unsafe-code over /repo/src", "trusted_base": ["rustc: safe Rust has no undefined behaviour", "the dependencies lambert_w, num-complex and num-traits, and std"],
            "functions_analysed": n, "rule": "no unsafe block, function, trait impl, extern block or attribute (no_mangle, export_name, link_section) in the crate, lint levels in the source notwithstanding"}, viols
