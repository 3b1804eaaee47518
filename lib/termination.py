"""S27: every call takes a bounded number of steps. Trip counts by LLVM's scalar evolution, the rest by absint without the stopping horizon."""
import os, re, subprocess, glob, fcntl, shutil, json
import cursor
CAP = 100000
ORDER = {"v_jn", "v_yn", "v_in", "v_kn", "v_besseljy", "v_besselik", "v_jnuynu", "v_inuknu"}
NAMES = {"gamma", "factorial", "frexp", "ldexp", "sign", "refrexp"}
class Broken(Exception): pass

def build2(V, B):
    """optimised IR without runtime unrolling and without overflow checks (as a user's release build)"""
    with open(os.path.join(B, ".ir2lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        w = os.path.join(B, "h2"); shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
        shutil.copy(os.path.join(V, "harness/Cargo.toml"), w); shutil.copytree(os.path.join(V, "harness/src"), os.path.join(w, "src")); shutil.copy("/repo/Cargo.lock", w)
        t = os.path.join(B, "ht2")
        for p in ("release/deps/harness*.ll", "release/.fingerprint/puruspe-*", "release/.fingerprint/harness-*"):
            for f in glob.glob(os.path.join(t, p)): shutil.rmtree(f) if os.path.isdir(f) else os.remove(f)
        env = dict(os.environ, RUSTC_BOOTSTRAP="1", CARGO_TARGET_DIR=t, CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS="false", CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS="false",
                   RUSTFLAGS="-C no-vectorize-loops -C no-vectorize-slp -Z ub-checks=no -C llvm-args=-unroll-runtime=false")
        r = subprocess.run(["cargo", "rustc", "--release", "--offline", "-q", "--", "--emit=llvm-ir"], cwd=w, env=env, capture_output=True, text=True)
        f = glob.glob(os.path.join(t, "release/deps/harness*.ll"))
        if r.returncode or len(f) != 1: raise Broken("cannot build the IR: " + r.stderr[-2500:])
        sysroot = subprocess.run(["rustc", "--print", "sysroot"], capture_output=True, text=True).stdout.strip()
        opt = glob.glob(os.path.join(sysroot, "lib/rustlib/*/bin/opt"))[0]
        r = subprocess.run([opt, "-passes=print<scalar-evolution>", "-disable-output", f[0]], capture_output=True, text=True)
        if r.returncode: raise Broken("opt failed: " + r.stderr[-1000:])
        r2 = subprocess.run([opt, "-passes=print<loops>", "-disable-output", f[0]], capture_output=True, text=True)
        return open(f[0]).read(), r.stderr + r.stdout, r2.stderr + r2.stdout

def functions(ir):
    F, cur = {}, None
    noret = set(re.findall(r"^attributes (#\d+) = \{[^}]*\bnoreturn\b", ir, re.M))
    for l in ir.split("\n"):
        m = re.match(r"(define|declare) .*?@(\"[^\"]+\"|[\w.$]+)\((.*)\)([^()]*(\([^()]*\)[^()]*)*)$", l)
        if m:
            n = m.group(2).strip('"'); at = re.findall(r"#\d+", m.group(4))
            f = F[n] = {"defined": m.group(1) == "define", "noreturn": any(a in noret for a in at), "params": re.findall(r"(?:^|, )(double|i\d+|ptr)[^,%]*?(%[\w.]+)", m.group(3)), "defs": {}, "calls": set(), "lines": 0}
            cur = f if m.group(1) == "define" else None; continue
        if l == "}": cur = None
        if cur is None or l.lstrip().startswith(";"): continue
        cur["lines"] += 1
        m = re.match(r"\s+(%[\w.]+) = (.*)", l)
        body = m.group(2) if m else l.strip()
        body = re.sub(r", ![\w]+ !\d+", "", body)
        if m: cur["defs"][m.group(1)] = body
        if re.search(r"\b(call|invoke)\b", body):
            c = re.search(r"@(\"[^\"]+\"|[\w.$]+)\(", body)
            if c: cur["calls"].add(c.group(1).strip('"'))
            elif not re.search(r"\basm\b", body): cur["calls"].add("<indirect>")
    return F

def loops(txt):
    """{function: {header: {max, sym}}}"""
    o, cur = {}, None
    for l in txt.split("\n"):
        m = re.match(r"Determining loop execution counts for: @(.*)", l)
        if m: cur = o.setdefault(m.group(1).strip('"'), {}); continue
        m = re.match(r"Loop (%[\w.]+): (.*)", l)
        if not m or cur is None: continue
        d = cur.setdefault(m.group(1), {"max": None, "sym": None})
        t = m.group(2)
        c = re.match(r"constant max backedge-taken count is i\d+ (-?\d+)", t)
        if c: d["max"] = int(c.group(1))
        c = re.match(r"symbolic max backedge-taken count is (.*)", t)
        if c: d["sym"] = c.group(1)
    return o

def slice_(f, v):
    seen, todo = set(), [v]
    while todo:
        x = todo.pop()
        if x in seen: continue
        seen.add(x)
        if x in f["defs"]: todo += re.findall(r"%[\w.]+", f["defs"][x])
    return seen

def run_term(V, B, pid, tier):
    import sys
    ck = sys.modules["__main__"]
    ir, scev, lp = build2(V, B)
    F, L = functions(ir), loops(scev)
    roots = sorted(f for f in F if f.startswith("v_") and F[f]["defined"])
    if len(roots) < 32: raise Broken("only %d entry points found" % len(roots))
    def reach(r):
        s, todo = set(), [r]
        while todo:
            x = todo.pop()
            if x in s: continue
            if x == "<indirect>": s.add(x); continue
            if x not in F or F[x]["noreturn"] or not F[x]["defined"]: continue
            s.add(x); todo += F[x]["calls"]
        return s
    R = {r: reach(r) for r in roots}
    # recursion: functions that can reach themselves
    rec = set()
    for x in set().union(*R.values()):
        if x == "<indirect>": continue
        if any(x in reach(c) for c in F[x]["calls"]): rec.add(x)
    def short(n):
        m = re.search(r"7puruspe(?:\d+[a-z]\w*?)*?(\d+)([A-Za-z_]\w*)$", n)
        t = re.findall(r"\d+([A-Za-z_]+\w*?)(?=\d|$|E|_)", n.split("7puruspe")[-1]) if "7puruspe" in n else []
        if n.startswith("v_"): return n[2:]
        ids, i, s = [], 0, n.split("7puruspe")[-1]
        while i < len(s):
            m = re.match(r"(\d+)", s[i:])
            if not m: break
            k = int(m.group(1)); i += len(m.group(1))
            if s[i:i+1] == "_" : i += 1
            ids.append(s[i:i+k]); i += k
        return ids[-1] if ids else n
    # the full-domain obligations that may replace a trip count
    full = set(l.split()[0] for l in __import__("lzma").open(os.path.join(V, "specs/S27.obl.xz"), "rt") if l.startswith("v_"))
    open_, nl, info = {}, 0, []
    for fn in sorted(set().union(*R.values())):
        if fn == "<indirect>":
            open_.setdefault(fn, []).append("a call through a pointer"); continue
        users = [r for r in roots if fn in R[r]]
        for h, d in sorted(L.get(fn, {}).items()):
            nl += 1
            why = None
            if d["sym"] is None:
                n = cursor.bound(ir, fn, h, CAP)
                if n is not None: info.append("%s: a cursor of at most %d steps" % (short(fn), n)); continue
                why = "no bound on the loop at %s" % h
            elif d["max"] is not None and 0 <= d["max"] <= CAP: info.append("%s: at most %d iterations" % (short(fn), d["max"])); continue
            else:
                leaves = set(re.findall(r"%[\w.]+", re.sub(r"<[^>]*>", "", d["sym"])))
                par = [p for t, p in F[fn]["params"] if t != "ptr"]
                helper = not fn.startswith("v_") and short(fn) not in ("besseljy", "besselik")
                if not all(u in ORDER for u in users): why = "the loop at %s can run %s times" % (h, d["sym"] if d["max"] is None or d["max"] < 0 else d["max"])
                elif not leaves: why = "the loop at %s can run %s times" % (h, d["sym"])
                else:
                    for x in leaves:
                        sl = slice_(F[fn], x)
                        if not (par and (par[0] in sl or helper and sl & set(par))): why = "the number %s of iterations at %s does not come from the order" % (d["sym"], h)
                if why is None: info.append("%s: %s iterations, from the order" % (short(fn), d["sym"])); continue
            open_.setdefault(fn, []).append(why)
        if fn in rec: open_.setdefault(fn, []).append("is recursive")
    # discharge by absint over the whole domain
    need, viols = set(), []
    for fn, ws in open_.items():
        own = "v_" + short(fn)
        if fn != "<indirect>" and own in full and own in roots: need.add(own); continue
        users = [r for r in roots if fn in R[r]]
        if users and all(u in full for u in users): need |= set(users); continue
        for w_ in ws: viols.append({"key": "%s/%s" % (short(fn), re.sub(r"%[\w.]+", "%", w_)), "what": "%s: %s, and nothing else bounds it" % (short(fn), w_), "function": short(fn)})
    cov, v2 = ck.absint(pid, ["S27"], tier, only=need | {"v_gamma", "v_factorial", "v_frexp"}, extra=["-h", "0"])
    cov["obligations"] += nl + len(roots); cov["discharged"] += nl + len(roots) - len(viols)
    cov.update({"loops": nl, "entry_points": len(roots), "functions_reached": len(set().union(*R.values())), "bounded_by_trip_count": sorted(set(info)), "bounded_by_exhaustive_interpretation": sorted(need), "recursive": sorted(short(x) for x in rec),
                "rule": "every loop has a trip count bounded by a constant of at most %d, or by a number computed from the order; recursion and other loops are followed exhaustively over the whole domain" % CAP})
    return cov, viols + v2
