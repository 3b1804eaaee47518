#!/usr/bin/env python3
"""check.py <property> [quick|thorough]  -- decides one property of /repo's current tree by static analysis.
exit 0: held on everything analysed; exit 1 with `VIOLATION property=<id> replay=<path>`: broken (or not decidable any more)."""
import sys, os, json, time, subprocess, lzma, re, traceback
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "lib"))
B = os.environ.get("VERIF_BUILD", os.path.join(V, "build"))
EV = os.path.join(V, "evidence")
TRUST = ["rustc (both the release pipeline and its LLVM passes) and the meaning of LLVM IR as read by absint/src/ll.rs",
         "absint (the abstract interpreter): outward-rounded intervals and Taylor models for IEEE-754 double arithmetic",
         "accuracy model of libm's exp, log, sin, cos, pow, ... (2 ulp), as used by the Rust standard library",
         "reference cells (mpmath at 40 to 60 digits, Chebyshev interpolation with an added error bound)"]

def known():
    k = {}
    p = os.path.join(V, "known-findings.txt")
    for l in open(p):
        m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
        if m: k.setdefault(m.group(1), {})[m.group(2)] = m.group(3).strip()
    return k

def build_ir():
    r = subprocess.run([os.path.join(V, "build_ir.sh")], capture_output=True, text=True)
    if r.returncode != 0: raise Broken("the analysis cannot be built from /repo's current tree", r.stderr[-3000:])
    p = r.stdout.split()
    if len(p) != 1: raise Broken("expected one IR module", r.stdout)
    return p[0]

class Broken(Exception):
    def __init__(s, what, detail=""): s.what = what; s.detail = detail

def spec(name):
    """unpack specs/<name>.obl.xz; fail closed when it does not hold the number of obligations it was written with"""
    txt = lzma.open(os.path.join(V, "specs", name + ".obl.xz"), "rt").read()
    n = sum(1 for l in txt.split("\n") if l and l[0] not in "#@")
    m = re.match(r"# obligations=(\d+)", txt)
    if not m or int(m.group(1)) != n or n == 0: raise Broken("obligation file %s is damaged" % name)
    d = os.path.join(B, "specs"); os.makedirs(d, exist_ok=True)
    p = os.path.join(d, name + ".obl")
    open(p, "w").write(txt)
    return p

def absint(pid, names, tier, only=None, extra=()):
    ir = build_ir()
    ps = [spec(n) for n in names]
    if only is not None: # the lines of some functions only
        for p in ps:
            t = [l for l in open(p) if l[0] in "#@\n" or l.split()[0] in only]
            open(p, "w").writelines(t)
    out = os.path.join(B, "out_%s.json" % pid)
    if os.path.exists(out): os.remove(out)
    cmd = [os.path.join(B, "absint/release/absint"), ir, "check", out, "-j", str(os.cpu_count() or 4), "-t", "820", *extra] + ps
    r = subprocess.run(cmd, capture_output=True, text=True)
    if not os.path.exists(out): raise Broken("the analyser stopped without a result (exit %s)" % r.returncode, r.stderr[-3000:])
    d = json.load(open(out))
    viols = []
    for v in d["violations"]:
        viols.append({"key": "%s(%s)@%s" % (v["func"], v["args"], v["box"]), "what": "%s(%s) on %s: %s%s" % (v["func"][2:], v["args"], v["box"], v["what"], "" if v["definite"] else " (not provable)"),
                      "function": v["func"][2:], "site": v["site"], "box": v["box"], "definite": v["definite"]})
    if d["timeout"] and not viols: viols.append({"key": "timeout", "what": "the analysis did not finish within its time limit: %d of %d obligations discharged" % (d["proved"], d["obligations"])})
    if not viols and d["proved"] != d["obligations"]: viols.append({"key": "count", "what": "only %d of %d obligations discharged" % (d["proved"], d["obligations"])})
    cov = {"obligations": d["obligations"], "discharged": d["proved"], "checker_cmd": " ".join(os.path.relpath(c, V) if c.startswith(V) else c for c in cmd), "trusted_base": TRUST,
           "cells_analysed": d["cells"], "ir_instructions_interpreted": d["steps"], "paths": d["paths"], "deepest_bisection": d["maxdepth"], "undecided_pieces": d.get("undecided_pieces", 0), "worst_error_over_tolerance": d["worst"],
           "functions_analysed": d["functions"], "loops_left_by_the_stopping_horizon": d["cutoffs"], "specs": names}
    return cov, viols

def main():
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    os.makedirs(EV, exist_ok=True); os.makedirs(B, exist_ok=True)
    t0 = time.time()
    import plan
    P = plan.PLAN[pid]
    cov, viols = {}, []
    try:
        for step in P["steps"]:
            if "tier" in step and step["tier"] != tier: continue
            if "specs" in step: c, v = absint(pid, step["specs"] + (step.get("thorough", []) if tier == "thorough" else []), tier)
            else: c, v = step["run"](V, B, pid, tier)
            viols += v
            for k, x in c.items():
                if k in ("obligations", "discharged"): cov[k] = cov.get(k, 0) + x
                elif k == "trusted_base": cov[k] = cov.get(k, []) + [y for y in x if y not in cov.get(k, [])]
                elif k == "checker_cmd" and k in cov: cov[k] += " ; " + x
                else: cov[k] = x
    except Broken as e:
        viols.append({"key": "broken", "what": e.what, "detail": e.detail})
    except Exception as e:
        viols.append({"key": "broken", "what": "the check failed: %r" % e, "detail": traceback.format_exc()})
    kn = known().get(pid, {})
    new = [v for v in viols if v["key"] not in kn]
    for v in viols:
        if v["key"] in kn: print("KNOWN-FINDING: property=%s %s" % (pid, kn[v["key"]]))
    cov.setdefault("obligations", 0); cov.setdefault("discharged", 0)
    cov.setdefault("checker_cmd", "check.py %s %s" % (pid, tier)); cov.setdefault("trusted_base", TRUST[:1])
    json.dump({"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": P.get("level", "proof"), "coverage": cov,
               "assumptions": P.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(new)}, open(os.path.join(EV, pid + ".json"), "w"), indent=1)
    if new:
        rp = os.path.join(EV, pid + ".replay.json")
        json.dump({"property": pid, "rerun": "cd /verif && ./check.py %s %s" % (pid, tier), "violations": new}, open(rp, "w"), indent=1)
        for v in new[:5]:
            print("%s: %s" % (pid, v["what"]))
            if v.get("detail"): print(v["detail"][-1500:])
        print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(rp, V)))
        return 1
    print("%s holds: %d of %d obligations discharged in %.1f s" % (pid, cov["discharged"], cov["obligations"], time.time() - t0))
    return 0

if __name__ == "__main__":
    sys.exit(main())
