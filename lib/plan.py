"""Which analysis decides which property."""
H = "stopping horizon: a floating-point exit test of a loop that stays undecided for 40 iterations in a row is assumed to leave the loop; the loops concerned are listed in the evidence"
C = "a panic of a 'failure to converge' check is not excluded where the analysis cannot bound the iteration count"
def num(*specs, **kw): return {"steps": [{"specs": list(specs), **kw}], "assumptions": [H]}
PLAN = {i: num(i) for i in "A01 A02 A03 A04 A05 A06 A07 A08 A09 A10 A11 A12 A13 A14 A15 A16 A17 A18 A19".split()}
import caches
MA = ["the pure functions besseljy and besselik are not followed here: that they are functions of their arguments alone is property S24"]
for i in ("S21", "S22", "S23", "S29"): PLAN[i] = {"steps": [{"run": caches.run_caches}], "assumptions": MA if i != "S29" else ["the lambert_w crate is the version Cargo.lock pins; its own accuracy is not judged"]}
PLAN["A20"] = num("A20"); PLAN["S25"] = num("S25"); PLAN["S28"] = num("S28"); PLAN["S26"] = {"steps": [{"specs": ["S26"]}], "assumptions": []}
import purity
PLAN["S24"] = {"steps": [{"run": purity.run_purity}], "assumptions": ["the std modules listed in lib/purity.py have no observable effects, and libm's functions are functions of their arguments"]}
PLAN["S31"] = {"steps": [{"run": purity.run_unsafe}], "assumptions": ["std and the dependencies are sound"]}
import termination
PLAN["S27"] = {"steps": [{"run": termination.run_term}], "assumptions": ["opt's scalar evolution computes sound trip counts", "std's own routines (allocation, formatting of panic messages, libm) terminate"]}
import witness
PLAN["S30"] = {"steps": [{"run": witness.run}], "assumptions": []}
