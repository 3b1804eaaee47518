"""A bound for loop nests that walk one cursor to a fixed end, such as iterators with filter or take_while over a table.
Scalar evolution gives up on these (the inner loop starts where the last one stopped); the argument here is: the whole nest has
a single increment x + c, every turn of every loop of the nest goes through it, every loop carries the cursor on
(so that it is never set back), and every turn passes a test of the cursor against a constant end that leaves the nest."""
import re

def blocks(ir, fn):
    """{label: [instructions]} of a function, in order"""
    i = re.search(r"^define [^\n]*@\"?%s\"?\(" % re.escape(fn), ir, re.M)
    if not i: return {}
    body = ir[i.start():ir.index("\n}", i.start())].split("\n")
    out, cur = {}, None
    for l in body[1:]:
        m = re.match(r"([\w.$-]+|\"[^\"]+\"):", l)
        if m: cur = "%" + m.group(1); out[cur] = []; continue
        if not l.strip() or l.lstrip().startswith(";"): continue
        if cur is None: cur = "%entry"; out[cur] = []
        l = re.sub(r",? ![\w.]+( !\d+)?", "", l.strip())
        if out[cur] and re.match(r"(to label|i\d+ -?\d+, label|\])", l): out[cur][-1] += " " + l # continued
        else: out[cur].append(l)
    return out

def sccs(nodes, succ):
    idx, low, st, on, res, n = {}, {}, [], set(), [], [0]
    def go(v):
        work = [(v, iter([w for w in succ[v] if w in nodes]))]
        idx[v] = low[v] = n[0]; n[0] += 1; st.append(v); on.add(v)
        while work:
            x, it = work[-1]
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = n[0]; n[0] += 1; st.append(w); on.add(w)
                    work.append((w, iter([u for u in succ[w] if u in nodes]))); break
                elif w in on: low[x] = min(low[x], idx[w])
            else:
                work.pop()
                if work: low[work[-1][0]] = min(low[work[-1][0]], low[x])
                if low[x] == idx[x]:
                    c = set()
                    while True:
                        y = st.pop(); on.discard(y); c.add(y)
                        if y == x: break
                    res.append(c)
    for v in nodes:
        if v not in idx: go(v)
    return [c for c in res if len(c) > 1 or any(v in succ[v] for v in c)]

def nest(B, succ):
    """loops as (header, body, parent index); None where the control flow is irreducible"""
    out = []
    def rec(nodes, dead, parent):
        s = {v: [w for w in succ[v] if w not in dead] for v in nodes}
        for c in sccs(nodes, s):
            heads = {w for v in B if v not in c for w in succ[v] if w in c} if parent is None else \
                    {w for v in out[parent][1] - c for w in succ[v] if w in c and w not in dead} | {w for w in c if w in dead}
            if len(heads) != 1: raise ValueError
            h = heads.pop(); out.append((h, c, parent)); rec(c, dead | {h}, len(out) - 1)
    try: rec(set(B), set(), None)
    except ValueError: return None
    return out

VAL = r"(%[\w.$-]+|-?\d+|null|@[\w.$]+)"
def bound(ir, fn, header, cap):
    """largest number of turns of all loops of the nest around `header` taken together, or None"""
    B = blocks(ir, fn)
    if header not in B: return None
    succ = {b: re.findall(r"label (%[\w.$-]+)", t[-1] if t else "") for b, t in B.items()}
    N = nest(B, succ)
    if N is None: return None
    mine = [i for i, l in enumerate(N) if l[0] == header]
    if len(mine) != 1: return None
    defs, where = {}, {}
    for b, t in B.items():
        for l in t:
            m = re.match(r"(%[\w.$-]+) = (.*)", l)
            if m: defs[m.group(1)] = m.group(2); where[m.group(1)] = b
    i = mine[0]; chain = [i]
    while N[i][2] is not None: i = N[i][2]; chain.append(i)
    for o in chain: # any loop around may serve as the nest
        h, body, _ = N[o]
        r = walk(B, succ, N, defs, where, body, header, cap)
        if r is not None: return r
    return None

def step(d):
    """(operand, constant) of an addition of a constant"""
    m = re.match(r"add (?:nuw |nsw )*i\d+ %s, (-?\d+)$" % VAL, d)
    if m: return m.group(1), int(m.group(2))
    m = re.match(r"getelementptr (?:inbounds |nuw |nusw )*(i8|\[\d+ x i8\]|double), ptr %s, i64 (-?\d+)$" % VAL, d)
    if m:
        k = {"i8": 1, "double": 8}.get(m.group(1)) or int(re.match(r"\[(\d+)", m.group(1)).group(1))
        return m.group(2), k * int(m.group(3))
    return None

def outside(v, defs):
    """(base, offset) of a value from outside the nest"""
    off = 0
    while v in defs:
        s = step(defs[v])
        if not s: break
        v = s[0]; off += s[1]
    return ("", int(v) + off) if re.match(r"-?\d+$", v) else (v, off)

def walk(B, succ, N, defs, where, body, header, cap):
    for t in body:
        m = re.match(r"br i1 (%[\w.$-]+), label (%[\w.$-]+), label (%[\w.$-]+)", B[t][-1] if B[t] else "")
        if not m: continue
        c = re.match(r"icmp (eq|ne|ult|ugt|ule|uge|slt|sgt|sle|sge) \S+ %s, %s$" % (VAL, VAL), defs.get(m.group(1), ""))
        if not c or where.get(m.group(1)) != t: continue # the test belongs to the turn that branches on it
        leave = [k for k in (2, 3) if m.group(k) not in body]
        if len(leave) != 1: continue
        op, x, e = c.group(1), c.group(2), c.group(3)
        if not (x in defs and where[x] in body): x, e = e, x; op = {"ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule", "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle"}.get(op, op)
        if not (x in defs and where[x] in body) or (e in defs and where[e] in body): continue
        if leave[0] == 3: op = {"eq": "ne", "ne": "eq", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt"}[op]
        # now: the nest is left when `x op e`; close x backwards over phis and the increment
        S, todo, inc, start, ok = set(), [x], None, set(), True
        while todo and ok:
            v = todo.pop()
            if v in S: continue
            if v not in defs or where[v] not in body: start.add(outside(v, defs)); continue
            S.add(v); d = defs[v]
            if d.startswith("phi "):
                todo += re.findall(r"\[ %s, " % VAL, d)
            elif step(d):
                if inc not in (None, v): ok = False
                inc = v; todo.append(step(d)[0])
            else: ok = False
        if not ok or inc is None or len(start) != 1: continue
        k = step(defs[inc])[1]; (base, s0), (eb, e0) = start.pop(), outside(e, defs)
        if base != eb or k == 0 or (s0 < 0 or e0 < 0) and base == "": continue
        if op == "eq":
            if (e0 - s0) % k or (e0 - s0) // k < 1: continue
        elif op in ("uge", "ugt", "sge", "sgt"):
            if k < 0 or base: continue
        else: continue
        n = abs(e0 - s0) // abs(k) + 2
        if n > cap: continue
        # phis of the cursor alone must not form a cycle: every one goes through the increment
        ph = {v for v in S if v != inc}
        if sccs(ph, {v: [w for w in re.findall(r"\[ %s, " % VAL, defs[v])] for v in ph}): continue
        # a value from outside may enter only on an edge from outside
        if any(not (w in defs and where[w] in body) and p in body for v in ph for w, p in re.findall(r"\[ %s, (%%[\w.$-]+) \]" % VAL, defs[v])): continue
        ib = where[inc]
        inner = lambda b: min((l for l in N if b in l[1]), key=lambda l: len(l[1]))
        # what is tested, and what is incremented, is the cursor of the loop at hand, not that of a loop around it
        if where[x] not in inner(t)[1] or where.get(step(defs[inc])[0]) not in inner(ib)[1]: continue
        # and the cursor of a loop around it comes in at the head of a loop only, when that is entered
        if any(w in S and where[w] not in inner(where[v])[1] and (where[v] != inner(where[v])[0] or p in inner(where[v])[1])
               for v in ph for w, p in re.findall(r"\[ %s, (%%[\w.$-]+) \]" % VAL, defs[v])): continue
        def every(b): # every turn through `header`'s loops, and of each loop around the increment, passes b
            rest = body - {b}
            for q in sccs(rest, succ):
                if not any(q <= l[1] and ib not in l[1] and header not in l[1] for l in N if l[1] < body): return False
            return True
        if not (every(ib) and every(t)): continue
        # each loop that contains the increment carries the cursor on
        if any(not any(where[v] == l[0] for v in ph) for l in N if l[1] <= body and ib in l[1]): continue
        return n
    return None
