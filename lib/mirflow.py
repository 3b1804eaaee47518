"""Path-sensitive provenance dataflow over monomorphic MIR (from mirdump).

Values are terms recording where a value came from (argument, constant, aggregate, reference to a
memory cell, result of a function that is not followed, state of a map). Functions are followed into
their callees; a function that contains a loop is not followed: its result is a term over its arguments.
Collections are summarised by their documented meaning. No solver, no execution: branches on terms fork
the path and record the assumption."""
import json, re, sys
sys.setrecursionlimit(20000)

class Undecided(Exception): pass

def arg(n): return ("arg", n)
def bits(ty, v): return ("k", ty, v)
TRUE, FALSE = ("k", "bool", 1), ("k", "bool", 0)
OPTION = "std::option::Option"
def some(v): return ("agg", OPTION, 1, (v,))
NONE = ("agg", OPTION, 0, ())

MAP = re.compile(r"^(?:<)?(?:std|hashbrown|alloc)::(?:collections::|map::)(?:hash_map::|btree_map::)?(HashMap|BTreeMap)(?:::)?<")
def strip_generics(n):
    o = []; d = 0; i = 0
    while i < len(n):
        c = n[i]
        if c == "<": d += 1
        elif c == ">" and n[i - 1] != "-": d -= 1
        elif d == 0: o.append(c)
        i += 1
    return "".join(o)

class Path:
    __slots__ = ("mem", "facts", "events")
    def __init__(s, mem=None, facts=None, events=()): s.mem = mem or {}; s.facts = facts or {}; s.events = events
    def fork(s): return Path(dict(s.mem), dict(s.facts), s.events)

def fieldof(v, i, variant=None):
    if v[0] == "agg":
        if i < len(v[3]): return v[3][i]
        raise Undecided("field %d of %s" % (i, v[1]))
    if v[0] == "with":
        for j, w in v[2]:
            if j == i: return w
        return fieldof(v[1], i)
    return ("proj", v, i)
def setfield(v, i, w):
    if v[0] == "agg":
        f = list(v[3])
        while len(f) <= i: f.append(("undef",))
        f[i] = w; return ("agg", v[1], v[2], tuple(f))
    if v[0] == "undef": return setfield(("agg", "tuple", 0, ()), i, w)
    if v[0] == "with": return ("with", v[1], tuple((j, x) for j, x in v[2] if j != i) + ((i, w),))
    return ("with", v, ((i, w),))

def width(ty): return {"u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32, "u64": 64, "i64": 64, "usize": 64, "isize": 64, "u128": 128, "i128": 128, "bool": 1, "char": 32, "f64": 64, "f32": 32}.get(ty)

def fold(op, a, b):
    """constant folding and a few identities of integer and boolean operations; None when it stays symbolic"""
    if a[0] == "k" and b[0] == "k" and a[1] not in ("f64", "f32") and a[2] is not None:
        w = width(a[1]) or 64; m = (1 << w) - 1; sg = a[1][0] == "i"
        x, y = a[2], b[2]
        S = lambda v: v - (1 << w) if sg and v >> (w - 1) else v
        X, Y = S(x), S(y)
        r = {"Eq": X == Y, "Ne": X != Y, "Lt": X < Y, "Le": X <= Y, "Gt": X > Y, "Ge": X >= Y}.get(op)
        if r is not None: return TRUE if r else FALSE
        r = {"Add": X + Y, "Sub": X - Y, "Mul": X * Y, "BitAnd": x & y, "BitOr": x | y, "BitXor": x ^ y, "Shl": x << (y % w), "Shr": X >> (y % w)}.get(op.replace("Unchecked", ""))
        if r is not None: return ("k", a[1], r & m)
    if op in ("Eq", "Ne") and a == b and not floaty(a): return TRUE if op == "Eq" else FALSE
    if op in ("Eq", "Ne") and a[0] == "k": a, b = b, a
    if op in ("Eq", "Ne") and a[0] == "len" and b == ("k", "usize", 0): return ("isempty", a[1]) if op == "Eq" else neg(("isempty", a[1]))
    if op == "Lt" and b[0] == "len" and a == ("k", "usize", 0) or op == "Ge" and a[0] == "len" and b == ("k", "usize", 1): return neg(("isempty", (b if b[0] == "len" else a)[1]))
    if op == "Gt" and a[0] == "len" and b == ("k", "usize", 0): return neg(("isempty", a[1]))
    if op == "Lt" and a[0] == "len" and b == ("k", "usize", 1): return ("isempty", a[1])
    return None
def floaty(v): return v[0] in ("arg", "proj", "call", "frombits", "bin", "un", "at")
def neg(v):
    if v == TRUE: return FALSE
    if v == FALSE: return TRUE
    if v[0] == "un" and v[1] == "Not": return v[2]
    return ("un", "Not", v)
def tobits(v):
    if v[0] == "frombits": return v[1]
    if v[0] == "k": return ("k", "u64", v[2])
    return ("tobits", v)
def frombits(v):
    if v[0] == "tobits": return v[1]
    if v[0] == "k": return ("k", "f64", v[2])
    return ("frombits", v)

class Flow:
    def __init__(s, dump, opaque=(), maxpaths=4000, maxdepth=60):
        s.d = dump; s.B = dump["bodies"]; s.opaque_names = set(opaque); s.n = 0; s.maxpaths = maxpaths; s.maxdepth = maxdepth
        s.entrykey = ("entrykey",); s.steps = 0; s.paths = 0; s.followed = set(); s.notfollowed = set(); s.sites = 0; s._loops = {}
    def fresh(s, tag="c"): s.n += 1; return "%s%d" % (tag, s.n)
    def loops(s, m):
        if m not in s._loops:
            bl = s.B[m]["body"]["blocks"]; color = {}; found = False
            def succ(t):
                k = t[0]
                if k == "goto": return [t[1]]
                if k == "switch": return [b for _, b in t[3]] + [t[4]]
                if k == "drop": return [t[3]]
                if k == "call": return [t[4]] if t[4] is not None else []
                if k == "assert": return [t[3]]
                return []
            st = [(0, iter(succ(bl[0][1][0])))]; color[0] = 1
            while st:
                b, it = st[-1]
                for c in it:
                    if color.get(c) == 1: found = True
                    elif c not in color: color[c] = 1; st.append((c, iter(succ(bl[c][1][0])))); break
                else: color[b] = 2; st.pop()
            s._loops[m] = found
        return s._loops[m]

    # ---------------------------------------------------------------- memory
    def read(s, P, loc):
        cell, path = loc
        v = P.mem.get(cell)
        if v is None: raise Undecided("read of unknown cell")
        for i in path: v = s.step(P, v, i)
        return v
    def step(s, P, v, i):
        if isinstance(i, tuple) and i[0] == "v":
            if v[0] == "agg":
                if v[2] != i[1]: raise Undecided("wrong variant")
                return v
            return ("as", v, i[1])
        if isinstance(i, tuple) and i[0] == "slot":
            r = s.lookup(P, v, i[1])
            if r is None: raise Undecided("entry of a map that may have changed")
            return r
        return fieldof(v, i)
    def write(s, P, loc, w):
        cell, path = loc
        P.mem[cell] = s.put(P, P.mem.get(cell, ("undef",)), path, w)
    def put(s, P, v, path, w):
        if not path: return w
        i = path[0]
        if isinstance(i, tuple) and i[0] == "v": return s.put(P, v, path[1:], w)
        if isinstance(i, tuple) and i[0] == "slot":
            if len(path) > 1: w = s.put(P, s.lookup(P, v, i[1]), path[1:], w)
            return s.mapop(v, ("ins", i[1], w))
        old = fieldof(v, i) if v[0] != "undef" and not (v[0] == "agg" and i >= len(v[3])) else ("undef",)
        return setfield(v, i, s.put(P, old, path[1:], w))
    # ---------------------------------------------------------------- maps
    def asmap(s, v): return v if v[0] == "M" else ("M", v, ())
    def mapop(s, v, op): v = s.asmap(v); return ("M", v[1], v[2] + (op,))
    def lookup(s, P, m, key):
        """value at key, NONE term if absent, or None if unknown"""
        m = s.asmap(m)
        for op in reversed(m[2]):
            if op[0] == "ins":
                if op[1] == key: return op[2]
                raise Undecided("two keys whose relation is unknown")
            if op[0] == "rem":
                if op[1] == key: return "absent"
                raise Undecided("two keys whose relation is unknown")
            if op[0] == "clear": return "absent"
            raise Undecided("map after " + op[0])
        if m[1] == ("emptymap",): return "absent"
        f = P.facts.get(("has", m[1], key))
        if f is True: return ("at", m[1], key)
        if f is False: return "absent"
        return None
    def present(s, P, m, key):
        """fork on presence -> [(path, bool)]"""
        r = s.lookup(P, m, key)
        if r == "absent": return [(P, False)]
        if r is not None: return [(P, True)]
        base = s.asmap(m)[1]; A = P.fork(); A.facts[("has", base, key)] = True; Bp = P.fork(); Bp.facts[("has", base, key)] = False
        return [(A, True), (Bp, False)]

    # ---------------------------------------------------------------- places, operands
    def place(s, P, fr, p):
        cell, path = fr + ":" + str(p[0]), ()
        for e in p[1:]:
            if e == "*":
                v = s.read(P, (cell, path))
                if v[0] == "agg" and "Box" in v[1]: raise Undecided("box")
                if v[0] != "ref":
                    # a reference held in an unknown value: give its target a cell of its own
                    c = "deref:" + repr(v)
                    if c not in P.mem: P.mem[c] = ("deref", v)
                    cell, path = c, (); continue
                cell, path = v[1]
            elif isinstance(e, int): path += (e,)
            elif e[0] == "v": path += (("v", e[1]),)
            elif e[0] == "c" and not e[2]: path += (e[1],)
            elif e[0] == "i":
                iv = s.read(P, (fr + ":" + str(e[1]), ()))
                if iv[0] != "k": raise Undecided("index by an unknown value")
                path += (iv[2],)
            else: raise Undecided("projection %r" % (e,))
        return (cell, path)
    def operand(s, P, fr, o):
        if o[0] in ("c", "m"): return s.read(P, s.place(P, fr, o[1]))
        if o[1] == "bits": return ("k", o[2], int(o[3]))
        if o[1] == "zst":
            f = o[3]
            if f[0] in ("fn", "closure"): return ("agg", tuple(f), 0, ())
            if o[2] == "()": return ("agg", "tuple", 0, ())
            return ("agg", o[2], 0, ())
        if o[1] == "mem": return ("k", o[2], o[3])
        return ("const", o[2], o[3])
    def rvalue(s, P, fr, r):
        k = r[0]
        if k == "use": return s.operand(P, fr, r[1])
        if k == "ref": return ("ref", s.place(P, fr, r[2]))
        if k == "agg":
            tag = r[1] if isinstance(r[1], str) else tuple(r[1])
            return ("agg", tag, r[2], tuple(s.operand(P, fr, o) for o in r[3]))
        if k == "discr":
            v = s.read(P, s.place(P, fr, r[1]))
            if v[0] == "agg": return ("k", "isize", int(r[2][v[2]]) if r[2] else v[2])
            return ("discr", v)
        if k == "bin":
            a, b = s.operand(P, fr, r[2]), s.operand(P, fr, r[3])
            return fold(r[1], a, b) or ("bin", r[1], a, b)
        if k == "chk":
            a, b = s.operand(P, fr, r[2]), s.operand(P, fr, r[3])
            return ("agg", "tuple", 0, (fold(r[1], a, b) or ("bin", r[1], a, b), ("ovf", r[1], a, b)))
        if k == "un":
            a = s.operand(P, fr, r[2])
            if r[1] == "Not" and (a in (TRUE, FALSE) or a[0] in ("isempty", "has", "mapeq") or a[0] == "un"): return neg(a)
            return ("un", r[1], a)
        if k == "cast":
            v = s.operand(P, fr, r[2]); kind, frm, to = r[1], r[3], r[4]
            if r[5] and r[5][0] in ("fn", "closure"): return ("agg", tuple(r[5]), 0, v[3] if v[0] == "agg" else ())
            if kind == "Transmute" and frm == "f64" and to == "u64": return tobits(v)
            if kind == "Transmute" and frm == "u64" and to == "f64": return frombits(v)
            if kind in ("PtrToPtr",) or kind.startswith("PointerCoercion") or frm == to or kind == "Subtype": return v
            if kind == "IntToInt" and v[0] == "k" and isinstance(v[2], int) and width(to):
                x = v[2]
                if frm[0] == "i" and x >> (width(frm) - 1): x -= 1 << width(frm)
                return ("k", to, x & ((1 << width(to)) - 1))
            return ("cast", kind, frm, to, v)
        if k == "repeat":
            n = re.search(r"\d+", r[2])
            if not n: raise Undecided("repeat")
            return ("agg", "array", 0, (s.operand(P, fr, r[1]),) * int(n.group()))
        if k == "tls": return ("tls", r[1])
        raise Undecided("rvalue " + k)

    # ---------------------------------------------------------------- calls
    def call(s, P, m, args, depth):
        """-> list of (path, value) or (path, ("panic", why))"""
        s.sites += 1
        b = s.B[m]; name = b["name"]
        if MAP.match(name) or ("_map::" in name and "Entry" in name):
            r = s.mapcall(P, name, args, depth)
            if r is not None: return r
        last = strip_generics(name).rstrip(":").rsplit("::", 1)[-1]
        if last == "to_bits" and len(args) == 1 and "f64" in name: return [(P, tobits(args[0]))]
        if last == "from_bits" and len(args) == 1 and "f64" in name: return [(P, frombits(args[0]))]
        if re.search(r"panicking::|::begin_panic|::panic_fmt|rt::panic|unwrap_failed|expect_failed", name): return [(P, ("panic", name))]
        if name.startswith("std::intrinsics::cold_path") or "assert_inhabited" in name: return [(P, ("agg", "tuple", 0, ()))]
        if last in ("black_box",): return [(P, args[0])]
        if name.startswith("std::array::") and last == "map" and len(args) == 2 and args[0][0] == "agg":
            st = [(P, ())]
            for x in args[0][3]:
                st = [(R, vs + (v,)) if v[0] != "panic" else (R, v) for Q, vs in st for R, v in (s.applied(Q, args[1], [x], depth) if vs[:1] != ("panic",) else [(Q, vs)])]
            return [(Q, vs if vs[:1] == ("panic",) else ("agg", "array", 0, vs)) for Q, vs in st]
        if s.puretrait(name):
            # clone of plain data
            return [(P, s.read(P, args[0][1]) if args[0][0] == "ref" else ("deref", args[0]))]
        if b["body"] is None or m in s.opaque_names or name in s.opaque_names or s.loops(m) or depth > s.maxdepth:
            return s.opaque(P, m, name, args)
        return s.inline(P, m, args, depth)
    def puretrait(s, name): return re.match(r"^<(f64|u64|bool|usize|u32|i32|\((f64|u64)(, (f64|u64))*\)) as std::clone::Clone>::clone$", name)
    def opaque(s, P, m, name, args):
        for a in args:
            if s.hasref(P, a): raise Undecided("%s is given a reference and cannot be followed" % strip_generics(name))
        s.notfollowed.add(strip_generics(name))
        Q = P.fork(); Q.events = P.events + (("call", name, tuple(args), tuple(sorted((c, v) for c, v in P.mem.items() if c.startswith("arg:")))),)
        return [(Q, ("call", name, tuple(args)))]
    def hasref(s, P, v):
        if v[0] == "ref": return True
        if v[0] == "agg": return any(s.hasref(P, x) for x in v[3])
        return False
    def inline(s, P, m, args, depth):
        s.followed.add(strip_generics(s.B[m]["name"]))
        body = s.B[m]["body"]; fr = s.fresh("f")
        n = body["args"]
        if len(args) != n:
            # "rust-call" convention: the last argument is a tuple of the arguments
            if args and args[-1][0] == "agg" and len(args) - 1 + len(args[-1][3]) == n: args = list(args[:-1]) + list(args[-1][3])
            elif n == len(args) + 0: pass
            else: raise Undecided("argument count of " + s.B[m]["name"])
        for i, a in enumerate(args): P.mem["%s:%d" % (fr, i + 1)] = a
        out = []; work = [(P, 0, ())]
        while work:
            P, bb, trail = work.pop()
            if len(trail) > 4000: raise Undecided("too long")
            blk = body["blocks"][bb]
            for st in blk[0]:
                s.steps += 1
                if st[0] == "=": s.write(P, s.place(P, fr, st[1]), s.rvalue(P, fr, st[2]))
                elif st[0] == "setd":
                    loc = s.place(P, fr, st[1]); v = P.mem.get(loc[0])
                    raise Undecided("set discriminant")
                else: raise Undecided(st[0])
            t, file, line = blk[1]; k = t[0]
            if k == "goto": work.append((P, t[1], trail)); continue
            if k == "return":
                s.paths += 1
                if s.paths > s.maxpaths: raise Undecided("too many paths")
                out.append((P, P.mem.get(fr + ":0", ("agg", "tuple", 0, ())))); continue
            if k == "drop": work.append((P, t[3], trail)); continue
            if k == "switch":
                v = s.operand(P, fr, t[1])
                for Q, tgt in s.branch(P, v, t[2], t[3], t[4]): work.append((Q, tgt, trail))
                continue
            if k == "assert":
                v = s.operand(P, fr, t[1])
                if t[2] is False: v = neg(v) if v in (TRUE, FALSE) else ("un", "Not", v)
                if v == TRUE: work.append((P, t[3], trail)); continue
                if v == FALSE: out.append((P, ("panic", t[5]))); continue
                Q = P.fork(); out.append((Q, ("panic", t[5] + " possible"))); work.append((P, t[3], trail)); continue
            if k == "call":
                av = [s.operand(P, fr, o) for o in t[2]]
                f = t[1]
                if f and f[0] == "fn": res = s.call(P, f[1], av, depth + 1)
                elif f and f[0] == "closure": res = s.call(P, f[1] or f[2] or f[3], av, depth + 1)
                elif f and f[0] == "ptr":
                    fv = s.operand(P, fr, f[1])
                    if fv[0] == "agg" and isinstance(fv[1], tuple) and fv[1][0] == "fn": res = s.call(P, fv[1][1], av, depth + 1)
                    elif fv[0] == "agg" and isinstance(fv[1], tuple) and fv[1][0] == "closure": res = s.call(P, fv[1][3] or fv[1][1], [fv] + av, depth + 1)
                    else:
                        if any(s.hasref(P, a) for a in av): raise Undecided("call through a pointer with a reference")
                        Q = P.fork(); Q.events = P.events + (("callptr", fv, tuple(av)),); res = [(Q, ("callptr", fv, tuple(av)))]
                else: raise Undecided("unresolved call")
                for Q, v in res:
                    if v[0] == "panic": out.append((Q, v)); continue
                    if t[4] is None: out.append((Q, ("panic", "diverges"))); continue
                    s.write(Q, s.place(Q, fr, t[3]), v)
                    if bb in trail and trail.count(bb) > 3: raise Undecided("loop")
                    work.append((Q, t[4], trail + (bb,)))
                continue
            if k == "unreachable": continue
            raise Undecided("terminator " + k)
        return out
    def branch(s, P, v, ty, arms, other):
        if v[0] == "k" and isinstance(v[2], int):
            for x, t in arms:
                if int(x) == v[2]: return [(P, t)]
            return [(P, other)]
        flip = False
        if v[0] == "un" and v[1] == "Not" and ty == "bool": v = v[2]; flip = True
        known = P.facts.get(("is", v)); out = []; excl = []
        for x, t in arms:
            x = int(x)
            if flip: x = 1 - x
            excl.append(x)
            if known is not None and known[0] == "eq":
                if known[1] == x: return [(P, t)]
                continue
            if known is not None and x in known[1]: continue
            Q = P.fork(); Q.facts[("is", v)] = ("eq", x); out.append((Q, t))
        if known is not None and known[0] == "eq": return [(P, other)]
        if ty == "bool" and len(set(excl)) == 1:
            Q = P.fork(); Q.facts[("is", v)] = ("eq", 1 - excl[0]); out.append((Q, other))
        elif ty != "bool" or len(set(excl)) < 2:
            Q = P.fork(); Q.facts[("is", v)] = ("ne", tuple(sorted(set(excl) | set(known[1] if known else ())))); out.append((Q, other))
        return out

    def keyval(s, P, k):
        v = k
        while v[0] == "ref": v = s.read(P, v[1])
        return v
    def applied(s, P, f, args, depth):
        """call of a function value: closure, function item or pointer"""
        if f[0] == "agg" and isinstance(f[1], tuple):
            t = f[1]
            if t[0] == "fn": return s.call(P, t[1], list(args), depth + 1)
            m = t[3] or t[2] or t[1]
            for cand in (t[1], t[2], t[3]):
                if cand and s.B[cand]["body"]:
                    b = s.B[cand]["body"]
                    m = cand; break
            envty = s.B[m]["body"]["locals"][1] if s.B[m]["body"]["args"] else ""
            if envty.startswith("&"):
                c = s.fresh("env"); P.mem[c] = f; env = ("ref", (c, ()))
            else: env = f
            return s.call(P, m, [env] + list(args), depth + 1)
        Q = P.fork(); Q.events = P.events + (("callptr", f, tuple(args)),)
        return [(Q, ("callptr", f, tuple(args)))]
    def mapcall(s, P, name, args, depth):
        base = strip_generics(name).replace("::::", "::").rstrip(":")
        m = base.rsplit("::", 1)[-1]
        unit = ("agg", "tuple", 0, ())
        if "Entry" in name and "_map" in name: return s.entrycall(P, name, m, args, depth)
        if " as " in name:
            if "Clone>::clone" in name: return [(P, s.read(P, args[0][1]))] if m == "clone" else None
            if m == "default": return [(P, ("M", ("emptymap",), ()))]
            if m in ("eq", "ne"):
                a, b = [s.asmap(s.keyval(P, x)) for x in args]
                r = ("mapeq", a, b); return [(P, r if m == "eq" else neg(r))]
            if m == "index":
                loc = args[0][1]; key = s.keyval(P, args[1])
                return [(Q, ("ref", (loc[0], loc[1] + (("slot", key),))) if h else ("panic", "no entry found for key")) for Q, h in s.present(P, s.read(P, loc), key)]
            raise Undecided("collection operation " + name[:120])
        if m in ("new", "with_capacity", "with_hasher", "with_capacity_and_hasher"): return [(P, ("M", ("emptymap",), ()))]
        loc = args[0][1] if args and args[0][0] == "ref" else None
        if loc is None: raise Undecided("collection operation " + m)
        mv = s.read(P, loc)
        if m in ("get", "get_mut", "contains_key", "get_key_value"):
            key = s.keyval(P, args[1]); out = []
            for Q, h in s.present(P, mv, key):
                if m == "contains_key": v = TRUE if h else FALSE
                elif m == "get_key_value": raise Undecided(m)
                else: v = some(("ref", (loc[0], loc[1] + (("slot", key),)))) if h else NONE
                out.append((Q, v))
            return out
        if m == "insert":
            key = s.keyval(P, args[1]); out = []
            for Q, h in s.present(P, mv, key):
                old = s.lookup(Q, mv, key) if h else None
                s.write(Q, loc, s.mapop(mv, ("ins", key, args[2]))); out.append((Q, some(old) if h else NONE))
            return out
        if m in ("remove", "remove_entry"):
            key = s.keyval(P, args[1]); out = []
            for Q, h in s.present(P, mv, key):
                old = s.lookup(Q, mv, key) if h else None
                if h: s.write(Q, loc, s.mapop(mv, ("rem", key)))
                out.append((Q, (some(old) if m == "remove" else some(("agg", "tuple", 0, (key, old)))) if h else NONE))
            return out
        if m == "clear": s.write(P, loc, ("M", ("emptymap",), ())); return [(P, unit)]
        if m in ("reserve", "shrink_to_fit", "shrink_to"):
            P.events += (("capacity", m, tuple(args[1:])),); return [(P, unit)]
        if m == "len": return [(P, ("len", s.asmap(mv)) if s.asmap(mv) != ("M", ("emptymap",), ()) else bits("usize", 0))]
        if m == "is_empty": return [(P, ("isempty", s.asmap(mv)) if s.asmap(mv) != ("M", ("emptymap",), ()) else TRUE)]
        if m == "capacity": return [(P, ("capacity", s.asmap(mv)))]
        if m == "retain":
            r = s.predicate(P, args[1], depth)
            s.write(P, loc, s.mapop(mv, ("retain", r))); return [(P, unit)]
        if m == "entry":
            out = []
            for Q, h in s.present(P, mv, args[1]):
                e = ("agg", "EntrySlot", 0, (args[0], args[1]))
                out.append((Q, ("agg", "Entry", 0 if h else 1, (e,))))
            return out
        raise Undecided("collection operation " + name[:120])
    def predicate(s, P, f, depth):
        """what a retain closure computes for an entry (k, v): list of (facts, result, value left in the entry)"""
        Q0 = P.fork(); ck, cv = s.fresh("rk"), s.fresh("rv")
        Q0.mem[ck] = s.entrykey; Q0.mem[cv] = ("entryval",)
        ev = len(Q0.events); out = []
        for Q, v in s.applied(Q0, f, [("ref", (ck, ())), ("ref", (cv, ()))], depth):
            out.append((tuple(sorted((repr(k), repr(x)) for k, x in Q.facts.items() if k not in P.facts)), v, Q.mem[cv], Q.mem[ck]))
        return tuple(out)
    def entrycall(s, P, name, m, args, depth):
        e = args[0]
        if e[0] == "ref": eref = e; e = s.read(P, e[1])
        if e[0] != "agg": raise Undecided("entry")
        if e[1] == "Entry": slot, occ = e[3][0], e[2] == 0
        else: slot, occ = e, None
        mref, key = slot[3]; loc = mref[1]; ref = ("ref", (loc[0], loc[1] + (("slot", key),)))
        def ins(Q, v): s.write(Q, loc, s.mapop(s.read(Q, loc), ("ins", key, v)))
        if e[1] == "Entry":
            if m == "or_insert":
                if not occ: ins(P, args[1])
                return [(P, ref)]
            if m in ("or_insert_with", "or_insert_with_key"):
                if occ: return [(P, ref)]
                out = []
                ka = []
                if m.endswith("key"): c = s.fresh("key"); P.mem[c] = key; ka = [("ref", (c, ()))]
                for Q, v in s.applied(P, args[1], ka, depth):
                    if v[0] == "panic": out.append((Q, v)); continue
                    ins(Q, v); out.append((Q, ref))
                return out
            if m == "and_modify":
                if not occ: return [(P, args[0])]
                return [(Q, v if v[0] == "panic" else args[0]) for Q, v in s.applied(P, args[1], [ref], depth)]
            if m == "insert_entry": ins(P, args[1]); return [(P, slot)]
            if m == "key": c = s.fresh("key"); P.mem[c] = key; return [(P, ("ref", (c, ())))]
            raise Undecided("entry operation " + m)
        if m in ("get", "get_mut", "into_mut"): return [(P, ref)]
        if m == "insert":
            vac = s.lookup(P, s.read(P, loc), key) == "absent"
            old = None if vac else s.lookup(P, s.read(P, loc), key)
            ins(P, args[1]); return [(P, ref if vac else old)]
        if m == "insert_entry": ins(P, args[1]); return [(P, slot)]
        if m in ("key",): c = s.fresh("key"); P.mem[c] = key; return [(P, ("ref", (c, ())))]
        if m == "into_key": return [(P, key)]
        raise Undecided("entry operation " + m)

    def run(s, m, args, mem):
        P = Path(dict(mem)); return s.inline(P, m, args, 0)

def keyparts(t):
    """the arguments an injective key determines, as a set; anything not recognised as injective contributes nothing"""
    if t[0] == "arg": return {t}
    if t[0] == "tobits" or t[0] == "frombits": return keyparts(t[1])
    if t[0] == "agg": return set().union(set(), *[keyparts(x) for x in t[3]])
    if t[0] == "cast":
        if t[1] == "Transmute": return keyparts(t[4])
        if t[1] == "IntToInt" and (width(t[3]) or 0) >= (width(t[2]) or 999): return keyparts(t[4])
        return set()
    if t[0] == "call" and re.search(r"::(swap_bytes|to_be|to_le|reverse_bits)$|intrinsics::(bswap|bitreverse)", strip_generics(t[1])): return keyparts(t[2][0])
    if t[0] == "bin" and t[1] in ("BitOr", "BitXor", "Add", "AddUnchecked"):
        for hi, lo in ((t[2], t[3]), (t[3], t[2])):
            if hi[0] == "bin" and hi[1] in ("Shl", "ShlUnchecked") and hi[3][0] == "k" and hi[2][0] == "cast" and lo[0] == "cast":
                n = hi[3][2]
                if (width(lo[2]) or 999) <= n and n + (width(hi[2][2]) or 999) <= (width(hi[2][3]) or 0): return keyparts(hi[2]) | keyparts(lo)
        return set()
    return set()
