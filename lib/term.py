"""Loop and recursion termination: integer variants that progress on every path to the back edge towards an invariant bound that is tested on every iteration."""
from ir import *
from effects import roots, aliases, MUTATING, PASS_ALGO_WRITE
BAD = None
LOOPS = ("For", "While", "Do", "RangeFor")

def strip(e):
    while e is not None and e["k"] in ("Cast", "Paren") and e.get("e"): e = e["e"]
    return e
def const_int(e, P=None):
    e = strip(e)
    if e is None: return None
    if e["k"] in ("Int", "Bool", "Enum"): return int(e["v"])
    if e["k"] == "Un" and e["op"] == "-":
        v = const_int(e["e"], P); return None if v is None else -v
    if e["k"] == "Var" and e.get("global") and P is not None:
        g = next((g for (q, _), g in P.globals.items() if q == e.get("q")), None)
        if g is not None and g.get("init") and g.get("t", "").startswith("const"): return const_int(g["init"], P)
    return None
def var_of(e):
    """key of an integer variable: a local/parameter id, or ('this', field) for a member of the object itself"""
    if e["k"] == "Var" and not e.get("global"): return e["id"]
    if e["k"] == "Member" and e.get("b") is not None and strip(e["b"])["k"] == "This": return ("this", e["f"])
    return None
def isvar(e, vid):
    e = strip(e); return e is not None and vid is not None and var_of(e) == vid
def vars_of(e): return {v for v in (var_of(n) for n in walk(e)) if v is not None}
def conjuncts(e):
    e = strip(e)
    if e["k"] == "Bin" and e["op"] == "&&": return conjuncts(e["a"]) + conjuncts(e["b"])
    return [e]
def disjuncts(e):
    e = strip(e)
    if e["k"] == "Bin" and e["op"] == "||": return disjuncts(e["a"]) + disjuncts(e["b"])
    return [e]
NEG = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}
FLIP = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}
def is_intt(t):
    t = t.replace("const ", "").replace("&", "").strip()
    return t in ("int", "unsigned int", "long", "unsigned long", "size_t", "short", "unsigned short", "char", "unsigned char", "long long", "unsigned long long", "std::size_t", "int64_t", "uint32_t", "int32_t", "uint64_t", "size_type", "ptrdiff_t", "difference_type")

class Loop:
    def __init__(s, P, eff, f, n, types, al, decls):
        s.P = P; s.eff = eff; s.f = f; s.n = n; s.types = types; s.al = al; s.decls = decls
        parts = [n["body"]] + [n[x] for x in ("c", "inc") if n.get(x)]
        s.parts = parts
        s.inner = set()
        for p in parts:
            for x in walk(p):
                if x["k"] == "Decl":
                    for d in x["d"]: s.inner.add(d["id"])
                elif x["k"] == "RangeFor": s.inner.add(x["v"]["id"])
        s.written = {}   # var id -> list of nodes writing it (directly or through a reference, pointer or call)
        for p in parts: s.writes(p)
    def writes(s, p):
        add = lambda t, x: [s.written.setdefault(r, []).append(x) for r in roots(t, s.al)]
        for x in walk(p):
            k = x["k"]
            if k == "Assign": add(x["a"], x)
            elif k == "Un" and x["op"] in ("++", "--"): add(x["e"], x)
            elif k in ("Call", "MCall", "Ctor", "OpCall"):
                fd = x.get("f") or {}
                args = x.get("args") or []
                tg = s.eff.targets(fd)
                if tg:
                    off = 1 if k == "OpCall" and fd.get("cls") and not fd.get("static") else 0
                    for c in tg:
                        w = s.eff.w.get(c.key, ())
                        if "this" in w:
                            if k == "MCall" and x.get("b") is not None: add(x["b"], x)
                            elif off: add(args[0], x)
                        for i in range(len(c.params)):
                            if i in w and i + off < len(args) and args[i + off] is not None: add(args[i + off], x)
                    continue
                n = fd.get("n", "")
                if k == "MCall":
                    if x.get("b") is not None and not fd.get("const") and n in MUTATING: add(x["b"], x)
                    if n == "swap": [add(a, x) for a in args]
                elif k == "OpCall":
                    if x["op"] in ("=", "+=", "-=", "*=", "/=", "++", "--", "<<=", ">>=") and args: add(args[0], x)
                elif k == "Call" and n not in ("move", "forward", "begin", "end", "get", "max", "min", "addressof", "make_pair", "make_tuple"):
                    for a, t in zip(args, fd.get("pt") or []):
                        if a is None: continue
                        if is_mut_ref(t) or t.endswith("*") and not t.startswith("const") or n in PASS_ALGO_WRITE and "iterator" in t: add(a, x)
    # ---- net change of an integer variable
    def expr_delta(s, e, vid, lo):
        """(min delta) of evaluating e; BAD when written in another way.  lo = +1: we want the minimum, -1: the maximum"""
        tot = 0
        if e is None: return 0
        k = e["k"]
        if k == "Lambda": return 0
        if k == "Cond":
            c = s.expr_delta(e["c"], vid, lo); a = s.expr_delta(e["a"], vid, lo); b = s.expr_delta(e["b"], vid, lo)
            if BAD in (c, a, b): return BAD
            return c + (min(a, b) if lo > 0 else max(a, b))
        if k == "Bin" and e["op"] in ("&&", "||"):
            a = s.expr_delta(e["a"], vid, lo); b = s.expr_delta(e["b"], vid, lo)
            if BAD in (a, b): return BAD
            return a + (min(0, b) if lo > 0 else max(0, b))
        if k == "Un" and e["op"] in ("++", "--") and isvar(e["e"], vid): return 1 if e["op"] == "++" else -1
        if k == "Assign" and isvar(e["a"], vid):
            d = s.assign_delta(e, vid)
            if d is BAD: return BAD
            r = s.expr_delta(e["b"], vid, lo)
            return BAD if r is BAD else d + r
        if k == "Inl": return s.block(e["body"], vid, lo, inl=True)
        if k in ("Call", "MCall", "OpCall", "Ctor"):
            for x in s.written.get(vid if not isinstance(vid, tuple) else "this", []):
                if x is e and not (isinstance(vid, tuple) and k == "Call" and not s.eff.targets(e.get("f") or {}) and not any(y["k"] == "Un" and y["op"] == "&" for a in e["args"] if a for y in walk(a))): return BAD
        for c in children(e):
            d = s.expr_delta(c, vid, lo)
            if d is BAD: return BAD
            tot += d
        return tot
    def assign_delta(s, e, vid):
        op = e["op"]; b = strip(e["b"])
        if op in ("+=", "-="):
            c = const_int(b, s.P)
            if c is None: c = s.positive(b)
            if c is None: return BAD
            return c if op == "+=" else -c
        if op in ("*=", "<<="):
            c = const_int(b, s.P); return 1 if c and (c > 1 or op == "<<=") else BAD
        if op in ("/=", ">>="):
            c = const_int(b, s.P); return -1 if c and (c > 1 or op == ">>=") else BAD
        if op == "=":
            if b["k"] == "Bin" and b["op"] in ("+", "-"):
                if isvar(b["a"], vid) :
                    c = const_int(b["b"], s.P)
                    if c is None: c = s.positive(strip(b["b"]))
                    if c is not None: return c if b["op"] == "+" else -c
                if b["op"] == "+" and isvar(b["b"], vid):
                    c = const_int(b["a"], s.P)
                    if c is None: c = s.positive(strip(b["a"]))
                    if c is not None: return c
            if b["k"] == "Bin" and isvar(b["a"], vid):
                c = const_int(b["b"], s.P)
                if b["op"] in ("/", ">>") and c and (c > 1 or b["op"] == ">>"): return -1
                if b["op"] in ("*", "<<") and c and (c > 1 or b["op"] == "<<"): return 1
            if isvar(b, vid): return 0
            if b["k"] == "Var" and not b.get("global"):
                ws = [x for x in s.written.get(b["id"], [])]
                ds = [d for p in s.parts for x in walk(p) if x["k"] == "Decl" for d in x["d"] if d["id"] == b["id"] and d.get("init")]
                src = ws[0]["b"] if len(ws) == 1 and not ds and ws[0]["k"] == "Assign" and ws[0]["op"] == "=" else ds[0]["init"] if len(ds) == 1 and not ws else None
                if src is not None:
                    r = s.assign_delta({"op": "=", "b": src}, vid)
                    if r is not BAD and strip(src)["k"] == "Bin": return r
        return BAD
    def positive(s, e): return None
    def merge(s, vals, lo):
        vals = [v for v in vals if v != "dead"]
        if not vals: return "dead"
        if BAD in vals: return BAD
        return min(vals) if lo > 0 else max(vals)
    def block(s, st, vid, lo, inl=False):
        """net change over all paths to the end of st that stay in the loop; continues are collected in s.cont"""
        n, b, c, r = s.stmt(st, vid, lo)
        s.cont += c
        if inl: return s.merge([n] + r, lo) if s.merge([n] + r, lo) != "dead" else 0
        return n
    def stmt(s, st, vid, lo):
        """(normal, breaks, continues, returns); each 'dead', a number or BAD"""
        k = st["k"]; D = "dead"
        def seq(a, b):
            if a == D or b == D: return D
            if a is BAD or b is BAD: return BAD
            return a + b
        if k == "Block":
            cur = 0; B = []; C = []; R = []
            for x in st["s"]:
                if cur == D: break
                n, b, c, r = s.stmt(x, vid, lo)
                B += [seq(cur, y) for y in b]; C += [seq(cur, y) for y in c]; R += [seq(cur, y) for y in r]
                cur = seq(cur, n)
            return cur, B, C, R
        if k == "Expr": return s.expr_delta(st["e"], vid, lo), [], [], []
        if k == "Decl":
            t = 0
            for d in st["d"]:
                if d.get("init"):
                    x = s.expr_delta(d["init"], vid, lo)
                    if x is BAD: return BAD, [], [], []
                    t += x
            return t, [], [], []
        if k == "If":
            c0 = s.expr_delta(st["c"], vid, lo)
            na, ba, ca, ra = s.stmt(st["a"], vid, lo)
            nb, bb, cb, rb = s.stmt(st["b"], vid, lo) if st.get("b") else (0, [], [], [])
            if not st.get("b") or True:
                g = s.guard_of(st)
                if g > 0: nb = D if nb != BAD else nb; bb = cb = []
                elif g < 0: na = D if na != BAD else na; ba = ca = []
            n = s.merge([na, nb], lo)
            return seq(c0, n), [seq(c0, x) for x in ba + bb], [seq(c0, x) for x in ca + cb], [seq(c0, x) for x in ra + rb]
        if k == "Return":
            x = s.expr_delta(st["e"], vid, lo) if st.get("e") else 0
            return D, [], [], [x]
        if k == "Throw": return D, [], [], []
        if k == "Break": return D, [0], [], []
        if k == "Continue": return D, [], [0], []
        if k in LOOPS:
            t = 0
            if st.get("init"):
                n, _, _, _ = s.stmt(st["init"], vid, lo) if st["init"]["k"] in ("Decl", "Expr", "Block") else (s.expr_delta(st["init"], vid, lo), 0, 0, 0)
                if n is BAD: return BAD, [], [], []
                t += n
            n, b, c, r = s.stmt(st["body"], vid, lo)
            ds = [x for x in [n] + b + c if x != D]
            for key in ("c", "inc"):
                if st.get(key) and st[key].get("k"):
                    ds.append(s.expr_delta(st[key], vid, lo) if st[key]["k"] not in ("Block", "Expr", "Decl") else s.stmt(st[key], vid, lo)[0])
            if BAD in ds: return BAD, [], [], r
            # repeated any number of times: only a change in the wanted direction (or none) keeps a bound
            if lo > 0: x = 0 if all(d >= 0 for d in ds) else BAD
            else: x = 0 if all(d <= 0 for d in ds) else BAD
            if k == "Do" and x == 0:
                y = s.merge([n] + c, lo)
                x = y if y not in (D, BAD) else x
            return seq(t, x), [], [], r
        if k == "Switch":
            # any section may run; sections end in break
            outs = []; C = []; R = []
            body = st["body"]["s"] if st["body"]["k"] == "Block" else [st["body"]]
            n, b, c, r = s.stmt({"k": "Block", "s": body, "l": st["l"]}, vid, lo)
            ds = [0, n] + b
            return s.merge(ds, lo), [], c, r
        if k in ("Case", "Default", "Label") and (st.get("s") or st.get("body")):
            x = st.get("s") or st.get("body")
            if isinstance(x, list): x = {"k": "Block", "s": x, "l": st["l"]}
            n, b, c, r = s.stmt(x, vid, lo)
            return s.merge([0, n], lo), b, c, r
        if k == "Try":
            n, b, c, r = s.stmt(st["body"], vid, lo)
            outs = [n]
            for h in st.get("h", []) or st.get("handlers", []) or []:
                x = h.get("body", h)
                n2, b2, c2, r2 = s.stmt(x, vid, lo); outs += [n2, s.merge([0, n2], lo)]; b += b2; c += c2; r += r2
            return s.merge(outs, lo), b, c, r
        if k in ("Null", "Goto"): return (0 if k == "Null" else BAD), [], [], []
        # anything else: an expression used as a statement
        x = s.expr_delta(st, vid, lo)
        return x, [], [], []
    def guard_of(s, st):
        """+1: the else branch of this if means the loop test fails next time; -1: the then branch does; 0: no relation.  The variables of the test
        must not change between the if and the loop test."""
        if s.cur is None: return 0
        t, tneg = s.cur
        c = strip(st["c"])
        a = norm_cmp(t, tneg); b = norm_cmp(c, False)
        if a is None or b is None: return 0
        g = 1 if a == b else -1 if a == norm_cmp(c, True) else 0
        if g == 0: return 0
        side = st["a"] if g > 0 else st.get("b")
        ok = {id(x) for x in walk(side)} if side else set()
        ok |= s.before(st)
        if s.n.get("inc") and any(id(w) in {id(y) for y in walk(s.n["inc"])} for v in vars_of(t) for w in s.written.get(v, [])): return 0
        for v in vars_of(t):
            for w in s.written.get(v, []):
                if id(w) not in ok: return 0
        return g
    def before(s, st):
        """nodes of the loop body that come before the statement on every pass"""
        out = set()
        def go(b):
            for x in (b["s"] if b["k"] == "Block" else [b]):
                if x is st: return True
                if any(y is st for y in walk(x)):
                    if x["k"] == "Block": return go(x)
                    if x["k"] == "If":
                        out.update(id(y) for y in walk(x["c"]))
                        return go(x["a"]) if any(y is st for y in walk(x["a"])) else go(x["b"])
                    return True
                out.update(id(y) for y in walk(x))
            return False
        go(s.n["body"])
        return out
    cur = None
    def delta(s, vid, lo):
        """guaranteed net change of vid between two evaluations of the loop condition"""
        s.cont = []
        n, b, c, r = s.stmt(s.n["body"], vid, lo)
        v = s.merge([n] + c + s.cont, lo)
        if v == "dead": return "dead"
        if v is BAD: return BAD
        for key in ("c", "inc"):
            if s.n.get(key):
                x = s.n[key]
                d = s.stmt(x, vid, lo)[0]
                if d is BAD or d == "dead": return BAD
                v += d
        return v
    # ---- bounds
    def invariant(s, e, up):
        """the bound does not move away: no variable in it is written in the loop (containers may shrink when the bound is an upper one)"""
        for n in walk(e):
            if n["k"] == "Var" and not n.get("global"):
                if n["id"] in s.inner: return False
                ws = s.written.get(n["id"], [])
                for w in ws:
                    if not s.harmless(w, n["id"], e, up): return False
            elif n["k"] == "This":
                pass
            elif n["k"] == "Member":
                for r in roots(n, s.al):
                    for w in s.written.get(r, []):
                        if s.same_member(w, n): return False
            elif n["k"] in ("Call", "MCall") and (n.get("f") or {}).get("n") not in ("size", "length", "abs", "fabs", "min", "max", "sqrt", "pow", "rows", "cols", "ceil", "floor", "empty", "end", "cend", "begin", "cbegin", "rend", "rbegin", "GetMaxIterationTimes"):
                if s.P.callee(n.get("f")) is None: return False
            elif n["k"] in ("Assign",) or n["k"] == "Un" and n["op"] in ("++", "--"): return False
        return True
    def harmless(s, w, vid, bound, up):
        """element writes do not change a size; a shrinking container only tightens an upper bound"""
        sizes_only = all(p["k"] == "MCall" and p["f"]["n"] in ("size", "length", "end", "cend", "rows", "cols") for p in s.parents(bound, vid))
        if not sizes_only: return False
        if w["k"] == "Assign": return strip(w["a"])["k"] in ("Index",) or (strip(w["a"])["k"] == "Member" and any(x["k"] == "Index" for x in walk(w["a"])))
        if w["k"] == "MCall":
            b = strip(w["b"])
            if any(x["k"] == "Index" for x in walk(b)): return True
            return up and w["f"]["n"] in ("erase", "pop_back", "clear", "reserve")
        if w["k"] == "OpCall": return any(x["k"] == "Index" for x in walk(w["args"][0]))
        if w["k"] in ("Call",):
            # handed over as an element
            n = (w.get("f") or {}).get("n", "")
            if n in ("sort", "reverse", "fill", "swap", "copy", "iota"): return True
            for a in w.get("args") or []:
                if a is not None and vid in vars_of(a) and not any(x["k"] == "Index" for x in walk(a)) and strip(a)["k"] in ("Var", "Member"): return False
            return True
        return False
    def parents(s, e, vid):
        """innermost member calls on the variable inside the bound"""
        out = []
        def go(x, par):
            if x["k"] == "Var" and x.get("id") == vid: out.append(par if par is not None else x); return
            for c in children(x): go(c, x if x["k"] == "MCall" and strip(x.get("b") or {"k": ""}) is not None and x.get("b") is not None and c is x["b"] else (par if x["k"] in ("Cast", "Member", "Index") else None))
        go(e, None)
        return out
    def same_member(s, w, n):
        t = strip(w.get("a") or w.get("e") or w.get("b") or (w.get("args") or [{"k": ""}])[0] or {"k": ""})
        if w["k"] in ("Call", "Ctor"): return True
        if w["k"] == "MCall":
            b = strip(w["b"])
            if b["k"] != "Member": return b["k"] != "Index"
            return b.get("f") == n.get("f") and w["f"]["n"] not in ("erase", "pop_back")
        if t["k"] == "Member": return t.get("f") == n.get("f")
        return t["k"] != "Index"
    def tests(s):
        """(comparison, holds-while-looping) tests evaluated on every iteration"""
        n = s.n
        if n["k"] != "RangeFor" and n.get("c"):
            for c in conjuncts(n["c"]): yield c, True
        def top(b):
            for x in (b["s"] if b["k"] == "Block" else [b]):
                if x["k"] == "Block": yield from top(x)
                else: yield x
        seen_cont = False
        for x in top(n["body"]):
            if x["k"] == "If" and not seen_cont:
                if exits(x["a"]):
                    for d in disjuncts(x["c"]): yield d, False
                if x.get("b") and exits(x["b"]):
                    for d in conjuncts(x["c"]): yield d, True
            if any(y["k"] == "Continue" for y in walk_noloop(x)): seen_cont = True
    def prove(s):
        n = s.n; k = n["k"]
        if k == "RangeFor":
            for r in roots(n["r"], s.al):
                for w in s.written.get(r, []):
                    if w["k"] == "MCall" and w["f"]["n"] in ("push_back", "emplace_back", "insert", "emplace") and not any(x["k"] == "Index" for x in walk(w["b"])) and strip(w["b"])["k"] == "Var" and not is_rangevar(w["b"], n): return None
            return "range"
        # the body never comes back
        s.cont = []
        m, b, c, r = s.stmt(n["body"], -1, 1)
        if m == "dead" and not c and not s.cont: return "single pass"
        for c, pos in s.tests():
            p = s.test(c, pos)
            if p: return p
        return s.bisect() or s.halving()
    def test(s, c, pos):
        own = s.n.get("c") and any(strip(c) is strip(x) for x in conjuncts(s.n["c"]))
        if not own and s.n["body"]["k"] == "Block":
            # a test at the very top of the body is the loop test
            for x in s.n["body"]["s"]:
                if x["k"] == "If" and any(strip(c) is strip(d) for d in disjuncts(x["c"]) + conjuncts(x["c"])): own = True
                if not (x["k"] == "If" and exits(x["a"])): break
        s.cur = (strip(c), not pos) if own else None
        try: return s.test1(c, pos)
        finally: s.cur = None
    def test1(s, c, pos):
        neg = not pos
        c = strip(c)
        while c["k"] == "Un" and c["op"] == "!": c = strip(c["e"]); neg = not neg
        if c["k"] in ("Var",) or (c["k"] == "Un" and c["op"] in ("--", "++")):
            v = c if c["k"] == "Var" else strip(c["e"])
            if v["k"] == "Var" and not v.get("global") and is_intt(s.types.get(v["id"], "")) and not neg:
                if v["id"] in s.inner: return None
                if s.delta(v["id"], 1) == -1 and s.delta(v["id"], -1) == -1: return "counter"
            if v["k"] == "Var" and "*" in s.types.get(v["id"], "") and not neg: return s.chase(v["id"])
            return s.flag(v, neg) if v["k"] == "Var" else None
        if c["k"] == "MCall" and c["f"]["n"] == "empty" and neg: return s.drain(c["b"])
        if c["k"] == "Bin" and c["op"] == "||" and not neg:
            # every way of staying in the loop runs out, and the variants do not disturb each other
            r = [s.test1(d, True) for d in disjuncts(c)]
            return "counter" if all(x in ("counter", "gap") for x in r) else None
        if c["k"] == "Bin" and c["op"] in ("!=", "<", ">") and "iterator" in strip(c["a"]).get("t", ""):
            p = s.iter(c["a"], c["b"], c["op"] if not neg else NEG[c["op"]])
            if p: return p
        if c["k"] == "OpCall" and c["op"] in ("!=", "==", "<", "<=", ">", ">=") and len(c["args"]) == 2:
            a, b, op = c["args"][0], c["args"][1], c["op"]
            return s.iter(a, b, op if not neg else NEG[op])
        if c["k"] != "Bin" or c["op"] not in NEG: return None
        op = c["op"] if not neg else NEG[c["op"]]
        for a, b, o in ((c["a"], c["b"], op), (c["b"], c["a"], FLIP[op])):
            for v, sg in s.linear_vars(a):
                if v in s.inner or v in vars_of(b): continue
                t = s.types.get(v, "")
                if "*" in t and o == "!=" :
                    r = s.chase(v)
                    if r: return r
                    continue
                if not is_intt(t): continue
                oo = o if sg > 0 else FLIP[o]
                if not s.invariant(b, oo in ("<", "<=")): continue
                if not all(s.inv_var(y, oo in ("<", "<=")) for y in vars_of(a) - {v}): continue
                if oo in ("<", "<="):
                    d = s.delta(v, 1)
                    if d == "dead" or d is not BAD and d >= 1: return "counter"
                elif oo in (">", ">="):
                    d = s.delta(v, -1)
                    if d == "dead" or d is not BAD and d <= -1: return "counter"
                elif oo == "!=":
                    d, e = s.delta(v, 1), s.delta(v, -1)
                    if d == "dead" or (d is not BAD and d == e and abs(d) == 1): return "counter"
            x = strip(a)
            if x["k"] == "Assign": x = strip(x["b"])
            if x["k"] == "Member" and o in ("!=", "==") and "*" in x.get("t", ""):
                while x["k"] in ("Member", "Cast", "Un"): x = strip(x.get("b") if x["k"] == "Member" else x["e"])
                if x["k"] == "Var" and not x.get("global") and x["id"] not in s.inner and "*" in s.types.get(x["id"], ""):
                    r = s.chase(x["id"])
                    if r: return r
            # two variables moving towards each other
            p = s.gap(a, b, o)
            if p: return p
            x = strip(a)
            if x["k"] == "Bin" and x["op"] == "-" and s.invariant(b, True):
                p = s.gap(x["a"], x["b"], o)
                if p: return p
        # container being emptied:  v.size() > k
        for a, b, o in ((c["a"], c["b"], op), (c["b"], c["a"], FLIP[op])):
            x = strip(a)
            if x["k"] == "MCall" and x["f"]["n"] == "size" and o in (">", ">=", "!=") and const_int(b, s.P) is not None: return s.drain(x["b"])
            if x["k"] == "MCall" and x["f"]["n"] == "size" and o in ("<", "<=") and s.invariant(b, True): return s.fill(x["b"])
        return None
    def gap(s, a, b, o):
        """lo < hi with lo never decreasing, hi never increasing and at least one of them moving on every path"""
        va, vb = strip(a), strip(b)
        for x, sh in ((va, 0),):
            pass
        la = [v for v, sg in s.linear_vars(a) if sg > 0]; lb = [v for v, sg in s.linear_vars(b) if sg > 0]
        if not la or not lb or o not in ("<", "<=", "!=", ">", ">="): return None
        x, y = la[0], lb[0]
        if x == y or not is_intt(s.types.get(x, "")) or not is_intt(s.types.get(y, "")) or x in s.inner or y in s.inner: return None
        if o in (">", ">="): x, y = y, x
        dx, dy = s.delta(x, 1), s.delta(y, -1)
        if BAD in (dx, dy) or "dead" in (dx, dy): return None
        if dx >= 0 and dy <= 0 and dx - dy >= 1: return "gap"
        return None
    def inv_var(s, v, up): return v not in s.inner and not s.written.get(v)
    def linear_vars(s, e):
        """integer variables occurring linearly (sign) in an index-like expression"""
        e = strip(e)
        if var_of(e) is not None:
            s.types.setdefault(var_of(e), e.get("t", ""))
            return [(var_of(e), 1)]
        if e["k"] == "Un" and e["op"] in ("++", "--"): return s.linear_vars(e["e"])
        if e["k"] == "Un" and e["op"] == "-": return [(v, -g) for v, g in s.linear_vars(e["e"])]
        if e["k"] == "Bin" and e["op"] in ("+", "-"):
            return s.linear_vars(e["a"]) + [(v, g if e["op"] == "+" else -g) for v, g in s.linear_vars(e["b"])]
        if e["k"] == "Bin" and e["op"] == "*":
            for x, y in ((e["a"], e["b"]), (e["b"], e["a"])):
                c = const_int(x, s.P)
                if c: return [(v, g * (1 if c > 0 else -1)) for v, g in s.linear_vars(y)]
        if e["k"] == "Bin" and e["op"] in ("/", ">>") and (const_int(e["b"], s.P) or 0) > 0: return s.linear_vars(e["a"])
        if e["k"] == "Bin" and e["op"] == "<<": return s.linear_vars(e["a"])
        if e["k"] == "Assign" and e["op"] in ("=", "<<=", ">>=", "+=", "-=", "*=", "/="): return s.linear_vars(e["a"])
        return []
    def chase(s, vid):
        """a pointer that is moved to one of its own links on every path"""
        paths = s.ptr_moves(s.n["body"], vid)
        if s.n.get("inc"): 
            x = s.ptr_moves(s.n["inc"], vid)
            if x == {"link"}: return "list traversal" if paths <= {"none", "link"} and len(paths) == 1 else None
        return "list traversal" if paths == {"link"} else None
    def ptr_moves(s, st, vid):
        out = set()
        kinds = []
        for x in walk(st):
            if x["k"] == "Assign" and isvar(x["a"], vid):
                b = strip(x["b"])
                root = b
                names = []
                while root is not None and root["k"] in ("Member", "Cast", "Un"):
                    if root["k"] == "Member": names.append(root["f"])
                    root = strip(root.get("b") if root["k"] == "Member" else root.get("e"))
                ok = root is not None and root["k"] == "Var" and names and (root["id"] == vid or s.derived(st, root["id"], vid))
                if b["k"] == "Var" and s.derived(st, b["id"], vid): ok = True
                kinds.append((x, "link" if ok else "other"))
        if not kinds: return {"none"}
        if any(k == "other" for _, k in kinds): return {"other"}
        # on every path?
        def must(st):
            if st["k"] == "Block":
                for x in st["s"]:
                    if must(x): return True
                    if any(y["k"] == "Continue" for y in walk_noloop(x)): return False
                return False
            if st["k"] == "If":
                a = must(st["a"]) or exits(st["a"]); b = st.get("b") and (must(st["b"]) or exits(st["b"]))
                return bool(a and b)
            if st["k"] in LOOPS or st["k"] in ("Switch",): return False
            return any(x is y for x, _ in kinds for y in walk(st))
        return {"link"} if must(st) else {"link", "none"}
    def derived(s, st, w, vid, depth=0):
        """local copies such as  next = p->next"""
        for x in [y for p in s.parts for y in walk(p)]:
            i = None
            if x["k"] == "Decl":
                for d in x["d"]:
                    if d["id"] == w and d.get("init"): i = d["init"]
            elif x["k"] == "Assign" and isvar(x["a"], w): i = x["b"]
            if i is not None:
                b = strip(i)
                if b["k"] == "Member" and vid in vars_of(b): return True
        return False
    def drain(s, b):
        """a container that loses an element on every path and never grows in the loop"""
        R = roots(b, s.al)
        pops = [w for r in R for w in s.written.get(r, []) if w["k"] == "MCall" and w["f"]["n"] in ("pop", "pop_back", "pop_front", "erase", "clear")]
        grow = [w for r in R for w in s.written.get(r, []) if w not in pops and not (w["k"] == "Assign" and strip(w["a"])["k"] == "Index")]
        if grow or not pops: return None
        return "drain" if s.must(s.n["body"], pops) else None
    def fill(s, b):
        R = roots(b, s.al)
        add = [w for r in R for w in s.written.get(r, []) if w["k"] == "MCall" and w["f"]["n"] in ("push_back", "emplace_back", "push", "emplace_front", "push_front")]
        oth = [w for r in R for w in s.written.get(r, []) if w not in add and not (w["k"] == "Assign" and strip(w["a"])["k"] == "Index")]
        if oth or not add: return None
        return "fill" if s.must(s.n["body"], add) else None
    def must(s, st, nodes):
        ids = {id(x) for x in nodes}
        def go(st):
            if st["k"] == "Block":
                for x in st["s"]:
                    if go(x): return True
                    if any(y["k"] == "Continue" for y in walk_noloop(x)): return False
                return False
            if st["k"] == "If":
                if any(id(y) in ids for y in walk(st["c"])): return True
                a = go(st["a"]) or exits(st["a"]); b = st.get("b") and (go(st["b"]) or exits(st["b"]))
                return bool(a and b)
            if st["k"] in LOOPS or st["k"] == "Switch": return False
            return any(id(y) in ids for y in walk(st))
        return go(st)
    def iter(s, a, b, op):
        """iterator loops: it != c.end() with ++it or it = c.erase(it) on every path"""
        for x, y in ((a, b), (b, a)):
            v = strip(x)
            if v["k"] != "Var" or v["id"] in s.inner: continue
            t = s.types.get(v["id"], "")
            ok = []; bad = False
            for w in s.written.get(v["id"], []):
                if w["k"] == "Un" and w["op"] in ("++", "--"): ok.append(w)
                elif w["k"] == "OpCall" and w["op"] in ("++", "--"): ok.append(w)
                elif w["k"] == "OpCall" and w["op"] == "=" :
                    r = strip(w["args"][1])
                    if any(z["k"] == "MCall" and z["f"]["n"] in ("erase", "insert") for z in walk(r)): ok.append(w)
                    elif any(z["k"] == "Call" and z["f"]["n"] in ("next", "prev") for z in walk(r)): ok.append(w)
                    else: bad = True
                elif w["k"] == "OpCall" and w["op"] in ("+=", "-="): ok.append(w)
                else: bad = True
            if bad or not ok: continue
            if s.n.get("inc") and any(z is w for w in ok for z in walk(s.n["inc"])): return "iterator"
            if s.must(s.n["body"], ok): return "iterator"
        return None
    def bisect(s):
        """lo/hi interval: every path moves exactly one end to the middle, and the middle is recomputed last from both ends"""
        body = s.n["body"]["s"] if s.n["body"]["k"] == "Block" else [s.n["body"]]
        for mid in sorted({v for c, _ in s.tests() for v in vars_of(c)}, key=str):
            ws = [w for w in s.written.get(mid, []) if w["k"] == "Assign" and w["op"] == "="]
            if len(ws) != len(s.written.get(mid, [])) or not ws: continue
            ends = None
            for w in ws:
                e = s.halfsum(w["b"])
                if e is None or ends not in (None, e): ends = None; break
                ends = e
            if not ends: continue
            moves = [w for v in ends for w in s.written.get(v, [])]
            if not moves or any(w["k"] != "Assign" or w["op"] != "=" or not isvar(w["b"], mid) for w in moves): continue
            if s.must(s.n["body"], moves) and s.must(s.n["body"], ws): return "bisection"
        return None
    def halving(s):
        """lo/hi interval tested for being open; every path replaces one end by the middle taken from both ends in this round"""
        n = s.n
        if n["k"] == "RangeFor" or not n.get("c") or n["k"] == "Do": return None
        body = n["body"]
        top = body["s"] if body["k"] == "Block" else [body]
        mids = {}
        for x in top:
            if x["k"] == "Decl":
                for d in x["d"]:
                    if d.get("init") and is_intt(d.get("t", "")) and not s.written.get(d["id"]):
                        h = s.halfsum(d["init"])
                        if h: mids[d["id"]] = h
            else: break
        if not mids: return None
        def lin(e):
            """{var: coefficient}, constant"""
            e = strip(e); c = const_int(e, s.P)
            if c is not None: return {}, c
            v = var_of(e)
            if v is not None: return {v: 1}, 0
            if e["k"] == "Bin" and e["op"] in ("+", "-"):
                a, b = lin(e["a"]), lin(e["b"])
                if a is None or b is None: return None
                g = 1 if e["op"] == "+" else -1; r = dict(a[0])
                for k, w in b[0].items(): r[k] = r.get(k, 0) + g * w
                return {k: w for k, w in r.items() if w}, a[1] + g * b[1]
            return None
        for c in conjuncts(n["c"]):
            q = strip(c)
            if q["k"] != "Bin" or q["op"] not in ("<", ">", "<=", ">=", "!="): continue
            a, b = lin(q["a"]), lin(q["b"])
            if a is None or b is None: continue
            if q["op"] in ("<", "<="): a, b = b, a
            d = dict(a[0])
            for k, w in b[0].items(): d[k] = d.get(k, 0) - w
            d = {k: w for k, w in d.items() if w}; k0 = a[1] - b[1]
            if sorted(d.values()) != [-1, 1] or q["op"] == "!=": continue
            hi = [k for k, w in d.items() if w == 1][0]; lo = [k for k, w in d.items() if w == -1][0]
            gap = (0 if q["op"] in ("<=", ">=") else 1) - k0      # inside the loop hi - lo >= gap
            if gap < 0: continue
            for mid, ends in mids.items():
                if ends != frozenset((lo, hi)): continue
                ok = True; moves = []
                for v in (lo, hi):
                    for w in s.written.get(v, []):
                        m = lin(w["b"]) if w["k"] == "Assign" and w["op"] == "=" else None
                        if m is None or m[0] != {mid: 1}: ok = False; break
                        # mid lies in [lo + gap // 2, hi - (gap + 1) // 2]
                        if v == lo and not m[1] + gap // 2 > 0: ok = False
                        if v == hi and not m[1] - (gap + 1) // 2 < 0: ok = False
                        moves.append(w)
                if ok and moves and s.must(body, moves): return "bisection"
        return None
    def halfsum(s, e):
        e = strip(e)
        if e["k"] == "Bin" and e["op"] in ("/", ">>") and const_int(e["b"], s.P) == (2 if e["op"] == "/" else 1):
            a = strip(e["a"])
            if a["k"] == "Bin" and a["op"] == "+":
                x, y = var_of(strip(a["a"])), var_of(strip(a["b"]))
                if x is not None and y is not None and x != y: return frozenset((x, y))
        if e["k"] == "Bin" and e["op"] == "+":
            for lo, h in ((e["a"], e["b"]), (e["b"], e["a"])):
                l, h = strip(lo), strip(h)
                if h["k"] == "Bin" and h["op"] == "/" and const_int(h["b"], s.P) == 2:
                    d = strip(h["a"])
                    if d["k"] == "Bin" and d["op"] == "-" and var_of(strip(d["b"])) == var_of(l) is not None and var_of(strip(d["a"])) is not None:
                        return frozenset((var_of(l), var_of(strip(d["a"]))))
        return None
    def weak(s):
        """some quantity tested for leaving the loop is written on every path round it (used only for the trusted loops)"""
        nodes = []
        if s.n["k"] != "RangeFor" and s.n.get("c"): nodes.append(s.n["c"])
        nodes += [x["c"] for x in walk(s.n["body"]) if x["k"] == "If" and any(y["k"] in ("Break", "Return", "Throw") for y in walk_noloop(x))]
        for c in nodes:
            R = set()
            for x in walk(c):
                if x["k"] in ("Var", "Member", "This"): R |= roots(x, s.al)
            R |= s.inner & vars_of(c)
            for r in R:
                ws = s.written.get(r, [])
                if ws and s.must_any(ws): return "progress"
        return None
    def stagnant(s):
        """a path once round the loop on which nothing that outlives the iteration changes (bool flags are followed by value)"""
        flags = {v for v, t in s.types.items() if t in ("bool", "const bool")}
        wr = {}; 
        for r, ws in s.written.items():
            if r in s.inner or r in flags: continue
            for w in ws: wr[id(w)] = w
        class Cap(Exception): pass
        def E(e, S):
            """states after evaluating e"""
            if e is None or e["k"] == "Lambda": return S
            k = e["k"]
            if k == "Inl":
                for b in e.get("binds", ()):
                    if b.get("init"): S = E(b["init"], S)
                n, b, c, r = X(e["body"], S); return n | r
            if k == "Cond":
                return E(e["a"], C(e["c"], S, True)) | E(e["b"], C(e["c"], S, False))
            if k == "Bin" and e["op"] in ("&&", "||"):
                return E(e["b"], C(e["a"], S, e["op"] == "&&")) | C(e["a"], S, e["op"] != "&&")
            if k == "Assign" and strip(e["a"])["k"] == "Var" and strip(e["a"])["id"] in flags and e["op"] == "=":
                return setf(strip(e["a"])["id"], e["b"], S)
            for c in children(e): S = E(c, S)
            if id(e) in wr: S = {(f, True) for f, m in S}
            elif k in ("Call", "MCall", "OpCall"):
                S2 = S
                for v in flags:
                    if any(w is e for w in s.written.get(v, ())): S2 = {(frozenset(x for x in f if x[0] != v), m) for f, m in S2}
                S = S2
            if len(S) > 256: raise Cap
            return S
        def setf(v, e, S):
            T = {(frozenset(x for x in f if x[0] != v) | {(v, True)}, m) for f, m in C(e, S, True)}
            F = {(frozenset(x for x in f if x[0] != v) | {(v, False)}, m) for f, m in C(e, S, False)}
            if len(T | F) > 256: raise Cap
            return T | F
        def C(e, S, truth):
            """states in which e has been evaluated to truth"""
            e = strip(e)
            if e["k"] == "Un" and e["op"] == "!": return C(e["e"], S, not truth)
            if e["k"] == "Bin" and e["op"] in ("&&", "||"):
                both = (e["op"] == "&&") == truth
                if both: return C(e["b"], C(e["a"], S, truth), truth)
                return C(e["a"], S, truth) | C(e["b"], C(e["a"], S, not truth), truth)
            c = const_int(e, s.P)
            if c is not None: return S if bool(c) == truth else set()
            if e["k"] == "Bool": return S if bool(e["v"]) == truth else set()
            if e["k"] == "Var" and e["id"] in flags:
                return {(f | {(e["id"], truth)}, m) for f, m in S if (e["id"], not truth) not in f}
            if e["k"] == "Assign" and strip(e["a"])["k"] == "Var" and strip(e["a"])["id"] in flags: return C(e["a"], E(e, S), truth)
            return E(e, S)
        def X(st, S):
            """(normal, break, continue, return) states"""
            Z = set()
            if st is None or not S: return S, Z, set(), set()
            k = st["k"]
            if k == "Block":
                B = set(); K = set(); R = set()
                for x in st["s"]:
                    S, b, c, r = X(x, S); B |= b; K |= c; R |= r
                    if not S: break
                return S, B, K, R
            if k == "Expr":
                if any(x["k"] == "Throw" for x in [strip(st["e"])]): return set(), Z, set(), set()
                return E(st["e"], S), Z, set(), set()
            if k == "Decl":
                for d in st["d"]:
                    if d.get("init") is None: continue
                    S = setf(d["id"], d["init"], S) if d["id"] in flags else E(d["init"], S)
                return S, Z, set(), set()
            if k == "If":
                if st.get("cvar"): raise Cap
                a = X(st["a"], C(st["c"], S, True)); F = C(st["c"], S, False)
                b = X(st["b"], F) if st.get("b") else (F, set(), set(), set())
                return tuple(x | y for x, y in zip(a, b))
            if k == "Break": return set(), S, set(), set()
            if k == "Continue": return set(), set(), S, set()
            if k == "Return": return set(), set(), set(), E(st.get("e"), S)
            if k in LOOPS:
                if isinstance(st.get("init"), dict):
                    S, *_ = X(st["init"], S)
                out = set(); R = set(); seen = set(); cur = S; first = k == "Do"
                for _ in range(20):
                    c = st.get("c") if k != "RangeFor" else None
                    if first: T = cur; first = False
                    else:
                        T = C(c, cur, True) if c else cur; out |= C(c, cur, False) if c else (cur if k == "RangeFor" else set())
                    n, b, kk, r = X(st["body"], T); out |= b; R |= r
                    nx = n | kk
                    if k == "For" and st.get("inc"): nx = E(st["inc"], nx)
                    if nx <= seen: break
                    seen |= nx; cur = nx
                if k == "Do" and st.get("c"): out |= C(st["c"], seen, False)
                return out, set(), set(), R
            if k in ("Switch", "Try", "Case", "Default", "Label", "Goto"): raise Cap
            return S, Z, set(), set()
        try:
            n = s.n; S = {(frozenset(), False)}
            c = n.get("c") if n["k"] != "RangeFor" else None
            if n["k"] == "RangeFor": return False
            if c and n["k"] != "Do": S = C(c, S, True)
            a, b, k, r = X(n["body"], S); a |= k
            if n["k"] == "For" and n.get("inc"): a = E(n["inc"], a)
            if c: a = C(c, a, True)
            return any(not m for f, m in a)
        except Cap: return False
    def must_any(s, ws):
        for key in ("inc", "c"):
            if s.n.get(key) and any(x is w for w in ws for x in walk(s.n[key])): return True
        return s.must(s.n["body"], ws)
    def flag(s, v, neg):
        """while (!done) / while (go): a counter test at the top level of the body sets the flag and nothing resets it"""
        vid = v["id"]
        if vid in s.inner: return None
        want = 1 if neg else 0
        sets = []
        for w in s.written.get(vid, []):
            if w["k"] != "Assign" or const_int(w["b"], s.P) is None: return None
            if const_int(w["b"], s.P) == want: sets.append(w)
        resets = [w for w in s.written.get(vid, []) if w not in sets]
        body = s.n["body"]["s"] if s.n["body"]["k"] == "Block" else [s.n["body"]]
        # resets only before the test
        for i, x in enumerate(body):
            if any(y["k"] == "Continue" for y in walk_noloop(x)): return None
            if x["k"] == "If" and s.must(x["a"], sets):
                later = [w for y in body[i + 1:] for w in resets if any(z is w for z in walk(y))]
                if later: continue
                for d in disjuncts(x["c"]):
                    p = s.test(d, False)
                    if p: return p
        return None

def norm_cmp(e, neg):
    """comparison in a canonical form, for structural equality"""
    e = strip(e)
    while e["k"] == "Un" and e["op"] == "!": e = strip(e["e"]); neg = not neg
    if e["k"] != "Bin" or e["op"] not in NEG: return None
    op = NEG[e["op"]] if neg else e["op"]
    a, b = shape(e["a"]), shape(e["b"])
    if op in (">", ">="): op, a, b = FLIP[op], b, a
    if op in ("==", "!=") and repr(b) < repr(a): a, b = b, a
    return op, a, b
def shape(e):
    e = strip(e)
    if e["k"] == "Var": return ("v", e.get("id") if not e.get("global") else e.get("q"))
    if e["k"] in ("Int", "Float", "Bool", "Enum"): return ("c", str(e.get("v")))
    return (e["k"], e.get("op"), (e.get("f") or {}).get("n") if isinstance(e.get("f"), dict) else e.get("f")) + tuple(shape(c) for c in children(e))

def exits(st):
    """the statement always leaves the loop"""
    k = st["k"]
    if k == "Block":
        for x in st["s"]:
            if exits(x): return True
            if any(y["k"] == "Continue" for y in walk_noloop(x)): return False
        return False
    if k in ("Break", "Return", "Throw"): return True
    if k == "If": return bool(st.get("b")) and exits(st["a"]) and exits(st["b"])
    if k == "Expr": return any(x["k"] == "Throw" for x in [strip(st["e"])] if x)
    return False
def walk_noloop(st):
    yield st
    if st["k"] in LOOPS: return
    for c in children(st): yield from walk_noloop(c)
def is_rangevar(e, n): e = strip(e); return e["k"] == "Var" and e["id"] == n["v"]["id"]

def loops_of(P, eff, f):
    types = {p["id"]: p["t"] for p in f.params}; decls = {}
    for n in walk(f.body):
        if n["k"] == "Decl":
            for d in n["d"]: types[d["id"]] = d.get("t", ""); decls[d["id"]] = d
        elif n["k"] == "RangeFor": types[n["v"]["id"]] = n["v"].get("t", "")
        elif n["k"] == "Inl":
            for p in n.get("params", []) or []: types[p["id"]] = p.get("t", "")
    al = aliases(f.body)
    for n in walk(f.body):
        if n["k"] in LOOPS: yield n, Loop(P, eff, f, n, types, al, decls)
