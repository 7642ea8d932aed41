"""Backward slices of a (specialised) body for one output: the statements that can contribute to it, everything else dropped.
Over-approximate: a statement is kept whenever it may write something the output depends on, so equal slices mean equal outputs."""
from ir import *
from flow import path_of
from effects import aliases, roots, READERS, PASS_ALGO_WRITE

CONSTM = READERS | {"size", "empty", "length", "capacity", "c_str", "count", "Distance", "Length", "Normalize", "IsZero", "IsAlmostEqualTo"}
def _mutable(t): return (t.endswith("&") and not t.startswith("const ") and not t.endswith("&&")) or ("*" in t and not t.startswith("const "))

class Slicer:
    def __init__(s, body, params, outs):
        s.body = body; s.al = aliases(body); s.cst = {p["id"] for p in params if p["t"].startswith("const ") or "&" not in p["t"] and "*" not in p["t"]}
        s.constref = {p["id"] for p in params if p["t"].startswith("const ")}
        s.rel = set(); s.memo = {}
    def loc(s, e):
        """locations an lvalue expression may denote: {(root, first field or None)}"""
        p = path_of(e)
        if p is not None and p[0] not in s.al:
            f = next((c for c in p[1] if c not in ("[]", "*")), None)
            return {(p[0], f)}
        return {(r, None) for r in roots(e, s.al)}
    def defs(s, n):
        k = id(n)
        if k in s.memo: return s.memo[k]
        D = set()
        for x in walk(n):
            if x["k"] == "Assign": D |= s.loc(x["a"])
            elif x["k"] == "Un" and x["op"] in ("++", "--"): D |= s.loc(x["e"])
            elif x["k"] == "Decl":
                for d in x["d"]:
                    D.add((d["id"], None))
                    for b in d.get("bindings") or (): D.add((b["id"], None))
            elif x["k"] in ("Call", "MCall", "OpCall", "Construct", "New"):
                f = x.get("f"); pt = (f.get("pt") if isinstance(f, dict) else None) or []
                nm = f.get("n", "") if isinstance(f, dict) else ""
                if x["k"] == "MCall" and nm not in CONSTM and not (isinstance(f, dict) and f.get("const")): D |= s.loc(x["b"]) if x.get("b") else set()
                if x["k"] == "OpCall" and x.get("op") in ("=", "+=", "-=", "*=", "/=", "++", "--", "<<", ">>", "()"):
                    D |= s.loc(x["args"][0]) if x["args"] else set()
                for i, a in enumerate(x.get("args") or ()):
                    if a is None: continue
                    t = pt[i] if i < len(pt) else ""
                    if x["k"] == "OpCall" and x.get("op") in ("[]", "*", "->", "+", "-", "/", "==", "!=", "<"): continue
                    if (i >= len(pt) and (x["k"] == "Call")) or _mutable(t) or "iterator" in t or (nm in PASS_ALGO_WRITE): D |= s.loc(a)
        D = {d for d in D if d[0] not in s.constref}
        s.memo[k] = D
        return D
    def uses(s, n):
        U = set(); inner = set()
        for x in walk(n):
            if x["k"] in ("Member", "Index"): inner.add(id(x["b"]))
        for x in walk(n):
            if x["k"] in ("Member", "Var", "Index") and id(x) not in inner: U |= s.loc(x)
            if x["k"] in ("Member", "Index") and path_of(x) is None: U |= {(r, None) for r in roots(x, s.al)}
            if x["k"] == "Var": 
                if x["id"] in s.al: U |= {(r, None) for r in s.al[x["id"]]} | {(x["id"], None)}
            if x["k"] == "This": U.add(("this", None))
        return U
    def hit(s, D):
        return any(r == r2 and (f is None or f2 is None or f == f2) for r, f in D for r2, f2 in s.rel)
    def need(s, n):
        u = s.uses(n)
        if not u <= s.rel: s.rel |= u; s.ch = True
    def run(s, crit, ret):
        s.rel = set(crit); s.ret = ret
        for _ in range(40):
            s.ch = False
            r = s.st(s.body)
            if not s.ch: return r
        return r
    def st(s, x):
        """the kept part of x, or None"""
        if x is None: return None
        k = x["k"]
        if k == "Block":
            out = [z for z in (s.st(y) for y in x["s"]) if z is not None]
            return {"k": "Block", "l": 0, "s": out} if out else None
        if k == "Decl":
            ds = []
            for d in x["d"]:
                one = {"k": "Decl", "l": 0, "d": [d]}
                own = {(d["id"], None)} | {(b["id"], None) for b in d.get("bindings") or ()}
                if s.hit(own) or (d.get("init") is not None and s.hit(s.defs(d["init"]))): s.need(one); ds.append(d)
            return {"k": "Decl", "l": 0, "d": ds} if ds else None
        if k == "Expr":
            if x["e"]["k"] == "Throw": return None
            if s.hit(s.defs(x)): s.need(x); return x
            return None
        if k == "Return":
            if s.ret:
                if x.get("e"): s.need(x["e"])
                return x
            if x.get("e") and s.hit(s.defs(x["e"])): s.need(x["e"]); return x
            return {"k": "Return", "l": 0}
        if k in ("Break", "Continue"): return x
        if k == "If":
            a, b = s.st(x["a"]), s.st(x.get("b"))
            ci = s.hit(s.defs(x["c"]))
            if a is None and b is None and not ci: return None
            s.need(x["c"])
            return {**x, "a": a or {"k": "Block", "l": 0, "s": []}, "b": b}
        if k in ("For", "While", "Do", "RangeFor"):
            b = s.st(x["body"])
            parts = [x[kk] for kk in ("init", "c", "inc", "r") if isinstance(x.get(kk), dict)]
            h = any(s.hit(s.defs(p)) for p in parts)
            if not h and (b is None or not s.lasting(b)): return None
            for p in parts: s.need(p)
            return {**x, "body": b or {"k": "Block", "l": 0, "s": []}}
        if k == "Switch":
            b = s.st(x["body"])
            if b is None or not s.lasting(b): return None
            s.need(x["c"]); return {**x, "body": b}
        if k in ("Case", "Default", "Label"):
            b = s.st(x.get("body")); return {**x, "body": b}
        if k == "Try": 
            b = s.st(x["body"]); return {**x, "body": b} if b is not None else None
        if k == "Null": return None
        if s.hit(s.defs(x)) : s.need(x); return x
        return None
    def lasting(s, b):
        """something other than jumps that stay inside"""
        k = b["k"]
        if k in ("Break", "Continue"): return False
        if k == "Block": return any(s.lasting(y) for y in b["s"])
        if k == "If": return s.hit(s.defs(b["c"])) or s.lasting(b["a"]) or (b.get("b") is not None and s.lasting(b["b"]))
        if k in ("Case", "Default", "Label"): return b.get("body") is not None and s.lasting(b["body"])
        return True

def outputs(P, f):
    """[(name, criterion, is return value)]"""
    out = []
    if f.ret and f.ret != "void": out.append(("return", set(), True))
    for i, p in enumerate(f.params):
        t = p["t"]
        if not _mutable(t): continue
        b = base_type(t); r = P.records.get(b)
        if r is not None and r.get("fields"):
            for fl in r["fields"]: out.append((f"{i}.{fl['n']}", {(p["id"], fl["n"])}, False))
        else: out.append((str(i), {(p["id"], None)}, False))
    return out
