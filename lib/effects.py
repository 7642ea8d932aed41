"""May-write effects: which parameters (index), 'this', globals and static locals a function may modify through
references, pointers, const_cast'ed lvalues or callees.  Flow-insensitive, interprocedural fixpoint."""
from ir import *

MUTATING = {"push_back", "emplace_back", "insert", "emplace", "clear", "resize", "assign", "erase", "pop_back", "push", "pop", "swap",
            "reserve", "shrink_to_fit", "push_front", "emplace_front", "pop_front", "merge", "splice", "sort", "reverse", "unique",
            "setZero", "setIdentity", "setConstant", "fill", "reset", "store", "exchange", "fetch_add", "operator()", "operator++", "operator--",
            "append", "operator+=", "try_emplace", "insert_or_assign", "extract", "seed", "discard", "lock", "release"}
READERS = {"begin", "end", "rbegin", "rend", "front", "back", "data", "at", "operator[]", "find", "operator*", "operator->", "get", "lower_bound", "upper_bound",
           "second", "first"}
PASS_ALGO_WRITE = {"sort", "stable_sort", "reverse", "unique", "fill", "fill_n", "iota", "rotate", "partition", "swap", "shuffle", "nth_element", "partial_sort",
                   "transform", "copy", "copy_n", "remove", "remove_if", "generate", "random_shuffle", "qsort", "memset", "memcpy", "iter_swap", "swap_ranges", "replace", "replace_if", "move_backward", "copy_backward", "make_heap", "push_heap", "pop_heap", "sort_heap", "inplace_merge", "exchange"}

def roots(e, al, depth=0):
    """set of roots (var id / 'this' / ('g',q)) an lvalue or pointer-ish expression may refer into; transparent through casts, members, indices,
    iterators obtained from containers"""
    if e is None or depth > 60: return set()
    k = e["k"]
    if k == "Var":
        if e.get("global"): return {("g", e.get("q"))}
        r = {e["id"]}
        if e.get("slocal"): r = {("s", e["id"], e["n"])}
        return r | al.get(e["id"], set())
    if k == "This": return {"this"}
    if k == "Member": return roots(e["b"], al, depth + 1)
    if k == "Index": return roots(e["b"], al, depth + 1)
    if k == "Un" and e["op"] in ("*", "&", "++", "--"): return roots(e["e"], al, depth + 1)
    if k == "Cast": return roots(e.get("e"), al, depth + 1)
    if k == "Cond": return roots(e["a"], al, depth + 1) | roots(e["b"], al, depth + 1)
    if k == "Assign": return roots(e["a"], al, depth + 1)
    if k == "Bin" and e["op"] in ("+", "-"): return roots(e["a"], al, depth + 1) | (roots(e["b"], al, depth + 1) if e["b"]["k"] == "Var" else set()) if "*" in e.get("t", "") or "iterator" in e.get("t", "") else set()
    if k == "Bin" and e["op"] == ",": return roots(e["b"], al, depth + 1)
    if k == "MCall":
        n = (e.get("f") or {}).get("n", "")
        if n in READERS: return roots(e.get("b"), al, depth + 1)
        t = e.get("t", "")
        return roots(e.get("b"), al, depth + 1) if t.endswith("&") or t.endswith("*") else set()
    if k == "OpCall":
        if e["op"] in ("*", "->", "[]", "+", "-", "++", "--"): return set().union(*[roots(a, al, depth + 1) for a in e["args"][:1]])
        return set()
    if k == "Call":
        n = (e.get("f") or {}).get("n", "")
        if n in ("begin", "end", "move", "forward", "ref", "addressof", "next", "prev", "get", "max_element", "min_element", "find", "find_if", "lower_bound", "upper_bound", "data", "as_const", "max", "min") and e["args"]:
            return roots(e["args"][0], al, depth + 1)
        return set()
    if k == "Inl":
        # reference/pointer-returning inlined helper: union over returned expressions
        r = set()
        for s in walk(e["body"]):
            if s["k"] == "Return" and s.get("e"): r |= roots(s["e"], al, depth + 1)
        return r
    return set()

def _ptrish(t): return t.endswith("&") or "*" in t or "iterator" in t

def aliases(body, lambdas=True):
    """var id -> roots it may point/refer to (flow-insensitive closure)"""
    al = {}
    ch = True; it = 0
    while ch and it < 10:
        ch = False; it += 1
        for n in walk(body):
            ds = []
            if n["k"] == "Decl": ds = [(d, d.get("init")) for d in n["d"]]
            elif n["k"] == "RangeFor": ds = [(n["v"], n["r"])]
            elif n["k"] == "Inl": ds = [(d, d.get("init")) for d in n["binds"]]
            elif n["k"] == "Assign" and n["op"] == "=" and n["a"]["k"] == "Var" and ("*" in n["a"]["t"] or "iterator" in n["a"]["t"]): ds = [(n["a"], n["b"])]
            for d, i in ds:
                if i is None: continue
                t = d.get("t", "")
                bs = d.get("bindings") or []
                if _ptrish(t) or bs:
                    r = roots(i, al)
                    for x in [d] + bs:
                        old = al.get(x["id"], set())
                        if not r <= old: al[x["id"]] = old | r; ch = True
    return al

class Effects:
    def __init__(self, P):
        self.P = P
        self.al = {}; self.w = {}; self.sites = {}
        fs = [f for f in P.funcs.values() if f.body]
        for f in fs: self.al[f.key] = aliases(f.body); self.w[f.key] = set(); self.sites[f.key] = {}
        self.overr = {}; self.bycls = {}
        for f in fs:
            for m in f.d.get("overrides", []): self.overr.setdefault(m, []).append(f); self.bycls.setdefault(f.cls, []).append(f)
        ch = True
        while ch:
            ch = False
            for f in fs:
                new = self.compute(f)
                if not set(new) <= self.w[f.key]:
                    self.w[f.key] |= set(new); ch = True
                    for k, v in new.items(): self.sites[f.key].setdefault(k, v)
    def targets(self, fd):
        c = self.P.callee(fd)
        r = [c] if c else []
        if fd and fd.get("virtual"): r += self.overr.get(fd["m"], [])
        return r
    def classify(self, f, r):
        if r == "this" or isinstance(r, tuple): return r
        i = f.pindex(r)
        if i is None: return None
        t = f.params[i]["t"]
        if is_ref(t) or "*" in t or "[" in t: return i
        return None
    def compute(self, f):
        al = self.al[f.key]; out = {}
        pid = {p["id"] for p in f.params}
        def wr(e, line, through=False):
            for r in roots(e, al):
                c = self.classify(f, r)
                if c is None: continue
                # a plain pointer/param variable being re-seated is not a write through it
                if e["k"] == "Var" and e["id"] == r and isinstance(c, int) and not is_ref(f.params[c]["t"]) and not through: continue
                out.setdefault(c, line)
        for n in walk(f.body):
            k = n["k"]
            if k == "Assign":
                a = n["a"]
                if a["k"] == "Var" and a["id"] in al and not a.get("t", "").endswith("&") and "*" in a.get("t", ""): continue
                if a["k"] == "Var" and "iterator" in a.get("t", ""): continue
                wr(a, n["l"])
            elif k == "Un" and n["op"] in ("++", "--"):
                a = n["e"]
                if a["k"] == "Var" and ("*" in a.get("t", "")): continue
                wr(a, n["l"])
            elif k == "OpCall":
                if n["op"] in ("++", "--") and "iterator" in (n["args"][0].get("t", "")): continue
                if n["op"] in ("++", "--", "<<=", ">>="): wr(n["args"][0], n["l"])
                self.call(f, n, n["args"], wr)
            elif k == "MCall":
                fd = n.get("f") or {}
                tg = self.targets(fd)
                if tg:
                    for c in tg:
                        if "this" in self.w.get(c.key, ()): wr(n["b"], n["l"], True)
                elif n.get("b") is not None:
                    if not fd.get("const") and (fd.get("n") in MUTATING or (fd.get("n") not in READERS and not fd.get("implicit"))): wr(n["b"], n["l"], True)
                self.call(f, n, n["args"], wr)
            elif k in ("Call", "Ctor"): self.call(f, n, n["args"], wr)
            elif k == "Delete": wr(n["e"], n["l"], True)
            elif k == "RangeFor": pass
        return out
    def call(self, f, n, args, wr):
        fd = n.get("f")
        if not fd: return
        tg = self.targets(fd)
        if n["k"] == "Call" and tg and not tg[0].static and tg[0].cls and "this" in self.w.get(tg[0].key, ()):
            pass
        if tg:
            off = 1 if (n["k"] == "OpCall" and fd.get("cls") and not fd.get("static")) else 0
            for c in tg:
                if off and "this" in self.w.get(c.key, ()): wr(args[0], n["l"], True)
                for i, p in enumerate(c.params):
                    if i + off < len(args) and args[i + off] is not None and i in self.w.get(c.key, ()):
                        if p["t"] == "void *":
                            # user data handed to a function object: resolve the virtual call by the object's static type
                            ops = [g for a in args if a is not None for g in self.bycls.get(base_type(a.get("t", "")).split("::")[-1], [])]
                            if ops and not any("void *" == q["t"] and j in self.w[g.key] for g in ops for j, q in enumerate(g.params)): continue
                        wr(args[i + off], n["l"], True)
        else:
            name = fd.get("n", "")
            for a, t in zip(args, fd.get("pt", [])):
                if a is None: continue
                if name in ("move", "forward", "begin", "end", "get", "max", "min", "addressof", "make_pair", "make_tuple"): continue
                if is_mut_ref(t) and not fd.get("const"): wr(a, n["l"], True)
                elif t.endswith("*") and not t.startswith("const"): wr(a, n["l"], True)
                elif name in PASS_ALGO_WRITE and "iterator" in t: wr(a, n["l"], True)
