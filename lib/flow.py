"""Structured forward dataflow over the normalised AST.

Handles if/loops/switch/try/return/break/continue/throw, short-circuit conditions, branch
refinement and inlined helper bodies ('Inl' nodes).  An analysis subclasses Flow, provides a
state with copy/join/eq and overrides eval_* hooks."""
from ir import walk, base_type, is_ref, AnalysisBroken

class Out:
    __slots__ = ("n", "b", "c", "r")
    def __init__(s, n=None): s.n = n; s.b = []; s.c = []; s.r = []
    def absorb(s, o): s.b += o.b; s.c += o.c; s.r += o.r

NORETURN = {"exit", "abort", "terminate", "_Exit", "quick_exit", "__builtin_unreachable", "rethrow_exception", "__throw_out_of_range"}

class Flow:
    MAXIT = 40
    # ------- lattice: override
    def copy(self, st): return st.copy()
    def join(self, a, b): raise NotImplementedError
    def eq(self, a, b): return a == b
    # ------- hooks
    def on_stmt(self, s, st): pass
    def on_decl(self, d, st, val): pass
    def on_return(self, s, st, val): pass
    def on_loop_enter(self, s, st): pass
    def on_loop_head(self, s, st): pass
    def refine(self, e, st, truth): return st
    def visit(self, e, st, vals): return None      # post-order expression hook -> abstract value
    def lval(self, e, st): pass
    # ------- utilities
    def joinopt(self, a, b):
        if a is None: return b
        if b is None: return a
        return self.join(a, b)
    def joinall(self, l):
        r = None
        for x in l: r = x if r is None else self.join(r, x)
        return r
    # ------- expressions.  Order of evaluation: operands before operator, rhs before assignment.
    def eval(self, e, st):
        """Evaluates e for effect in state st (mutated); returns abstract value, or raises Dead when the path ends."""
        if e is None: return None
        k = e["k"]
        if k == "Bin" and e["op"] in ("&&", "||"):
            t, f = self.cond(e, st)
            self._assign_state(st, self.joinopt(t, f))
            return self.visit(e, st, [])
        if k == "Cond":
            t, f = self.cond(e["c"], st)
            va = vb = None
            if t is not None:
                try: va = self.eval(e["a"], t)
                except Dead: t = None
            if f is not None:
                try: vb = self.eval(e["b"], f)
                except Dead: f = None
            j = self.joinopt(t, f)
            if j is None: raise Dead()
            self._assign_state(st, j)
            return self.cond_value(e, st, va, vb)
        if k == "Inl": return self.eval_inl(e, st)
        if k == "Lambda": return self.visit(e, st, [])
        vals = []
        if k == "Assign":
            vb = self.eval(e["b"], st)
            va = self.eval_lhs(e["a"], st, e["op"])
            return self.visit(e, st, [va, vb])
        if k == "Throw":
            if e.get("e"): self.eval(e["e"], st)
            self.visit(e, st, [])
            raise Dead()
        for c in self.children(e):
            vals.append(self.eval(c, st))
        r = self.visit(e, st, vals)
        if k in ("Call", "MCall") and isinstance(e.get("f"), dict) and (e["f"]["n"] in NORETURN or self.noreturn(e)):
            raise Dead()
        return r
    def noreturn(self, e): return False
    def cond_value(self, e, st, va, vb): return None
    def eval_lhs(self, e, st, op):
        """Operands of an lvalue that is about to be written (indices are read, the root is not unless op is compound)."""
        k = e["k"]
        if op != "=" : return self.eval(e, st)
        if k == "Var": return None
        if k == "Member": return self.eval_lhs(e["b"], st, op)
        if k == "Index":
            self.eval_lhs(e["b"], st, op) if e["b"]["k"] in ("Var", "Member", "Index") else self.eval(e["b"], st)
            return self.eval(e["i"], st)
        return self.eval(e, st)
    @staticmethod
    def children(e):
        k = e["k"]
        if k in ("Member", ): return [e["b"]] if e.get("b") else []
        if k == "Index": return [e["b"], e["i"]]
        if k == "Un": return [e["e"]]
        if k == "Bin": return [e["a"], e["b"]]
        if k == "MCall": return [e["b"]] + list(e["args"]) if e.get("b") else list(e["args"])
        if k == "Call": return ([e["fe"]] if e.get("fe") else []) + list(e["args"])
        if k in ("OpCall", "Ctor", "InitList", "Unk"): return [a for a in e["args"] if a is not None]
        if k in ("Cast", "Delete"): return [e["e"]] if e.get("e") else []
        if k == "New": return [x for x in (e.get("n"), e.get("init")) if isinstance(x, dict)]
        return []
    def _assign_state(self, st, new):
        if new is None: raise Dead()
        if new is st: return
        st.__dict__.clear(); st.__dict__.update(new.__dict__)
    def eval_inl(self, e, st):
        for d in e["binds"]:
            v = self.eval(d.get("init"), st)
            self.on_decl(d, st, v)
        self.inl += 1
        try: o = self.exec(e["body"], self.copy(st))
        finally: self.inl -= 1
        outs = []
        if o.n is not None: outs.append((o.n, None, None))
        outs += o.r
        if not outs: raise Dead()
        val = self.inl_value(e, outs)
        self._assign_state(st, self.joinall([x[0] for x in outs]))
        return val
    def inl_value(self, e, outs): return None
    # ------- conditions -> (state if true, state if false), either None
    inl = 0          # depth of inlined bodies
    consts = {}      # selector specialisation: variable id -> constant
    def static(self, e):
        k = e["k"]
        if k in ("Enum", "Int", "Bool"): return int(e["v"])
        if k == "Var":
            return self.consts.get(e["id"])
        if k == "Cast": return self.static(e["e"]) if e.get("e") else None
        if k == "Un" and e["op"] == "!":
            v = self.static(e["e"]); return None if v is None else int(not v)
        if k == "Bin" and e["op"] in ("==", "!="):
            a, b = self.static(e["a"]), self.static(e["b"])
            if a is None or b is None: return None
            return int((a == b) == (e["op"] == "=="))
        return None
    def cond(self, e, st):
        k = e["k"]
        if k in ("Var", "Un", "Bin", "Cast") and self.consts:
            v = self.static(e)
            if v is not None: return (st, None) if v else (None, st)
        if k == "Bool": return (st, None) if e["v"] else (None, st)
        if k == "Int": return (st, None) if e["v"] else (None, st)
        if k == "Un" and e["op"] == "!":
            t, f = self.cond(e["e"], st); return f, t
        if k == "Bin" and e["op"] == "&&":
            t, f = self.cond(e["a"], st)
            if t is None: return None, f
            t2, f2 = self.cond(e["b"], t)
            return t2, self.joinopt(f, f2)
        if k == "Bin" and e["op"] == "||":
            t, f = self.cond(e["a"], st)
            if f is None: return t, None
            t2, f2 = self.cond(e["b"], f)
            return self.joinopt(t, t2), f2
        if k == "Inl":
            for d in e["binds"]:
                v = self.eval(d.get("init"), st); self.on_decl(d, st, v)
            self.inl += 1
            try: o = self.exec(e["body"], self.copy(st), inlcond=True)
            finally: self.inl -= 1
            ts, fs = [], []
            for (s, ex, v) in o.r:
                if ex is None: ts.append(s); fs.append(self.copy(s)); continue
                # the returned expression was already evaluated for effect
                t, f = self.cond(ex, s)
                if t is not None: ts.append(t)
                if f is not None: fs.append(f)
            if o.n is not None: ts.append(o.n); fs.append(self.copy(o.n))
            return self.joinall(ts), self.joinall(fs)
        if k == "Cast": return self.cond(e["e"], st)
        try: self.eval(e, st)
        except Dead: return None, None
        t = self.refine(e, self.copy(st), True)
        f = self.refine(e, st, False)
        return t, f
    # ------- statements
    def exec(self, s, st, inlcond=False):
        if s is None or st is None: return Out(st)
        k = s["k"]
        self.on_stmt(s, st)
        try:
            return getattr(self, "x_" + k, self.x_unknown)(s, st)
        except Dead:
            return Out(None)
    def x_unknown(self, s, st): raise AnalysisBroken("unknown statement " + s["k"])
    def x_Null(self, s, st): return Out(st)
    def x_Expr(self, s, st):
        self.eval(s["e"], st); return Out(st)
    def x_Block(self, s, st):
        o = Out(st)
        for x in s["s"]:
            if o.n is None: break
            o2 = self.exec(x, o.n); o.n = o2.n; o.absorb(o2)
        return o
    def x_Decl(self, s, st):
        for d in s["d"]:
            v = self.eval(d["init"], st) if d.get("init") else None
            self.on_decl(d, st, v)
        return Out(st)
    def x_If(self, s, st):
        o = Out()
        if s.get("init"):
            oi = self.exec(s["init"], st); st = oi.n
        if s.get("cvar"):
            d = s["cvar"]; v = self.eval(d["init"], st) if d.get("init") else None; self.on_decl(d, st, v)
        t, f = self.cond(s["c"], st)
        a = self.exec(s["a"], t) if t is not None else Out(None)
        b = self.exec(s["b"], f) if (s.get("b") and f is not None) else Out(f)
        o.n = self.joinopt(a.n, b.n); o.absorb(a); o.absorb(b)
        return o
    def loop(self, s, st, init, condf, bodyf, incf, dofirst=False):
        o = Out()
        if init: st = self.exec(init, st).n
        if st is None: return o
        self.on_loop_enter(s, st)
        head = st
        exits = []
        for it in range(self.MAXIT):
            exits = []; rets = []
            cur = self.copy(head)
            self.on_loop_head(s, cur)
            if not dofirst:
                t, f = condf(cur)
                if f is not None: exits.append(f)
            else: t = cur
            back = None
            if t is not None:
                b = bodyf(t)
                exits += b.b
                rets = b.r
                back = self.joinall([x for x in [b.n] + b.c if x is not None])
                if back is not None and dofirst:
                    tt, ff = condf(back)
                    if ff is not None: exits.append(ff)
                    back = tt
                if back is not None and incf:
                    try: incf(back)
                    except Dead: back = None
            if back is not None: self.after_body(s, back, exits)
            if back is None: break
            new = self.join(self.copy(head), back)
            if self.eq(new, head): break
            head = self.widen(head, new, it)
        else:
            raise AnalysisBroken("no fixpoint in loop at line %s" % s.get("l"))
        o.n = self.joinall(exits); o.r = rets
        return o
    def after_body(self, s, back, exits): pass
    def widen(self, old, new, it): return new
    def x_For(self, s, st):
        return self.loop(s, st, s.get("init"), (lambda x: self.cond(s["c"], x)) if s.get("c") else (lambda x: (x, None)),
                         lambda x: self.exec(s["body"], x), (lambda x: self.eval(s["inc"], x)) if s.get("inc") else None)
    def x_While(self, s, st):
        return self.loop(s, st, None, lambda x: self.cond(s["c"], x), lambda x: self.exec(s["body"], x), None)
    def x_Do(self, s, st):
        return self.loop(s, st, None, lambda x: self.cond(s["c"], x), lambda x: self.exec(s["body"], x), None, True)
    def x_RangeFor(self, s, st):
        rv = self.eval(s["r"], st)
        def c(x): return self.copy(x), x
        def b(x):
            self.on_decl(dict(s["v"], init=None, rangeof=s["r"]), x, rv)
            return self.exec(s["body"], x)
        return self.loop(s, st, None, c, b, None)
    def x_Switch(self, s, st):
        try: self.eval(s["c"], st)
        except Dead: return Out(None)
        o = Out(); body = s["body"]
        items = body["s"] if body and body["k"] == "Block" else [body]
        cur = None; seen_default = False
        def enter(item, cur):
            nonlocal seen_default
            labels = []
            x = item
            while x is not None and x["k"] in ("Case", "Default"):
                labels.append(x); 
                if x["k"] == "Default": seen_default = True
                x = x["body"]
            st2 = self.copy(st)
            st2 = self.refine_case(s, labels, st2)
            return x, self.joinopt(cur, st2)
        saved = getattr(self, "switch_cases", None)
        self.switch_cases = [x["v"] for x in self._cases(items)]
        for it in items:
            if it["k"] in ("Case", "Default"):
                it, cur = enter(it, cur)
            if cur is None: continue
            mine = self.switch_cases
            o2 = self.exec(it, cur) if it is not None else Out(cur)
            self.switch_cases = mine
            cur = o2.n; o.absorb(o2)
        ends = [x for x in [cur] + o.b if x is not None]; o.b = []
        if not seen_default:
            d = self.refine_nocase(s, self.copy(st))
            if d is not None: ends.append(d)
        o.n = self.joinall(ends)
        self.switch_cases = saved
        return o
    def _cases(self, items):
        for it in items:
            x = it
            while x is not None and x["k"] in ("Case", "Default"):
                if x["k"] == "Case": yield x
                x = x["body"]
    def refine_case(self, s, labels, st):
        v = self.static(s["c"]) if self.consts else None
        if v is None: return st
        for x in labels:
            if x["k"] == "Case":
                if self.static(x["v"]) == v: return st
            elif not any(self.static(c) == v for c in self.switch_cases): return st
        return None
    def refine_nocase(self, s, st):
        v = self.static(s["c"]) if self.consts else None
        if v is not None and any(self.static(c) == v for c in self.switch_cases): return None
        return st
    def x_Break(self, s, st): o = Out(); o.b.append(st); return o
    def x_Continue(self, s, st): o = Out(); o.c.append(st); return o
    def x_Return(self, s, st):
        o = Out()
        v = self.eval(s["e"], st) if s.get("e") else None
        if not self.inl: self.on_return(s, st, v)
        o.r.append((st, s.get("e"), v)); return o
    def x_Try(self, s, st):
        o = self.exec(s["body"], self.copy(st))
        for h in s["h"]:
            o2 = self.exec(h, self.copy(st))   # coarse: state before the block
            o.n = self.joinopt(o.n, o2.n); o.absorb(o2)
        return o
    def x_Label(self, s, st): return self.exec(s["body"], st)
    def x_Goto(self, s, st): raise AnalysisBroken("goto at line %s is not supported" % s["l"])
    def x_Case(self, s, st): return self.exec(s["body"], st)
    x_Default = x_Case

class Dead(Exception): pass

# ---------------------------------------------------------------- access paths
def path_of(e, alias=None):
    """(root id or 'this', [components]) of an lvalue expression; components are field names or '[]'.  None if not a path."""
    k = e["k"]
    if k == "Var":
        if alias and e["id"] in alias:
            r = alias[e["id"]]
            return (r[0], list(r[1])) if r else None
        return (e["id"], [])
    if k == "This": return ("this", [])
    if k == "Member":
        p = path_of(e["b"], alias)
        return None if p is None else (p[0], p[1] + [e["f"]])
    if k == "Index":
        p = path_of(e["b"], alias)
        return None if p is None else (p[0], p[1] + ["[]"])
    if k == "Un" and e["op"] == "*": 
        p = path_of(e["e"], alias)
        return None if p is None else (p[0], p[1] + ["*"])
    if k == "Cast" and e.get("e"): return path_of(e["e"], alias)
    return None


# ---------------------------------------------------------------- selector specialisation
def assigned_ids(body):
    r = set()
    for n in walk(body):
        if n["k"] == "Assign" and n["a"]["k"] == "Var": r.add(n["a"]["id"])
        elif n["k"] == "Un" and n["op"] in ("++", "--", "&") and n["e"]["k"] == "Var": r.add(n["e"]["id"])
        elif n["k"] in ("Call", "MCall", "OpCall", "Ctor") and isinstance(n.get("f"), dict):
            for a, t in zip(n["args"] if n["k"] != "OpCall" else n["args"], n["f"]["pt"]):
                if a is not None and a.get("k") == "Var" and t.endswith("&") and not t.startswith("const "): r.add(a["id"])
    return r

def selectors(P, f, limit=16):
    """[(param index, [values])] for bool / enum parameters that the function never reassigns"""
    asg = assigned_ids(f.body)
    r = []; n = 1
    for i, p in enumerate(f.params):
        t = base_type(p["t"])
        if p["id"] in asg: continue
        if t == "bool": vals = [0, 1]
        elif t in P.enums: vals = sorted({c["v"] for c in P.enums[t]["c"]})
        else: continue
        if n * len(vals) > limit: continue
        n *= len(vals); r.append((i, vals))
    return r

def specialisations(P, f):
    """list of dicts param index -> value covering all selector combinations"""
    import itertools
    sel = selectors(P, f)
    return [dict(zip([i for i, _ in sel], c)) for c in itertools.product(*[v for _, v in sel])]
