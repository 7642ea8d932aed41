"""Size summaries: for every function the sizes of returned/written containers and integer results as terms over its parameters."""
from sym import *
import sym, itertools, copy
from flow import selectors
from prune import prune
from logic import kinds, subst_f

IMPURE = {"vec", "newobj", "out", "loop", "phi", "new", "uninit", "havoc", "lambda", "ext", "rec", "init", "iter", "iv", "this"}
def pure_t(t): return t is not None and not (kinds(t) & IMPURE)

LNREC = ("LN_BsplineCurve", "LN_BsplineSurface", "LN_BezierCurve", "LN_BezierSurface", "LN_BsplineVolume", "LN_NurbsVolume", "LN_Mesh", "LN_BsplineVolume")
def is_ln(t): return base_type(t).startswith("LN_")

def shape(v, t, P, depth=0):
    """abstract a term of C++ type t to its sizes; None = unknown"""
    b = base_type(t)
    if v is None: return None
    if isvec_type(b):
        s = size(v); s = s if pure_t(s) else None
        el = None
        et = elem_type(b)
        if et and isvec_type(et):
            ev = elem(v) if v[0] == "vec" else ("at", v, "*", True)
            el = shape(ev, et, P, depth + 1) if ev is not None else None
        return None if s is None and el is None else ("v", s, el)
    if is_int(b, P): return ("s", v) if pure_t(v) else None
    if b in P.records and b.startswith("LN_") and depth < 2:
        fs = {}
        for x in P.records[b].get("fields", []):
            r = shape(fld(v, x["n"]), x["t"], P, depth + 1)
            if r is not None: fs[x["n"]] = r
        return ("r", tuple(sorted(fs.items()))) if fs else None
    return None
def same(a, b, eqs):
    if a == b: return True
    d = tolin(sub(a, b))
    if cval(d) == 0: return True
    for x in eqs:
        X = tolin(x)
        for at, k in X[2]:
            c = dict(d[2]).get(at)
            if c is not None:
                r = sub(d, scale(X, Fraction(c) / Fraction(k)))
                if cval(r) == 0: return True
    return False
def ite(c, a, b):
    """a unless c, then b"""
    if c is None or a is None or b is None: return None
    t = ("ite", c, b, a)
    return t if sum(1 for _ in subterms(t)) < 120 else None
def meet(a, b, ea=(), eb=(), c=None):
    if a == b: return a
    if a is None or b is None or a[0] != b[0]: return None
    if a[0] == "s":
        if same(a[1], b[1], eb): return a
        if same(a[1], b[1], ea): return b
        t = ite(c, a[1], b[1])
        return ("s", t) if t else None
    if a[0] == "v":
        s = None
        if a[1] is not None and b[1] is not None: s = a[1] if same(a[1], b[1], eb) else b[1] if same(a[1], b[1], ea) else ite(c, a[1], b[1])
        e = meet(a[2], b[2], ea, eb, c)
        return None if s is None and e is None else ("v", s, e)
    if a[0] == "r":
        da, db = dict(a[1]), dict(b[1]); fs = {}
        for k in set(da) & set(db):
            m = meet(da[k], db[k], ea, eb, c)
            if m is not None: fs[k] = m
        return ("r", tuple(sorted(fs.items()))) if fs else None
    return None

class Summary:
    def __init__(self, ret, outs, facts=()): self.ret = ret; self.outs = outs; self.facts = list(facts); self.spec = {}; self.sel = ()
    def same(self, o): return self.ret == o.ret and self.outs == o.outs and self.facts == o.facts and self.spec.keys() == o.spec.keys() and all(x.same(o.spec[k]) for k, x in self.spec.items())
    def pick(self, args):
        """the summary for the selector values the call passes, when they are constants"""
        if not self.spec: return self
        vs = []
        for i in self.sel:
            c = cval(args[i]) if i < len(args) and args[i] is not None else None
            if c is None: return self
            vs.append(int(c))
        return self.spec.get(tuple(vs), self)
    def inst(self, sh, S, args, this, dflt):
        def f(t):
            if isinstance(t, tuple) and t and t[0] == "p":
                return args[t[1]] if t[1] < len(args) and args[t[1]] is not None else ("havoc", S.fresh())
            return None
        def go(sh, d):
            if sh is None: return None
            if sh[0] == "v":
                sz = subst(sh[1], f) if sh[1] is not None else size(d)
                el = go(sh[2], ("at", d, "*", True)) if sh[2] is not None else None
                n = S.fresh(); S.origin[n] = d
                return ("vec", sz, el, n)
            if sh[0] == "s": return subst(sh[1], f)
            if sh[0] == "r":
                fs = [(k, go(x, fld(d, k))) for k, x in sh[1]]; have = dict(fs)
                # the callee's own results are checked against the knot count rule: what is known of them decides the rest
                if KNOT_RULE[0]:
                    for kv, (cp, dg, dep) in KNOT_OF.items():
                        if dg not in have: continue
                        if kv not in have:
                            x = have.get(cp) or ("m", d, cp)
                            for _ in range(dep): x = elem(x) if x is not None else None
                            if x is not None: n = S.fresh(); S.origin[n] = fld(d, kv); fs.append((kv, ("vec", add(add(size(x), have[dg]), const(1)), None, n)))
                        elif dep == 0 and cp not in have and not any(o[2] for k2, o in KNOT_OF.items() if o[0] == cp and k2 in have):
                            n = S.fresh(); fs.append((cp, ("vec", sub(sub(size(have[kv]), have[dg]), const(1)), None, n)))
                return ("rec", tuple(fs), d)
        return go(sh, dflt)
    def apply_ret(self, S, args, this, dflt): return self.inst(self.ret, S, args, this, dflt) if self.ret is not None else None
    def apply_out(self, S, i, args, this, dflt):
        sh = self.outs.get(i)
        return self.inst(sh, S, args, this, dflt) if sh is not None else None

class RunS(Sym):
    ites = True; once = True
    def __init__(s, P, f, eff, summ): super().__init__(P, f, eff, summ); s.rets = []; s.facts = []
    def on_throw(s, e, st):
        for c in dnf(f_and(*st.ctx), 8): s.facts.append(c)
    def on_libcall(s, e, c, st, args):
        sm = s.summ.get(c.key)
        if sm is not None: sm = sm.pick(args)
        if sm is None or not sm.facts or len(s.facts) > 200: return
        def f(t):
            if isinstance(t, tuple) and t and t[0] == "p": return args[t[1]] if t[1] < len(args) and args[t[1]] is not None else ("havoc", s.fresh())
            return None
        for conj in sm.facts:
            for x in dnf(f_and(*st.ctx, *[subst_f(a, f) for a in conj]), 4):
                if x not in s.facts: s.facts.append(x)
    def on_ret(s, e, st, v):
        outs = {}
        for i in s.eff.w.get(s.f.key, ()):
            if isinstance(i, int) and is_ref(s.f.params[i]["t"]):
                outs[i] = s.get((s.f.params[i]["id"], []), st)
        s.rets.append((v, outs, st, e["l"] if e else s.f.line))

def _merge(f, rets, P, rev=False):
    ret = None; first = True; outs = {}; e0 = ()
    for v, os, st, l in rets:
        eqs = [a[1] for a in st.ctx if a[0] == "eq"]
        sh = shape(v, f.ret, P) if base_type(f.ret) != "void" else None
        so = {i: shape(o, f.params[i]["t"], P) for i, o in os.items()}
        if first: ret, outs, first, e0 = sh, so, False, eqs
        else:
            c = None
            if rev and st.ctx and all(pure_f(a) for a in st.ctx): c = f_and(*st.ctx)
            ret = meet(ret, sh, e0, eqs, c); outs = {i: meet(outs.get(i), so.get(i), e0, eqs, c) for i in so}
            e0 = [x for x in e0 if x in eqs]
    return ret, {i: o for i, o in outs.items() if o is not None}
def _one(P, f, eff, summ):
    g = RunS(P, f, eff, summ); g.run()
    ret, outs = _merge(f, g.rets[::-1], P, True)
    if len(g.rets) > 1:
        r2, o2 = _merge(f, g.rets, P)
        if ret is None: ret = r2
        for i, o in o2.items(): outs.setdefault(i, o)
    facts = []
    for c in g.facts:
        if all(pure_f(a) for a in c) and c not in facts and len(facts) < 24: facts.append(c)
    return Summary(ret, outs, facts)
def _specs(P, f):
    s = selectors(P, f, 16)
    if not s: return None
    r = []
    for combo in itertools.product(*[v for _, v in s]):
        g = copy.copy(f); g.body = prune(f.body, {f.params[i]["id"]: v for (i, _), v in zip(s, combo)}); r.append((combo, g))
    return s, r
def summaries(P, eff, rounds=4):
    summ = {}
    fs = [f for f in P.funcs.values() if f.body]
    sel = {f.key: x for f in fs for x in [_specs(P, f)] if x is not None}
    for r in range(rounds):
        ch = False
        for f in fs:
            n = _one(P, f, eff, summ)
            if f.key in sel and (n.ret is not None or n.outs):
                n.sel = tuple(i for i, _ in sel[f.key][0])
                for combo, g in sel[f.key][1]: n.spec[combo] = _one(P, g, eff, summ)
            o = summ.get(f.key)
            if n.ret is None and not n.outs and not n.facts:
                if o is not None: del summ[f.key]; ch = True
                continue
            if o is None or not n.same(o): summ[f.key] = n; ch = True
        if not ch: break
    return summ
def pure_f(a): return not (kinds(a) & IMPURE)

def cases(t, conds=(), cap=64):
    """split a term on the conditions of its if-then-else subterms: [(assumed formulas, term)]"""
    c = next((x for x in subterms(t) if isinstance(x, tuple) and x and x[0] == "ite" and len(x) == 4), None)
    if c is None: return [(conds, t)]
    f = c[1]; nf = f_not(f); out = []
    for fm, pick in ((f, 2), (nf, 3)):
        if any(x == f_not(fm) for x in conds): continue
        def g(x):
            if isinstance(x, tuple) and len(x) == 4 and x[0] == "ite":
                if x[1] == fm: return subst(x[2], g)
                if x[1] == f_not(fm): return subst(x[3], g)
            return None
        out += cases(subst(t, g), conds + (fm,), cap)
        if len(out) > cap: return [(conds, ("havoc", 0))]
    return out
