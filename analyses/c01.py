"""C01 illegal arguments are rejected.  For every throw the path condition is computed as a disjunction of conjunctions of atoms
over the arguments (symbolic forward dataflow, helpers inlined); the rejected sets are compared with the specification table."""
import json, os
import sym
from sym import *
from logic import *

TABLE = VERIF + "/tables/guards.json"
NOWORK = {"GetU", "GetV", "GetX", "GetY", "GetZ", "GetW", "SqrLength", "Length"}

class G(Sym):
    def __init__(s, P, f, eff): super().__init__(P, f, eff); s.g = []; s.calls = []; s.exits = []; s.late = []; s.outs = eff.w.get(f.key, ())
    def on_throw(s, e, st):
        cs = [c for c in dnf(f_and(*st.ctx))]
        s.g.append((cs, e["l"], s.thrown(e)))
        w = st.env.get("#w"); u = st.env.get("#u")
        used = set()
        if u is not None: used = {x for x in subterms(u) if x and x[0] == "used"}
        s.late.append((cs, e["l"], w is not None, {x[1] for x in used}))
    def thrown(s, e):
        x = e.get("e")
        while x is not None and x.get("k") == "Cast": x = x["e"]
        return base_type(x.get("t", "")) if x else "rethrow"
    def on_libcall(s, e, c, st, args):
        s.calls.append((c, list(args), st.ctx, e["l"]))
        if c.n in NOWORK or c.q.startswith("ValidationUtils::") or c.q.split("::")[-1].startswith("Is"): return
        for a in args:
            if a is not None: s.use(st, a)
    def use(s, st, t):
        t = s.bare(t)
        if t is None: return
        k = st.env.get("#u", ("none",))
        if ("used", t) not in set(subterms(k)): st.env["#u"] = ("u", k, ("used", t))
    def bare(s, t):
        if t[0] in ("p", "m"): return t
        if t[0] == "call" and t[1].startswith("UV::Get"): return t
        return None
    def on_index(s, e, b, i, st):
        for a in atoms(i):
            if a[0] != "size": s.use(st, a)
        if not (cval(i) == 0 or (tolin(i)[1] == -1 and len(tolin(i)[2]) == 1 and tolin(i)[2][0][0] == ("size", b))): s.use(st, b)
    def on_newvec(s, e, n, st):
        for a in atoms(n): s.use(st, a)
    def on_assign(s, e, st, p, v):
        if p is not None:
            i = s.pid.get(p[0])
            if i is not None and i in s.outs and is_ref(s.f.params[i]["t"]): st.env["#w"] = ("wrote",)
    def on_ret(s, e, st, v): s.exits.append((st.ctx, v))

def analyse(P):
    sym.KNOT_RULE[0] = False
    try:
        eff = Effects(P); R = {}
        for k, f in P.funcs.items():
            if not f.body: continue
            g = G(P, f, eff); g.run(); R[k] = g
        return R
    finally: sym.KNOT_RULE[0] = True

def own(g):
    """pure, simplified conjunctions rejected by this function itself, and the number of conjunctions beyond the domain"""
    r = set(); impure = 0; types = set()
    for cs, l, ty in g.g:
        types.add(ty)
        for c in cs:
            if not pure(c): impure += 1; continue
            c = rename_iv(simp(c))
            if contradictory(c): continue
            r.add(c)
    return r, impure, types

def expand(R, P, key, memo, depth=0):
    """own rejections plus those of callees, in terms of the arguments"""
    if key in memo: return memo[key]
    memo[key] = set()
    g = R.get(key)
    if g is None: return set()
    r = set(own(g)[0])
    if depth < 6:
        for c, args, ctx, l in g.calls:
            if c.key == key: continue
            sub_ = expand(R, P, c.key, memo, depth + 1)
            if not sub_: continue
            if not pure(ctx): continue
            cx = None
            for conj in sub_:
                ok = True
                def f(t):
                    if isinstance(t, tuple) and t and t[0] == "p":
                        nonlocal ok
                        if t[1] < len(args) and args[t[1]] is not None: return args[t[1]]
                        ok = False
                    if isinstance(t, tuple) and t and t[0] == "this": ok = False
                    return None
                new = frozenset(subst_f(a, f) for a in conj)
                if not ok or not pure(new): continue
                if cx is None: cx = dnf(f_and(*ctx), 8)
                if len(cx) > 8: continue
                for x in cx:
                    n = rename_iv(simp(new | x))
                    if not contradictory(n) and len(n) < 9: r.add(n)
    memo[key] = r
    return r

def predicates(P):
    for k, f in sorted(P.funcs.items()):
        if base_type(f.ret) != "bool" or not f.body: continue
        if f.q.startswith("ValidationUtils::Is") or f.q.startswith("MathUtils::Is") or (f.cls in ("XYZ", "UV", "XYZW") and f.n.startswith("Is")): yield f

def meaning(g):
    """set of conjunctions under which a predicate answers true, None when it is not loop free"""
    r = set()
    for ctx, v in g.exits:
        for c in dnf(f_and(*(list(ctx) + [g.asformula(v)]))):
            if not pure(c) or "iv" in {x for a in c for x in kinds(a)}: return None
            c = simp(c)
            if not contradictory(c): r.add(c)
    return r

def lates(g):
    """(kind, what) of guards that come after work"""
    r = set()
    for cs, l, w, used in g.late:
        for c in cs:
            if not pure(c): continue
            if w: r.add(("written", ser(rename_iv(simp(c)))))
            # the guarded term itself was used before
            for a in c:
                for t in subterms(a):
                    if t in used and t[0] in ("p", "m", "call"):
                        sc = any(t == x for x in scalars(a))
                        if sc: r.add(("used", ser(t)))
    return r
def scalars(a):
    """argument terms an atom constrains (not merely mentions as a bound)"""
    if a[0] in ("le", "eq", "ne"):
        for x in atoms(a[1]): yield x[1] if x[0] == "size" else x
    elif a[0] == "f":
        for y in (a[2], a[3]):
            if y[0] == "fn" and y[1] == "abs": y = y[2]
            for x in atoms(y):
                if x[0] != "at": yield x
    elif a[0] == "b":
        t = a[1]
        for y in t[1:]:
            if isinstance(y, tuple): yield y

def table(P):
    R = analyse(P); memo = {}
    T = {"guards": {}, "predicates": {}, "late": {}}
    for k in sorted(R):
        o, imp, ty = own(R[k])
        ex = expand(R, P, k, memo) - o
        if o or R[k].g: T["guards"][k] = {"own": sorted(ser(c) for c in o), "calls": sorted(ser(c) for c in ex)}
        l = lates(R[k])
        if l: T["late"][k] = sorted(map(list, l))
    for f in predicates(P):
        m = meaning(R[f.key])
        if m is not None: T["predicates"][f.key] = sorted(ser(c) for c in m)
    return T

STD = ("invalid_argument", "out_of_range", "domain_error", "length_error", "logic_error", "runtime_error", "range_error", "overflow_error", "underflow_error", "exception")
def run(P, ctx):
    T = json.load(open(TABLE))
    R = analyse(P); memo = {}
    nconj = nops = npred = ncur = 0
    for k, ent in sorted(T["guards"].items()):
        g = R.get(k)
        if g is None:
            if k in P.funcs or not ent["own"]: continue
            ctx.undecided.append("gone: " + k); continue
        nops += 1
        f = P.funcs[k]
        o, imp, types = own(g)
        full = None
        names = lambda s: re.sub(r"arg(\d+)", lambda m: f.params[int(m.group(1))]["n"] if int(m.group(1)) < len(f.params) else m.group(0), s)
        frozen = [de(s) for s in ent["own"]]
        for c in frozen:
            nconj += 1
            if c in o or covers(c, o): continue
            if full is None: full = expand(R, P, k, memo)
            if covers(c, full): continue
            if imp and any("iv" in kinds(a) for a in c): ctx.undecided.append(f"{k}: {show(c)}"); continue
            ctx.violation(f"{k}|accepts|{ser(c)}", f"{k}: argument values with {names(show(c))} are no longer rejected", f.loc)
        allow = frozen + [de(s) for s in ent["calls"]]
        for c in o:
            ncur += 1
            if c in allow or covers(c, allow): continue
            if any("iv" in kinds(a) for a in c): ctx.undecided.append(f"{k}: {show(c)}"); continue
            ctx.violation(f"{k}|rejects|{ser(c)}", f"{k}: legal argument values with {names(show(c))} are rejected", f.loc)
        for t in types:
            if t not in STD and t != "rethrow": ctx.violation(f"{k}|type|{t}", f"{k}: rejects with {t}, which is not a standard exception", f.loc)
    for k, g in sorted(R.items()):
        f = P.funcs[k]
        if k not in T["guards"] and g.g and k not in getattr(P, "new_funcs", ()):
            o, imp, types = own(g)
            for c in o:
                ctx.violation(f"{k}|rejects|{ser(c)}", f"{k}: a function without preconditions now rejects {show(c)}", f.loc)
        old = {tuple(x) for x in T["late"].get(k, [])}
        for kind, what in lates(g) - old:
            # only guards that exist in the specification can be late
            if kind == "written": ctx.violation(f"{k}|late|{kind}|{what}", f"{k}: an output has been modified before the rejection of {show(de(what))}", f.loc)
            else: ctx.violation(f"{k}|late|{kind}|{what}", f"{k}: {show(de(what))} is used before it is validated", f.loc)
    for k, m0 in sorted(T["predicates"].items()):
        g = R.get(k)
        if g is None: continue
        npred += 1
        m = meaning(g)
        if m is None: ctx.undecided.append("predicate " + k); continue
        m0 = {de(s) for s in m0}
        if m == m0: continue
        for c in m0:
            if not covers(c, m): ctx.violation(f"{k}|pred-|{ser(c)}", f"{k} no longer answers true for {show(c)}", P.funcs[k].loc)
        for c in m:
            if not covers(c, m0): ctx.violation(f"{k}|pred+|{ser(c)}", f"{k} now answers true for {show(c)}", P.funcs[k].loc)
    ctx.rule = ("Rule: at every throw the path condition is computed symbolically over the arguments and split into conjunctions of atoms (linear integer, float comparison, predicate). Every rejection the "
        "specification table lists for an operation must be implied by a rejection in the current source, of the operation itself or of a callee it always reaches (otherwise illegal values are accepted); every rejection "
        "in the source must be implied by a listed one (otherwise legal values are rejected); no output is written and no guarded argument used for indexing, sizing or a library call before its guard; loop-free validity predicates keep their meaning; only standard exceptions are thrown.")
    ctx.assumptions = ["floating-point atoms are compared syntactically after canonicalisation, negation is NaN aware", "throws inside loops over elements are compared with the loop variable abstracted"]
    ctx.floor("guarded_operations", nops, 80); ctx.floor("rejection_conjunctions", nconj, 250); ctx.floor("predicates", npred, 8)
    ctx.cov["rejections_in_source"] = ncur
    ctx.samples = [{"operation": k, "rejects": [show(de(s)) for s in e["own"][:4]]} for k, e in list(T["guards"].items())[5:60:10]]
