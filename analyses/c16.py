"""C16 knot count rule.  Sizes of knot vectors and control nets of every shape an operation hands out, as symbolic terms."""
import itertools, copy
from summ import *
from logic import show, implied, contradictory, subst_f
from flow import selectors
from prune import prune
from slicer import Slicer

DIRS = [("KnotVector", "Degree", 0), ("KnotVectorU", "DegreeU", 0), ("KnotVectorV", "DegreeV", 1), ("KnotVectorW", "DegreeW", 2)]

def ln_kind(P, t):
    b = base_type(t)
    r = P.records.get(b)
    if not r or not b.startswith("LN_"): return None
    fs = {x["n"] for x in r.get("fields", [])}
    for base in r.get("bases", []) or []:
        pass
    ds = [d for d in DIRS if d[0] in fs and d[1] in fs]
    return ds if ds and "ControlPoints" in fs else None

def terms(v, ds):
    """(direction, defect term) : knots - control points - degree - 1"""
    for kv, dg, depth in ds:
        k = size(fld(v, kv)); d = fld(v, dg)
        x = fld(v, "ControlPoints")
        ok = True
        for _ in range(depth):
            if x[0] == "vec":
                if x[2] is None: ok = False; break
                x = x[2]
            else: x = ("at", x, "*", True)
        c = size(x) if ok else None
        yield kv, (sub(sub(sub(k, c), d), const(1)) if c is not None else None), k, c, d

def specialisations(P, f):
    sel = selectors(P, f, 16)
    if not sel: yield "", f; return
    for combo in itertools.product(*[v for _, v in sel]):
        g = copy.copy(f); g.body = prune(f.body, {f.params[i]["id"]: v for (i, _), v in zip(sel, combo)})
        yield ",".join(f"{f.params[i]['n']}={v}" for (i, _), v in zip(sel, combo)), g

def results(P, eff, summ):
    for k in sorted(P.funcs):
        f = P.funcs[k]
        if not f.body or k in getattr(P, "new_funcs", ()): continue
        targets = []
        for i in eff.w.get(k, ()):
            if isinstance(i, int) and is_ref(f.params[i]["t"]) and ln_kind(P, f.params[i]["t"]): targets.append((i, ln_kind(P, f.params[i]["t"])))
        rk = ln_kind(P, f.ret)
        et = elem_type(f.ret)
        if not targets and not rk: continue
        for lab, g in specialisations(P, f):
            R = RunS(P, g, eff, summ); R.run()
            for v, outs, st, l in R.rets:
                items = [(f.params[i]["n"], outs[i], ds) for i, ds in targets if i in outs]
                if rk and v is not None: items.append(("return value", v, rk))
                for name, val, ds in items:
                    # untouched on this path: the caller's object, fine by assumption
                    for kv, t, kk, c, d in terms(val, ds):
                        yield f, lab, name, kv, t, (kk, c, d), l, st, R

def equalities(conds, facts):
    """terms known to be zero: equalities among the assumed conditions, and what the guards that throw leave over"""
    A = set()
    for c in conds:
        if c[0] == "and": A |= set(c[1])
        else: A.add(c)
    A = frozenset(A)
    eq = [a[1] for a in A if a[0] == "eq"]
    for c in facts:
        c = [resolve(a, A) for a in c if "iv" not in kinds(a)]
        rest = [a for a in c if a is not True and not implied(A, a)]
        if len(rest) == 1 and rest[0][0] == "ne": eq.append(rest[0][1])
    return eq, A
def resolve(a, A):
    def g(x):
        if isinstance(x, tuple) and len(x) == 4 and x[0] == "ite":
            if implied(A, x[1]): return subst(x[2], g)
            if implied(A, f_not(x[1])): return subst(x[3], g)
        return None
    if not any(isinstance(x, tuple) and x and x[0] == "ite" for x in subterms(a)): return a
    return subst_f(a, g)
def reduce(t, eqs):
    for x in eqs:
        X = tolin(x); T = dict(tolin(t)[2])
        for at, k in X[2]:
            if at in T: t = sub(t, scale(X, Fraction(T[at]) / Fraction(k))); break
    return t
def roots_of(t): return {x[1] for x in subterms(t) if isinstance(x, tuple) and len(x) == 2 and x[0] == "p"}
def independent(R, y, conds, ctx):
    """y = (something an input decides) + (loop results that input cannot influence): then y is not zero for all inputs"""
    y = tolin(y); deps = {}
    for a, k in y[2]:
        r = roots_of(a); imp = kinds(a) & IMPURE
        if imp - {"loop"}: return None
        for x in subterms(a):
            if isinstance(x, tuple) and x and x[0] == "loop":
                d = loop_deps(R, x)
                if d is None: return None
                r = r | d
        deps[a] = r
    fixed = set()
    for c in list(conds) + list(ctx):
        if kinds(c) & IMPURE: return None
        fixed |= roots_of(c) if c[0] not in ("le", "ne") else set()
    for a, k in y[2]:
        if kinds(a) & IMPURE or a[0] != "p": continue
        if a[1] not in fixed and not any(a[1] in d for b, d in deps.items() if b != a) and any(kinds(b) & IMPURE for b in deps): return a
    return None
def loop_deps(R, x):
    """indices of the parameters the variable behind a loop term may depend on"""
    if len(x) < 3 or not str(x[2]).isdigit(): return None
    m = R.__dict__.setdefault("ldeps", {})
    if x[2] not in m:
        S = Slicer(R.f.body, R.f.params, None); S.run({(int(x[2]), None)}, False)
        ids = {p["id"]: i for i, p in enumerate(R.f.params)}
        m[x[2]] = {ids[r] for r, _ in S.rel if r in ids}
    return m[x[2]]
MULT = "Polynomials::GetKnotMultiplicity("
def knots_of(t):
    """(object, direction suffix) of a term that is the knot vector of an object"""
    if isinstance(t, tuple) and len(t) == 3 and t[0] == "m" and str(t[2]).startswith("KnotVector"): return t[1], t[2][10:]
def multiplicities(x, A, R):
    """an interior knot has at most the multiplicity degree: at least degree means degree; inserted (degree - multiplicity) times it has it"""
    eq = []; seen = set()
    for c in [x] + list(A):
        for m in subterms(c):
            if not (isinstance(m, tuple) and len(m) == 4 and m[0] == "call" and str(m[1]).startswith(MULT)) or m in seen: continue
            seen.add(m)
            k = knots_of(m[2])
            if k is not None:
                d = fld(k[0], "Degree" + k[1])
                if any(a[0] == "le" and cval(add(a[1], sub(m, d))) == 0 for a in A): eq.append(sub(m, d))
            elif m[2][0] == "vec" and R is not None:
                o = knots_of(R.origin.get(m[2][3]))
                if o is None: continue
                call, sfx = o[0], o[1]
                if call[0] == "out" and call[2] == "call" and call[3].split("(")[0].endswith("::InsertKnot") and len(call) > 6 and call[5] == m[3]:
                    d = fld(call[4], "Degree" + sfx)
                    if cval(sub(add(call[6], ("call", m[1], fld(call[4], "KnotVector" + sfx), m[3])), d)) == 0: eq.append(sub(m, d))
    return eq
def verdict(t, ctx=(), facts=(), R=None):
    """ok / bad / unknown and the offending residue"""
    if t is None: return "unknown", None
    res = "ok"; why = None
    for conds, x in cases(t):
        if cval(x) == 0: continue
        eqs, A = equalities(conds + tuple(ctx), facts)
        if contradictory(A): continue
        eqs = eqs + multiplicities(x, A, R)
        for e in [eqs, list(reversed(eqs))]:
            y = reduce(x, e)
            if cval(y) == 0: break
        if cval(y) == 0: continue
        if any(k == "eq" for k in ()): pass
        if R is not None and cval(y) is None and kinds(y) & IMPURE and independent(R, y, conds, ctx) is not None: return "bad", y
        if cval(y) is None and kinds(y) & IMPURE: res = "unknown" if res == "ok" else res; why = why or y; continue
        # a path on which the condition itself is beyond the domain may be infeasible
        if any(kinds(c) & IMPURE for c in conds): res = "unknown" if res == "ok" else res; why = why or y; continue
        return "bad", y
    return res, why

RULE = ("for every object with degree, knot vector and control points that an operation returns or writes, and for every selector value: the symbolic size of "
        "the knot vector minus the size of the control net minus the degree minus one simplifies to zero under the conditions of the path and the guards passed")
def empty(t, parts):
    """the default constructed object handed out when there is no result"""
    kk, c, d = parts
    return kk is not None and c is not None and cval(kk) == 0 and cval(c) == 0
def run(P, ctx):
    eff = Effects(P); summ = summaries(P, eff)
    n = ok = und = 0; ops = set()
    for f, lab, name, kv, t, parts, l, st, R in results(P, eff, summ):
        n += 1; ops.add(f.key)
        if t is not None and empty(t, parts): ok += 1; continue
        x, why = verdict(t, st.ctx, R.facts, R)
        if x == "ok": ok += 1
        elif x == "unknown": und += 1; ctx.undecided.append(f"{f.q}{'[' + lab + ']' if lab else ''} {name}.{kv}")
        else:
            kk, c, d = parts
            ctx.violation(f"{f.key}|{lab}|{name}|{kv}", f"{f.q}: {name}: {kv} has {show(kk)[:200]} knots for {show(c)[:200]} control points of degree {show(d)[:100]}; knots - points - degree - 1 = {show(why)[:200]}, not 0" + (f" when {lab}" if lab else ""), f.loc)
    ctx.rule = RULE
    ctx.assumptions = ["inputs satisfy the knot count rule in every direction and their control nets are rectangular", "loops over the elements of a net run at least once", "interior knots of inputs have at most the multiplicity degree"]
    ctx.cov.update(operations=len(ops), results=n, summaries=len(summ))
    ctx.floor("proved", ok, 120)
