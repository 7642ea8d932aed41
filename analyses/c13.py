"""C13 element accesses stay inside the sizes the code established."""
from idx import *
from c16 import specialisations

RULE = ("for every element access the index and the size of the container are symbolic linear terms; index >= 0 and index < size are shown by adding up loop ranges, "
        "path conditions, passed guards and the well-formedness of inputs; an access is reported when, with the loop variables and span indices at ends they really "
        "attain, index - size + 1 or -index is provably positive; accesses a function leaves to its caller are carried to the call sites as requirements")

def requirements(P, R, f):
    """what f needs from its caller: [(linear term that must be <= 0, conditions, where)]"""
    out = []
    for o in R.obl.values():
        for nm, E in (("above", add(sub(o.idx, o.size), const(1))), ("below", scale(o.idx, -1))):
            yield o, nm, E
def run_one(P, g, eff, summ, req):
    R = Idx(P, g, eff, summ); R.run()
    return R
def pure_p(t): return not (kinds(t) & (FREE_BAD | {"iv", "this"}))

def collect(P, eff, summ):
    runs = []
    for k in sorted(P.funcs):
        f = P.funcs[k]
        if not f.body or k in getattr(P, "new_funcs", ()): continue
        for lab, g in specialisations(P, f): runs.append((f, lab, run_one(P, g, eff, summ, None)))
    return runs
def obligations(R):
    for o in R.obl.values():
        yield o, "beyond the end", add(sub(o.idx, o.size), const(1))
        yield o, "before the start", scale(o.idx, -1)

def run(P, ctx):
    eff = Effects(P); summ = summaries(P, eff)
    g = next((g for (q, _), g in P.globals.items() if q.endswith("NURBSMaxDegree")), None)
    i = g.get("init") if g else None
    while i is not None and i["k"] == "Cast": i = i["e"]
    MAXDEG[0] = int(i["v"]) if i is not None and i["k"] == "Int" else 7
    runs = collect(P, eff, summ)
    n = ok = und = 0; req = {}; ops = set()
    for f, lab, R in runs:
        ops.add(f.key)
        for o, side, E in obligations(R):
            n += 1
            if prove(R, o.ctx, o.nf, E): ok += 1; continue
            r = refute(R, o.ctx, o.nf, E, o.loops, cval(o.size))
            if r is not None: report(ctx, f, lab, o, side, r)
            else:
                und += 1
                q = export(R, f, o, E)
                if q is not None: req.setdefault(f.key, []).append((lab, o, side) + q)
    nr = rp = 0
    # requirements at call sites
    todo = req; 
    for rnd in range(3):
        new = {}
        for f, lab, R in runs:
            for e, c, cx, args, nf, loops in R.calls:
                for (cl, o, side, E, conds) in todo.get(c.key, ()):
                    if cl: continue
                    nr += 1
                    E2, cs = inst(R, E, conds, args)
                    if E2 is None: continue
                    csz = call_csize(o, args)
                    cx2 = frozenset(cx) | frozenset(cs)
                    if prove(R, cx2, nf, E2): rp += 1; continue
                    r = refute(R, cx, nf, E2, loops, csz) if all(c[0] in ("b", "f") or prove_f(R, cx, nf, c) for c in cs) else None
                    if r is not None: report_call(ctx, f, lab, e, c, o, side, r)
                    else:
                        q = export(R, f, None, E2, cx2)
                        if q is not None and len(new.get(f.key, ())) < 40 and (lab, o, side) + q not in new.setdefault(f.key, []): new[f.key].append((lab, o, side) + q)
        todo = new
        if not new: break
    ctx.rule = RULE
    ctx.assumptions = ["inputs satisfy the knot count rule, degrees are at least 1, nets are rectangular and have at least degree + 1 points per direction",
                       "Polynomials::GetKnotSpanIndex returns a value between the degree and the last control point index, and returns both ends",
                       "accesses whose index or size depends on data (values read from containers, while loops) are left undecided"]
    ctx.cov.update(functions=len(ops), obligations=n, proved=ok, left=und, call_requirements=nr, call_requirements_proved=rp)
    ctx.undecided.append(f"{und} of {n} obligations depend on data or on the caller")
    ctx.floor("proved", ok, 6500)
def export(R, f, o, E, cx=None):
    cx = o.ctx if o is not None else cx
    env = {}
    best = None
    cs = [c for c in cases(E)]
    if len(cs) != 1: return None
    y = extreme(R, E, env)
    if y is None or not pure_p(y) or not any(isinstance(x, tuple) and x and x[0] == "p" for x in subterms(y)): return None
    conds = []
    for a in flat(cx):
        if any(x in env for x in subterms(a)):
            if a[0] == "le":
                z = at_env(a[1], env)
                if pure_p(z): conds.append(("le", tolin(z))); continue
            return None
        if not pure_p(a): return None if a[0] in ("le", "eq", "ne") else None
        conds.append(a)
    return y, tuple(sorted(set(conds), key=repr))
def call_csize(o, args):
    """constant size of the buffer a callee indexes, at this call"""
    if cval(o.size) is not None: return cval(o.size)
    if o.size[0] == "size" and o.size[1][0] == "p" and o.size[1][1] < len(args) and args[o.size[1][1]] is not None: return cval(size(args[o.size[1][1]]))
    return None
def prove_f(R, cx, nf, c):
    if c[0] == "le": return prove(R, cx, nf, c[1])
    if c[0] == "eq": return prove(R, cx, nf, c[1]) and prove(R, cx, nf, scale(c[1], -1))
    if c[0] == "ne": return prove(R, cx, nf, add(c[1], const(1))) or prove(R, cx, nf, sub(const(1), c[1]))
    if c[0] == "and": return all(prove_f(R, cx, nf, x) for x in c[1])
    if c[0] == "or": return any(prove_f(R, cx, nf, x) for x in c[1])
    return False
def inst(R, E, conds, args):
    def f(t):
        if isinstance(t, tuple) and t and t[0] == "p":
            return args[t[1]] if t[1] < len(args) and args[t[1]] is not None else ("havoc", R.fresh())
        return None
    try: return subst(E, f), [subst_f(c, f) for c in conds]
    except Exception: return None, None
def report(ctx, f, lab, o, side, r):
    y, conds, env = r
    ctx.violation(f"{f.key}|{lab}|{show(o.idx)[:80]}|{show(o.size)[:80]}|{side}", f"{f.q}: {o.what} reaches {show(y)[:80]} element(s) {side}: index {show(o.idx)[:120]}, {show(o.size)[:120]} elements" + (f" when {lab}" if lab else ""), f"{f.file}:{o.l}" if hasattr(f, "file") else f.loc)
def report_call(ctx, f, lab, e, c, o, side, r):
    y, conds, env = r
    ctx.violation(f"{f.key}|{lab}|call {c.key}|{show(o.idx)[:80]}|{side}", f"{f.q}: call of {c.q} makes its access (index {show(o.idx)[:100]} of {show(o.size)[:100]} elements) go {show(y)[:60]} {side}", f.loc)
