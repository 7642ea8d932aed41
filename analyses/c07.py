"""C07 degenerate denominators.  Every function is interpreted over value numbers with polynomial normal forms (lib/poly.py):
branch conditions give facts 'p is zero', 'p is not zero', 'p is positive' about values, and every division (also by vector
operators) is judged under the facts that hold on all paths reaching it."""
import json, os
from ir import *
from effects import Effects
from poly import *

TABLE = VERIF + "/tables/divisions.json"

class Div(VN):
    def __init__(s, P, eff, f, body=None, T=None):
        super().__init__(P, eff, f, body, T); s.divs = {}; s.tests = {}; s.rets = {}; s.vac = {}
    def on_div(s, e, st, num, den, ea, eb):
        if s.quiet or const(den) not in (None, 0): return
        nums = []
        if num: nums = [pv(a) for a in set.intersection(*[{a for a, x in m} for m, c in num]) if s.T.d[a][0] != "var"]
        fac = [pv(a) for a, x in den[0][0]] if len(den) == 1 else [den]
        s.divs[id(e)] = dict(e=e, den=den, nz=s.nonzero(den, st), z=s.zero(den, st),
                             open=[p for p in fac if not s.nonzero(p, st)], numnz=[p for p in nums if s.nonzero(p, st)], nums=nums)
    def on_test(s, e, st, p, op, kind):
        r = op in ("==", "!=") or s.absval(p)         # recognises the vanishing of p (a sign test does not)
        ps = [monic(p)] + ([pv(a) for a, x in p[0][0]] if len(p) == 1 else [])
        i = s.inner(p)
        if i is not None: ps.append(monic(i))
        if op == "<" and s.absval(p):
            for q in ps: s.vac[q] = True
        for q in ps: s.tests[q] = s.tests.get(q, False) or r
    def on_return(s, e, st, v):
        if v is None or s.quiet: return
        c = constval(s.T, v)
        if c is None: return
        s.rets[id(e)] = (c, st.z, st.nz | st.pos, e)

def constval(T, v):
    c = const(v)
    if c is not None: return str(c)
    if len(v) == 1 and len(v[0][0]) == 1:
        d = T.d[v[0][0][0][0]]
        if d[0] == "vec" and all(const(x) is not None for x in d[1:]): return str(v[0][1]) + "*vec(" + ",".join(str(const(x)) for x in d[1:]) + ")"
    return None

def leaves(T, p, f, out=None, depth=0):
    """what a value is made of: parameters by position, members, callees; insensitive to the form of the expression"""
    out = set() if out is None else out
    for a in atoms_of(p):
        d = T.d[a]; k = d[0]
        if depth > 12: continue
        if k == "var":
            i = f.pindex(d[1]); out.add("p%d" % i if i is not None else "?")
            continue
        if k == "mem": out.add("." + d[-1])
        elif k in ("call", "callu", "callw", "comp"): out.add((d[1] or "lambda") + "()")
        elif k == "opc": out.add("op" + d[1])
        elif k == "norm": out.add("norm")
        elif k == "cross": out.add("cross")
        elif k == "out": out.add("<-" + d[1])
        elif k in ("loop", "upd", "decl", "new", "elem", "wid"): out.add("?")
        for x in d[1:]:
            if isinstance(x, tuple) and (x == () or isinstance(x[0], tuple)):
                if k == "idx" and x is d[2]: continue
                leaves(T, x, f, out, depth + 1)
    return out
def sig(T, p, f): return " ".join(sorted(leaves(T, p, f))) or "-"

def analyse(P, eff, f):
    fl = Div(P, eff, f); fl.exec(f.body, S())
    res = [fl]; done = set(); work = list(fl.lams)
    while work:
        lam, _ = work.pop()
        if id(lam) in done: continue
        done.add(id(lam))
        g = Div(P, eff, f, lam["body"], fl.T); g.al = fl.al
        g.exec(lam["body"], S())
        res.append(g); work += g.lams
    return res

def facts(P):
    eff = Effects(P)
    for k in sorted(P.funcs):
        f = P.funcs[k]
        if f.body: yield f, analyse(P, eff, f)

def outcomes(fl, f):
    """(outcome, zero sigs, non-zero sigs, node) of every constant return, over the quantities the function tests for zero"""
    for c, z, nz, e in fl.rets.values():
        zs = sorted({sig(fl.T, p, f) for p in z if fl.tests.get(p)})
        ns = sorted({sig(fl.T, p, f) for p in nz if fl.tests.get(monic(p))})
        yield c, zs, ns, e

def table(P):
    den, num, ret = {}, {}, {}
    for f, fls in facts(P):
        g, n, r = {}, {}, []
        for fl in fls:
            for d in fl.divs.values():
                sg = sig(fl.T, d["den"], f)
                if sg == "-" and (not d["nz"] or not f.cls or f.static): continue
                g.setdefault(sg, []).append(d["nz"])
                n.setdefault(sg, []).append(d["nz"] or any(p in fl.tests for p in d["numnz"]))
        for fl in fls[:1]:
            for c, zs, ns, e in outcomes(fl, f):
                if zs and [c, zs, ns] not in r: r.append([c, zs, ns])
        den[f.key] = sorted(s for s, v in g.items() if all(v))
        num[f.key] = sorted(s for s, v in n.items() if all(v) and s not in den[f.key])
        if r: ret[f.key] = sorted(r)
    return {"divisor": {k: v for k, v in den.items() if v}, "numerator": {k: v for k, v in num.items() if v}, "outcome": ret}

def run(P, ctx):
    ctx.rule = ("At every division the divisor must be non-zero on every path when (a) it is tested for zero anywhere in the function, or (b) the reviewed table "
                "lists it as guarded (identified by the parameters, members and callees it is computed from); divisions guarded through their numerator (0/0 := 0 "
                "convention of basis functions) likewise; a division under the fact 'divisor is zero' is always reported.  Constant answers returned on recognised "
                "degenerate paths must be the reviewed ones.")
    ctx.assumptions = ["tolerant comparisons are read as exact ones (an almost-zero test establishes non-zero on its other branch)",
                       "divisors never tested for zero are outside the property",
                       "pure library functions are value-numbered by callee and arguments"]
    T = json.load(open(TABLE))
    nd = ng = nt = nr = 0
    for f, fls in facts(P):
        dg, ng_, rt = T["divisor"].get(f.key, []), T["numerator"].get(f.key, []), T["outcome"].get(f.key, [])
        for fl in fls:
            nt += len(fl.tests)
            for d in fl.divs.values():
                nd += 1
                e = d["e"]; sg = sig(fl.T, d["den"], f); where = f"{f.file}:{e.get('l')}"
                ng += d["nz"]
                if d["z"]:
                    ctx.violation(f"zero:{f.key}:{sg}", f"{f.q} divides by a quantity made of [{sg}] on a path where it has just been found to be zero", where); continue
                if d["nz"]: continue
                op = [p for p in d["open"] if fl.tests.get(monic(p))] + ([d["den"]] if fl.tests.get(monic(d["den"])) else [])
                if op and all(fl.vac.get(monic(p)) for p in op):
                    ctx.violation(f"vacuous:{f.key}", f"{f.q} guards a divisor by testing a non-negative quantity for being below zero, which never holds, and divides by it ([{sg}])", where)
                elif op:
                    ctx.violation(f"tested:{f.key}:{sg}", f"{f.q} tests a quantity made of [{sg}] for zero but divides by it on a path where it may be zero", where)
                elif sg in dg:
                    ctx.violation(f"guard:{f.key}:{sg}", f"{f.q} divides by a quantity made of [{sg}] without having excluded that it is zero", where)
                elif sg in ng_ and not any(p in fl.tests for p in d["numnz"]):
                    ctx.violation(f"num:{f.key}:{sg}", f"{f.q} divides by [{sg}], which vanishes together with its numerator, without having excluded a zero numerator", where)
        for c, zs, ns, e in outcomes(fls[0], f):
            nr += 1
            imp = [r for r in rt if set(r[1]) <= set(zs) and set(r[2]) <= set(ns) and r[1]]
            if imp and not any(r[0] == c for r in imp):
                best = max(imp, key=lambda r: len(r[1]) + len(r[2]))
                ctx.violation(f"answer:{f.key}:{'|'.join(best[1])}", f"{f.q} answers {c} where the quantity made of [{'; '.join(best[1])}] is zero; the degenerate answer is {best[0]}", f"{f.file}:{e.get('l')}")
    ctx.cov["zero_tests_understood"] = nt; ctx.cov["divisions_proved_nonzero"] = ng; ctx.cov["constant_answers"] = nr
    ctx.floor("divisions", nd, 200)
    ctx.floor("divisor_guards_in_table", sum(map(len, T["divisor"].values())), 25)
