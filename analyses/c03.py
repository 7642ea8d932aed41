"""C03 in-place calls: once a field of an output has been given another value, the same field of an input that may be the same object is not read."""
from sym import *
from effects import Effects
import summ as sm
from logic import show

def is_shape(P, t): b = base_type(t); return b.startswith("LN_") and b in P.records
def pairs(P, f, eff):
    """(input index, output index) of parameters that can be bound to one object"""
    w = {i for i in eff.w.get(f.key, ()) if isinstance(i, int)}
    for j in sorted(w):
        tj = f.params[j]["t"]
        if not is_ref(tj) or not is_shape(P, tj): continue
        for i, p in enumerate(f.params):
            if i != j and is_ref(p["t"]) and base_type(p["t"]) == base_type(tj) and i not in w: yield i, j
def vpairs(P, f, eff):
    """the same for containers: such functions may be handed a field of an input and the same field of an output"""
    w = {i for i in eff.w.get(f.key, ()) if isinstance(i, int)}
    for j in sorted(w):
        tj = f.params[j]["t"]
        if not is_ref(tj) or not isvec_type(tj): continue
        for i, p in enumerate(f.params):
            if i != j and is_ref(p["t"]) and base_type(p["t"]) == base_type(tj) and i not in w: yield i, j

class Alias(Sym):
    def __init__(s, P, f, eff, su, prs, unsafe=()):
        super().__init__(P, f, eff, su)
        s.prs = {}
        for i, j in prs: s.prs.setdefault(f.params[i]["id"], []).append(j)
        s.bad = {}; s.reads = 0; s.unsafe = dict(unsafe)
    def changed(s, i, j, fname, st):
        pj = s.f.params[j]["id"]
        v = s.get((pj, [fname] if fname else []), st)
        return not s.same(v, i, j, fname)
    def same(s, v, i, j, fname):
        if v in ((("m", ("p", j), fname), ("m", ("p", i), fname)) if fname else (("p", i), ("p", j))): return True
        if v[0] == "ite": return s.same(v[2], i, j, fname) and s.same(v[3], i, j, fname)
        if v[0] == "phi" and len(v) == 4: return s.same(v[2], i, j, fname) and s.same(v[3], i, j, fname)
        return False
    def check(s, e, p, st):
        if p is None or p[0] not in s.prs: return
        i = s.pid[p[0]]
        t = base_type(s.f.params[i]["t"])
        vec = isvec_type(t)
        fs = [None] if vec else [x["n"] for x in s.P.records[t].get("fields", [])]
        if p[1] and not vec:
            if not isinstance(p[1][0], str): return
            fs = [x for x in fs if x == p[1][0]]
        s.reads += 1
        for j in s.prs[p[0]]:
            for fn in fs:
                if s.changed(i, j, fn, st): s.bad.setdefault((i, j, fn), e.get("l"))
    def libcall(s, e, c, args, nodes, this, st):
        for i, j in s.unsafe.get(c.key, ()):
            if max(i, j) >= len(nodes) or nodes[i] is None or nodes[j] is None: continue
            a, b = s.loc(nodes[i], st), s.loc(nodes[j], st)
            if a is None or b is None or a[0] not in s.prs or b[0] not in s.pid or s.pid[b[0]] not in s.prs[a[0]]: continue
            if [x for x in a[1] if isinstance(x, str)] == [x for x in b[1] if isinstance(x, str)]:
                s.bad.setdefault((s.pid[a[0]], s.pid[b[0]], a[1][0] if a[1] and isinstance(a[1][0], str) else None), e.get("l"))
        return super().libcall(e, c, args, nodes, this, st)
    def e_Var(s, e, st):
        if not e.get("global"): s.check(e, s.loc(e, st), st)
        return super().e_Var(e, st)
    def e_Member(s, e, st):
        s.check(e, s.loc(e, st), st)
        return super().e_Member(e, st)
    def x_RangeFor(s, e, st):
        s.check(e, s.loc(e["r"], st), st)
        return super().x_RangeFor(e, st)

def run(P, ctx):
    eff = Effects(P); su = sm.summaries(P, eff)
    nop = npair = nread = 0
    unsafe = {}
    for rnd in range(3):
        ch = False
        for k, f in sorted(P.funcs.items()):
            prs = list(vpairs(P, f, eff)) if f.body else []
            if not prs: continue
            A = Alias(P, f, eff, su, prs, unsafe); A.run()
            u = {(i, j) for i, j, fn in A.bad}
            if u and unsafe.get(k) != u: unsafe[k] = u; ch = True
        if not ch: break
    for k, f in sorted(P.funcs.items()):
        if not f.body or k in getattr(P, "new_funcs", ()): continue
        prs = list(pairs(P, f, eff))
        if not prs: continue
        nop += 1; npair += len(prs)
        A = Alias(P, f, eff, su, prs, unsafe); A.run(); nread += A.reads
        for (i, j, fn), l in sorted(A.bad.items()):
            a, b = f.params[i]["n"], f.params[j]["n"]
            ctx.violation(f"{k}|{i}>{j}|{fn}", f"{f.q}: {a}.{fn} is read (line {l}) after {b}.{fn} may have been overwritten; an in-place call ({a} and {b} the same object) sees the new value", f.loc)
    ctx.rule = ("Rule: for every operation with an input and an output reference parameter of the same shape type, a flow-sensitive symbolic state records which fields of the output hold a value other than the input's; "
                "no path reads the same field of the input (directly, through a local reference, as a whole or by passing it on) once the output's field may differ. Callees are checked by the same rule for their own parameters.")
    ctx.assumptions = ["two shape parameters alias completely or not at all (no overlapping sub-objects)"]
    ctx.floor("operations", nop, 20); ctx.cov["pairs"] = npair; ctx.cov["container_functions_not_alias_safe"] = len(unsafe); ctx.floor("input_reads", nread, 100)
