"""C06 failure of an internal step is never reported as success.

Path-partitioned dataflow.  A step is a call of a function that reports success or failure through its result.  Per path the
analysis keeps which outcomes of every step are still possible, which variables hold the unverified outputs of a step, and the
boolean/enumeration locals that carry outcomes.  Reading an output, or handing it out with success, while the failure of its step
is still possible is a violation; so is a successful return on a path on which a step has failed (or was never asked) when the
specification table does not list that caller as having a fallback for that step."""
import json
import c01
from logic import *
from sym import *
from ir import *
from flow import Flow, Dead, path_of
from effects import Effects

TABLE = VERIF + "/tables/steps.json"
# functions whose result is an answer, not the success of a step
ANSWERS = {"OctreeKnnSearch", "OctreeRadiusSearch", "OctreeRadiusSearchFast", "VoronoiDiagramGenerator::getNext", "VoronoiDiagramGenerator::getNextDelaunay",
           "VoronoiDiagramGenerator::getNextVertex", "VoronoiDiagramGenerator::getNextVertexPair"}
SUCCESS = {"CurveCurveIntersectionType": "Intersecting", "LinePlaneIntersectionType": "Intersecting"}

def steps(P):
    """function key -> (all outcomes, successful outcomes, output parameter indices)"""
    r = {}
    eff = Effects(P)
    for k, f in P.funcs.items():
        if not f.body or f.q in ANSWERS: continue
        t = base_type(f.ret)
        outs = [i for i, p in enumerate(f.params) if is_mut_ref(p["t"])]
        if t == "bool":
            if outs or f.q.startswith("VoronoiDiagramGenerator::"): r[k] = (frozenset((0, 1)), frozenset((1,)), outs)
        elif t in P.enums and outs:
            vals = {c["n"]: c["v"] for c in P.enums[t]["c"]}
            s = SUCCESS.get(t)
            if s in vals: r[k] = (frozenset(vals.values()), frozenset((vals[s],)), outs)
    return r

class D:
    """one path class"""
    __slots__ = ("b", "poss", "pend", "src", "failed")
    def __init__(s): s.b = {}; s.poss = {}; s.pend = {}; s.src = frozenset(); s.failed = frozenset()
    def copy(s):
        d = D(); d.b = dict(s.b); d.poss = dict(s.poss); d.pend = dict(s.pend); d.src = s.src; d.failed = s.failed
        return d
    def key(s): return (frozenset(s.b.items()), frozenset(s.poss.items()), frozenset(s.pend.items()), s.src, s.failed)
class S:
    def __init__(s, ds): s.ds = ds
    def copy(s): return S([d.copy() for d in s.ds])

class Steps(Flow):
    MAXIT = 60
    CAP = 48
    def __init__(s, P, f, st):
        s.P = P; s.f = f; s.st = st; s.bad = {}; s.sites = {}; s.outcomes = set(); s.reads = 0; s.tmp = 0; s.alias = {}
        s.outp = {p["id"]: i for i, p in enumerate(f.params) if is_mut_ref(p["t"])}
        s.me = st.get(f.key)
        s.rets = set()
    # ---- lattice
    def norm(s, ds):
        r = {}
        for d in ds: r.setdefault(d.key(), d)
        ds = list(r.values())
        if len(ds) > s.CAP:
            # forget the booleans first, then everything
            r = {}
            for d in ds:
                d = d.copy(); d.b = {k: v for k, v in d.b.items() if v[0] == "s"}
                r.setdefault(d.key(), d)
            ds = list(r.values())
            if len(ds) > s.CAP:
                m = ds[0].copy()
                for d in ds[1:]:
                    m.b = {k: v for k, v in m.b.items() if d.b.get(k) == v}
                    for c, p in d.poss.items(): m.poss[c] = m.poss.get(c, frozenset()) | p
                    for v, c in d.pend.items(): m.pend[v] = m.pend.get(v, frozenset()) | c
                    m.src &= d.src; m.failed |= d.failed
                ds = [m]
        return ds
    def join(s, a, b): return S(s.norm(a.ds + b.ds))
    def eq(s, a, b): return {d.key() for d in a.ds} == {d.key() for d in b.ds}
    # ---- outcomes
    def restrict(s, d, c, keep):
        """outcome of step c is in keep; False when impossible"""
        p = d.poss.get(c)
        if p is None: return True
        p = p & keep
        if not p: return False
        ok = s.sites[c][2]
        if p <= ok:
            del d.poss[c]
            d.pend = {v: x for v, x in ((v, x - {c}) for v, x in d.pend.items()) if x}
        else:
            d.poss[c] = p
            if not (p & ok): d.failed = d.failed | {(s.sites[c][0].q,)}
        return True
    def value(s, e, d):
        """constant or ('s', step) of an expression in path class d"""
        while e["k"] == "Cast" and e.get("e"): e = e["e"]
        k = e["k"]
        if k in ("Bool", "Int", "Enum"): return ("c", int(e["v"]))
        if k == "Var": return d.b.get(e["id"])
        if k in ("Call", "MCall") and id(e) in s.sites: return ("s", id(e))
        return None
    def is_cmp(s, e): return e["k"] == "Bin" and e["op"] in ("==", "!=")
    def refine(s, e, st, truth):
        out = []
        x = e
        while x["k"] == "Cast" and x.get("e"): x = x["e"]
        for d in st.ds:
            if x["k"] == "Bin" and x["op"] in ("==", "!=") or x["k"] == "OpCall" and x.get("op") in ("==", "!=") and len(x["args"]) == 2:
                a, b = (x["a"], x["b"]) if x["k"] == "Bin" else x["args"]
                va, vb = s.value(a, d), s.value(b, d)
                eq = (x["op"] == "==") == truth
                if va and vb:
                    if va[0] == "c" and vb[0] == "c":
                        if (va[1] == vb[1]) == eq: out.append(d)
                        continue
                    if va[0] == "c": va, vb = vb, va
                    if va[0] == "s" and vb[0] == "c":
                        full = s.sites[va[1]][1]
                        keep = frozenset((vb[1],)) if eq else full - {vb[1]}
                        if va[1] in d.poss:
                            if s.restrict(d, va[1], keep): out.append(d)
                        else: out.append(d)
                        continue
                # status compared with something unknown
                out.append(d); continue
            v = s.value(x, d)
            if v is None:
                if x["k"] == "Var" and base_type(x.get("t", "")) == "bool" and not x.get("global") and not x.get("parm"): d.b[x["id"]] = ("c", int(truth))
                elif x["k"] == "Var" and x.get("parm") and base_type(x.get("t", "")) == "bool" and not is_ref(x.get("t", "")): d.b[x["id"]] = ("c", int(truth))
                out.append(d)
            elif v[0] == "c":
                if bool(v[1]) == truth: out.append(d)
            else:
                full = s.sites[v[1]][1]
                keep = frozenset(q for q in full if bool(q) == truth)
                if s.restrict(d, v[1], keep): out.append(d)
        return S(s.norm(out)) if out else None
    def refine_case(s, sw, labels, st):
        if any(x["k"] == "Default" for x in labels): return s.nocase(sw, st, [x["v"] for x in labels if x["k"] == "Case"])
        r = None
        for x in labels:
            e = {"k": "Bin", "op": "==", "a": sw["c"], "b": x["v"], "t": "bool", "l": x["l"]}
            r = s.joinopt(r, s.refine(e, st.copy(), True))
        return r
    def nocase(s, sw, st, but=()):
        for c in s.switch_cases:
            if any(c is b for b in but): continue
            if st is None: return None
            st = s.refine({"k": "Bin", "op": "==", "a": sw["c"], "b": c, "t": "bool", "l": sw["l"]}, st, False)
        return st
    def refine_nocase(s, sw, st): return s.nocase(sw, st)
    # ---- reads and writes
    def root(s, e):
        seen = 0
        while e is not None:
            k = e["k"]
            if k == "Var":
                a = s.alias.get(e["id"])
                if a is not None and seen < 20: e = a; seen += 1; continue
                return e["id"]
            if k in ("Member", "Index"): e = e.get("b")
            elif k in ("Cast", "Un"): e = e.get("e")
            elif k == "MCall" and e["f"]["n"] in ("begin", "end", "front", "back", "data", "at", "operator[]"): e = e.get("b")
            else: return None
        return None
    def read(s, vid, st, line):
        for d in st.ds:
            c = d.pend.get(vid)
            if c:
                for x in c: s.bad.setdefault((s.sites[x][0].q, "uses"), (x, line))
    def kill(s, vid, st, src):
        for d in st.ds:
            d.pend.pop(vid, None)
            d.src = d.src | {vid} if src else d.src - {vid}
    def setb(s, vid, st, e):
        for d in st.ds:
            v = s.value(e, d) if e is not None else None
            if v is not None and v[0] == "s" and v[1] not in d.poss: v = ("c", 1) if s.sites[v[1]][1] == frozenset((0, 1)) else None
            if v is None: d.b.pop(vid, None)
            else: d.b[vid] = v
    def const(s, e):
        return not any(x["k"] in ("Var", "This", "MCall") and not x.get("global") or x["k"] == "Call" and s.P.callee(x.get("f")) is not None for x in walk(e))
    def booly(s, t):
        t = base_type(t); return t == "bool" or t in s.P.enums
    def bind(s, vid, t, e, st, line):
        """vid = e, already evaluated"""
        if s.booly(t):
            x = e
            while x["k"] == "Cast" and x.get("e"): x = x["e"]
            if x["k"] in ("Bin", "Un", "Cond", "Inl", "OpCall") and base_type(t) == "bool" and s.relevant(x):
                tt, ff = s.cond(x, st.copy())
                ds = []
                for q, v in ((tt, 1), (ff, 0)):
                    if q is None: continue
                    for d in q.ds: d.b[vid] = ("c", v); ds.append(d)
                if not ds: raise Dead()
                s._assign_state(st, S(s.norm(ds)))
            else: s.setb(vid, st, x)
    def relevant(s, e):
        return any(x["k"] == "Var" and s.booly(x.get("t", "")) or x["k"] in ("Call", "MCall") and id(x) in s.sites for x in walk(e))
    def on_decl(s, d, st, v):
        vid = d["id"]; i = d.get("init")
        if is_ref(d["t"]) and i is not None and is_lvalue(i) or d["t"].endswith("*") and i is not None and i["k"] == "Un" and i["op"] == "&":
            s.alias[vid] = i; return
        s.kill(vid, st, i is not None and not s.const(i))
        if i is not None: s.bind(vid, d["t"], i, st, d.get("l"))
        else:
            for x in st.ds: x.b.pop(vid, None)
    def x_Decl(s, n, st):
        for d in n["d"]:
            i = d.get("init")
            if i is not None and not s.will_bind(d["t"], i): s.eval(i, st)
            s.on_decl(d, st, None)
        return s._out(st)
    def _out(s, st):
        from flow import Out
        return Out(st)
    def will_bind(s, t, i):
        x = i
        while x["k"] == "Cast" and x.get("e"): x = x["e"]
        return base_type(t) == "bool" and x["k"] in ("Bin", "Un", "Cond", "Inl", "OpCall") and s.relevant(x) and not is_ref(t)
    def children(s, e): return Flow.children(e)
    def outarg(s, a, t):
        x = a
        while x["k"] == "Cast" and x.get("e"): x = x["e"]
        return is_mut_ref(t) and x["k"] in ("Var", "Member", "Index")
    def eval(s, e, st):
        if e is None: return None
        k = e["k"]
        if k == "Assign":
            a = e["a"]
            if e["op"] == "=" and a["k"] == "Var" and s.will_bind(a.get("t", ""), e["b"]):
                s.bind(a["id"], a["t"], e["b"], st, e["l"]); return None
            if e["op"] in ("&=", "|=") and a["k"] == "Var" and base_type(a.get("t", "")) == "bool":
                x = {"k": "Bin", "op": "&&" if e["op"] == "&=" else "||", "a": e["b"], "b": a, "t": "bool", "l": e["l"]}
                s.bind(a["id"], a["t"], x, st, e["l"]); return None
            s.eval(e["b"], st)
            s.eval_lhs(a, st, e["op"])
            r = s.root(a)
            if r is not None:
                x = a
                while x["k"] == "Cast": x = x["e"]
                if x["k"] == "Var" or x["k"] == "Un": s.kill(r, st, e["op"] == "=" and not s.const(e["b"]))
                elif x["k"] == "Member" and x["b"]["k"] == "Var": s.kill(r, st, not s.const(e["b"]))
                if x["k"] == "Var": s.bind(r, x.get("t", ""), e["b"], st, e["l"])
            return None
        if k == "Un" and e["op"] in ("++", "--"):
            s.eval(e["e"], st); r = s.root(e["e"])
            if r is not None:
                for d in st.ds: d.b.pop(r, None)
            return None
        if k in ("Call", "MCall", "OpCall", "Ctor") and isinstance(e.get("f"), dict):
            f = e["f"]; pt = f.get("pt") or []; args = e["args"]
            off = 1 if k == "OpCall" and len(args) == len(pt) + 1 else 0
            c = s.P.callee(f)
            ispt = c is not None and c.key in s.st
            outs = []
            if k == "MCall" and e.get("b") is not None:
                n = f["n"]
                if n in ("clear", "assign", "swap") : s.kill(s.root(e["b"]), st, n != "clear"); s.idx(e["b"], st)
                elif n in ("resize", "reserve"): s.idx(e["b"], st)
                else: s.eval(e["b"], st)
            for j, a in enumerate(args):
                if a is None: continue
                t = pt[j - off] if 0 <= j - off < len(pt) else ""
                if s.outarg(a, t): outs.append((j - off, a)); s.idx(a, st)
                elif k == "OpCall" and e["op"] == "=" and j == 0: s.idx(a, st)
                else: s.eval(a, st)
            if k == "OpCall" and e["op"] == "=" and len(args) == 2:
                r = s.root(args[0])
                if r is not None: s.kill(r, st, not s.const(args[1]))
                return None
            if ispt:
                site = id(e); full, ok, _ = s.st[c.key]
                s.sites[site] = (c, full, ok, e["l"])
                for d in st.ds:
                    # a new run of the same step: what earlier runs left is no longer decided by it
                    for v in [v for v, x in d.b.items() if x == ("s", site)]: del d.b[v]
                    if site in d.poss and not (d.poss[site] <= ok) : pass
                    d.poss[site] = full
                    d.pend = {v: x for v, x in ((v, x - {site}) for v, x in d.pend.items()) if x}
                    for j, a in outs:
                        r = s.root(a)
                        if r is None: continue
                        if r in d.src: continue          # holds an explicit fallback value
                        d.pend[r] = frozenset((site,))
            else:
                for j, a in outs:
                    r = s.root(a)
                    if r is None: continue
                    x = a
                    while x["k"] == "Cast": x = x["e"]
                    if c is None or True:
                        for d in st.ds: d.b.pop(r, None)
                    if x["k"] == "Var": s.kill(r, st, True)
            if k in ("Call", "MCall") and (f["n"] in NORET or s.noreturn(e)): raise Dead()
            return None
        if k in ("Var", "Member", "Index"):
            r = s.root(e)
            if r is not None:
                s.reads += 1
                s.read(r, st, e["l"]); s.idx(e, st); return None
        if k == "Lambda":
            for x in walk(e["body"]):
                if x["k"] == "Var":
                    r = s.root(x)
                    if r is not None: s.read(r, st, x["l"])
            return None
        return super().eval(e, st)
    def idx(s, e, st):
        if e["k"] == "Index": s.eval(e["i"], st); s.idx(e["b"], st)
        elif e["k"] in ("Member",) and e.get("b"): s.idx(e["b"], st)
        elif e["k"] in ("Cast", "Un") and e.get("e"): s.idx(e["e"], st)
    def eval_lhs(s, e, st, op):
        if op != "=": return s.eval(e, st)
        k = e["k"]
        if k in ("Var", "Member", "Index"): return s.idx(e, st)
        return super().eval_lhs(e, st, op)
    def visit(s, e, st, vals): return None
    def eval_inl(s, e, st):
        for d in e["binds"]:
            if d.get("init"): s.eval(d["init"], st)
            s.on_decl(d, st, None)
        s.inl += 1
        try: o = s.exec(e["body"], s.copy(st))
        finally: s.inl -= 1
        outs = ([(o.n, None, None)] if o.n is not None else []) + o.r
        if not outs: raise Dead()
        s._assign_state(st, s.joinall([x[0] for x in outs]))
        return None
    def cond(s, e, st):
        if e["k"] == "Cond":
            t, f = s.cond(e["c"], st); T = []; F = []
            if t is not None:
                a, b = s.cond(e["a"], t); T.append(a); F.append(b)
            if f is not None:
                a, b = s.cond(e["b"], f); T.append(a); F.append(b)
            return s.joinall([x for x in T if x is not None]), s.joinall([x for x in F if x is not None])
        return super().cond(e, st)
    def x_Return(s, n, st):
        from flow import Out
        o = Out(); e = n.get("e")
        if s.inl:
            if e is not None and base_type(e.get("t", "")) not in ("bool",): s.eval(e, st)
            elif e is not None and not s.relevant(e): s.eval(e, st)
            o.r.append((st, e, None)); return o
        if e is None: s.leave(st, n["l"], None)
        elif s.me is not None:
            if base_type(s.f.ret) == "bool":
                t, f = s.cond(e, st)
                if t is not None: s.leave(t, n["l"], 1)
                if f is not None: s.leave(f, n["l"], 0)
                st = s.joinopt(t, f)
            else:
                s.eval(e, st)
                for d in st.ds:
                    v = s.value(e, d)
                    if v is not None and v[0] == "s":
                        for q in d.poss.get(v[1], ()):
                            d2 = d.copy()
                            if s.restrict(d2, v[1], frozenset((q,))): s.leave(S([d2]), n["l"], q)
                    elif v is not None: s.leave(S([d]), n["l"], v[1])
                    else:
                        for q in s.me[0]: s.leave(S([d]), n["l"], q)
        else:
            s.eval(e, st); s.leave(st, n["l"], None)
        if st is None: raise Dead()
        o.r.append((st, e, None)); return o
    def leave(s, st, line, v):
        """the function returns v (None: no status of its own)"""
        if v is not None:
            s.rets.add(v)
            if v not in s.me[1]: return       # reports failure itself
        for d in st.ds:
            for vid, c in d.pend.items():
                if vid in s.outp:
                    for x in c: s.bad.setdefault((s.sites[x][0].q, "hands out"), (x, line))
            for (q,) in d.failed: s.outcomes.add((q, "failed"))
            for c, p in d.poss.items():
                if not (p <= s.sites[c][2]): s.outcomes.add((s.sites[c][0].q, "failed"))
    def run(s):
        st = S([D()])
        for p in s.f.params:
            st.ds[0].src = st.ds[0].src
        o = s.exec(s.f.body, st)
        if o.n is not None: s.leave(o.n, s.f.line, None if s.me is None else 1)

class Decomp(Flow):
    """typestate of the matrix decompositions used as internal steps: their solution is taken only where they said they have one"""
    ASK = {"isInvertible", "info", "isInjective", "isSurjective", "rank", "determinant", "dimensionOfKernel", "nonzeroPivots"}
    STATUS = ("FullPivLU<", "SparseLU<", "SparseQR<", "SimplicialLLT<", "SimplicialLDLT<", "LLT<", "LDLT<", "ConjugateGradient<", "BiCGSTAB<")
    class St:
        def __init__(s, ok=None, b=None): s.ok = ok or {}; s.b = b or {}
        def copy(s): return Decomp.St(dict(s.ok), dict(s.b))
    def __init__(s, P, f): s.P = P; s.f = f; s.bad = {}; s.uses = 0; s.alias = {}
    def copy(s, a): return a.copy()
    def join(s, a, b): return s.St({k: a.ok.get(k, True) and b.ok.get(k, True) for k in {**a.ok, **b.ok}}, {k: v for k, v in a.b.items() if b.b.get(k) == v})
    def eq(s, a, b): return a.ok == b.ok and a.b == b.b
    def obj(s, e):
        while e is not None and e["k"] == "Cast": e = e.get("e")
        if e is None or e["k"] != "Var": return None
        t = e.get("t", "").replace("Eigen::", "").replace("const ", "").strip()
        return s.alias.get(e["id"], e["id"]) if t.startswith(s.STATUS) else None
    def asked(s, e, st):
        """(objects, truth when fine or None) a condition speaks about"""
        x = e
        while x["k"] == "Cast" and x.get("e"): x = x["e"]
        if x["k"] == "Var": return st.b.get(x["id"])
        if x["k"] == "MCall" and x["f"]["n"] in s.ASK and x.get("b") is not None and (o := s.obj(x["b"])) is not None:
            return (frozenset((o,)), True if x["f"]["n"] in ("isInvertible", "isInjective", "isSurjective") else False if x["f"]["n"] == "info" else None)
        if x["k"] == "Un" and x["op"] == "!":
            r = s.asked(x["e"], st); return r and (r[0], None if r[1] is None else not r[1])
        if x["k"] == "Bin" and x["op"] in ("==", "!="):
            for a, b in ((x["a"], x["b"]), (x["b"], x["a"])):
                while b["k"] == "Cast" and b.get("e"): b = b["e"]
                r = s.asked(a, st)
                if r and b["k"] in ("Enum", "Int", "Bool"):
                    if r[1] is None: return r
                    same = (bool(int(b["v"])) == r[1]) if b["k"] == "Bool" or int(b["v"]) == 0 else None
                    return (r[0], None if same is None else same == (x["op"] == "=="))
        os = {o for y in walk(x) if y["k"] == "MCall" and y["f"]["n"] in s.ASK and y.get("b") is not None and (o := s.obj(y["b"])) is not None}
        return (frozenset(os), None) if os else None
    def refine(s, e, st, truth):
        r = s.asked(e, st)
        if r:
            for o in r[0]:
                if r[1] is None or r[1] == truth: st.ok[o] = True
        return st
    def on_decl(s, d, st, v):
        t = d["t"].replace("Eigen::", "").replace("const ", "").strip()
        i = d.get("init")
        if t.startswith(s.STATUS):
            o = s.obj(i) if i is not None else None
            if o is not None and is_ref(d["t"]): s.alias[d["id"]] = o
            else: st.ok[d["id"]] = st.ok.get(o, False) if o is not None else False
        elif d.get("init") is not None: s.note(d["id"], d["init"], st)
    def note(s, vid, e, st):
        r = s.asked(e, st)
        if r: st.b[vid] = r
        else: st.b.pop(vid, None)
    def visit(s, e, st, vals):
        if e["k"] == "Assign" and e["a"]["k"] == "Var" and e["op"] == "=": s.note(e["a"]["id"], e["b"], st)
        if e["k"] == "MCall" and e.get("b") is not None and (o := s.obj(e["b"])) is not None:
            n = e["f"]["n"]
            if n in ("compute", "factorize"): st.ok[o] = False
            elif n in ("inverse", "solve"):
                if n == "solve" and "FullPivLU" in e["b"].get("t", ""): return None
                s.uses += 1
                if not st.ok.get(o, False): s.bad[(e["f"]["n"], e["b"].get("n"))] = e["l"]
        return None
    def run(s): s.exec(s.f.body, s.St())

NORET = {"exit", "abort", "terminate"}

def analyse(P):
    st = steps(P); R = {}
    for k, f in P.funcs.items():
        if not f.body or k in getattr(P, "new_funcs", ()): continue
        # bodies are shared nodes: a step site is a node
        if k not in st and not any((c := P.callee(x.get("f"))) is not None and c.key in st for x in calls_in(f.body)): continue
        g = Steps(P, f, st); g.run(); R[k] = g
    return st, R

# a step whose failure is impossible in this caller
EXEMPT = {("NurbsSurface::MakeCornerFilletSurface", "MathUtils::MakeInverse"): "inverts constant, invertible basis matrices"}

OPAQUE = {"loop", "phi", "havoc", "vec", "out", "newobj", "rec", "iv", "uninit", "ext", "ctor", "itv", "div", "this"}
def simple(c):
    if not c or len(c) > 5: return False
    n = 0
    for a in c:
        if kinds(a) & OPAQUE: return False
        n += sum(1 for _ in subterms(a))
    return n <= 60
def failing(P, st, R, k):
    """conjunctions under which a step reports failure, over its arguments"""
    g = R.get(k); f = P.funcs[k]; full, ok, _ = st[k]; r = set()
    for ctx, v in g.exits:
        if v is None: continue
        if base_type(f.ret) == "bool": fm = list(ctx) + [f_not(g.asformula(v))]
        else:
            c = cval(v)
            if c is not None and c in ok: continue
            fm = list(ctx)
        for c in dnf(f_and(*fm)):
            if not pure(c): continue
            c = simp(c)
            if not contradictory(c): r.add(c)
    return r

def table(P):
    st, R = analyse(P); G = c01.analyse(P)
    T = {"fallback": {}, "returns": {}, "fails": {}}
    for k, g in sorted(R.items()):
        o = sorted({q for q, _ in g.outcomes})
        if o: T["fallback"][k] = o
    for k in sorted(st):
        if k in R: T["returns"][k] = sorted(R[k].rets)
        c = sorted(ser(c) for c in failing(P, st, G, k) if simple(c))
        if c and len(c) < 12: T["fails"][k] = c
    return T

def run(P, ctx):
    T = json.load(open(TABLE)); st, R = analyse(P); G = c01.analyse(P)
    new = set(getattr(P, "new_funcs", ()))
    nsites = nreads = nout = nfail = 0; exempt = set()
    for k, g in sorted(R.items()):
        f = P.funcs[k]
        nsites += len(g.sites); nreads += g.reads
        for (q, how), (site, line) in sorted(g.bad.items()):
            if (f.q, q) in EXEMPT: exempt.add((f.q, q)); continue
            ctx.violation(f"{k}|{how}|{q}", f"{k}: {how} what {q} was to deliver although {q} may have reported failure (step at line {g.sites[site][3]})", f"{f.file}:{line}")
        allowed = set(T["fallback"].get(k, ()))
        for q in sorted({q for q, _ in g.outcomes}):
            nout += 1
            if q in allowed or (f.q, q) in EXEMPT: continue
            where = [x[3] for x in g.sites.values() if x[0].q == q]
            ctx.violation(f"{k}|succeeds after|{q}", f"{k}: returns successfully on a path on which {q} reported failure or was never asked, and has no specified fallback for it", f"{f.file}:{where[0] if where else f.line}")
    for k, old in sorted(T["returns"].items()):
        if k not in R or k not in st: continue
        f = P.funcs[k]
        for v in old:
            if v not in R[k].rets: ctx.violation(f"{k}|never reports|{v}", f"{k}: no path reports the outcome {v} any more", f.loc)
    for k, conj in sorted(T["fails"].items()):
        if k not in st or G.get(k) is None: continue
        f = P.funcs[k]
        cur = failing(P, st, G, k) | c01.own(G[k])[0]
        for c in map(de, conj):
            nfail += 1
            if c in cur or covers(c, cur): continue
            ctx.violation(f"{k}|no failure|{ser(c)}", f"{k}: no longer reports failure for {show(c)}", f.loc)
    ndec = 0
    for k, f in sorted(P.funcs.items()):
        if not f.body or k in new or not any(x["k"] == "MCall" and x["f"]["n"] in ("inverse", "solve") and "Eigen" in str(x["f"].get("q", "")) for x in walk(f.body)): continue
        g = Decomp(P, f); g.run(); ndec += g.uses
        for (n, o), line in sorted(g.bad.items()):
            ctx.violation(f"{k}|{n}", f"{k}: takes {o}.{n}() without having asked whether the decomposition succeeded", f"{f.file}:{line}")
    ctx.cov["decomposition_results_taken"] = ndec
    ctx.rule = ("Rule: a step is a call of a function that reports through its result whether it could do its work. Per path the possible outcomes of every step are tracked through branches, switches, locals and helpers. "
        "(a) an output of a step is neither read nor handed out while its failure is possible; (b) an operation returns successfully after a failed or unchecked step only where the specification lists a fallback; "
        "(c) a step can still report every outcome it documents; (d) the argument conditions under which it documents failure still end in failure; (e) the solution of a matrix decomposition is taken only on paths on which the decomposition was asked and said it has one.")
    ctx.assumptions = ["a variable holding an explicit value computed before the call is a fallback for that output", "searches and iterators whose bool is an answer are not steps: " + ", ".join(sorted(ANSWERS)),
                       "failure impossible: " + "; ".join(f"{a} <- {b}: {w}" for (a, b), w in EXEMPT.items())]
    ctx.floor("steps", len(st), 30); ctx.floor("step_call_sites", nsites, 40); ctx.floor("reads_checked", nreads, 3000); ctx.floor("failure_conditions", nfail, 12)
    ctx.cov["callers_analysed"] = len(R); ctx.cov["successes_after_failure_with_specified_fallback"] = nout
    ctx.samples = [{"caller": k, "steps": sorted({x[0].q for x in g.sites.values()}), "fallback": T["fallback"].get(k, [])} for k, g in list(R.items())[:60:8]]
