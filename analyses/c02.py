"""C02: must-write analysis of output arguments on every successful return.

Interprocedural: summary of a function = for each output parameter the set of parts (fields)
certainly given a complete value (a) on every normal return, (b) on every return not reporting
failure.  Summaries are computed bottom-up; calls apply them."""
from ir import *
from flow import Flow, Dead, path_of, specialisations

SHAPE_FIELDS = {
    "LN_BsplineCurve<XYZW>": ["Degree", "KnotVector", "ControlPoints"],
    "LN_BsplineCurve<XYZ>": ["Degree", "KnotVector", "ControlPoints"],
    "LN_BezierCurve<XYZW>": ["Degree", "ControlPoints"],
    "LN_BezierCurve<XYZ>": ["Degree", "ControlPoints"],
}
FULLKILL = {"clear", "assign", "resize", "swap"}
APPEND = {"push_back", "emplace_back", "insert", "emplace"}
# outputs that the operation documents as updated in place, or whose users only append: not part of the property
INOUT = {
    ("MathUtils::SolveLinearSystemBanded", 4): "matrix sized by the caller, filled element by element",
    ("NurbsCurve::RemoveKnotsByGivenBound", 2): "error list handed in and updated",
    ("Polynomials::Horner", 3): "an input taken by non-const reference",
}
# an empty (default constructed) curve is the documented answer for an empty control net or no free direction
EMPTY_OK = {"NurbsSurface::GetIsoCurve", "NurbsVolume::GetIsoCurve"}

def fields_of(P, t):
    t = base_type(t)
    r = P.records.get(t)
    if r and r["n"].startswith("LN_"): return [f["n"] for f in r["fields"]]
    return None
SHAPES = ("LN_BsplineCurve", "LN_BsplineSurface", "LN_BsplineVolume", "LN_BezierCurve", "LN_BezierSurface", "LN_ArcInfo")

class St:
    def __init__(s): s.w = set(); s.alias = {}; s.pend = {}; s.app = {}; s.weak = set(); s.kept = frozenset()
    def copy(s):
        r = St(); r.kept = s.kept; r.weak = set(s.weak); r.w = set(s.w); r.alias = dict(s.alias); r.pend = dict(s.pend); r.app = dict(s.app); return r

def notread(P, f):
    """lvalues that are named without their value being read: written, sized, appended to, bound to a reference, handed to a callee that may write them"""
    r = set()
    def out(x):
        while x is not None and x["k"] in ("Cast", "Index", "Member", "Un"):
            r.add(id(x)); x = x.get("b") or x.get("e")
        if x is not None: r.add(id(x))
    for n in walk(f.body):
        k = n["k"]
        if k == "Assign" and n["op"] == "=": out(n["a"])
        elif k == "MCall" and n.get("b"):
            out(n["b"])
            for a, t in zip(n["args"], (n.get("f") or {}).get("pt", [])):
                if is_mut_ref(t): out(a)
        elif k in ("Call", "OpCall", "Ctor") and isinstance(n.get("f"), dict):
            for a, t in zip(n["args"], n["f"].get("pt", [])):
                if a is not None and (is_mut_ref(t) or t.endswith("*")): out(a)
        elif k == "Decl":
            for d in n.get("d", []):
                if is_ref(d["t"]) and d.get("init"): out(d["init"])
        elif k == "Un" and n["op"] == "&": out(n["e"])
        elif k == "RangeFor": out(n["r"])
    # a longer path whose inner part is the same access is one read: keep only the outermost
    for n in walk(f.body):
        if n["k"] in ("Index", "Member"):
            b = n["b"]
            while b is not None and b["k"] in ("Index", "Member", "Cast"): r.add(id(b)); b = b.get("b") or b.get("e")
            if b is not None: r.add(id(b))
    return r

class MustWrite(Flow):
    def __init__(self, P, f, summ, ctx=None):
        self.P = P; self.f = f; self.summ = summ; self.rep = []
        self.recs = {}       # root id -> list of fields (records)
        for p in f.params:
            fl = fields_of(P, p["t"])
            if fl: self.recs[p["id"]] = fl
        self.escapes = []; self.stale = {}
        self.consts = {}
        self.noread = notread(P, f)
    def after_body(self, s, back, exits):
        # element-wise filling and appending in a loop: the loop is taken to run (size completeness is C13/C16)
        for x in exits:
            x.w |= {w for w in back.w if w in back.weak}; x.weak |= back.weak
            x.kept &= back.kept
    def join(self, a, b):
        r = St(); r.w = a.w & b.w; r.weak = a.weak | b.weak; r.kept = a.kept | b.kept
        r.alias = {k: (v if b.alias.get(k, v) == v else None) for k, v in a.alias.items()}
        for k, v in b.alias.items():
            if k not in r.alias: r.alias[k] = v
        r.pend = {k: v for k, v in a.pend.items() if b.pend.get(k) == v}
        r.app = dict(a.app); r.app.update({k: v for k, v in b.app.items() if k not in r.app})
        return r
    def eq(self, a, b): return a.w == b.w and a.alias == b.alias and a.pend == b.pend and a.kept == b.kept and set(a.app) == set(b.app)
    # parts of a path
    def parts(self, root, comps, whole=True):
        if comps == []:
            fl = self.recs.get(root)
            return [(root, x) for x in fl] if fl else [(root, "")]
        if root in self.recs:
            if len(comps) == 1: return [(root, comps[0])]
            return []
        return []
    def kill(self, st, e, how=""):
        p = path_of(e, st.alias)
        if p is None: return
        if "[]" in p[1]: st.kept -= set(self.parts(p[0], p[1][:p[1].index("[]")]))
        if p[1] and p[1][-1] in ("[]", "*"):
            # whole element written through an index: fixed-size C arrays handed in by the caller
            root = p[0]
            fp = next((q for q in self.f.params if q["id"] == root), None)
            if fp is not None and ("*" in fp["t"] or "[" in fp["t"]) and all(c in ("[]", "*") for c in p[1]): st.w.add((root, "")); st.weak.add((root, ""))
            return
        for x in self.parts(*p):
            st.kept -= {x}
            if how == "resize" and x not in st.w and self.f.pindex(x[0]) is not None: st.kept |= {x}
            st.w.add(x)
    def read(self, e, st):
        """an output whose contents are still the caller's is read"""
        if id(e) in self.noread: return
        p = path_of(e, st.alias)
        if p is None or self.f.pindex(p[0]) is None or not is_mut_ref(self.f.params[self.f.pindex(p[0])]["t"]): return
        c = p[1][:p[1].index("[]")] if "[]" in p[1] else p[1]
        for x in self.parts(p[0], c):
            if x not in st.w or "[]" in p[1] and x in st.kept: self.stale.setdefault(x, e["l"])
    def covered(self, st, e):
        p = path_of(e, st.alias)
        if p is None: return True
        ps = self.parts(*p)
        return not ps or all(x in st.w for x in ps)
    def on_decl(self, d, st, v):
        t = d["t"]
        if is_ref(t):
            src = d.get("init") or None
            if d.get("rangeof") is not None:
                p = path_of(d["rangeof"], st.alias); st.alias[d["id"]] = (p[0], p[1] + ["[]"]) if p else None
            else: st.alias[d["id"]] = path_of(src, st.alias) if src else None
            return
        fl = fields_of(self.P, t)
        if fl:
            self.recs[d["id"]] = fl
            for x in fl: st.w.discard((d["id"], x))
            i = d.get("init")
            if d.get("rangeof") is not None or (i is not None and not (i["k"] == "Ctor" and not i["args"])):
                for x in fl: st.w.add((d["id"], x))
            else:
                rec = self.P.records.get(base_type(t))
        if d.get("init") is not None:
            self.set_pending(d["id"], d["init"], st)
    def set_pending(self, vid, e, st):
        e2 = e
        while e2["k"] == "Cast": e2 = e2["e"]
        st.pend.pop(vid, None)
        if e2["k"] in ("Call", "MCall"):
            t = self.retvals(e2, st)
            if t: st.pend[vid] = t
    def retvals(self, e, st):
        """returned constant -> parts written when that constant was returned"""
        c, s = self.callee_sum(e)
        if not s or not s.get("byret"): return None
        r = {}
        for v, per in s["byret"].items():
            m = dict(s); m["rv"] = per
            r[v] = frozenset(self.map_written(e, c, "rv", st, m))
        return r
    @staticmethod
    def pick(pend, pred):
        """parts written whatever the returned constant, among those satisfying pred; '?' stands for a non-constant result"""
        r = None
        for v, w in pend.items():
            if v == "?" or pred(v): r = w if r is None else r & w
        return r or frozenset()
    def callee_sum(self, e):
        c = self.P.callee(e.get("f"))
        return (c, self.summ.get(c.key)) if c else (None, None)
    def map_written(self, e, c, which, st, s=None):
        res = set()
        given = s is not None
        if s is None: s = self.summ.get(c.key)
        if not s: return res
        args = e["args"]
        known = {i: self.static(a) for i, a in enumerate(args) if a is not None}
        for sp, v in ([] if given else s["variants"]):
            if sp and all(known.get(i) == x for i, x in sp.items()): s = v
        for i, p in enumerate(c.params):
            if i >= len(args): break
            w = s[which].get(i)
            if not w: continue
            pa = path_of(args[i], st.alias)
            if pa is None: continue
            if pa[1] and pa[1][-1] in ("[]", "*"): continue
            for part in w:
                if part == "": res.update(self.parts(*pa))
                else:
                    if pa[1] == [] : res.add((pa[0], part))
        return res
    def true_extra(self, e, st):
        c, s = self.callee_sum(e)
        if not s: return set()
        return self.map_written(e, c, "ok", st)
    def visit(self, e, st, vals):
        k = e["k"]
        if k in ("Index", "Member", "Var"): self.read(e, st)
        if k == "Assign":
            if e["op"] == "=":
                self.escape(e["b"], st)
                self.kill(st, e["a"])
                if e["a"]["k"] == "Var": self.set_pending(e["a"]["id"], e["b"], st)
        elif k == "MCall":
            n = e["f"]["n"] if e.get("f") else ""
            if n in FULLKILL and e.get("b"):
                self.kill(st, e["b"], n)
            elif n in APPEND and e.get("b"):
                for a in e["args"]: self.escape(a, st)
                if not self.covered(st, e["b"]):
                    p = path_of(e["b"], st.alias)
                    if p and self.f.pindex(p[0]) is None and len(p[1]) == 1 and p[0] in self.recs:
                        st.w.add((p[0], p[1][0])); st.weak.add((p[0], p[1][0]))    # fresh local: starts empty
                    elif p: st.app.setdefault((p[0], p[1][0] if p[1] else ""), e["l"])
            self.apply_call(e, st)
        elif k in ("Call", "OpCall"):
            n = e["f"]["n"] if e.get("f") else ""
            if n == "swap" and len(e["args"]) == 2:
                for a in e["args"]: self.kill(st, a)
            self.apply_call(e, st)
        return None
    def apply_call(self, e, st):
        c = self.P.callee(e.get("f"))
        if c is not None:
            st.w |= self.map_written(e, c, "all", st)
            s = self.summ.get(c.key)
            if s:
                for i, ap in s["app"].items():
                    if i < len(e["args"]) and not self.covered(st, e["args"][i]):
                        p = path_of(e["args"][i], st.alias)
                        if p: st.app.setdefault((p[0], p[1][0] if p[1] else ""), e["l"])
        else:
            # external callee: a mutable reference argument counts as written (std algorithms operate on defined data)
            for a, t in zip(e.get("args", []), (e.get("f") or {}).get("pt", [])):
                if is_mut_ref(t) and (e.get("f") or {}).get("n") in ("swap", "move", "exchange"): self.kill(st, a)
    def refine(self, e, st, truth):
        while e["k"] == "Cast": e = e["e"]
        if e["k"] in ("Call", "MCall") and truth:
            st.w |= self.true_extra(e, st)
        elif e["k"] == "Var" and e["id"] in st.pend:
            st.w |= self.pick(st.pend[e["id"]], lambda v: bool(v) == truth)
        elif e["k"] == "Bin" and e["op"] in ("==", "!="):
            a, b = e["a"], e["b"]
            while a["k"] == "Cast": a = a["e"]
            if a["k"] in ("Enum", "Bool"): a, b = b, a
            if b["k"] == "Enum":
                pend = st.pend.get(a["id"]) if a["k"] == "Var" else self.retvals(a, st) if a["k"] in ("Call", "MCall") else None
                if pend:
                    same = truth == (e["op"] == "==")
                    rest = {v: w for v, w in pend.items() if v == "?" or (v == b["v"]) == same}
                    st.w |= self.pick(rest, lambda v: True)
                    if a["k"] == "Var": st.pend[a["id"]] = rest
                return st
            if b["k"] == "Bool" :
                if (e["op"] == "==") == truth and b["v"]: return self.refine(a, st, True)
                if (e["op"] == "!=") == truth and not b["v"]: return self.refine(a, st, True)
        return st
    def escape(self, e, st):
        while e["k"] == "Cast": e = e["e"]
        if e["k"] == "Call" and e.get("f") and e["f"]["n"] == "move" and e["args"]: e = e["args"][0]
        if e["k"] != "Var": return
        vid = e["id"]
        if vid in self.recs and self.f.pindex(vid) is None and vid not in st.alias:
            t = base_type(e["t"])
            if t.startswith(SHAPES):
                miss = [x for x in self.recs[vid] if (vid, x) not in st.w]
                if miss: self.escapes.append((e["n"], tuple(miss), e["l"]))
    def on_return(self, s, st, v):
        e = s.get("e")
        if e is not None: self.escape(e, st)

def is_failure(f, e):
    if e is None: return False
    while e["k"] == "Cast": e = e["e"]
    if f.ret == "bool" and e["k"] == "Bool" and not e["v"]: return True
    if e["k"] == "Enum" and e["n"].split("::")[-1] == "Parallel" and "IntersectionType" in f.ret: return True
    return False

def outputs(f):
    r = []
    for i, p in enumerate(f.params):
        t = p["t"]
        if is_mut_ref(t): r.append(i)
        elif "*" in t and not t.startswith("const") and base_type(t).startswith(("XYZ", "double", "XYZW", "array")): r.append(i)
    return r

def summarize(P, f, summ):
    """one summary per selector combination; 'merged' = what holds for all of them"""
    variants = []; misses = []; esc = []; nr = 0
    for sp in specialisations(P, f):
        s, m, e, n = summarize1(P, f, summ, sp)
        variants.append((sp, s)); nr += n
        lab = {f.params[i]["n"]: v for i, v in sp.items()}
        misses += [x + (lab,) for x in m]; esc += [x + (lab,) for x in e]
    merged = {"all": {}, "ok": {}, "app": {}, "byret": {}}
    for _, s in variants:
        for v, per in s["byret"].items():
            if v in merged["byret"]: merged["byret"][v] = {i: merged["byret"][v][i] & per[i] for i in per}
            else: merged["byret"][v] = {i: set(per[i]) for i in per}
        for w in ("all", "ok"):
            for i, v in s[w].items(): merged[w][i] = (merged[w][i] & v) if i in merged[w] else set(v)
        for i, v in s["app"].items(): merged["app"].setdefault(i, {}).update(v)
    merged["variants"] = variants
    merged["stale"] = {x: l for _, s in variants for x, l in s["stale"].items()}
    return merged, misses, esc, nr

def summarize1(P, f, summ, sp):
    fl = MustWrite(P, f, summ)
    fl.consts = {f.params[i]["id"]: v for i, v in sp.items()}
    st = St()
    o = fl.exec(f.body, st)
    rets = list(o.r)
    if o.n is not None: rets.append((o.n, None, None))
    outs = outputs(f)
    full = {i: set(fl.recs.get(f.params[i]["id"], [""])) for i in outs}
    alls = {i: set(full[i]) for i in outs}; oks = {i: set(full[i]) for i in outs}
    misses = []; apps = {}; byret = {}
    for (s, e, v) in rets:
        fail = is_failure(f, e)
        w = set(s.w)
        wok = set(w)
        e2 = e
        while e2 is not None and e2["k"] == "Cast": e2 = e2["e"]
        if e2 is not None and e2["k"] in ("Call", "MCall") and f.ret in ("bool",) or (e2 is not None and e2["k"] in ("Call",) and "IntersectionType" in f.ret):
            wok |= fl.true_extra(e2, s)
        if e2 is not None and e2["k"] == "Var" and e2["id"] in s.pend: wok |= fl.pick(s.pend[e2["id"]], lambda v: bool(v) if f.ret == "bool" else v == 0)
        rv = fl.static(e) if e is not None and (f.ret == "bool" or base_type(f.ret) in P.enums) else None
        if rv is None: rv = "?"
        cur = {i: {x for (r, x) in w if r == f.params[i]["id"]} for i in outs}
        if rv not in byret: byret[rv] = cur
        else: byret[rv] = {i: byret[rv][i] & cur[i] for i in outs}
        for i in outs:
            pid = f.params[i]["id"]
            have = {x for (r, x) in w if r == pid}
            haveok = {x for (r, x) in wok if r == pid}
            alls[i] &= have
            if not fail:
                oks[i] &= haveok
                for x in full[i] - haveok:
                    misses.append((i, x, e["l"] if e is not None else (f.body.get("le") or f.line)))
        for (r, x), l in s.app.items():
            i = f.pindex(r)
            if i is not None: apps.setdefault(i, {})[x] = l
    if not (f.ret == "bool" or base_type(f.ret) in P.enums): byret = {}
    return {"all": alls, "ok": oks, "app": apps, "byret": byret, "stale": fl.stale}, misses, fl.escapes, len(rets)

def order(P):
    """bottom-up order (callees first), SCCs broken arbitrarily"""
    seen, out = set(), []
    g = {}
    for f in P.funcs.values():
        if f.body: g[f.key] = [c.key for c in (P.callee(x.get("f")) for x in calls_in(f.body)) if c]
        else: g[f.key] = []
    import sys
    def dfs(k):
        st = [(k, iter(g[k]))]; seen.add(k)
        while st:
            kk, it = st[-1]
            for c in it:
                if c not in seen and c in g:
                    seen.add(c); st.append((c, iter(g[c]))); break
            else:
                out.append(kk); st.pop()
    for k in sorted(g):
        if k not in seen: dfs(k)
    return [P.funcs[k] for k in out]

API = ("NurbsCurve", "NurbsSurface", "NurbsVolume", "BezierCurve", "BezierSurface", "BsplineCurve", "BsplineSurface",
       "Interpolation", "Intersection", "Projection", "Polynomials", "MathUtils", "KnotVectorUtils", "ControlPointsUtils")

def run(P, ctx):
    summ = {}
    nfun = nout = nret = nlocal = 0
    for f in order(P):
        if not f.body: continue
        s, misses, esc, nr = summarize(P, f, summ)
        summ[f.key] = s
        api = f.cls in API and f.public
        for (name, miss, l, lab) in esc:
            if f.q in EMPTY_OK and len(miss) == 3: continue
            ctx.violation(f"{f.q}|local:{'.'.join(sorted(miss))}", f"{f.key}: '{name}' is handed out with {', '.join(miss)} never assigned on some path", f"{f.rel()}:{l}")
        if not api: continue
        nfun += 1; nret += nr
        for i in outputs(f):
            nout += 1
            if len(ctx.samples) < 8 and nout % 12 == 1: ctx.samples.append({"operation": f.key, "output": f.params[i]["n"], "parts_proved_written_on_success": sorted(s["ok"].get(i, []))})
        for (i, x, l, lab) in misses:
            p = f.params[i]["n"]
            if (f.q, i) in INOUT: continue
            if i in s["app"] and (x in s["app"][i]):
                ctx.violation(f"{f.key}|{i}.{x}|append", f"{f.key}: output '{p}{'.'+x if x else ''}' is appended to without being emptied first: previous contents survive", f"{f.rel()}:{s['app'][i][x]}")
            else:
                ctx.violation(f"{f.key}|{i}.{x}|{sorted(lab.values())}", f"{f.key}: output '{p}{'.'+x if x else ''}' is not given a value on a successful return{' for '+str(lab) if lab else ''}", f"{f.rel()}:{l}")
        for (r, x), l in sorted(s["stale"].items(), key=str):
            i = f.pindex(r)
            if (f.q, i) in INOUT: continue
            p = f.params[i]["n"]
            ctx.violation(f"{f.key}|{i}.{x}|stale", f"{f.key}: what output '{p}{'.'+x if x else ''}' held before the call is read", f"{f.rel()}:{l}")
        # outputs lost in a by-value parameter
        for i, p in enumerate(f.params):
            t = p["t"]
            if is_ref(t) or "*" in t or t.startswith("const"): continue
            writes = []; reads = 0
            lhs = set()
            for n in walk(f.body):
                if n["k"] == "Assign":
                    a = n["a"]; q = path_of(a)
                    if q and q[0] == p["id"]:
                        writes.append(n["l"])
                        x = a
                        while x["k"] in ("Member", "Index"): x = x["b"]
                        if n["op"] == "=": lhs.add(id(x))
                elif n["k"] in ("Call", "MCall") and n.get("f"):
                    for a, pt in zip(n["args"], n["f"]["pt"]):
                        if is_mut_ref(pt) and a["k"] in ("Var", "Member"):
                            q = path_of(a)
                            if q and q[0] == p["id"]:
                                writes.append(n["l"])
                                x = a
                                while x["k"] == "Member": x = x["b"]
                                lhs.add(id(x))
            reads = sum(1 for n in walk(f.body) if n["k"] == "Var" and n["id"] == p["id"] and id(n) not in lhs)
            if writes and not reads:
                ctx.violation(f"{f.q}|byvalue|{i}", f"{f.key}: result stored in by-value parameter '{p['n']}' is lost to the caller", f"{f.rel()}:{writes[0]}")
    ctx.rule = ("Rule: on every path to a return that does not report failure, every field of every output argument (and of every curve/surface/volume "
        "handed out from a local) has been assigned, cleared, resized or filled by a callee whose own summary guarantees it; list outputs are emptied before "
        "being appended to; no by-value parameter is written and never read. Interprocedural must-write dataflow over all functions, one run per combination of "
        "bool/enum selector values, helpers inlined.")
    ctx.assumptions = ["loops that fill an already sized container element by element are taken to cover it (sizes are C13/C16)", "std:: callees behave as documented"]
    ctx.floor("public_operations", nfun, 100)
    ctx.floor("output_parameters", nout, 60)
    ctx.cov["return_points"] = nret
    ctx.summ = summ
