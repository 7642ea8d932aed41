"""C11: definite assignment of locals, fixed-size buffers, record fields; constructors leave every scalar member defined.

May-be-unassigned dataflow built on the must-write summaries of C02 (an output argument counts as assigned after a call only
as far as the callee's summary guarantees it)."""
import re, itertools
from ir import *
from flow import Flow, Dead, path_of, specialisations
import c02
from c02 import MustWrite, St, order, summarize

SCAL = {"double", "float", "int", "unsigned int", "long", "unsigned long", "long long", "unsigned long long", "bool", "char", "unsigned char", "signed char", "short", "unsigned short", "size_t"}
def scalar(P, t):
    t = t.strip()
    if t.startswith("const "): t = t[6:]
    return t in SCAL or t.endswith("*") or t in P.enums
def arr_of(t):
    m = re.match(r"(.*?)\s*((?:\[\d+\])+)$", t)
    return (m.group(1), [int(x) for x in re.findall(r"\[(\d+)\]", m.group(2))]) if m else None

# infeasible paths the path-insensitive analysis cannot exclude (function, declared type) -> reason
CORRELATED = {
    ("VoronoiDiagramGenerator::voronoi", "PointVDG"): "only read when the queue is not empty, in which case PQ_min() has just filled it",
}
# C structs carved out of the generator's arenas; never constructed by C++ code
ARENA = {"Edge", "Site", "Halfedge", "Freenode", "Freelist", "FreeNodeArrayList", "GraphEdge", "Point3", "PointVDG", "VertexLink"}

def undef_fields(P, t):
    r = P.records.get(base_type(t))
    if not r or any(f.ctor and f.cls == r["n"] and not f.d.get("copyctor") for f in P.funcs.values()): return None
    fl = [f["n"] for f in r["fields"] if not f.get("init") and (scalar(P, f["t"]) or (arr_of(f["t"]) and scalar(P, arr_of(f["t"])[0])))]
    return fl or None

def const_loops(P, body):
    """loop variables running over a constant range: id -> range of values taken"""
    from term import const_int, isvar, strip
    r = {}
    for n in walk(body):
        if n["k"] != "For" or not n.get("init") or n["init"]["k"] != "Decl" or len(n["init"]["d"]) != 1 or not n.get("c"): continue
        d = n["init"]["d"][0]; c = strip(n["c"])
        lo = const_int(d["init"], P) if d.get("init") else None
        hi = const_int(c["b"], P) if c["k"] == "Bin" and c["op"] in ("<", "<=", "!=") and isvar(c["a"], d["id"]) else None
        inc = strip(n["inc"]) if n.get("inc") else None
        if lo is None or hi is None or inc is None or not (inc["k"] == "Un" and inc["op"] == "++"): continue
        if any(x["k"] == "Assign" and isvar(x["a"], d["id"]) or x["k"] == "Un" and x["op"] in ("++", "--") and isvar(x["e"], d["id"]) for x in walk(n["body"])): continue
        if any(x["k"] in ("Break", "Return", "Continue") for x in walk(n["body"])): continue
        r[d["id"]] = range(lo, hi + (c["op"] == "<="))
    return r

class DefAssign(MustWrite):
    def __init__(self, P, f, summ):
        super().__init__(P, f, summ)
        self.ranges = const_loops(P, f.body)
        self.track = {}      # id -> decl
        self.reads = 0; self.bad = {}
    def on_decl(self, d, st, v):
        super().on_decl(d, st, v)
        t = d["t"]; i = d.get("init")
        if is_ref(t) or d.get("static"): return
        if d.get("rangeof") is not None:
            st.w.add((d["id"], "")); return
        a = arr_of(t)
        if i is None and (scalar(self.P, t) or (a and scalar(self.P, a[0]))):
            self.track[d["id"]] = d; st.w.discard((d["id"], ""))
        elif t.startswith("Eigen::Matrix<") and i is not None and i["k"] == "Ctor" and len(i["args"]) in (0, 1, 2) and all(base_type(x.get("t", "int")) in SCAL for x in i["args"]):
            if len(i["args"]) == 2 and ", 3, 1" in t: return
            self.track[d["id"]] = d; st.w.discard((d["id"], ""))
        elif i is not None and i["k"] == "Ctor" and not i["args"]:
            fl = undef_fields(self.P, t)
            if fl:
                self.recs[d["id"]] = fl; self.track[d["id"]] = d
                for x in fl: st.w.discard((d["id"], x))
    # ---- single elements of small fixed-size arrays
    def dims(self, root, field):
        d = self.track.get(root)
        if d is None: return None
        t = d["t"]
        if field:
            r = self.P.records.get(base_type(t))
            t = next((f["t"] for f in r["fields"] if f["n"] == field), "") if r else ""
        a = arr_of(t)
        if not a: return None
        n = 1
        for k in a[1]: n *= k
        return a[1] if n <= 16 else None
    def elements(self, e, root, field):
        """(index tuples an element expression denotes, whether a loop variable picks them) or None when not known"""
        dm = self.dims(root, field)
        if dm is None: return None
        ix = []; x = e
        while x["k"] in ("Index", "Cast"):
            if x["k"] == "Index": ix.append(x["i"]); x = x["b"]
            else: x = x["e"]
        if len(ix) != len(dm): return None
        if (x["k"] == "Member" and x["f"] == field and x["b"]["k"] == "Var" and x["b"]["id"] == root) if field else (x["k"] == "Var" and x["id"] == root):
            sets = []; var = False
            for i, k in zip(reversed(ix), dm):
                from term import const_int, strip
                i = strip(i); c = const_int(i, self.P)
                if c is not None: sets.append([c])
                elif i["k"] == "Var" and i["id"] in self.ranges: sets.append(self.ranges[i["id"]]); var = True
                else: return None
            return set(itertools.product(*sets)), var
        return None
    def allof(self, root, field): return set(itertools.product(*[range(k) for k in self.dims(root, field)]))
    def have(self, st, root, field): return {x[2] for x in st.w if len(x) == 3 and x[0] == root and x[1] == field}
    def put(self, st, e, root, field, weak):
        el = self.elements(e, root, field) if e is not None else None
        if el is not None:
            for i in el[0]:
                st.w.add((root, field, i))
                if el[1]: st.weak.add((root, field, i))
            if self.allof(root, field) <= self.have(st, root, field):
                st.w.add((root, field))
                if el[1]: st.weak.add((root, field))
            return
        st.w.add((root, field))
        if weak: st.weak.add((root, field))
    def kill(self, st, e, how="", whole=False):
        p = path_of(e, st.alias)
        if p and p[0] in self.track:
            root, comps = p
            if root in self.recs:
                if not comps:
                    for x in self.recs[root]: st.w.add((root, x))
                else: self.put(st, None if whole else e, root, comps[0], "[]" in comps)
            else: self.put(st, None if whole else e, root, "", bool(comps))
            return
        # element of an Eigen object: m.row(i) = ..., m(i, j) = ...
        x = e
        while x is not None and x["k"] in ("MCall", "OpCall", "Index", "Member", "Cast"):
            x = x.get("b") or (x["args"][0] if x.get("args") else None) or x.get("e")
        if x is not None and x["k"] == "Var" and x["id"] in self.track and x is not e:
            st.w.add((x["id"], "")); st.weak.add((x["id"], ""))
        super().kill(st, e, how)
    def read(self, e, st):
        p = path_of(e, st.alias)
        if p is None or p[0] not in self.track: return
        root, comps = p; self.reads += 1
        need = [x for x in self.recs[root] if not comps or comps[0] == x] if root in self.recs else [""]
        miss = []
        for x in need:
            if (root, x) in st.w: continue
            el = self.elements(e, root, x)
            if el is not None:
                lost = sorted(el[0] - self.have(st, root, x))
                if lost: miss.append(x + "".join(f"[{i}]" for i in lost[0]))
                continue
            if self.dims(root, x) is not None:
                h = self.have(st, root, x)
                if self.allof(root, x) <= h or h and (comps or not self.recs.get(root)): continue
            miss.append(x)
        if miss:
            d = self.track[root]
            if (self.f.q, base_type(d["t"])) in CORRELATED: return
            self.bad.setdefault((root, tuple(miss)), (d, miss, e["l"]))
    def outarg(self, a, t):
        """argument handed over to be written rather than read"""
        x = a
        while x["k"] == "Cast": x = x["e"]
        if is_mut_ref(t): return x["k"] in ("Var", "Member", "Index")
        if ("*" in t or "[" in t) and not t.startswith("const"):
            return x["k"] in ("Var", "Member", "Index") or (x["k"] == "Un" and x["op"] == "&")
        return False
    def eval(self, e, st):
        if e is None: return None
        k = e["k"]
        if k in ("Call", "MCall", "OpCall", "Ctor") and isinstance(e.get("f"), dict):
            pt = e["f"]["pt"]; args = e["args"]
            off = len(args) - len(pt) if k == "OpCall" and len(args) == len(pt) + 1 else 0
            outs = []
            if k == "MCall" and e.get("b") is not None:
                n = e["f"]["n"]
                if n in c02.FULLKILL or n.startswith("set"): pass
                else: self.eval(e["b"], st)
            for j, a in enumerate(args):
                if a is None: continue
                t = pt[j - off] if 0 <= j - off < len(pt) else ""
                if self.outarg(a, t): outs.append(a); self.sub_eval(a, st)
                else: self.eval(a, st)
            r = self.visit(e, st, [])
            if k == "MCall" and e.get("b") is not None and e["f"]["n"].startswith("set"): self.kill(st, e["b"])
            c = self.P.callee(e["f"])
            for a in outs:
                x = a
                while x["k"] in ("Cast",) or (x["k"] == "Un" and x["op"] == "&"): x = x["e"]
                if c is None or self.summ.get(c.key) is None or e["f"].get("virtual"): self.kill(st, x, whole=a["k"] == "Un")
                else:
                    p = path_of(x, st.alias)
                    if p and p[0] in self.track and (p[1] or arr_of(self.track[p[0]]["t"]) or a["k"] == "Un"): self.kill(st, x, whole=a["k"] == "Un")
            if k in ("Call", "MCall") and (e["f"]["n"] in NORET or self.noreturn(e)): raise Dead()
            return r
        if k == "Un" and e["op"] == "&":
            self.sub_eval(e["e"], st)
            # the address escapes: assume it is filled through it
            self.kill(st, e["e"], whole=True); return None
        if k in ("Var", "Member", "Index"):
            x = e
            while x["k"] in ("Member", "Index"): x = x["b"]
            if x["k"] == "Var":
                self.read(e, st); self.sub_eval(e, st); return None
        if k == "Sizeof": return None
        return super().eval(e, st)
    def eval_lhs(self, e, st, op):
        if op == "=" and e["k"] in ("MCall", "OpCall"):
            x = e.get("b") or (e["args"][0] if e.get("args") else None)
            if x is not None and x["k"] == "Var" and x["id"] in self.track:
                for a in (e["args"] if e["k"] == "MCall" else e["args"][1:]): self.eval(a, st)
                return None
        return super().eval_lhs(e, st, op)
    def sub_eval(self, e, st):
        """indices only"""
        if e["k"] == "Index": self.eval(e["i"], st); self.sub_eval(e["b"], st)
        elif e["k"] in ("Member", "Cast"): self.sub_eval(e.get("b") or e["e"], st)
        elif e["k"] == "Un" and e["op"] == "&": self.sub_eval(e["e"], st)
        elif e["k"] != "Var": self.eval(e, st)
    def visit(self, e, st, vals):
        if e["k"] == "Lambda":
            for c in e.get("caps", []):
                if "id" in c: st.w.add((c["id"], "")); [st.w.add((c["id"], x)) for x in self.recs.get(c["id"], [])]
        if e["k"] == "Assign" and e["op"] == "=":
            self.kill(st, e["a"]); 
            if e["a"]["k"] == "Var": self.set_pending(e["a"]["id"], e["b"], st)
            return None
        if e["k"] == "OpCall" and e["op"] == "<<" and e["args"]:
            self.kill(st, e["args"][0])
        return super().visit(e, st, vals)
    def escape(self, e, st): pass
from flow import NORETURN as NORET

class CtorFields(Flow):
    """must-write of this-> fields in a constructor body"""
    def __init__(self, P, summ): self.P = P; self.summ = summ
    class S:
        def __init__(s): s.w = set(); s.weak = set()
        def copy(s): r = CtorFields.S(); r.w = set(s.w); r.weak = set(s.weak); return r
    def join(self, a, b): r = CtorFields.S(); r.w = a.w & b.w; r.weak = a.weak | b.weak; return r
    def eq(self, a, b): return a.w == b.w
    def after_body(self, s, back, exits):
        for x in exits: x.w |= back.weak & back.w; x.weak |= back.weak
    def put(self, e, st):
        x = e; idx = []
        while x["k"] in ("Index", "Cast"):
            if x["k"] == "Index": idx.append(self.static(x["i"])); x = x["b"]
            else: x = x["e"]
        if x["k"] == "Member" and x["b"]["k"] == "This":
            n = x["f"]
            if not idx: st.w.add((n, None))
            elif all(i is not None for i in idx): st.w.add((n, tuple(reversed(idx))))
            else: st.w.add((n, None)); st.weak.add((n, None))
    def visit(self, e, st, vals):
        if e["k"] == "Assign" and e["op"] == "=": self.put(e["a"], st)
        elif e["k"] in ("Call", "MCall") and e.get("f"):
            n = e["f"]["n"]
            for a, t in zip(e["args"], e["f"]["pt"]):
                if not t.startswith("const") and ("*" in t or is_mut_ref(t)): self.put(a, st)
            c = self.P.callee(e["f"])
            if c is not None and (e["k"] == "Call" or e.get("b", {}).get("k") == "This") and c.key in self.summ: st.w |= self.summ[c.key]
        return None

def run(P, ctx):
    summ = {}
    nv = nr = nf = nctor = 0
    for f in order(P):
        if not f.body: continue
        summ[f.key] = summarize(P, f, summ)[0]
    for f in P.funcs.values():
        if not f.body: continue
        nf += 1
        seen = set()
        for sp in specialisations(P, f):
            fl = DefAssign(P, f, summ)
            fl.consts = {f.params[i]["id"]: v for i, v in sp.items()}
            fl.exec(f.body, St())
            nr += fl.reads; seen |= set(fl.track)
            for (root, m), (d, miss, l) in fl.bad.items():
                part = ", ".join(x for x in miss if x)
                ctx.violation(f"{f.q}|{d['t']}|{d['n']}|{part}", f"{f.key}: '{d['n']}{'.'+part if part else ''}' may be read before it is given a value", f"{f.rel()}:{l}")
        nv += len(seen)
        for n in walk(f.body):
            if n["k"] == "Decl" and len(ctx.samples) < 8 and nf % 40 == 1:
                for d in n["d"]:
                    if d["id"] in seen: ctx.samples.append({"function": f.q, "variable": d["n"], "line": d["l"]})
    # constructors
    cf = CtorFields(P, {})
    def must(f, depth=0):
        o = cf.exec(f.body, CtorFields.S())
        outs = [x[0] for x in o.r] + ([o.n] if o.n is not None else [])
        r = None
        for s in outs: r = s.w if r is None else r & s.w
        return r or set()
    for t, r in sorted(P.records.items()):
        if r["n"] in ARENA: continue
        fields = [x for x in r["fields"] if not x.get("init")]
        fields = [(x["n"], arr_of(x["t"])) for x in fields if scalar(P, x["t"]) or (arr_of(x["t"]) and scalar(P, arr_of(x["t"])[0]))]
        ctors = [f for f in P.funcs.values() if f.ctor and f.cls == r["n"] and not f.d.get("copyctor") and not f.d.get("defaulted")]
        methods = [f for f in P.funcs.values() if f.cls == r["n"] and not f.ctor and f.body]
        cf.summ = {m.key: must(m) for m in methods}
        where = f"{os.path.relpath(r['file'], REPO)}:{r['l']}"
        if not ctors:
            if r["n"].startswith("LN_"):
                nctor += 1
                for n, a in fields: ctx.violation(f"record:{t}.{n}", f"{t}: member '{n}' is undefined after default construction", where)
            continue
        for c in ctors:
            nctor += 1
            if any(i.get("deleg") for i in c.inits): continue
            inited = {i["f"] for i in c.inits if i.get("f") and i.get("written")}
            w = must(c) if c.body else set()
            for n, a in fields:
                if n in inited or (n, None) in w: continue
                if a:
                    import itertools
                    allidx = set(itertools.product(*[range(k) for k in a[1]]))
                    have = {i for (nn, i) in w if nn == n and i is not None}
                    if allidx <= have: continue
                    miss = sorted(allidx - have)[:3]
                    ctx.violation(f"ctor:{c.key}.{n}", f"{c.key}: element {list(miss[0])} of member '{n}' is left undefined", f"{c.rel()}:{c.line}")
                else:
                    ctx.violation(f"ctor:{c.key}.{n}", f"{c.key}: member '{n}' is left undefined", f"{c.rel()}:{c.line}")
        # copy constructors / assignment written by hand must copy every element
        for c in [f for f in P.funcs.values() if f.cls == r["n"] and f.n == "operator=" and f.body and not f.d.get("defaulted")]:
            pass
    ctx.rule = ("Rule: on every path (one run per combination of bool/enum selector arguments) no scalar local, fixed-size buffer, Eigen matrix or field of a plain record is read before it is assigned; an output argument counts as "
        "assigned after a call only if the callee's must-write summary says so (for results guarded by a success test: on the success branch); every constructor and every LN_ record defines each scalar member (every element of array members).")
    ctx.assumptions = ["a buffer counts as filled once a loop assigning its elements has been passed", "arena-allocated C structs of the Voronoi generator are not tracked"]
    ctx.floor("functions", nf, 400); ctx.floor("tracked_variables", nv, 100); ctx.floor("constructors_and_records", nctor, 20)
    ctx.cov["reads_checked"] = nr
