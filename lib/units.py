"""Unit inference: every arithmetic value gets a unit (an element of a free abelian group, written additively) and every
integer that counts or indexes gets an index dimension.  Sums, comparisons and assignments equate units, products add them;
linear equations over the unit variables are solved by elimination.  A function's specification is the projection of its
equations on the units of its parameters, results and members.  Elements of a container may have a unit that is linear in
the index (derivative number k of a curve: X - k*T).  No code is executed."""
import re
from fractions import Fraction
from ir import *

class Giveup(Exception): pass

# ------------------------------------------------------------------ linear algebra
class Solver:
    def __init__(s): s.sol = {}; s.n = 0; s.new = []; s.on_iface = None; s.line = 0
    def var(s): s.n += 1; return s.n
    def red(s, e):
        """e: {var: coef} fully reduced"""
        e = dict(e); sol = s.sol
        while True:
            hit = [v for v in e if v in sol]
            if not hit: return e
            for v in hit:
                c = e.pop(v, 0)
                if not c: continue
                for w, d in sol[v].items():
                    x = e.get(w, 0) + c * d
                    if x: e[w] = x
                    else: e.pop(w, None)
    def add(s, e):
        e = s.red({v: c for v, c in e.items() if c})
        if not e: return
        ints = [v for v in e if isinstance(v, int)]
        if ints: p = max(ints)
        else:
            p = max(e)
            s.new.append(dict(e))
            if s.on_iface: s.on_iface(e, s.line)
        c = e.pop(p)
        s.sol[p] = {v: (-d if c == 1 else d if c == -1 else norm1(Fraction(-d) / c)) for v, d in e.items()}
    def eq(s, a, b):
        """a, b: unit expressions {(var,sym):coef}; one equation per integer symbol"""
        by = {}
        for (v, y), c in a.items(): by.setdefault(y, {})[v] = by.get(y, {}).get(v, 0) + c
        for (v, y), c in b.items():
            d = by.setdefault(y, {}); d[v] = d.get(v, 0) - c
        for y, e in by.items(): s.add(e)
def norm1(f): return int(f) if isinstance(f, Fraction) and f.denominator == 1 else f

def uadd(a, b, k=1):
    r = dict(a)
    for x, c in b.items():
        y = r.get(x, 0) + k * c
        if y: r[x] = norm1(y)
        else: r.pop(x, None)
    return r
def uscale(a, k): return {x: norm1(c * k) for x, c in a.items()} if k else {}

# ------------------------------------------------------------------ values
class Sc:
    __slots__ = ("u", "iv", "cv", "lit")
    def __init__(s, u, iv=None, cv=None, lit=None): s.u = u; s.iv = iv; s.cv = cv; s.lit = lit
    def __repr__(s): return f"Sc({s.u},{s.iv})"
class St:
    __slots__ = ("f", "t")
    def __init__(s, f, t): s.f = f; s.t = t
class Vec:
    __slots__ = ("ph", "el", "ix")
    def __init__(s, ph, el, ix): s.ph = ph; s.el = el; s.ix = ix
class Tup:
    __slots__ = ("e",)
    def __init__(s, e): s.e = e
class Op:
    __slots__ = ("t", "d")
    def __init__(s, t=None): s.t = t; s.d = {}
class Lz:
    __slots__ = ("a", "v")
    def __init__(s, a): s.a = a; s.v = None
class Phi:
    __slots__ = ("entry", "back", "v", "closed", "ctr")
    def __init__(s, entry, ctr=None): s.entry = entry; s.back = None; s.v = None; s.closed = False; s.ctr = ctr   # ctr: (symbol, initial value, step)
OPAQUE = Op()

def lits(v): return Sc(None) 
INTS = {"int", "unsigned int", "long", "unsigned long", "long long", "size_t", "char", "unsigned long long", "short", "unsigned char", "ptrdiff_t"}
FLTS = {"double", "float", "long double"}
FOBJ = {"IntegrationFunction", "BinaryIntegrationFunction"}
DIM = {"Degree": "d", "DegreeU": "dU", "DegreeV": "dV", "DegreeW": "dW"}
KV = {"KnotVector": "d", "KnotVectorU": "dU", "KnotVectorV": "dV", "KnotVectorW": "dW"}
def cpdims(t): return ["dU", "dV", "dW"] if ("Surface" in t or "Volume" in t) else ["d"]

def targs(t):
    """template arguments of t"""
    i = t.index("<"); out = []; d = 0; cur = ""
    for ch in t[i+1:t.rindex(">")]:
        if ch == "<": d += 1
        if ch == ">": d -= 1
        if ch == "," and d == 0: out.append(cur.strip()); cur = ""
        else: cur += ch
    out.append(cur.strip()); return out
def arr(t):
    """(element type, size or None) of an array-like type"""
    m = re.match(r"(.*?)\s*\(\*\)(.*)$", t)
    if m: return ((m.group(1) + m.group(2)).strip(), None)
    m = re.match(r"^([^\[\]]*[^\[\]\s])\s*\[(\d*)\]((?:\[\d+\])*)$", t)
    if m: return ((m.group(1) + m.group(3)).strip(), int(m.group(2)) if m.group(2) else None)
    if t.startswith("array<"):
        a = targs(t)
        n = re.match(r"\d+", a[1]); return (a[0], int(n.group()) if n else None)
    return None
SEQ = ("vector<", "initializer_list<", "deque<", "list<", "queue<", "stack<", "set<", "unordered_set<", "multiset<", "priority_queue<")
ITER = ("__normal_iterator<", "reverse_iterator<", "_Rb_tree_iterator<", "_Rb_tree_const_iterator<", "move_iterator<", "_Node_iterator<", "unique_ptr<", "shared_ptr<")

AXIOM_DIR = {}

class Units:
    """shared by all functions: type shapes and specifications"""
    def __init__(s, P, eff, specs=None):
        s.P = P; s.eff = eff; s.specs = specs if specs is not None else {}   # (key, sel) -> Spec
        s.frozen = specs is not None
        s.progress = []
        s.memo = {}
    def spec(s, f, sel):
        k = (f.key, sel)
        if k in s.specs: return s.specs[k]
        if k in s.memo: return s.memo[k]
        if k in s.progress or not f.body: return None
        ax = axiom(f)
        if ax is not None: s.memo[k] = ax; return ax
        r = s.infer(f, sel)
        s.memo[k] = r
        return r
    def combos(s, f):
        """all selector values of f (or just 'unknown' when there are too many)"""
        import itertools
        ds = []
        for p in f.params:
            b = base_type(p["t"])
            if b == "bool": ds.append([True, False])
            elif b in s.P.enums: ds.append([("enum", x["n"]) for x in s.P.enums[b]["c"]])
        n = 1
        for d in ds: n *= len(d)
        if n > 12: return [(None,) * len(ds)]
        return list(itertools.product(*ds))
    def common(s, f):
        """rows that hold whatever the selectors are"""
        sps = [s.spec(f, c) for c in s.combos(f)]
        if any(x is None for x in sps): return None
        rows = []
        for r in sps[0].rows:
            ok = True
            for o in sps[1:]:
                S = Solver()
                for q in o.rows: S.add(q)
                if S.red(r): ok = False; break
            if ok: rows.append(r)
        return Spec(rows, frozenset.intersection(*[frozenset(x.any) for x in sps]))
    def infer(s, f, sel):
        k = (f.key, sel)
        if sel and None in sel and len(s.combos(f)) > 1:
            s.progress.append(k)
            try: return s.common(f)
            finally: s.progress.pop()
        s.progress.append(k)
        try:
            r = Run(s, f, sel)
            return r.go()
        finally: s.progress.pop()

class Spec:
    def __init__(s, rows, any_): s.rows = rows; s.any = any_
    def names(s):
        if not hasattr(s, "_n"): s._n = {v for r in s.rows for v in r}
        return s._n

def axiom(f):
    q, n = f.q, f.n
    if f.ret == "bool" and n.startswith("Is") and (q.startswith("MathUtils::") or q.startswith(("XYZ::", "XYZW::", "UV::", "UVW::"))):
        ps = f.params; rows = []
        if q.startswith("MathUtils::"):
            if len(ps) >= 2 and base_type(ps[0]["t"]) in FLTS and base_type(ps[1]["t"]) in FLTS: rows.append({"p0": 1, "p1": -1})
        else:
            k = {"XYZ": ("m_xyz", 3), "XYZW": ("m_xyzw", 4), "UV": ("m_uv", 2), "UVW": ("m_uvw", 3)}[f.cls or q.split("::")[0]]
            if ps and base_type(ps[0]["t"]) == q.split("::")[0] and "AlmostEqual" in n:
                for i in range(k[1]): rows.append({f"this.{k[0]}.{i}": 1, f"p0.{k[0]}.{i}": -1})
        return Spec(rows, ())
    if q == "MathUtils::SolveLinearSystem":
        # A x = B, row i of A and B may carry a unit of its own
        return Spec([{"ret[][]": 1, "p1[][]": -1, "p0[][]": 1}, {"ret[][]#1": 1, "p0[][]#2": 1}, {"ret[][]#2": 1, "p1[][]#2": -1}, {"p1[][]#1": 1, "p0[][]#1": -1}], ())
    if q == "Polynomials::BasisFunctionsFirstOrderDerivative":
        return Spec([{"p2[]#1": 1}, {"p2[]": 1, "p3": -1}, {"o4[][]": 1}, {"o4[][]#1": 1, "p3": 1}, {"o4[][]#2": 1}], ())
    if q == "NurbsCurve::Reparametrize" and len(f.params) == 4:
        return Spec([{"o3.KnotVector[]": 1, "p1": -1}, {"p1": 1, "p2": -1}, {"o3.d": 1, "p0.d": -1}] + [{f"o3.ControlPoints[].m_xyzw.{i}": 1, f"p0.ControlPoints[].m_xyzw.{i}": -1} for i in range(4)], ())
    if q == "NurbsSurface::Reparametrize" and len(f.params) == 6:
        return Spec([{"o5.KnotVectorU[]": 1, "p1": -1}, {"p1": 1, "p2": -1}, {"o5.KnotVectorV[]": 1, "p3": -1}, {"p3": 1, "p4": -1}, {"o5.dU": 1, "p0.dU": -1}, {"o5.dV": 1, "p0.dV": -1}]
                    + [{f"o5.ControlPoints[][].m_xyzw.{i}": 1, f"p0.ControlPoints[][].m_xyzw.{i}": -1} for i in range(4)], ())
    if q.startswith("Integrator::ClenshawCurtisQuadrature"):
        # the work array holds values of the integrand and weights side by side
        o = [{"o4.ix": 1, "p4.ix": -1}, {"o4[]": 1}, {"o4[]#1": 1}] if "&" in f.params[4]["t"] else []
        return Spec([{"p0.$arg": -1, "p2": 1}, {"p0.$arg": -1, "p3": 1}, {"p0.$arg": -1, "p0.$ret": -1, "ret": 1}, {"p4[]": 1}, {"p4[]#1": 1}, {"p5": 1}] + o, ())
    if q == "Integrator::Simpson" and len(f.params) == 6:
        return Spec([{"p0.$arg": -1, "p2": 1}, {"p0.$arg": -1, "p3": 1}, {"p0.$arg2": -1, "p4": 1}, {"p0.$arg2": -1, "p5": 1}, {"p0.$arg": -1, "p0.$arg2": -1, "p0.$ret": -1, "ret": 1}], ())
    if q == "Matrix4d::Matrix4d" and not f.params:
        # the identity: ones on the diagonal, zeros (of any unit) beside it
        return Spec([{f"this!.m_matrix4d.{i}.{i}": 1} for i in range(4)], tuple(f"this!.m_matrix4d.{i}.{j}" for i in range(4) for j in range(4) if i != j))
    if q == "ValidationUtils::ComputeCurveModifyTolerance": return Spec([], ("ret",))
    if q == "XYZW::Distance": return Spec([{f"this.m_xyzw.{i}": 1, f"p0.m_xyzw.{i}": -1} for i in range(4)], ("ret",))
    if q == "Polynomials::AllBasisFunctions": return Spec([{"p2[]#1": 1}, {"p2[]": 1, "p3": -1}, {"ret[][]": 1}, {"ret[][]#1": 1}, {"ret[][]#2": 1}], ())
    if q == "Polynomials::BasisFunctionsDerivatives":
        return Spec([{"p3[]#1": 1}, {"p3[]": 1, "p4": -1}, {"ret[][]": 1}, {"ret[][]#1": 1, "p4": 1}, {"ret[][]#2": 1}], ())
    return None

# the direction of the result is chosen by values at run time: alternatives are not equated
CHOICE = {"NurbsVolume::GetIsoCurve"}
# orders of differentiation that count in several directions
ORDER = {"BsplineSurface::ComputeControlPointsOfDerivatives": (1,), "BsplineSurface::ComputeDerivativesByAllBasisFunctions": (1,)}
def is_sel(t, P): b = base_type(t); return b == "bool" or b in P.enums
EXCL = ("CAPI", "PInvoke")
# point searches and diagrams: counters and indices have no direction, only the length scale is looked at
def spatial(f): return "Voronoi" in f.file or "Octree" in f.file
def excluded(f): return any(x in f.file for x in EXCL) or f.q.startswith(("MathUtils::Determinant",))

class Run:
    def __init__(s, U, f, sel, spec=None, on_iface=None):
        s._tol = None; s.making = set(); s.spatial = spatial(f)
        s.U = U; s.P = U.P; s.f = f; s.sel = sel; s.S = Solver(); s.nsym = 0
        s.env = {}; s.refs = {}; s.weak = set(); s.elems = []; s.after = {}; s.rets = []; s.outs = []; s.line = f.line
        s.loops = []; s.rvals = []; s.grown = []
        s.S.on_iface = None
        s.spec = spec; s.report = on_iface
        s.active = []          # counters of the enclosing loops
    # ---------------------------------------------------------------- helpers
    def sym(s): s.nsym += 1; return s.nsym
    def fu(s):
        u = {(s.S.var(), None): 1}
        for y in s.active: u[(s.S.var(), y)] = 1
        return u
    def eq(s, a, b):
        s.S.line = s.line; s.S.eq(a, b)
    def eqs(s, a, b):
        if a.u is not None and b.u is not None: s.eq(a.u, b.u)

    def fresh(s, t, prefix=None, phs=(), rec=False, ints=(), depth=0, dim=None, scalar_any=False):
        """value of C++ type t; named interface variables when prefix is given; phs: enclosing index placeholders"""
        t = t.strip()
        if t.startswith("const "): t = t[6:]
        if t.endswith(" const"): t = t[:-6]
        t = t.strip()
        while t.endswith("&"): t = t[:-1].strip()
        if t.startswith("const "): t = t[6:]
        def leaf(isint):
            if isint and s.spatial: return Sc(None, s.isym())
            if scalar_any and not phs: return Sc(None, s.isym() if isint else None)
            if prefix is not None:
                base = dim if dim else prefix
                u = {(base, None): 1}
                if not isint:
                    if not rec:
                        for i, ph in enumerate(phs): u[(f"{prefix}#{i+1}", ph)] = 1
                    for nm, sy in ints: u[(f"{prefix}%{nm}", sy)] = 1
            else:
                u = s.fu() if not (dim and isinstance(dim, dict)) else dim
                if not isint and not rec:
                    for ph in phs: u = uadd(u, {(s.S.var(), ph): 1})
            return Sc(u, s.isym() if isint else None)
        if t in FLTS: return leaf(False)
        if t in INTS: return leaf(True)
        if t == "bool" or t in s.P.enums: return Sc(None, s.isym())
        if t in FOBJ and prefix is not None:
            return St({"$arg": s.fresh("double", prefix + ".$arg"), "$arg2": s.fresh("double", prefix + ".$arg2"), "$ret": s.fresh("double", prefix + ".$ret")}, t)
        if t == "void *" or t == "void":
            o = Op("void"); o.d["$name"] = prefix; return o
        if t.startswith(SEQ):
            et = targs(t)[0]
            return s._vec(et, prefix, phs, rec, ints, depth, dim, not t.startswith(("vector<",)))
        if t.startswith(("map<", "unordered_map<", "multimap<")):
            a = targs(t)
            return s._vec(f"pair<{a[0]}, {a[1]}>", prefix, phs, rec, ints, depth, None, True)
        if t.startswith(("pair<", "tuple<")):
            a = targs(t)
            if t.startswith("pair<"):
                return St({k: s.fresh(x, None if prefix is None else f"{prefix}.{k}", phs, rec, ints, depth + 1) for k, x in zip(("first", "second"), a)}, t)
            return OPAQUE
        if t.startswith("optional<"): return s.fresh(targs(t)[0], prefix, phs, rec, ints, depth)
        if t.startswith(ITER):
            a = targs(t)[0]
            return s.fresh(a[:-1].strip() if a.endswith("*") else a, prefix, phs, rec, ints, depth) if not scalar_any else OPAQUE
        a = arr(t)
        if a is not None:
            et, n = a
            if n is not None and n <= 4 and (depth > 0 or t.startswith("array<")):
                return Tup([s.fresh(et, None if prefix is None else f"{prefix}.{i}", phs, rec, ints, depth + 1, scalar_any=scalar_any) for i in range(n)])
            return s._vec(et, prefix, phs, rec, ints, depth, None)
        if t.endswith("*"):
            b = t[:-1].strip()
            if b in FLTS or b in INTS: return s._vec(b, prefix, phs, rec, ints, depth, None)
            return s.fresh(b, prefix, phs, rec, ints, depth)
        r = s.P.records.get(t)
        if r is not None and t in s.making: return Op(t)
        if r is not None and depth < 6 :
            fs = {}; dv = {}
            ln = t.startswith("LN_B")
            own = [x["n"] for x in r.get("fields", []) if re.search(r"\b%s\b" % re.escape(t), x["t"])]
            if own:
                # a tree: the nodes below a node have the units of the node
                s.making.add(t)
            for x in r.get("fields", []):
                nm = x["n"]; p = None if prefix is None else f"{prefix}.{nm}"
                def d(k):
                    if prefix is not None: return f"{prefix}.{k}"
                    if k not in dv: dv[k] = s.fu()
                    return dv[k]
                dm = None
                if ln and nm in DIM: dm = d(DIM[nm])
                elif ln and nm in KV: dm = [d(KV[nm])]
                elif ln and nm == "ControlPoints" and not scalar_any: dm = [d(k) for k in cpdims(t)]
                if scalar_any and not phs:
                    fs[nm] = s.fresh(x["t"], None, phs, ln, (), depth + 1, scalar_any=True) if s.defaultable(x["t"]) else s.fresh(x["t"], None, phs, ln, (), depth + 1)
                else: fs[nm] = s.fresh(x["t"], p, phs, rec or ln, ints, depth + 1, dm)
            if own: s.making.discard(t)
            return St(fs, t)
        return Op(t)
    def defaultable(s, t): return base_type(t) in FLTS or base_type(t) in INTS or base_type(t) in s.P.records or t.rstrip().endswith("]")
    def isym(s): return {s.sym(): 1}
    def _vec(s, et, prefix, phs, rec, ints, depth, dim, nostep=False):
        ph = s.sym()
        dims = dim if isinstance(dim, list) else None
        rest = dims[1:] if dims and len(dims) > 1 else None
        if dims: ix = Sc({(dims[0], None): 1} if isinstance(dims[0], str) else dims[0], s.isym())
        elif s.spatial: ix = Sc(None, s.isym())
        elif prefix is not None: ix = Sc({(prefix + ".ix", None): 1}, s.isym())
        else: ix = Sc(s.fu(), s.isym())
        el = s.fresh(et, None if prefix is None else prefix + "[]", phs + (ph,), rec or nostep, ints, depth + 1 if depth else 0, rest)
        return Vec(ph, el, ix)

    # substitution of an index placeholder
    def inst(s, v, ph, iv):
        if isinstance(v, Sc):
            if v.u is None: return v
            u = None
            for (w, y), c in v.u.items():
                if y == ph: u = True; break
            if not u: return v if v.iv is None else Sc(v.u, s.isym())
            r = {}
            for (w, y), c in v.u.items():
                if y != ph: r[(w, y)] = norm1(r.get((w, y), 0) + c)
                else:
                    for sy, k in iv.items(): r[(w, sy)] = norm1(r.get((w, sy), 0) + c * k)
            return Sc({k: c for k, c in r.items() if c}, s.isym() if v.iv is not None else None)
        if isinstance(v, St): return St({k: s.inst(x, ph, iv) for k, x in v.f.items()}, v.t)
        if isinstance(v, Tup): return Tup([s.inst(x, ph, iv) for x in v.e])
        if isinstance(v, Vec): return Vec(v.ph, s.inst(v.el, ph, iv), v.ix)
        if isinstance(v, (Lz, Phi)): return s.inst(s.force(v), ph, iv)
        return v

    # ---------------------------------------------------------------- lazy joins
    def force(s, v):
        if isinstance(v, Lz):
            if v.v is None:
                alts = []
                for a in v.a:
                    a = s.force(a)
                    if not any(a is x for x in alts): alts.append(a)
                v.v = s.merge(alts)
            return v.v
        if isinstance(v, Phi):
            if v.v is None:
                e = s.force(v.entry)
                if isinstance(e, St): v.v = St({k: Phi(x, v.ctr) for k, x in e.f.items()}, e.t)
                elif isinstance(e, Tup): v.v = Tup([Phi(x, v.ctr) for x in e.e])
                elif isinstance(e, Sc):
                    u = s.fu()
                    if e.iv is None and v.ctr is not None:
                        u = {k: c for k, c in u.items() if k[1] != v.ctr[0]}
                        u[(s.S.var(), v.ctr[0])] = 1
                        v.v = Sc(u, None)
                        s.eqs(s.inst(v.v, v.ctr[0], v.ctr[1]), e)
                    else:
                        v.v = Sc(u, s.isym() if e.iv is not None else None)
                        s.eqs(v.v, e)
                elif isinstance(e, Vec): v.v = e
                else: v.v = e
                if v.closed:
                    if isinstance(v.v, (St, Tup)) : 
                        bk = s.force(v.back) if v.back is not v else None
                        if isinstance(bk, St):
                            for k, x in v.v.f.items(): x.closed = True; x.back = bk.f.get(k, x)
                        elif isinstance(bk, Tup):
                            for x, y in zip(v.v.e, bk.e): x.closed = True; x.back = y
                        else:
                            for x in (v.v.f.values() if isinstance(v.v, St) else v.v.e): x.closed = True; x.back = x
                    else: s.close(v, v.back)
            return v.v
        return v
    def close(s, p, back):
        """connect the back edge of a loop variable"""
        p.back = back; p.closed = True
        if p.v is None or back is p: return
        b = back
        v = p.v
        if isinstance(v, St):
            b = s.force(b)
            if isinstance(b, St):
                for k, x in v.f.items():
                    if k in b.f and isinstance(x, Phi) and not x.closed: s.close(x, b.f[k])
        elif isinstance(v, Tup):
            b = s.force(b)
            if isinstance(b, Tup):
                for x, y in zip(v.e, b.e):
                    if isinstance(x, Phi) and not x.closed: s.close(x, y)
        else:
            b = s.force(b)
            if isinstance(v, Sc) and v.iv is None and p.ctr is not None:
                s.unify(s.inst(v, p.ctr[0], {p.ctr[0]: 1, None: p.ctr[2]}), b)
            elif b is not v: s.unify(v, b)
    def merge(s, alts):
        if len(alts) == 1: return alts[0]
        if all(isinstance(a, St) for a in alts):
            ks = [k for k in alts[0].f if all(k in a.f for a in alts)]
            return St({k: s.lz([a.f[k] for a in alts]) for k in ks}, alts[0].t)
        if all(isinstance(a, Tup) for a in alts) and len({len(a.e) for a in alts}) == 1:
            return Tup([s.lz([a.e[i] for a in alts]) for i in range(len(alts[0].e))])
        if all(isinstance(a, Sc) for a in alts):
            nz = [a for a in alts if a.u is not None]
            u = None
            if nz:
                u = nz[0].u
                if s.f.q in CHOICE and (len(nz) < len(alts) or any(s.differ(u, a.u) for a in nz[1:])): return Sc(None, s.isym() if any(a.iv is not None for a in alts) else None)
                for a in nz[1:]: s.eq(u, a.u)
            iv = alts[0].iv
            if any(a.iv != iv for a in alts): iv = s.isym() if any(a.iv is not None for a in alts) else None
            cv = alts[0].cv if all(a.cv == alts[0].cv for a in alts) else None
            return Sc(u, iv, cv)
        if all(isinstance(a, Vec) for a in alts):
            if s.f.q in CHOICE:
                r = s.freshlike(alts[0]); return Vec(r.ph, r.el, Sc(None, s.isym()))
            for a in alts[1:]: s.unify(alts[0], a)
            return alts[0]
        real = [a for a in alts if not isinstance(a, Op)]
        if real and len(real) < len(alts): return s.merge(real)
        return OPAQUE
    def differ(s, a, b):
        by = {}
        for (v, y), c in uadd(a, b, -1).items(): by.setdefault(y, {})[v] = c
        return any(e and not any(isinstance(v, int) for v in e) for e in (s.S.red(e) for e in by.values()))
    def lz(s, alts):
        o = []
        for a in alts:
            if not any(a is x for x in o): o.append(a)
        return o[0] if len(o) == 1 else Lz(o)
    def join(s, e1, e2):
        if e1 is None: return e2
        if e2 is None: return e1
        r = {}
        for k in e1:
            if k in e2: r[k] = e1[k] if e1[k] is e2[k] else s.lz([e1[k], e2[k]])
        return r

    def unify(s, a, b):
        if a is b: return
        a = s.force(a); b = s.force(b)
        if a is b: return
        if isinstance(a, Sc) and isinstance(b, Sc): s.eqs(a, b)
        elif isinstance(a, St) and isinstance(b, St):
            for k in a.f:
                if k in b.f: s.unify(a.f[k], b.f[k])
        elif isinstance(a, Tup) and isinstance(b, Tup):
            for x, y in zip(a.e, b.e): s.unify(x, y)
        elif isinstance(a, Vec) and isinstance(b, Vec):
            iv = s.isym()
            s.eqs(a.ix, b.ix)
            s.unify(s.inst(a.el, a.ph, iv), s.inst(b.el, b.ph, iv))
        elif isinstance(a, Vec) and isinstance(b, Tup): 
            for i, x in enumerate(b.e): s.unify(s.inst(a.el, a.ph, {None: i} if i else {}), x)
        elif isinstance(a, Tup) and isinstance(b, Vec): s.unify(b, a)

    def iv_const(s, v):
        v = s.force(v)
        if isinstance(v, Sc) and v.iv is not None and not [k for k in v.iv if k is not None]: return v.iv.get(None, 0)
        return None
    def idx(s, v):
        v = s.force(v)
        if isinstance(v, Sc) and v.iv is not None: return v.iv
        return s.isym()
    def index(s, v, i):
        v = s.force(v); iv = s.force(i)
        if isinstance(v, Vec):
            if isinstance(iv, Sc): s.eqs(v.ix, iv)
            return s.inst(v.el, v.ph, s.idx(i))
        if isinstance(v, Tup):
            c = s.iv_const(i)
            if c is not None and 0 <= c < len(v.e): return v.e[int(c)]
            return s.merge([s.force(x) for x in v.e])
        return OPAQUE
    # ---------------------------------------------------------------- lvalues
    def accessor(s, e):
        """lvalue expression equal to a call of a member that returns a reference to part of its object"""
        if e["k"] not in ("MCall", "Index", "OpCall") or not isinstance(e.get("f"), dict): return None
        c = s.P.callee(e["f"])
        if c is None or not c.ret.endswith("&") or c.static: return None
        b = c.body
        if b.get("k") == "Block" and len(b["s"]) == 1 and b["s"][0]["k"] == "Return": r = b["s"][0]["e"]
        else: return None
        if r is None or not is_lvalue(r) or r["k"] == "This" or (r["k"] == "Un"): return None
        if e["k"] == "MCall": base, args = e["b"], e["args"]
        elif e["k"] == "Index": base, args = e["b"], [e["i"]]
        else: base, args = e["args"][0], e["args"][1:]
        mp = {p["id"]: a for p, a in zip(c.params, args)}
        x, _ = freshen(r, mp)
        return subst_this(x, base)
    def assign(s, lv, val):
        k = lv["k"]
        if k == "Var":
            if lv["id"] in s.refs: return s.assign(s.refs[lv["id"]], val)
            if lv["id"] in s.weak: return s.unify(s.env.get(lv["id"], OPAQUE), val)
            s.env[lv["id"]] = val
        elif k == "This": s.env["this"] = val
        elif k == "Member":
            b = s.force(s.ev(lv["b"]))
            if isinstance(b, St) and lv["f"] in b.f:
                f = dict(b.f); f[lv["f"]] = val
                s.assign(lv["b"], St(f, b.t))
        elif k == "Index":
            a = s.accessor(lv)
            if a is not None: return s.assign(a, val)
            b = s.force(s.ev(lv["b"])); i = s.ev(lv["i"])
            if isinstance(b, Tup):
                c = s.iv_const(i)
                if c is not None and 0 <= c < len(b.e):
                    e = list(b.e); e[int(c)] = val; s.assign(lv["b"], Tup(e))
                else:
                    v = s.force(val)
                    e = []
                    for x in b.e:
                        x = s.force(x)
                        if isinstance(x, Sc) and x.u is None: e.append(v)
                        else: s.unify(x, v); e.append(x)
                    s.assign(lv["b"], Tup(e))
            else: s.unify(s.index(b, i), val)
        elif k in ("MCall", "OpCall"):
            a = s.accessor(lv)
            if a is not None: return s.assign(a, val)
            s.unify(s.ev(lv), val)
        elif k == "Un" and lv["op"] in ("*", "&"): s.assign(lv["e"], val)
        elif k == "Cast": s.assign(lv["e"], val)
        elif k == "Inl": pass
        elif k == "Cond": s.unify(s.ev(lv), val)

    # ---------------------------------------------------------------- expressions
    def ev(s, e):
        if e is None: return OPAQUE
        s.line = e.get("l", s.line)
        m = getattr(s, "e_" + e["k"], None)
        if m is None:
            for c in children(e):
                if c["k"] not in ("Block",): s.ev(c)
            return OPAQUE
        return m(e)
    def sc(s, e): return s.force(s.ev(e))
    def e_Var(s, e):
        if e["id"] in s.refs: return s.ev(s.refs[e["id"]])
        v = s.env.get(e["id"])
        if v is not None: return v
        if e.get("global"):
            q = e.get("q", "")
            t = base_type(e["t"])
            if t in FLTS:
                if "Pi" in q or "PI" in q: return Sc({}, None)
                return Sc(None, lit=1)
            if t in INTS: return Sc(None, s.isym() if e.get("cv") is None else {None: int(e["cv"])} if str(e.get("cv")).lstrip("-").isdigit() else s.isym())
        if base_type(e["t"]) in INTS: return Sc(None, s.isym())
        v = s.fresh(e["t"])
        if e.get("global"):      # tables of numbers
            w = v
            while isinstance(w, Vec):
                if isinstance(w.el, Sc): w.el = Sc({}, w.el.iv)
                w = w.el
        else: s.env[e["id"]] = v
        return v
    def e_This(s, e): return s.env.get("this", OPAQUE)
    def e_Int(s, e):
        n = int(e["v"]); return Sc(None, {None: n} if n else {}, n)
    def e_Enum(s, e):
        return Sc(None, s.isym(), ("enum", e["n"]))
    def e_Bool(s, e): return Sc(None, None, bool(e["v"]) if not isinstance(e["v"], str) else e["v"] in ("true", "1"))
    def e_Float(s, e): return s.lit(float(e["v"]))
    def lit(s, x):
        if x == 0 or abs(x) <= 1e-3 or abs(x) >= 1e5: return Sc(None, None, None, x)
        return Sc({}, None, None, x)
    def e_Str(s, e): return OPAQUE
    def e_Null(s, e): return OPAQUE
    def e_Sizeof(s, e): return Sc(None, s.isym())
    def e_Fn(s, e): return OPAQUE
    def e_Lambda(s, e): return OPAQUE
    def e_Member(s, e):
        b = s.force(s.ev(e["b"]))
        if isinstance(b, St) and e["f"] in b.f: return b.f[e["f"]]
        if isinstance(b, Op) and b.t is None: return s.fresh(e["t"]) if base_type(e["t"]) in FLTS or base_type(e["t"]) in INTS else OPAQUE
        return OPAQUE
    def e_Index(s, e):
        a = s.accessor(e)
        if a is not None: return s.ev(a)
        c = s.P.callee(e.get("f")) if isinstance(e.get("f"), dict) else None
        if c is not None: return s.call(e, c, [e["i"]], e["b"])
        b = s.ev(e["b"]); i = s.ev(e["i"])
        if e.get("cls") in ("map", "unordered_map"):
            p = s.index(b, Sc(None, s.isym())); p = s.force(p)
            if isinstance(p, St):
                s.unify(p.f["first"], i); return p.f["second"]
            return OPAQUE
        return s.index(b, i)
    def e_Cast(s, e):
        ft, tt = base_type(e["e"].get("t", "")), base_type(e["t"])
        x = e["e"]
        if tt in FLTS:
            y = x
            while y["k"] == "Cast": y = y["e"]
            neg = False
            if y["k"] == "Un" and y["op"] == "-" and y["e"]["k"] == "Int": y = y["e"]; neg = True
            if y["k"] == "Int": return s.lit(float(-int(y["v"]) if neg else int(y["v"])))
            v = s.sc(x)
            if isinstance(v, Sc) and v.iv is not None: return Sc({}, v.iv)
            return v
        v = s.ev(x)
        if tt in INTS or tt in s.P.enums:
            v = s.force(v)
            if isinstance(v, Sc):
                if ft in FLTS and tt in INTS and v.u: s.eq(v.u, {})     # a count of something
                if v.iv is None or ft in FLTS: return Sc(None, s.isym())
                return v
        if tt in s.P.records and ft == "char" and e["t"].strip().endswith("*"): return s.fresh(tt)
        if tt in s.P.records:
            w = s.force(v)
            if isinstance(w, Op) and "$name" in w.d:
                if tt not in w.d: w.d[tt] = s.fresh(tt, w.d["$name"])
                return w.d[tt]
        return v
    def e_Un(s, e):
        op = e["op"]
        if isinstance(e.get("f"), dict):
            c = s.P.callee(e["f"])
            if c is not None: return s.call(e, c, [] if c.cls and not c.static and len(c.params) == 0 else [e["e"]], e["e"] if c.cls and len(c.params) == 0 else None)
        if op in ("++", "--"):
            v = s.sc(e["e"])
            if isinstance(v, Sc):
                d = 1 if op == "++" else -1
                n = Sc(v.u, {**v.iv, None: v.iv.get(None, 0) + d} if v.iv is not None else None)
                s.assign(e["e"], n)
                return v if e.get("post") else n
            return v
        v = s.ev(e["e"])
        if op == "-":
            v = s.force(v)
            if isinstance(v, Sc): return Sc(v.u, {k: -c for k, c in v.iv.items()} if v.iv is not None else None, -v.cv if isinstance(v.cv, int) and not isinstance(v.cv, bool) else None, v.lit)
            return v
        if op == "!":
            v = s.force(v)
            return Sc(None, None, (not v.cv) if isinstance(v, Sc) and isinstance(v.cv, bool) else None)
        return v
    def isnum(s, t): return base_type(t) in FLTS
    def e_Bin(s, e):
        op = e["op"]
        if isinstance(e.get("f"), dict):
            c = s.P.callee(e["f"])
            if c is not None:
                if c.cls and not c.static and len(c.params) == 1: return s.call(e, c, [e["b"]], e["a"])
                return s.call(e, c, [e["a"], e["b"]], None)
            a = s.ev(e["a"]); b = s.ev(e["b"])
            return a if op in ("+", "-") else Sc(None)
        if op in ("&&", "||"):
            a = s.sc(e["a"]); b = s.sc(e["b"])
            ca = a.cv if isinstance(a, Sc) else None; cb = b.cv if isinstance(b, Sc) else None
            cv = None
            if op == "&&":
                if ca is False or cb is False: cv = False
                elif ca is True and cb is True: cv = True
            else:
                if ca is True or cb is True: cv = True
                elif ca is False and cb is False: cv = False
            return Sc(None, None, cv)
        a = s.force(s.loose(e["a"])) if s.tol_cmp(e) is not None else s.sc(e["a"]); b = s.sc(e["b"])
        if op == ",": return b
        if not isinstance(a, Sc) or not isinstance(b, Sc):
            return a if op in ("+", "-") and not isinstance(a, Sc) else Sc(None, s.isym() if base_type(e["t"]) in INTS else None) if base_type(e["t"]) not in FLTS else Sc(s.fu())
        return s.arith(op, a, b)
    def arith(s, op, a, b):
        if op in ("<", ">", "<=", ">=", "==", "!="):
            cv = None
            if op in ("==", "!=") and a.cv is not None and b.cv is not None: cv = (a.cv == b.cv) == (op == "==")
            if a.lit is None and b.lit is None: s.eqs(a, b)
            return Sc(None, None, cv)
        isint = a.iv is not None and b.iv is not None and not (a.u == {} or b.u == {})
        if isint:
            if op in ("+", "-"):
                s.eqs(a, b); k = 1 if op == "+" else -1
                iv = uadd(a.iv, b.iv, k)
                return Sc(a.u if a.u is not None else b.u, iv)
            if op == "*":
                ca, cb = s.iv_const(a), s.iv_const(b)
                if ca is not None: return Sc(b.u, uscale(b.iv, ca))
                if cb is not None: return Sc(a.u, uscale(a.iv, cb))
                return Sc(None, s.isym())
            if op in ("/", "%", ">>"): return Sc(a.u if s.iv_const(b) is not None and op != "%" else None, s.isym())
            return Sc(None, s.isym())
        if op in ("+", "-"):
            s.eqs(a, b)
            lit = None
            return Sc(a.u if a.u is not None else b.u, None, None, a.lit if a.lit is not None and b.lit is not None else None)
        if op == "*": return Sc(None if a.u is None or b.u is None else uadd(a.u, b.u), None, None, 1 if a.lit is not None and b.lit is not None else None)
        if op == "/": return Sc(None if a.u is None or b.u is None else uadd(a.u, b.u, -1), None, None, 1 if a.lit is not None and b.lit is not None else None)
        return Sc(None, s.isym() if isint else None)
    def e_Cond(s, e):
        c = s.sc(e["c"])
        cv = c.cv if isinstance(c, Sc) else None
        if cv is True: return s.ev(e["a"])
        if cv is False: return s.ev(e["b"])
        e0 = dict(s.env); a = s.ev(e["a"]); e1 = s.env; s.env = e0; b = s.ev(e["b"]); s.env = s.join(e1, s.env)
        return s.lz([a, b])
    def e_InitList(s, e):
        el = e.get("args") or e.get("e") or e.get("s") or e.get("inits") or []
        vs = [s.ev(x) for x in el]
        t = base_type(e.get("t", ""))
        if t.startswith("array<") and len(vs) == 1 and el[0]["k"] == "InitList" and isinstance(vs[0], Tup): return vs[0]
        r = s.P.records.get(t)
        if r is not None and len(vs) <= len(r.get("fields", [])):
            v = s.fresh(t, scalar_any=True)
            if isinstance(v, St):
                f = dict(v.f)
                for x, y in zip(r["fields"], vs): f[x["n"]] = y
                return St(f, t)
        return Tup(vs)
    def coerce(s, v, t):
        """initialiser value v for an object of type t"""
        w = s.force(v)
        b = base_type(t)
        if isinstance(w, Tup) and (b.startswith(SEQ) or (arr(b) and not (arr(b)[1] and arr(b)[1] <= 4))):
            r = s.fresh(b)
            if isinstance(r, Vec):
                for i, x in enumerate(w.e):
                    x = s.coerce(x, elem_type(b) or "")
                    s.unify(s.inst(r.el, r.ph, {None: i} if i else {}), x)
                return r
        if isinstance(w, Tup) and b in s.P.records:
            rr = s.P.records[b]; r = s.fresh(b, scalar_any=True)
            if isinstance(r, St):
                f = dict(r.f)
                for x, y in zip(rr["fields"], w.e): f[x["n"]] = s.coerce(y, x["t"])
                return St(f, b)
        return v
    def e_Ctor(s, e):
        t = base_type(e["t"]); a = e["args"]
        c = s.P.callee(e.get("f")) if isinstance(e.get("f"), dict) else None
        if c is not None and (c.body or c.inits): return s.call(e, c, a, None, ctor=True)
        if t.startswith("Eigen::Matrix<double, ") and len(a) in (2, 3, 4) and t.startswith(f"Eigen::Matrix<double, {len(a)}, 1,"): return Tup([s.ev(x) for x in a])
        if t.startswith("vector<"):
            if len(a) == 1:
                v = s.force(s.ev(a[0]))
                if isinstance(v, Tup): return s.coerce(v, t)
                if isinstance(v, Vec): return v
                r = s.fresh(t)
                if isinstance(v, Sc) and isinstance(r, Vec):
                    if v.u is None and s.iv_const(v) is None: r.ix = Sc(None, s.isym())
                    s.eqs(r.ix, v)
                return r
            if len(a) == 2:
                x = s.force(s.ev(a[0])); y = s.force(s.ev(a[1]))
                if isinstance(x, Sc) and x.iv is not None and not isinstance(y, Op) or (isinstance(x, Sc) and isinstance(y, (Vec, St, Tup))):
                    r = s.fresh(t)
                    if x.u is None and s.iv_const(x) is None: r.ix = Sc(None, s.isym())
                    s.eqs(r.ix, x)
                    s.fill(r, a[1], y)
                    return r
                r = s.fresh(t)          # iterator range
                s.unify(s.inst(r.el, r.ph, s.isym()), x)
                return r
            return s.fresh(t)
        if t.startswith("pair<") and len(a) == 2: return St({"first": s.ev(a[0]), "second": s.ev(a[1])}, t)
        vs = [s.ev(x) for x in a]
        if len(vs) == 1: return s.coerce(vs[0], t) if not isinstance(s.force(vs[0]), Op) else s.fresh(t, scalar_any=True)
        if t in s.P.records: 
            r = s.P.records[t]
            if FOBJ & {simp_type(b) for b in r.get("bases") or []}: return Op(t)
            return s.fresh(t, scalar_any=True)
        return s.fresh(t) if t.startswith(SEQ + ("map<",)) or arr(t) else Op(t)
    def fill(s, r, expr, y):
        """all elements of r are initialised with y"""
        while expr["k"] == "Cast": expr = expr["e"]
        y = s.force(y); x = s.inst(r.el, r.ph, s.isym())
        if expr["k"] == "Ctor" and isinstance(y, Vec): s.dims(s.force(x), y)
        else: s.unify(x, y)
    def dims(s, a, b):
        if isinstance(a, Vec) and isinstance(b, Vec):
            s.eqs(a.ix, b.ix); s.dims(s.force(a.el), s.force(b.el))
    def e_New(s, e):
        for c in children(e): s.ev(c)
        return OPAQUE
    def e_Inl(s, e):
        for b in e["binds"]:
            s.env[b["id"]] = s.coerce(s.ev(b["init"]), b["t"]) if b.get("init") else s.fresh(b["t"])
        s.rvals.append([])
        env0 = s.env
        s.stmt(e["body"])
        rv = s.rvals.pop()
        end = s.env; vals = []
        for v, en in rv:
            end = s.join(end, en); vals.append(v)
        s.env = end
        if not vals: return OPAQUE
        return s.lz(vals)
    def e_Assign(s, e):
        op = e["op"]
        if isinstance(e.get("f"), dict):
            c = s.P.callee(e["f"])
            if c is not None and op != "=":
                v = s.call(e, c, [e["b"]], e["a"]); return s.ev(e["a"])
        if op == "=":
            v = s.coerce(s.ev(e["b"]), e["a"].get("t", ""))
            s.assign(e["a"], v)
            return v
        a = s.sc(e["a"]); b = s.sc(e["b"])
        if isinstance(a, Sc) and isinstance(b, Sc):
            r = s.arith(op[:-1], a, b)
            s.assign(e["a"], r); return r
        return a
    e_OpCall_names = {}
    def e_OpCall(s, e):
        op = e["op"]; a = e["args"]
        acc = s.accessor(e)
        if acc is not None: return s.ev(acc)
        c = s.P.callee(e.get("f")) if isinstance(e.get("f"), dict) else None
        if op == "()":
            f = s.force(s.ev(a[0]))
            vs = [s.ev(x) for x in a[1:]]
            if isinstance(f, St) and "$arg" in f.f:
                s.unify(f.f["$arg"], vs[0])
                if len(vs) > 1 and isinstance(s.force(vs[1]), Sc): s.unify(f.f["$arg2"], vs[1])
                return f.f["$ret"]
            if isinstance(f, Tup) and len(vs) == 1: return s.index(f, vs[0])
            if c is not None: return s.call(e, c, a[1:], a[0])
            return s.fresh(e["t"]) if s.isnum(e["t"]) else OPAQUE
        if op in ("*", "->", "++", "--"): return s.ev(a[0])
        if c is not None:
            if c.cls and not c.static and len(c.params) == len(a) - 1: return s.call(e, c, a[1:], a[0])
            return s.call(e, c, a, None)
        vs = [s.ev(x) for x in a]
        if base_type(e.get("t", "")).startswith(ITER):
            for x, v in zip(a, vs):
                if base_type(x.get("t", "")).startswith(ITER): return v
        if base_type(e.get("t", "")) in INTS: return Sc(None, s.isym())
        return OPAQUE
    def e_MCall(s, e):
        f = e.get("f") or {}
        acc = s.accessor(e)
        if acc is not None: return s.ev(acc)
        c = s.P.callee(f)
        if c is not None: return s.call(e, c, e["args"], e["b"])
        n = f.get("n"); b = s.force(s.ev(e["b"])); 
        vs = [s.ev(x) for x in e["args"]]
        if isinstance(b, Vec):
            el = lambda: s.inst(b.el, b.ph, s.isym())
            if n in ("push_back", "emplace_back", "insert", "push_front", "emplace_front"): s.grown.append(b)
            if n in ("size", "capacity", "length"): return Sc(b.ix.u, s.isym())
            if n == "empty": return Sc(None)
            if n in ("push_back", "emplace_back", "push", "emplace_front", "push_front"):
                if len(vs) == 1: s.unify(el(), s.coerce(vs[0], e["b"]["t"] and elem_type(e["b"]["t"]) or ""))
                elif vs:
                    x = s.force(b.el)
                    s.emplace(b, e, vs)
                return OPAQUE
            if n in ("insert", "emplace"):
                if len(vs) == 3: s.unify(el(), vs[-1]) if not isinstance(s.force(vs[-1]), Op) else None
                elif len(vs) == 2: s.unify(el(), vs[1])
                elif len(vs) == 1: s.unify(el(), vs[0])
                return el()
            if n == "assign":
                r = b
                if is_lvalue(e["b"]):
                    r = s.fresh(e["b"]["t"])
                    if not isinstance(r, Vec): return OPAQUE
                    n0 = s.force(vs[0])
                    if len(vs) == 2 and base_type(e["args"][0].get("t", "")) in INTS and isinstance(n0, Sc):
                        if n0.u is None and s.iv_const(n0) is None: r.ix = Sc(None, s.isym())
                        s.eqs(r.ix, n0)
                if not isinstance(s.force(vs[-1]), Op): s.fill(r, e["args"][-1], vs[-1])
                if r is not b: s.assign(e["b"], r)
                return OPAQUE
            if n in ("resize",):
                if vs and isinstance(s.force(vs[0]), Sc): s.eqs(b.ix, s.force(vs[0]))
                if len(vs) > 1: s.fill(b, e["args"][1], vs[1])
                return OPAQUE
            if n == "clear": 
                if is_lvalue(e["b"]) : s.assign(e["b"], s.fresh(e["b"]["t"]))
                return OPAQUE
            if n == "swap": s.unify(b, vs[0]); return OPAQUE
            if n in ("begin", "end", "rbegin", "rend", "cbegin", "cend", "data", "erase", "top", "pop"): return el()
            if n in ("find", "lower_bound", "upper_bound", "count", "at"):
                x = el(); k = s.force(x)
                if vs:
                    if isinstance(k, St) and "first" in k.f: s.unify(k.f["first"], vs[0])
                    else: s.unify(k, vs[0])
                if n == "count": return Sc(None, s.isym())
                return s.force(k).f["second"] if n == "at" and isinstance(k, St) and "second" in k.f else k
            if n == "front": return s.inst(b.el, b.ph, {})
            if n == "back":
                return s.inst(b.el, b.ph, s.isym())
        if isinstance(b, Tup) and n == "size": return Sc(None, s.isym())
        t = e.get("t", "")
        if base_type(t) in FLTS: return Sc(s.fu())
        if base_type(t) in INTS: return Sc(None, s.isym())
        return OPAQUE
    def emplace(s, b, e, vs):
        et = elem_type(e["b"].get("t", "")) or ""
        cands = [c for c in s.P.funcs.values() if c.ctor and c.cls == base_type(et) and len(c.params) == len(vs)]
        if len(cands) == 1:
            s.unify(s.inst(b.el, b.ph, s.isym()), s.apply(cands[0], vs, None, e))
    def e_Call(s, e):
        f = e.get("f") or {}
        c = s.P.callee(f)
        if c is not None: return s.call(e, c, e["args"], None)
        n = f.get("n"); cls = f.get("cls")
        if cls == "numeric_limits" or (f.get("q") or "").find("numeric_limits") >= 0: return Sc(None, None, None, 1)
        vs = [s.force(s.ev(a)) for a in e["args"]]
        t = base_type(e.get("t", ""))
        if t in FLTS: vs = [Sc({}, v.iv) if isinstance(v, Sc) and v.iv is not None else v for v in vs]
        if n in ("fabs", "abs", "floor", "ceil", "round", "trunc", "labs"):
            v = vs[0]
            if isinstance(v, Sc): return Sc(v.u, s.isym() if v.iv is not None and t in INTS else None, None, v.lit)
            return v
        if n in ("min", "max") and len(vs) == 2 or n in ("fmod", "hypot", "fmin", "fmax"):
            a, b = vs[0], vs[1]
            if isinstance(a, Sc) and isinstance(b, Sc):
                if t in INTS or a.iv is not None and b.iv is not None: return Sc(None, s.isym())
                if a.lit is None and b.lit is None or n == "hypot": s.eqs(a, b)
                return Sc(a.u if a.u is not None and a.lit is None else b.u)
        if n in ("min", "max") and len(vs) == 1:
            v = vs[0]
            if isinstance(v, Tup):
                if all(isinstance(s.force(x), Sc) and s.force(x).iv is not None for x in v.e): return Sc(None, s.isym())
                return s.merge([s.force(x) for x in v.e])
            return s.index(v, Sc(None, s.isym()))
        if n == "clamp":
            for x in vs[1:]:
                if isinstance(x, Sc) and isinstance(vs[0], Sc) and x.lit is None: s.eqs(vs[0], x)
            return vs[0]
        if n == "sqrt":
            v = vs[0]
            return Sc(None if not isinstance(v, Sc) or v.u is None else uscale(v.u, Fraction(1, 2)), None, None, v.lit if isinstance(v, Sc) else None)
        if n == "cbrt":
            v = vs[0]; return Sc(None if not isinstance(v, Sc) or v.u is None else uscale(v.u, Fraction(1, 3)))
        if n == "pow":
            x, y = e["args"][1], vs[1]
            b = vs[0]
            while x["k"] == "Cast": x = x["e"]
            sg = 1
            if x["k"] == "Un" and x["op"] == "-": sg = -1; x = x["e"]
            if not isinstance(b, Sc): return Sc(s.fu())
            if b.lit is not None: return Sc({})
            if x["k"] in ("Int", "Float"): return Sc(None if b.u is None else uscale(b.u, sg * Fraction(str(float(x["v"])))))
            if isinstance(y, Sc) and y.iv is not None and b.u is not None and all(sy is None for _, sy in b.u):
                r = {}
                for (v, _), c in b.u.items():
                    for sy, k in y.iv.items(): r[(v, sy)] = norm1(c * k * sg)
                return Sc(r)
            if b.u is not None: s.eq(b.u, {})
            return Sc({})
        if n in ("sin", "cos", "tan", "acos", "asin", "atan", "exp", "log", "log2", "log10"):
            if isinstance(vs[0], Sc) and vs[0].u is not None: s.eq(vs[0].u, {})
            return Sc({})
        if n == "atan2":
            if isinstance(vs[0], Sc) and isinstance(vs[1], Sc): s.eqs(vs[0], vs[1])
            return Sc({})
        if n in ("move", "forward", "addressof", "prev", "next", "ref"): return vs[0] if vs else OPAQUE
        if n in ("isnan", "isinf", "isfinite"): return Sc(None)
        if n == "swap":
            s.assign(e["args"][0], vs[1]); s.assign(e["args"][1], vs[0]); return OPAQUE
        if n in ("max_element", "min_element", "unique", "find", "lower_bound", "upper_bound", "find_if", "remove", "remove_if", "min_element"):
            if n in ("find", "lower_bound", "upper_bound") and len(vs) >= 3: s.unify(vs[0], vs[2])
            return vs[0]
        if n == "minmax_element": return St({"first": vs[0], "second": vs[0]}, "pair")
        if n in ("fill",): s.unify(vs[0], vs[-1]); return OPAQUE
        if n in ("copy", "transform", "move_backward", "merge", "set_union", "set_difference") :
            return OPAQUE
        if n == "accumulate" and len(vs) >= 3:
            s.unify(vs[0], vs[2]) ; return vs[0]
        if n == "make_pair": return St({"first": vs[0], "second": vs[1]}, "pair")
        if t in FLTS: return Sc(s.fu())
        if t in INTS: return Sc(None, s.isym())
        return OPAQUE

    # ---------------------------------------------------------------- calls of library functions
    def small_tol(s, e):
        while e["k"] == "Cast": e = e["e"]
        return e["k"] == "Float" and abs(float(e["v"])) <= 1e-3 or e["k"] == "Var" and e.get("global") and base_type(e["t"]) in FLTS
    def tol_cmp(s, e):
        """the operand of a comparison with a tolerance constant (in an operation, not in a predicate on one object)"""
        if s.f.ret == "bool": return None
        if e["k"] == "Call" and (e.get("f") or {}).get("q", "").split("LNLib::")[-1].startswith("MathUtils::Is") and len(e["args"]) >= 2 and s.small_tol(e["args"][1]): return e["args"][0]
        if e["k"] == "Bin" and e["op"] in ("<", "<=", ">", ">=") and base_type(e["a"].get("t", "")) in FLTS and s.small_tol(e["b"]): return e["a"]
        return None
    def tol_only(s):
        """locals that are only compared with tolerance constants"""
        if s._tol is None:
            n, m = {}, {}
            for x in walk(s.f.body):
                if x["k"] == "Var" and not x.get("global"): n[x["id"]] = n.get(x["id"], 0) + 1
                a = s.tol_cmp(x)
                if a is not None and a["k"] == "Var": m[a["id"]] = m.get(a["id"], 0) + 1
            s._tol = {i for i in m if m[i] == n[i]}
        return s._tol
    def loose(s, e):
        """a sum that is only measured against a tolerance: its terms need not have one unit"""
        if e["k"] == "Bin" and e["op"] == "+" and not isinstance(e.get("f"), dict):
            s.loose(e["a"]); s.loose(e["b"]); return Sc(None)
        if e["k"] == "Cast" or e["k"] == "Call" and (e.get("f") or {}).get("n") in ("abs", "fabs", "sqrt") and len(e["args"]) == 1:
            y = e["e"] if e["k"] == "Cast" else e["args"][0]
            while y["k"] == "Cast": y = y["e"]
            if y["k"] == "Bin" and y["op"] == "+" and not isinstance(y.get("f"), dict): return s.loose(y)
        return s.ev(e)
    def call(s, e, c, args, this, ctor=False):
        t = s.tol_cmp(e)
        vs = [s.loose(a) if a is t else s.ev(a) for a in args]
        vs = [s.coerce(v, p["t"]) if p else v for v, p in zip(vs, list(c.params) + [None] * len(vs))]
        tv = s.ev(this) if this is not None else (s.env.get("this") if c.cls and not c.static and not ctor and s.f.cls == c.cls else None)
        s.line = e.get("l", s.line)
        return s.apply(c, vs, tv, e, args, this)
    def apply(s, c, vs, tv, e, args=None, this=None):
        if excluded(c): return s.havoc(c, args, e)
        sel = []
        for p, v in zip(c.params, vs):
            if is_sel(p["t"], s.P):
                w = s.force(v); sel.append(w.cv if isinstance(w, Sc) and isinstance(w.cv, (bool, tuple)) else None)
        sel = tuple(sel)
        sp = s.U.spec(c, sel)
        if sp is not None and c.ret == "bool" and c.n.startswith("Is") and axiom(c) is not None and any(isinstance(s.force(v), Sc) and s.force(v).lit is not None for v in vs[:2]): return Sc(None)
        if sp is None and any(x is not None for x in sel): sp = s.U.spec(c, (None,) * len(sel))
        if sp is None: return s.havoc(c, args, e)
        b = {}; dup = []
        def put(name, val):
            if val is None: return
            if name in b: dup.append((b[name], val))
            else: b[name] = val
        custom = None
        for i, v in enumerate(vs):
            if i < len(c.params): s.bind(f"p{i}", c.params[i]["t"], v, put, (), False, vs, i)
        if tv is not None: s.bind("this", c.cls or "", tv, put, (), False, vs, -1)
        ints = []
        for i, v in enumerate(vs):
            w = s.force(v)
            if i < len(c.params) and base_type(c.params[i]["t"]) in INTS and isinstance(w, Sc) and w.iv is not None: ints.append((f"p{i}", w.iv))
        for x, y in dup: s.eq(x, y)
        names = sp.names()
        syms = {None, *s.active}
        for nm, v in b.items():
            if nm in names: syms.update(y for _, y in v)
        loc = {}
        def comp(nm):
            if nm in b: return b[nm]
            if nm not in loc: loc[nm] = {(s.S.var(), y): 1 for y in syms}
            return loc[nm]
        def outv(t, pre): return s.outval(t, pre, comp, names, sp.any, ints)
        ret = OPAQUE
        outs = []
        if c.ctor: ret = outv(c.cls if c.cls in s.P.records else base_type(e.get("t", c.cls)), "this!")
        elif base_type(c.ret) != "void": ret = outv(c.ret, "ret")
        w = s.U.eff.w.get(c.key, ())
        for i in w:
            if isinstance(i, int) and i < len(c.params) and (is_mut_ref(c.params[i]["t"]) or c.params[i]["t"].endswith("*") or arr(c.params[i]["t"])) and args is not None and i < len(args):
                outs.append((args[i], vs[i], outv(c.params[i]["t"], f"o{i}")))
            elif i == "this" and this is not None and not c.ctor: outs.append((this, tv, outv(c.cls, "this!")))
        for r in sp.rows:
            x = {}
            for nm, k in r.items(): x = uadd(x, comp(nm), k)
            s.eq(x, {})
        for a, old, v in outs:
            while a["k"] in ("Cast",) or a["k"] == "Un" and a["op"] == "&": a = a["e"]
            if a["k"] == "Var" and not is_lvalue(a): continue
            if isinstance(s.force(v), Op): continue
            if spatial(c): v = s.kept(old, v)
            if is_lvalue(a) or a["k"] in ("MCall", "OpCall"): s.assign(a, v)
        return ret
    def kept(s, old, new):
        """what the callee leaves alone stays as it was"""
        n = s.force(new)
        if isinstance(n, Op) or isinstance(n, Sc) and n.u is None: return old
        o = s.force(old)
        if isinstance(n, St) and isinstance(o, St): return St({k: s.kept(o.f[k], x) if k in o.f else x for k, x in n.f.items()}, n.t)
        if isinstance(n, Tup) and isinstance(o, Tup) and len(n.e) == len(o.e): return Tup([s.kept(x, y) for x, y in zip(o.e, n.e)])
        return new
    def havoc(s, c, args, e):
        for i in s.U.eff.w.get(c.key, ()):
            if isinstance(i, int) and args is not None and i < len(args):
                a = args[i]
                while a["k"] in ("Cast",) or a["k"] == "Un" and a["op"] == "&": a = a["e"]
                if is_lvalue(a) and is_mut_ref(c.params[i]["t"]): s.assign(a, s.fresh(c.params[i]["t"]))
        return s.fresh(c.ret) if base_type(c.ret) != "void" and not c.ctor else (s.fresh(c.cls) if c.ctor and c.cls in s.P.records else OPAQUE)
    def bind(s, pre, t, v, put, phs, rec, vs, pos, depth=0, dim=None):
        t = base_type(t)
        if t in FOBJ:
            v = s.force(v)
            if isinstance(v, Op) and v.t:
                op = [f for f in s.P.funcs.values() if f.n == "operator()" and f.cls == v.t]
                if len(op) == 1:
                    n = len([p for p in op[0].params if base_type(p["t"]) in FLTS])
                    xs = [Sc(s.fu()) for _ in range(n)]
                    cust = next((x for x in vs[pos+1:] if isinstance(s.force(x), St)), OPAQUE)
                    r = s.apply(op[0], xs + [cust], None, {"l": s.line, "t": "double"})
                    r = s.force(r)
                    put(pre + ".$arg", xs[0].u)
                    if n > 1: put(pre + ".$arg2", xs[1].u)
                    if isinstance(r, Sc) and r.u is not None: put(pre + ".$ret", r.u)
            elif isinstance(v, St) and "$arg" in v.f:
                for k in v.f: put(pre + "." + k, s.force(v.f[k]).u)
            return
        v = s.force(v)
        if isinstance(v, Sc):
            if v.u is None: return
            isint = v.iv is not None and t in INTS
            rest = {}; steps = {}
            for (w, y), c in v.u.items():
                if y is not None and y in phs: steps.setdefault(y, {})[(w, None)] = c
                else: rest[(w, y)] = c
            put(dim or pre, rest)
            if not isint:
                for i, ph in enumerate(phs): put(f"{pre}#{i+1}", steps.get(ph, {}))
        elif isinstance(v, Vec):
            dims = dim if isinstance(dim, list) else None
            if v.ix.u is not None: put(dims[0] if dims else pre + ".ix", v.ix.u)
            s.bind(pre + "[]", "", v.el, put, phs + (v.ph,), rec, vs, pos, depth + 1, dims[1:] if dims and len(dims) > 1 else None)
        elif isinstance(v, Tup):
            if t.startswith("vector<") or t.startswith("initializer_list"):
                return s.bind(pre, t, s.coerce(v, t), put, phs, rec, vs, pos, depth)
            for i, x in enumerate(v.e): s.bind(f"{pre}.{i}", "", x, put, phs, rec, vs, pos, depth + 1)
        elif isinstance(v, St):
            ln = v.t.startswith("LN_B")
            for k, x in v.f.items():
                dm = None
                if ln and k in DIM: dm = f"{pre}.{DIM[k]}"
                elif ln and k in KV: dm = [f"{pre}.{KV[k]}"]
                elif ln and k == "ControlPoints": dm = [f"{pre}.{d}" for d in cpdims(v.t)]
                ft = next((y["t"] for y in s.P.records.get(v.t, {}).get("fields", []) if y["n"] == k), "int" if ln and k in DIM else "")
                s.bind(f"{pre}.{k}", ft, x, put, phs, rec or ln, vs, pos, depth + 1, dm)
    def outval(s, t, pre, comp, names, any_, ints):
        """value of type t built from the callee's result components"""
        run = s
        tmp = s.fresh(t, "\1" + pre)
        def conv(v, phs):
            if isinstance(v, Sc):
                if v.u is None: return Sc(None, s.isym() if v.iv is not None else None)
                nm = next(w for (w, y) in v.u if y is None)[1:]
                if nm in any_: return Sc(None, s.isym() if v.iv is not None else None)
                u = dict(comp(nm))
                if v.iv is None:
                    for (w, y), c in v.u.items():
                        if y is None: continue
                        if w[1:] in names:
                            for (x, z), k in comp(w[1:]).items():
                                if z is None: u[(x, y)] = u.get((x, y), 0) + k
                    for p, iv in ints:
                        cn = f"{nm}%{p}"
                        if cn in names:
                            cu = comp(cn)
                            for sy, k in iv.items():
                                for (x, z), kk in cu.items(): 
                                    if z is None: u = uadd(u, {(x, sy): kk * k})
                return Sc(u, s.isym() if v.iv is not None else None)
            if isinstance(v, St): return St({k: conv(x, phs) for k, x in v.f.items()}, v.t)
            if isinstance(v, Tup): return Tup([conv(x, phs) for x in v.e])
            if isinstance(v, Vec): return Vec(v.ph, conv(v.el, phs + (v.ph,)), conv(v.ix, ()))
            return v if not isinstance(v, Op) else Op(v.t)
        return conv(tmp, ())

    # ---------------------------------------------------------------- statements; env None = unreachable
    def stmt(s, n):
        if n is None or s.env is None: return
        s.line = n.get("l", s.line)
        k = n["k"]
        m = getattr(s, "s_" + k, None)
        if m: m(n)
        else: s.ev(n)
    def s_Block(s, n):
        d = s.degen
        for x in s.cells(n["s"]):
            if s.env is None: break
            s.only_zero = False
            s.stmt(x)
            if x["k"] == "If" and s.only_zero: s.degen += 1
        s.degen = d; s.only_zero = False
    def cells(s, ss):
        """statements with an element built up in place, v[0] = a; v[0] = g(v[0]), computed in a local of its own first"""
        out = []; i = 0
        while i < len(ss):
            x = ss[i]; a = x.get("e") if x["k"] == "Expr" else None
            lv = None
            if a is not None and a["k"] == "Assign" and a["op"] == "=": lv = a["a"]
            if lv is None or lv["k"] != "Index" or lv["b"]["k"] != "Var" or lv["b"]["id"] in s.refs or lv["i"]["k"] != "Int" or not isinstance(s.env, dict): out.append(x); i += 1; continue
            vid, c = lv["b"]["id"], int(lv["i"]["v"])
            def uses(y):
                """number of mentions of the element; None when the vector is mentioned otherwise"""
                if y["k"] in ("For", "While", "Do", "RangeFor", "Return", "Break", "Continue", "Lambda", "Switch", "Try") and any(z["k"] == "Var" and z["id"] == vid for z in walk(y)): return None
                if y["k"] in ("Return", "Break", "Continue", "Throw"): return None
                if y["k"] == "Index" and y["b"]["k"] == "Var" and y["b"]["id"] == vid and y["i"]["k"] == "Int" and int(y["i"]["v"]) == c: return 1
                if y["k"] == "Var" and y["id"] == vid: return None
                t = 0
                for z in children(y):
                    u = uses(z)
                    if u is None: return None
                    t += u
                return t
            rhs = a["b"]
            j = i + 1; last = i
            if uses(rhs) == 0:
                while j < len(ss):
                    u = uses(ss[j])
                    if u is None: break
                    if u and s.writes_cell(ss[j], vid, c): last = j
                    j += 1
            if last == i: out.append(x); i += 1; continue
            s.ncell = getattr(s, "ncell", 0) + 1
            tmp = {"k": "Var", "id": f"cell{s.ncell}", "n": f"cell{s.ncell}", "t": lv.get("t", "double"), "l": lv.get("l", 0)}
            def rep(y):
                if isinstance(y, list): return [rep(z) for z in y]
                if not isinstance(y, dict): return y
                if y.get("k") == "Index" and y["b"].get("k") == "Var" and y["b"]["id"] == vid: return tmp
                return {k: rep(z) for k, z in y.items()}
            for y in ss[i:last + 1]: out.append(rep(y))
            out.append({"k": "Expr", "l": ss[last].get("l", 0), "e": {"k": "Assign", "op": "=", "a": lv, "b": tmp, "t": lv.get("t"), "l": ss[last].get("l", 0)}})
            i = last + 1
        return out
    def writes_cell(s, y, vid, c):
        for z in walk(y):
            t = None
            if z["k"] == "Assign": t = z["a"]
            if t is not None and t["k"] == "Index" and t["b"]["k"] == "Var" and t["b"]["id"] == vid: return True
        return False
    def s_Expr(s, n): s.ev(n["e"])
    def s_Decl(s, n):
        for d in n["d"]:
            t = d["t"]; i = d.get("init")
            if d.get("lam"): continue
            if i is not None and i["k"] == "Ctor" and not i["args"] and arr(base_type(t)) and not base_type(t).startswith("array<"): i = None
            if is_ref(t) and i is not None and is_lvalue(i) and not any(x["k"] == "Var" and x["id"] == d["id"] for x in walk(i)):
                s.refs[d["id"]] = i; s.ev(i); continue
            if is_ref(t) and i is not None:
                a = s.accessor(i) if i["k"] in ("MCall", "Index", "OpCall") else None
                if a is not None: s.refs[d["id"]] = a; continue
            if i is not None:
                v = s.coerce(s.loose(i) if d["id"] in s.tol_only() else s.ev(i), t)
                w = s.force(v)
                if isinstance(w, Op) and (w.t is None or w.t == "void"): v = s.fresh(t) if not base_type(t) == "auto" else v
                elif isinstance(w, Tup) and arr(base_type(t)) and not base_type(t).startswith("array<"): v = s.local_arr(d, w)
                s.env[d["id"]] = v
            else: s.env[d["id"]] = s.local_arr(d, None) if arr(base_type(t)) and not base_type(t).startswith("array<") else s.fresh(t, scalar_any=True) if s.scalarish(t) else s.fresh(t)
    def scalarish(s, t):
        b = base_type(t)
        return b in FLTS or b in INTS or b in s.P.records or b.startswith("array<")
    def local_arr(s, d, init):
        """local C array: one slot per element when every index is constant, else a container"""
        et, n = arr(base_type(d["t"]))
        if n is not None and n <= 16 and s.const_only(d["id"]):
            if init is not None and len(init.e) == n: return init
            return Tup([s.fresh(et, scalar_any=s.scalarish(et)) for _ in range(n)])
        v = s.fresh(d["t"])
        if init is not None: s.unify(v, init)
        return v
    def const_only(s, vid):
        if not hasattr(s, "_co"):
            s._co = {}
            good = {}; alln = {}
            for x in walk(s.f.body):
                if x["k"] == "Var": alln[x["id"]] = alln.get(x["id"], 0) + 1
                if x["k"] == "Index" and x["b"]["k"] in ("Var", "Cast"):
                    b = x["b"]
                    while b["k"] == "Cast": b = b["e"]
                    i = x["i"]
                    while i["k"] == "Cast": i = i["e"]
                    if b["k"] == "Var" and i["k"] == "Int": good[b["id"]] = good.get(b["id"], 0) + 1
            s._co = {v for v in alln if good.get(v, 0) == alln[v]}
        return vid in s._co
    def s_If(s, n):
        if n.get("init"): s.stmt(n["init"])
        c = s.sc(n["c"])
        cv = c.cv if isinstance(c, Sc) and isinstance(c.cv, bool) else None
        if cv is True: return s.stmt(n["a"])
        if cv is False: return s.stmt(n.get("b"))
        z = s.zero_test(n["c"])
        e0 = s.env; s.env = dict(e0)
        if z is True: s.degen += 1
        s.stmt(n["a"]); e1 = s.env
        if z is True: s.degen -= 1
        s.env = dict(e0)
        if z is False: s.degen += 1
        if n.get("b"): s.stmt(n["b"])
        if z is False: s.degen -= 1
        e2 = s.env
        if z is True and e2 is not None and e1 is not None: e1 = {k: e2.get(k, v) if k in e0 else v for k, v in e1.items()}
        if z is False and e1 is not None and e2 is not None: e2 = {k: e1.get(k, v) if k in e0 else v for k, v in e2.items()}
        s.env = s.join(e1, e2)
        s.only_zero = z is False and e1 is None and e2 is not None or z is True and e2 is None and e1 is not None
    only_zero = False
    def zero_test(s, c):
        """True: the condition says that some quantity is (almost) zero; False: its negation does"""
        while c["k"] == "Cast": c = c["e"]
        if c["k"] == "Un" and c["op"] == "!":
            r = s.zero_test(c["e"]); return None if r is None else not r
        def zero(e):
            while e["k"] == "Cast": e = e["e"]
            return e["k"] in ("Float", "Int") and float(e["v"]) == 0
        def num(e):
            while e["k"] == "Cast": e = e["e"]
            return e["k"] in ("Float", "Int")
        def small(e):
            while e["k"] == "Cast": e = e["e"]
            return zero(e) or e["k"] == "Float" and abs(float(e["v"])) <= 1e-3 or e["k"] == "Var" and e.get("global") and base_type(e["t"]) in FLTS
        if c["k"] == "Call" and (c.get("f") or {}).get("n") == "IsAlmostEqualTo" and len(c["args"]) >= 2 and (num(c["args"][0]) or num(c["args"][1])): return True
        if c["k"] == "MCall" and (c.get("f") or {}).get("n") == "IsZero": return True
        if c["k"] == "Bin":
            isf = base_type(c["a"].get("t", "")) in FLTS
            if c["op"] in ("==", "!=") and isf and (zero(c["a"]) or zero(c["b"])): return c["op"] == "=="
            if c["op"] in ("<", "<=") and isf and small(c["b"]): return True
            if c["op"] in (">", ">=") and isf and small(c["a"]): return True
            if c["op"] in (">", ">=") and isf and small(c["b"]): return False
            if c["op"] in ("<", "<=") and isf and small(c["a"]): return False
            if c["op"] == "||":
                a, b = s.zero_test(c["a"]), s.zero_test(c["b"])
                return True if a is True and b is True else None
            if c["op"] == "&&":
                a, b = s.zero_test(c["a"]), s.zero_test(c["b"])
                if a is True or b is True: return True
                return False if a is False and b is False else None
        return None
    degen = 0
    def assigned(s, n):
        """variables a statement may rebind"""
        r = set()
        def root(x):
            while True:
                k = x["k"]
                if k == "Var": return s.refs.get(x["id"]) and root(s.refs[x["id"]]) or x["id"]
                if k == "This": return "this"
                if k in ("Member", "Index", "MCall"): x = x["b"]
                elif k in ("Cast", "Un"): x = x["e"]
                elif k == "OpCall" and x["args"]: x = x["args"][0]
                else: return None
        for x in walk(n):
            k = x["k"]
            if k == "Assign": r.add(root(x["a"]))
            elif k == "Un" and x["op"] in ("++", "--"): r.add(root(x["e"]))
            elif k in ("Call", "MCall", "OpCall", "Ctor") and isinstance(x.get("f"), dict):
                c = s.P.callee(x["f"])
                if c is None:
                    if k == "MCall" and x["f"].get("n") in ("clear",): r.add(root(x["b"]))
                    if x["f"].get("n") == "swap": r |= {root(a) for a in x["args"]}
                    continue
                for i in s.U.eff.w.get(c.key, ()):
                    if isinstance(i, int):
                        off = 1 if k == "OpCall" and len(x["args"]) == len(c.params) + 1 else 0
                        if i + off < len(x["args"]): r.add(root(x["args"][i + off]))
                    elif i == "this":
                        if k == "MCall": r.add(root(x["b"]))
                        elif k == "OpCall": r.add(root(x["args"][0]))
        r.discard(None); return r
    def scratch(s, body):
        """containers declared outside the loop whose elements are (re)assigned before they are read in every iteration"""
        first = {}
        def root(e):
            while e["k"] in ("Index", "Member"):
                e = e["b"]
            return e["id"] if e["k"] == "Var" else None
        def note(vid, how):
            if vid is not None and vid not in first: first[vid] = how
        def go(x):
            if isinstance(x, list):
                for y in x: go(y)
                return
            if not isinstance(x, dict): return
            k = x.get("k")
            if k == "Assign":
                go(x["b"])
                lhs = x["a"]
                l = lhs
                while l["k"] in ("Index", "Member"):
                    if l["k"] == "Index": go(l["i"])
                    l = l["b"]
                if l["k"] == "Var" and lhs["k"] == "Index": note(l["id"], "w" if x["op"] == "=" else "r")
                elif l["k"] == "Var": note(l["id"], "x")
                else: go(lhs)
                return
            if k == "If" and x.get("b") is None:
                go(x["c"])
                for y in walk(x["a"]):
                    if y["k"] == "Var": note(y["id"], "x")
                return
            if k == "Call" and (x.get("f") or {}).get("n") == "fill" and len(x["args"]) == 3:
                go(x["args"][2])
                v = next((y for y in walk(x["args"][0]) if y["k"] == "Var"), None)
                if v is not None: note(v["id"], "w")
                return
            if k == "Var": note(x["id"], "r"); return
            if k == "MCall" and (x.get("f") or {}).get("n") == "size": return
            for key in ("init", "r", "c", "body", "s", "d", "e", "a", "b", "i", "args", "binds", "inc"):
                v = x.get(key)
                if isinstance(v, (dict, list)): go(v)
            for key, v in x.items():
                if key in ("init", "r", "c", "body", "s", "d", "e", "a", "b", "i", "args", "binds", "inc", "f"): continue
                if isinstance(v, (dict, list)): go(v)
        go(body)
        return {v for v, h in first.items() if h == "w" and v in s.env and v not in s.refs and v not in s.weak and v not in s.params}
    def killed(s, body, cond):
        """scalars whose value from the previous iteration is overwritten before it is read"""
        r = set(); seen = {x["id"] for x in walk(cond) if x["k"] == "Var"} if cond else set()
        for x in body["s"] if body["k"] == "Block" else [body]:
            if any(y["k"] in ("Continue",) for y in walk(x)): break
            e = x["e"] if x["k"] == "Expr" else None
            if e is not None and e["k"] == "Assign" and e["op"] == "=" and e["a"]["k"] == "Var":
                seen |= {y["id"] for y in walk(e["b"]) if y["k"] == "Var"}
                if e["a"]["id"] not in seen: r.add(e["a"]["id"])
            outs = set(); here = [y["id"] for y in walk(x) if y["k"] == "Var"]
            if x["k"] in ("Expr", "Decl"):
                for y in walk(x):
                    c = s.P.callee(y["f"]) if y["k"] == "Call" and isinstance(y.get("f"), dict) else None
                    if c is None: continue
                    for q, a in zip(c.params, y["args"]):
                        if a["k"] == "Var" and q["t"].endswith("&") and not q["t"].startswith("const") and base_type(q["t"]) in FLTS | {"XYZ", "XYZW", "UV"} and here.count(a["id"]) == 1: outs.add(a["id"])
            r |= outs - seen
            seen |= set(here)
        return r
    def counter(s, n):
        """(variable, step) of a loop that counts"""
        inc = n.get("inc")
        if inc is None: return None
        if inc["k"] == "Un" and inc["op"] in ("++", "--") and inc["e"]["k"] == "Var": v, st = inc["e"]["id"], 1 if inc["op"] == "++" else -1
        elif inc["k"] == "Assign" and inc["op"] in ("+=", "-=") and inc["a"]["k"] == "Var" and inc["b"]["k"] == "Int": v, st = inc["a"]["id"], int(inc["b"]["v"]) * (1 if inc["op"] == "+=" else -1)
        else: return None
        if v in s.refs or v not in s.env: return None
        if v in s.assigned(n["body"]): return None
        return v, st
    def loop(s, n, body, cond, inc, cond_first=True):
        asg = {v for part in (n.get("c"), n.get("inc"), n.get("body")) if part for v in s.assigned(part)} & set(s.env)
        scr = {}
        for v in s.scratch(body):
            if isinstance(s.env[v], Vec): scr[v] = s.env[v]
        if cond_first:
            for v in s.killed(body, cond):
                if v in asg and v not in s.weak and v not in s.params and v not in s.refs and isinstance(s.env[v], (Sc, Lz, Phi)): scr[v] = s.env[v]
        asg -= set(scr)
        rid = n["v"].get("id") if n["k"] == "RangeFor" else None
        asg.discard(rid)
        phis = {}; na = len(s.active); ctr = None
        ct = s.counter(n) if n["k"] == "For" else None
        if ct and s.elems and s.elems[-1][0] == ct[0]: asg -= set(s.elems[-1][1].values())
        if ct:
            e = s.force(s.env[ct[0]])
            if isinstance(e, Sc) and e.iv is not None:
                ph = Phi(e); phis[ct[0]] = ph; s.env[ct[0]] = ph
                v = s.force(ph); sy = next(iter(v.iv)); s.active.append(sy)
                ctr = (sy, e.iv, ct[1])
        for v in asg:
            if v in s.weak or v in phis: continue
            phis[v] = Phi(s.env[v], ctr); s.env[v] = phis[v]
            e = s.env0int(phis[v].entry)
            if e: s.active.append(next(iter(s.force(phis[v]).iv)))
        s.loops.append(([], []))
        exits = None
        if cond_first:
            if cond is not None: s.ev(cond)
            exits = dict(s.env)
        for v, e in scr.items():
            if isinstance(e, Vec): s.env[v] = s.freshlike(e)
        el = s.elems[-1] if s.elems and n["k"] == "For" and ct and s.elems[-1][0] == ct[0] else None
        if el is not None:
            for v, t in el[1].items(): s.env[t] = s.index(s.env[v], s.env[ct[0]])
        s.stmt(body)
        br, co = s.loops.pop()
        e = s.env
        for x in co: e = s.join(e, x)
        s.env = e
        if e is not None and rid in s.after: s.after[rid]()
        if e is not None and el is not None:
            for v, t in el[1].items(): s.unify(s.index(el[2][v], s.env[ct[0]]), s.env[t])
        if e is not None:
            if inc is not None: s.ev(inc)
            if not cond_first and cond is not None: s.ev(cond)
        for v, p in phis.items():
            s.close(p, s.env[v] if s.env is not None else p)
        if not cond_first: exits = s.env
        elif cond is None and n["k"] != "RangeFor" or (cond is not None and cond["k"] == "Bool" and str(cond["v"]).lower() in ("true", "1")): exits = None
        elif s.env is not None:
            for v in scr: exits[v] = s.lz([scr[v], s.env[v]])
        for b in br: exits = s.join(exits, b)
        s.env = exits
        del s.active[na:]
    def env0int(s, e):
        while isinstance(e, Lz): e = e.v or e.a[0]
        if isinstance(e, Phi): e = s.force(e)
        return isinstance(e, Sc) and e.iv is not None
    def freshlike(s, v):
        """container of the same shape with units of its own"""
        def go(x, phs):
            if isinstance(x, (Lz, Phi)): x = s.force(x)
            if isinstance(x, Sc):
                if x.iv is not None or x.u is None: return Sc(s.fu() if x.iv is not None else None, s.isym() if x.iv is not None else None) if x.iv is not None else Sc(s.fu())
                u = s.fu()
                for ph in phs: u[(s.S.var(), ph)] = 1
                return Sc(u)
            if isinstance(x, St): return St({k: go(y, phs) for k, y in x.f.items()}, x.t)
            if isinstance(x, Tup): return Tup([go(y, phs) for y in x.e])
            if isinstance(x, Vec):
                ph = s.sym()
                return Vec(ph, go(x.el, phs + (ph,)), x.ix)
            return x
        return go(v, ())
    def inplace(s, n, ct):
        """containers every access to which in the loop is c[i] with the loop counter i, and which are assigned: each element is a variable of its own in one pass"""
        body = n["body"]; occ = {}; idx = {}; wr = set()
        if (not (isinstance(n.get("init"), dict) and n["init"]["k"] == "Decl") and s.iv_const(s.env.get(ct)) != 0) or s.iv_const(s.env.get(ct)) != 0: return []
        def go(x):
            if isinstance(x, list):
                for y in x: go(y)
                return
            if not isinstance(x, dict): return
            k = x.get("k")
            if k == "MCall" and (x.get("f") or {}).get("n") == "size" and x["b"]["k"] == "Var": return
            if k == "Index" and x["b"]["k"] == "Var" and x["i"]["k"] == "Var" and x["i"]["id"] == ct:
                idx.setdefault(x["b"]["id"], []).append(x); return
            if k == "Assign":
                l = x["a"]
                while l["k"] in ("Index", "Member") and not (l["k"] == "Index" and l["b"]["k"] == "Var"): l = l["b"]
                if l["k"] == "Index": wr.add(l["b"]["id"])
            if k == "Var": occ[x["id"]] = 1
            for key, v in x.items():
                if key == "f" and isinstance(v, dict): continue
                if isinstance(v, (dict, list)): go(v)
        go(body); go(n.get("c")); go(n.get("inc"))
        return sorted(v for v in idx if v in wr and v not in occ and v in s.env and v not in s.refs and v not in s.weak and isinstance(s.env[v], Vec))
    def rounds(s, n, ct):
        """the values of the counter of a short loop with constant bounds whose counter selects parts of fixed-size arrays"""
        if not ct or not n.get("c"): return None
        v, st = ct; a = s.iv_const(s.env[v]); c = n["c"]
        if a is None or c["k"] != "Bin" or c["op"] not in ("<", "<=", "!=", ">", ">=") or isinstance(c.get("f"), dict): return None
        l, r, op = c["a"], c["b"], c["op"]
        if r["k"] == "Var" and r["id"] == v: l, r, op = r, l, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
        if l["k"] != "Var" or l["id"] != v: return None
        if r["k"] == "Var" and r.get("id") in s.assigned(n["body"]): return None
        b = s.iv_const(s.ev(r)) if r["k"] in ("Int", "Var") else None
        if b is None: return None
        test = {"<": lambda x: x < b, "<=": lambda x: x <= b, "!=": lambda x: x != b, ">": lambda x: x > b, ">=": lambda x: x >= b}[op]
        vals = []
        x = int(a)
        while test(x):
            vals.append(x); x += st
            if len(vals) > 4: return None
        hit = False
        for y in walk(n["body"]):
            if y["k"] == "Index" and any(z["k"] == "Var" and z["id"] == v for z in walk(y["i"])):
                bt = y["b"].get("t", "")
                if "[" in bt and bt.rstrip(" &").endswith("]") or "array<" in bt: hit = True
                else: return None
        return (vals, x) if hit else None
    def s_For(s, n):
        if n.get("init"): s.stmt(n["init"])
        ct = s.counter(n)
        rv = s.rounds(n, ct)
        if rv is not None:
            def num(k): return Sc(None, {None: k} if k else {}, k)
            brs = []
            for k in rv[0]:
                if s.env is None: break
                s.env[ct[0]] = num(k)
                s.loops.append(([], [])); s.stmt(n["body"]); br, co = s.loops.pop()
                brs += br
                for x in co: s.env = s.join(s.env, x) if s.env is not None else x
            if s.env is not None: s.env[ct[0]] = num(rv[1])
            for x in brs: s.env = s.join(s.env, x) if s.env is not None else x
            return
        back = []
        if ct and n.get("inc"): n, back = s.members(n, ct[0])
        s._for(n, ct)
        if s.env is not None:
            for base, nid in back: s.assign(base, s.env[nid])
    def members(s, n, ct):
        """the member containers indexed with the counter of a loop, as local variables of the loop"""
        from ir import _newid
        def path(x):
            p = []
            while x["k"] == "Member" and not x.get("arrow"): p.append(x["f"]); x = x["b"]
            return (x["id"],) + tuple(reversed(p)) if x["k"] == "Var" and p else None
        use = {}; whole = set(); wr = set()
        def go(x, inpath=False):
            if isinstance(x, list):
                for y in x: go(y)
                return
            if not isinstance(x, dict): return
            k = x.get("k")
            if k == "Index" and x["b"]["k"] == "Member" and x["i"]["k"] == "Var" and x["i"]["id"] == ct:
                p = path(x["b"])
                if p is not None: use.setdefault(p, x["b"]); return
            if k == "Assign":
                l = x["a"]
                while l["k"] in ("Index", "Member"):
                    if l["k"] == "Index" and l["i"].get("k") == "Var" and l["i"]["id"] == ct and l["b"]["k"] == "Member" and path(l["b"]): wr.add(path(l["b"]))
                    l = l["b"]
            if k == "Member":
                p = path(x)
                if p is not None: return
            if k == "Var": whole.add(x["id"])
            for key, v in x.items():
                if key == "f" and isinstance(v, dict): continue
                if isinstance(v, (dict, list)): go(v)
        go(n["body"]); go(n.get("c"))
        todo = {}
        for p in wr:
            if p not in use or p[0] in whole or p[0] in s.refs or p[0] in s.weak or p[0] not in s.env or p[0] in s.params: continue
            v = s.force(s.ev(use[p]))
            if isinstance(v, Vec): nid = _newid(); todo[p] = (nid, use[p]); s.env[nid] = v
        if not todo: return n, []
        def rep(x):
            if isinstance(x, list): return [rep(y) for y in x]
            if not isinstance(x, dict): return x
            if x.get("k") == "Member":
                p = path(x)
                if p in todo: return {"k": "Var", "id": todo[p][0], "n": x["f"], "t": x["t"], "l": x.get("l")}
            return {k: (v if k == "f" and isinstance(v, dict) else rep(v)) for k, v in x.items()}
        m = {**n, "body": rep(n["body"])}
        if n.get("c"): m["c"] = rep(n["c"])
        return m, [(b, i) for i, b in todo.values()]
    def _for(s, n, ct):
        vs = s.inplace(n, ct[0]) if ct and n.get("inc") else []
        if not vs: return s.loop(n, n["body"], n.get("c"), n.get("inc"))
        from ir import _newid
        news = {}; tmps = {}
        def rep(x):
            if isinstance(x, list): return [rep(y) for y in x]
            if not isinstance(x, dict): return x
            if x.get("k") == "Index" and x["b"]["k"] == "Var" and x["b"]["id"] in tmps and x["i"].get("k") == "Var" and x["i"]["id"] == ct[0]:
                return {"k": "Var", "id": tmps[x["b"]["id"]], "n": "element", "t": x["t"], "l": x["l"]}
            return {k: (v if k == "f" and isinstance(v, dict) else rep(v)) for k, v in x.items()}
        for v in vs: tmps[v] = _newid(); news[v] = s.freshlike(s.env[v])
        s.elems.append((ct[0], tmps, news))
        s.loop({**n, "body": rep(n["body"])}, rep(n["body"]), n.get("c"), n.get("inc"))
        s.elems.pop()
        if s.env is not None:
            for v in vs: s.env[v] = news[v]
    def s_While(s, n): s.loop(n, n["body"], n["c"], None)
    def s_Do(s, n): s.loop(n, n["body"], n["c"], None, False)
    def s_RangeFor(s, n):
        r = s.force(s.ev(n["r"])); v = n["v"]
        vid = v["id"] if "id" in v else (v.get("d") or [{}])[0].get("id")
        vt = v.get("t") or (v.get("d") or [{}])[0].get("t", "")
        if isinstance(r, Vec): x = s.inst(r.el, r.ph, s.isym())
        elif isinstance(r, Tup): x = s.merge([s.force(y) for y in r.e]) if r.e else OPAQUE
        else: x = OPAQUE
        rv = n["r"]
        if vid is not None and is_mut_ref(vt) and rv["k"] == "Var" and isinstance(s.env.get(rv["id"]), Vec) and rv["id"] not in s.refs and not any(y["k"] == "Var" and y["id"] == rv["id"] for y in walk(n["body"])) \
           and vid in s.assigned(n["body"]):
            new = s.freshlike(s.env[rv["id"]]); i = Sc(None, s.isym())
            s.env[vid] = x
            s.after[vid] = lambda: s.unify(s.index(new, i), s.env[vid])
            s.loop(n, n["body"], None, None)
            s.after.pop(vid)
            if s.env is not None: s.env[rv["id"]] = new
            return
        if vid is not None:
            s.env[vid] = x
            if is_mut_ref(vt): s.weak.add(vid)
        s.loop(n, n["body"], None, None)
    def s_Break(s, n):
        if s.loops: s.loops[-1][0].append(s.env)
        s.env = None
    def s_Continue(s, n):
        i = -1
        while -i <= len(s.loops) and s.loops[i][1] is None: i -= 1
        if -i <= len(s.loops): s.loops[i][1].append(s.env)
        s.env = None
    def s_Throw(s, n): s.env = None
    def s_Return(s, n):
        v = s.ev(n["e"]) if n.get("e") else OPAQUE
        if s.rvals:
            s.rvals[-1].append((v, s.env)); s.env = None; return
        s.ret(v, s.env); s.env = None
    def s_Switch(s, n):
        c = s.sc(n.get("c") or n.get("e"))
        cv = c.cv if isinstance(c, Sc) and isinstance(c.cv, tuple) else None
        s.loops.append(([], None))
        body = n["body"]["s"] if n["body"]["k"] == "Block" else [n["body"]]
        flat = []
        def fl(x):
            if x["k"] in ("Case", "Default"):
                flat.append((x["k"].lower(), x))
                if x.get("body"): fl(x["body"])
            else: flat.append(("s", x))
        for x in body: fl(x)
        def val(x):
            for y in walk(x.get("v") or x.get("c") or {}):
                if y["k"] == "Enum": return ("enum", y["n"])
            return None
        e0 = s.env; s.env = None; hasdef = False; matched = cv is None
        vals = [val(x) for kk, x in flat if kk == "case"]
        for kk, x in flat:
            if kk == "case":
                if cv is None or val(x) == cv: s.env = s.join(s.env, dict(e0))
            elif kk == "default":
                hasdef = True
                if cv is None or cv not in vals: s.env = s.join(s.env, dict(e0))
            else: s.stmt(x)
        br, _ = s.loops.pop()
        for b in br: s.env = s.join(s.env, b)
        if not hasdef and (cv is None or cv not in vals): s.env = s.join(s.env, dict(e0))
    def s_Try(s, n):
        for c in children(n): s.stmt(c)

    # ---------------------------------------------------------------- interface
    def unclean(s, v):
        """does the value depend on a loop counter that the caller cannot see"""
        return False
    def tie(s, formal, v, seen):
        """formal: interface value; v: value returned"""
        v = s.force(v)
        if isinstance(formal, Sc):
            if not isinstance(v, Sc) or v.u is None: return
            if formal.u is None: return
            nm = next(w for (w, y) in formal.u if y is None)
            seen.add(nm)
            u = {}
            by = {}
            for (w, y), c in v.u.items(): by.setdefault(y, {})[w] = c
            for y, e in by.items():
                e = s.S.red(e)
                if e and y is not None and y not in s.okay: return
                for w, c in e.items(): u[(w, y)] = c
            s.eq(formal.u, u)
        elif isinstance(formal, St) and isinstance(v, St):
            for k, x in formal.f.items():
                if k in v.f: s.tie(x, v.f[k], seen)
        elif isinstance(formal, Tup) and isinstance(v, Tup):
            for x, y in zip(formal.e, v.e): s.tie(x, y, seen)
        elif isinstance(formal, Tup) and isinstance(v, Vec):
            for i, x in enumerate(formal.e): s.tie(x, s.inst(v.el, v.ph, {None: i} if i else {}), seen)
        elif isinstance(formal, Vec) and isinstance(v, Vec):
            s.okay.add(formal.ph)
            s.tie(formal.ix, v.ix, seen)
            s.tie(formal.el, s.inst(v.el, v.ph, {formal.ph: 1}), seen)
        elif isinstance(formal, Vec) and isinstance(v, Tup):
            s.tie(formal, s.coerce(v, "vector<double>"), seen)
    def ret(s, v, env):
        if s.degen: return
        if s.retf is not None: s.tie(s.retf, v, s.seen)
        for nm, formal, vid, init in s.outf:
            if vid in env:
                x = env[vid]
                if x is init:
                    if any(x is y for y in s.grown): s.tie(formal, x, s.seen)
                    continue
                x = s.drop_init(x, init)
                if x is not None: s.tie(formal, x, s.seen)
    def drop_init(s, x, init):
        if x is init: return None
        if isinstance(x, Lz):
            a = [y for y in (s.drop_init(z, init) for z in x.a) if y is not None]
            return s.lz(a) if a else None
        if isinstance(x, St) and isinstance(init, St):
            r = {}
            for k, y in x.f.items():
                z = s.drop_init(y, init.f.get(k))
                if z is not None: r[k] = z
            return St(r, x.t) if r else None
        return x
    def go(s):
        f = s.f; si = 0
        ints = []
        s.okay = set()
        isctor = f.ctor
        s.params = {p["id"] for p in f.params}
        for i, p in enumerate(f.params):
            t = p["t"]
            if is_sel(t, s.P):
                v = Sc(None, s.isym(), s.sel[si] if si < len(s.sel) else None); si += 1
            else:
                v = s.fresh(t, f"p{i}")
                if base_type(t) in INTS and isinstance(v, Sc):
                    sy = s.sym(); v = Sc(None if i in ORDER.get(f.q, ()) else v.u, {sy: 1}); ints.append((f"p{i}", sy)); s.okay.add(sy)
            s.env[p["id"]] = v
        cls = f.cls
        if cls and not f.static:
            s.env["this"] = s.fresh(cls, "this") if not isctor else s.fresh(cls, scalar_any=True)
        s.outf = []; s.seen = set(); s.rany = []
        s.retf = s.fresh(f.ret, "ret", ints=tuple(ints)) if base_type(f.ret) != "void" and not isctor else None
        for i in s.U.eff.w.get(f.key, ()):
            if isinstance(i, int) and i < len(f.params):
                t = f.params[i]["t"]
                if is_mut_ref(t) or t.endswith("*") or arr(t): s.outf.append((f"o{i}", s.fresh(t, f"o{i}", ints=tuple(ints)), f.params[i]["id"], s.env[f.params[i]["id"]]))
            elif i == "this" and not isctor: s.outf.append(("this!", s.fresh(cls, "this!"), "this", s.env["this"]))
        if isctor: s.outf.append(("this!", s.fresh(cls, "this!"), "this", None))
        if s.spec is not None:
            for r in s.spec.rows: s.S.add(r)
            s.S.new = []
        s.S.on_iface = s.report
        for it in f.inits:
            nm = it.get("f") or it.get("m") or it.get("n")
            e = it.get("e") or it.get("init")
            if nm and e: s.assign({"k": "Member", "b": {"k": "This", "l": f.line, "t": cls}, "f": nm, "l": f.line, "t": ""}, s.ev(e))
        s.stmt(f.body)
        if s.env is not None: s.ret(OPAQUE, s.env)
        rows = s.rows()
        # results that are literally zero on every path fit any unit
        alln = set()
        def leaves(v):
            if isinstance(v, Sc):
                if v.u is not None and v.iv is None: alln.add(next(w for (w, y) in v.u if y is None))
            elif isinstance(v, St): [leaves(x) for x in v.f.values()]
            elif isinstance(v, Tup): [leaves(x) for x in v.e]
        if s.retf is not None: leaves(s.retf)
        for o in s.outf: leaves(o[1])
        return Spec(rows, frozenset(alln - s.seen))
    def rows(s):
        out = []
        for v in s.S.sol:
            if isinstance(v, str):
                e = s.S.red(s.S.sol[v]); r = {v: 1}
                for w, c in e.items(): r[w] = r.get(w, 0) - c
                out.append({k: norm1(c) for k, c in r.items() if c})
        return out
