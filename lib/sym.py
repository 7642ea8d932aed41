"""Symbolic value and size analysis: a forward dataflow that maps every variable to a symbolic term over the parameters
(copy propagation + linear normal forms), tracks container sizes through construction, resize, push_back and counted
loops, and carries the path condition as a set of formulas.  No path is ever executed or handed to a solver; joins
forget what differs, loops forget what the body changes (counted induction variables and unconditional appends are
summarised in closed form)."""
from fractions import Fraction
from ir import *
from flow import Flow, Out, Dead, NORETURN
from effects import Effects

# ------------------------------------------------------------------ terms
def lin(c=0, at=()):
    return ("lin", c, tuple(at))
def const(v): return ("lin", v, ())
def is_lin(t): return t is not None and t[0] == "lin"
def tolin(t):
    if t[0] == "lin": return t
    return ("lin", 0, ((t, 1),))
def _norm(c, d):
    it = tuple(sorted(((a, k) for a, k in d.items() if k != 0), key=lambda x: repr(x)))
    if isinstance(c, Fraction) and c.denominator == 1: c = int(c)
    if c == 0 and len(it) == 1 and it[0][1] == 1: return it[0][0]
    return ("lin", c, it)
def add(a, b, kb=1):
    a, b = tolin(a), tolin(b)
    d = dict(a[2])
    for t, k in b[2]: d[t] = d.get(t, 0) + k * kb
    return _norm(a[1] + kb * b[1], d)
def sub(a, b): return add(a, b, -1)
def scale(a, k):
    a = tolin(a)
    return _norm(a[1] * k, {t: c * k for t, c in a[2]})
def cval(t):
    return t[1] if t is not None and t[0] == "lin" and not t[2] else None
def mul(a, b):
    ca, cb = cval(a), cval(b)
    if ca is not None: return scale(b, ca)
    if cb is not None: return scale(a, cb)
    la, lb = tolin(a), tolin(b)
    d = {}; c0 = la[1] * lb[1]
    if len(la[2]) * len(lb[2]) > 24: return ("mul",) + tuple(sorted((a, b), key=repr))
    for t, k in la[2]:
        for u, m in lb[2]:
            fs = (list(t[1:]) if t[0] == "mul" else [t]) + (list(u[1:]) if u[0] == "mul" else [u])
            x = ("mul",) + tuple(sorted(fs, key=repr))
            d[x] = d.get(x, 0) + k * m
    for t, k in la[2]:
        if lb[1]: d[t] = d.get(t, 0) + k * lb[1]
    for u, m in lb[2]:
        if la[1]: d[u] = d.get(u, 0) + m * la[1]
    return _norm(c0, d)
def atoms(t):
    return [a for a, _ in tolin(t)[2]]
def subterms(t):
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            yield x
            st.extend(x[1:] if x and isinstance(x[0], str) else x)
        elif isinstance(x, frozenset): st.extend(x)
OPAQUE = {"loop", "phi", "new", "uninit", "havoc"}
def is_opaque(t): return any(x and x[0] in OPAQUE for x in subterms(t) if x and isinstance(x[0], str))
def subst(t, f):
    """rebuild t bottom-up; f maps an atom to a replacement or None"""
    r = f(t)
    if r is not None: return r
    if not isinstance(t, tuple): return t
    if t and t[0] == "lin":
        acc = const(t[1])
        for a, k in t[2]: acc = add(acc, scale(subst(a, f), k))
        return acc
    if t and t[0] == "mul":
        acc = subst(t[1], f)
        for x in t[2:]: acc = mul(acc, subst(x, f))
        return acc
    if t and t[0] == "size": return size(subst(t[1], f))
    if t and t[0] == "m": return fld(subst(t[1], f), t[2])
    return tuple(subst(x, f) if isinstance(x, tuple) else (frozenset(subst(y, f) for y in x) if isinstance(x, frozenset) else x) for x in t)

KNOT_OF = {"KnotVector": ("ControlPoints", "Degree", 0), "KnotVectorU": ("ControlPoints", "DegreeU", 0),
           "KnotVectorV": ("ControlPoints", "DegreeV", 1), "KnotVectorW": ("ControlPoints", "DegreeW", 2)}
KNOT_RULE = [True]     # assume the knot count rule for shapes that come in
def fld(t, f):
    if t[0] == "rec":
        for k, v in t[1]:
            if k == f: return v
        return ("m", t[2], f)
    return ("m", t, f)
def size(t):
    """number of elements of a container term, using the knot count rule for well-formed inputs"""
    k = t[0]
    if k == "vec": return t[1]
    if k == "m" and t[2] in KNOT_OF and KNOT_RULE[0]:
        cp, dg, d = KNOT_OF[t[2]]
        x = ("m", t[1], cp)
        for _ in range(d): x = ("at", x, "*", True)
        return add(add(size(x), ("m", t[1], dg)), const(1))
    if k == "at" and t[3]:
        b = star(t[1])
        return size(b[2]) if b[0] == "vec" and b[2] is not None else ("size", ("at", b, "*", True))
    if k == "ite":
        a, b = size(t[2]), size(t[3])
        return a if a == b else ("ite", t[1], a, b)
    return ("size", t)
def star(t):
    """rows of a net all have the same length: the index of a row does not matter for sizes"""
    if t[0] == "at" and t[3]:
        b = star(t[1])
        if b[0] == "vec" and b[2] is not None: return b[2]
        return ("at", b, "*", True)
    if t[0] == "m" and t[1][0] == "at": return ("m", star(t[1]) if t[1][3] else t[1], t[2])
    return t
def elem(t):
    """shape of the elements of container term t, None when not a container of containers"""
    if t[0] == "vec": return t[2]
    if t[0] in ("m", "p"): return ("at", t, "*", True)
    if t[0] == "at" and t[3]: return ("at", star(t), "*", True)
    if t[0] == "ite" and len(t) == 4:
        a, b = elem(t[2]), elem(t[3])
        if a is None or b is None: return None
        return a if a == b else ("ite", t[1], a, b)
    return None
def isvec_type(t): return elem_type(t) is not None

class SS:
    def __init__(s): s.env = {}; s.ref = {}; s.ctx = frozenset(); s.dead = False
    def copy(s):
        r = SS(); r.env = dict(s.env); r.ref = dict(s.ref); r.ctx = s.ctx; return r

# ------------------------------------------------------------------ formulas (negation normal form)
TRUE = ("and", frozenset()); FALSE = ("or", frozenset())
def f_and(*fs):
    r = set()
    for f in fs:
        if f == FALSE: return FALSE
        if f[0] == "and": r |= f[1]
        else: r.add(f)
    if len(r) == 1: return next(iter(r))
    return ("and", frozenset(r))
def f_or(*fs):
    r = set()
    for f in fs:
        if f == TRUE: return TRUE
        if f[0] == "or": r |= f[1]
        else: r.add(f)
    if len(r) == 1: return next(iter(r))
    return ("or", frozenset(r))
def f_not(f):
    k = f[0]
    if k == "and": return f_or(*[f_not(x) for x in f[1]])
    if k == "or": return f_and(*[f_not(x) for x in f[1]])
    if k == "le": return ("le", add(const(1), scale(f[1], -1)))      # not (x<=0)  <=>  1-x<=0   (integers)
    if k == "eq": return ("ne", f[1])
    if k == "ne": return ("eq", f[1])
    return f[:-1] + (not f[-1],)                                     # f-atoms and b-atoms carry their sign last
def dnf(f, cap=64):
    k = f[0]
    if k == "or":
        r = []
        for x in f[1]:
            r += dnf(x, cap)
            if len(r) > cap: return r
        return r
    if k == "and":
        r = [frozenset()]
        for x in sorted(f[1], key=repr):
            d = dnf(x, cap)
            r = [a | b for a in r for b in d]
            if len(r) > cap * 4: return r[:cap * 4]
        return r
    return [frozenset([f])]
def canon_lin_eq(l):
    l = tolin(l)
    if l[2] and l[2][0][1] < 0: return scale(l, -1)
    return l
CMPFN = {"IsGreaterThan": ("GT", False), "IsLessThan": ("GT", True), "IsGreaterThanOrEqual": ("GE", False), "IsLessThanOrEqual": ("GE", True), "IsAlmostEqualTo": ("EQ", None)}

INTT = {"int", "unsigned int", "unsigned long", "long", "short", "unsigned short", "char", "unsigned char", "bool", "long long", "unsigned long long", "size_t"}
def is_int(t, P=None):
    b = base_type(t); return b in INTT or (P is not None and b in P.enums)

class Sym(Flow):
    """subclass hooks: on_index(e, base, idx, st), on_throw(e, st), on_ret(e, st, v), on_call(e, st, args), on_size(...)"""
    def __init__(self, P, f, eff, summ=None):
        self.P = P; self.f = f; self.eff = eff; self.summ = summ or {}; self.origin = {}
        self.pid = {p["id"]: i for i, p in enumerate(f.params)}
        self.uid = 0; self.iv = {}; self.ivloose = set(); self.loops = []; self.opq = {}
        self.undef = 0
    # ---- lattice
    def copy(self, s): return s.copy()
    def eq(self, a, b): return True
    def join(self, a, b):
        r = SS()
        for k in set(a.env) | set(b.env):
            va, vb = a.env.get(k), b.env.get(k)
            if va is None: va = self.dflt(k, a)
            if vb is None: vb = self.dflt(k, b)
            r.env[k] = va if va == vb else self.phi(k, va, vb)
        for k in set(a.ref) & set(b.ref):
            if a.ref[k] == b.ref[k]: r.ref[k] = a.ref[k]
        r.ctx = a.ctx & b.ctx
        A, B = a.ctx - r.ctx, b.ctx - r.ctx
        if A and B and len(A) + len(B) <= 4:
            # what is known on both ways together; c on one side and !c on the other says nothing
            for x, y in ((A, B), (B, A)):
                if len(x) == 1:
                    n = f_not(next(iter(x)))
                    if n in y: y -= {n}
                    if n[0] == "and" and n[1] <= y: y -= n[1]
                if x is A: B = y
                else: A = y
            if A and B and sum(1 for c in r.ctx if c[0] == "or") < 3:
                d = f_or(f_and(*A), f_and(*B))
                if len(repr(d)) < 3000: r.ctx = r.ctx | {d}
        return r
    def dflt(self, k, st):
        if isinstance(k, tuple):
            base = self.root(k[0], st)
            for x in k[1:]: base = fld(base, x)
            return base
        return self.root(k, st)
    phic = None
    def phi(self, k, a, b):
        f = self.phic
        if f is not None and a is not None and b is not None and len(self._rp(a)) + len(self._rp(b)) < 1500:
            if a[0] == "vec" and b[0] == "vec":
                e = a[2] if a[2] == b[2] else (self.phi(k, a[2], b[2]) if a[2] and b[2] else None)
                return ("vec", a[1] if a[1] == b[1] else ("ite", f, a[1], b[1]), e, self.fresh())
            return ("ite", f, a, b)
        if a is not None and b is not None and a[0] == "vec" and b[0] == "vec":
            s = a[1] if a[1] == b[1] else ("phi", self.fresh(), "size")
            e = a[2] if a[2] == b[2] else (self.phi(k, a[2], b[2]) if a[2] and b[2] else None)
            return ("vec", s, e, self.fresh())
        if a is not None and b is not None:
            try:
                sa, sb = (a, b)
                if a[0] in ("vec",) or b[0] in ("vec",):
                    if size(a) == size(b): return ("vec", size(a), None, self.fresh())
            except Exception: pass
        return ("phi", self.fresh(), a, b) if len(repr((a, b))) < 4000 else ("phi", self.fresh())
    def fresh(self):
        self.uid += 1; return self.uid
    # ---- locations
    def root(self, r, st):
        if r in st.env: return st.env[r]
        if r == "this": return ("this",)
        if r in self.pid: return ("p", self.pid[r])
        if isinstance(r, tuple) and r and r[0] == "g": return r
        return ("new", ("v", r))
    def loc(self, e, st):
        """(root, [comps]) or None; comps: field names or ('[]', term, isvec)"""
        k = e["k"]
        if k == "Var":
            if e.get("global"): return (("g", e.get("q")), [])
            if e["id"] in st.ref:
                r = st.ref[e["id"]]
                return (r[0], list(r[1])) if r is not None else None
            return (e["id"], [])
        if k == "This": return ("this", [])
        if k == "Member":
            b = self.loc(e["b"], st) if e.get("b") else ("this", [])
            if b is None: return None
            return (b[0], b[1] + [e["f"]])
        if k == "Index":
            b = self.loc(e["b"], st)
            if b is None: return None
            i = self.ev(e["i"], st)
            return (b[0], b[1] + [("[]", i, isvec_type(e.get("t", "")))])
        if k == "Cast" and e.get("e"): return self.loc(e["e"], st)
        if k == "MCall" and e["f"]["n"] in ("back", "front") and e.get("b") and e["f"].get("cls") == "vector":
            b = self.loc(e["b"], st)
            if b is None: return None
            i = const(0) if e["f"]["n"] == "front" else sub(size(self.get(b, st)), const(1))
            self.on_frontback(e, self.get(b, st), st)
            return (b[0], b[1] + [("[]", i, isvec_type(e.get("t", "")))])
        return None
    def get(self, p, st):
        r, comps = p
        key = r; v = None; n = 0
        # longest field prefix stored in the environment
        best = 0; bv = self.root(r, st)
        pre = []
        for c in comps:
            if isinstance(c, tuple): break
            pre.append(c)
            kk = (r,) + tuple(pre)
            if kk in st.env: best = len(pre); bv = st.env[kk]
        v = bv
        for c in comps[best:]:
            if isinstance(c, tuple):
                if v[0] == "vec" and v[2] is not None: v = v[2]
                else: v = ("at", v, c[1] if not c[2] else c[1], c[2])
            else: v = fld(v, c)
        if best == len(comps) and len(comps) == len(pre):
            # whole object whose members were set one by one
            subs = {k[len(pre) + 1]: st.env[k] for k in st.env if isinstance(k, tuple) and len(k) == len(pre) + 2 and k[:len(pre) + 1] == (r,) + tuple(pre)}
            if subs: v = ("rec", tuple(sorted(subs.items())), v if v[0] != "rec" else v[2])
        return v
    def kill(self, r, pre, st):
        n = len(pre) + 1; key = (r,) + tuple(pre)
        for k in [k for k in st.env if isinstance(k, tuple) and k[:1] != ("g",) and len(k) > n and k[:n] == key]: del st.env[k]
    def put(self, p, v, st):
        r, comps = p
        idx = next((i for i, c in enumerate(comps) if isinstance(c, tuple)), None)
        if idx is None:
            self.kill(r, comps, st)
            if v[0] == "rec":
                for kf, vf in v[1]: st.env[(r,) + tuple(comps) + (kf,)] = vf
                v = v[2]
            st.env[(r,) + tuple(comps) if comps else r] = v
        else:
            c0 = (r, comps[:idx]); old = self.get(c0, st)
            self.put(c0, self.update(old, comps[idx:], v), st)
    def update(self, old, comps, v):
        s = size(old); el = elem(old)
        if comps[0][2] and el is None: el = ("at", old, "*", True) if old[0] != "vec" else None
        rest = comps[1:]
        if not rest:
            if v is not None and comps[0][2] and self.once and self.covers_all(comps[0][1], s): ne = ("vec", size(v), elem(v), self.fresh())
            elif v is not None and (v[0] == "vec" or comps[0][2]): ne = self.mixelem(el, v)
            else: ne = None if not comps[0][2] else el
        else:
            if isinstance(rest[0], tuple): ne = self.update(el, rest, v) if el is not None else None
            else: ne = el
        if not comps[0][2]: ne = None
        return ("vec", s, ne, self.fresh())
    def covers_all(self, i, s):
        if not isinstance(i, tuple) or i[0] != "iv" or i[1] not in self.iv: return False
        lo, last = self.iv[i[1]]
        return lo is not None and cval(lo) == 0 and last is not None and cval(sub(sub(s, last), const(1))) == 0
    def mixelem(self, el, v):
        v = ("vec", size(v), elem(v), self.fresh())
        if el is None or cval(size(el)) == 0: return v
        if size(el) == size(v): return v
        # an element with another size: keep it only when it does not depend on a loop variable
        return ("vec", ("phi", self.fresh(), "esize"), None, self.fresh())
    # ---- hooks
    def on_index(self, e, base, idx, st): pass
    def on_frontback(self, e, base, st): pass
    def on_throw(self, e, st): pass
    def on_ret(self, e, st, v): pass
    def on_libcall(self, e, c, st, args): pass
    def on_assign(self, e, st, p, v): pass
    def on_div(self, e, st, a, b): pass
    # ---- expressions
    def eval(self, e, st): return self.ev(e, st)
    def ev(self, e, st):
        if e is None: return None
        m = getattr(self, "e_" + e["k"], None)
        r = m(e, st) if m else self.generic(e, st)
        if r is not None and len(self._rp(r)) > 6000: r = ("havoc", self.fresh())
        return r
    def _rp(self, r):
        # cheap size estimate
        n = 0; st = [r]
        while st and n < 6001:
            x = st.pop(); n += 1
            if isinstance(x, tuple): st.extend(x)
        return range(n)
    def generic(self, e, st):
        for c in self.children(e): self.ev(c, st)
        return ("havoc", self.fresh())
    def e_Int(self, e, st): return const(int(e["v"]))
    def e_Bool(self, e, st): return const(int(e["v"]))
    def e_Enum(self, e, st): return const(int(e["v"]))
    def e_Sizeof(self, e, st): return const(int(e["v"])) if "v" in e else ("havoc", self.fresh())
    def e_Float(self, e, st):
        try: return const(Fraction(str(e["v"])))
        except Exception: return ("havoc", self.fresh())
    def e_Str(self, e, st): return ("str",)
    def e_This(self, e, st): return ("this",)
    def e_Var(self, e, st):
        if e.get("global"):
            g = next((g for (q, _), g in self.P.globals.items() if q == e.get("q")), None)
            if g is not None and g.get("init") and g.get("t", "").startswith("const"):
                i = g["init"]
                while i["k"] == "Cast": i = i["e"]
                if i["k"] == "Int": return const(int(i["v"]))
            return ("g", e.get("q"))
        p = self.loc(e, st)
        return self.get(p, st) if p is not None else ("havoc", self.fresh())
    def e_Member(self, e, st):
        p = self.loc(e, st)
        if p is not None: return self.get(p, st)
        b = self.ev(e["b"], st) if e.get("b") else ("this",)
        return fld(b, e["f"])
    def e_Index(self, e, st):
        b = self.ev(e["b"], st); i = self.ev(e["i"], st)
        if b is None: b = ("havoc", self.fresh())
        if i is None: i = ("havoc", self.fresh())
        self.on_index(e, b, i, st)
        if b[0] == "vec" and b[2] is not None: return b[2]
        return ("at", b, i, isvec_type(e.get("t", "")))
    def e_Cast(self, e, st):
        v = self.ev(e["e"], st) if e.get("e") else None
        if v is None: return ("havoc", self.fresh())
        if is_int(e.get("t", "")) and base_type(e.get("from", "")) in ("double", "float"):
            c = cval(v)
            if c is not None: return const(int(c))
            return ("trunc", v)
        return v
    def e_Un(self, e, st):
        op = e["op"]
        if op in ("++", "--"):
            old = self.ev(e["e"], st); new = add(old, const(1 if op == "++" else -1)) if old is not None else ("havoc", self.fresh())
            p = self.loc(e["e"], st)
            if p is not None: self.put(p, new, st)
            return old if e.get("post") else new
        if op == "!":
            return ("not", self.ev(e["e"], st))
        v = self.ev(e["e"], st)
        if op == "-" and v is not None: return scale(v, -1)
        if op == "+" : return v
        if op == "*": return ("deref", v)
        if op == "&": return ("addr", v)
        return ("havoc", self.fresh())
    def e_Bin(self, e, st):
        op = e["op"]
        if op in ("&&", "||"): return ("fm", self.formula(e, st))
        if op in ("==", "!=", "<", ">", "<=", ">="): return ("fm", self.formula(e, st))
        a = self.ev(e["a"], st); b = self.ev(e["b"], st)
        if a is None or b is None: return ("havoc", self.fresh())
        scal = is_int(e["t"], self.P) or base_type(e["t"]) in ("double", "float")
        if op == ",": return b
        if op == "+" and scal: return add(a, b)
        if op == "-" and scal: return sub(a, b)
        if op == "*" and scal: return mul(a, b)
        if op in ("/", "%"):
            self.on_div(e, st, a, b)
            ca, cb = cval(a), cval(b)
            if is_int(e["t"]):
                if ca is not None and cb: return const(int(ca / cb) if op == "/" else ca - int(ca / cb) * cb)
                return ("idiv" if op == "/" else "imod", a, b)
            if cb and scal: return scale(a, Fraction(1) / Fraction(cb))
            return ("div", a, b)
        if op in ("+", "-") and a[0] == "iter" and is_int(e["b"].get("t", ""), self.P): return ("iter", a[1], add(a[2], b, 1 if op == "+" else -1))
        if op == "+" and b[0] == "iter": return ("iter", b[1], add(b[2], a))
        if op == "-" and a[0] == "iter" and b[0] == "iter" and a[1] == b[1]: return sub(a[2], b[2])
        return ("op" + op, a, b)
    def e_Assign(self, e, st):
        b = self.ev(e["b"], st)
        if b is None: b = ("havoc", self.fresh())
        # evaluate subscripts on the left for index hooks
        self.lhs(e["a"], st)
        if e["op"] != "=":
            a = self.ev(e["a"], st)
            scal = is_int(e["t"], self.P) or base_type(e["t"]) in ("double", "float")
            op = e["op"][0]
            if op == "/": self.on_div(e, st, a, b)
            if a is None: b = ("havoc", self.fresh())
            elif scal and op == "+": b = add(a, b)
            elif scal and op == "-": b = sub(a, b)
            elif scal and op == "*": b = mul(a, b)
            elif scal and op == "/" and cval(b) and not is_int(e["t"]): b = scale(a, Fraction(1) / Fraction(cval(b)))
            else: b = ("op" + e["op"], a, b)
        p = self.loc(e["a"], st)
        if e.get("f") and base_type(e["a"].get("t","")).startswith("vector") and e["b"]["k"] == "InitList":
            b = self.initlist(e["b"], st, e["a"]["t"])
        if p is not None: self.put(p, b, st)
        self.on_assign(e, st, p, b)
        return b
    def lhs(self, e, st):
        k = e["k"]
        if k == "Index":
            self.lhs(e["b"], st)
            b = self.ev_q(e["b"], st); i = self.ev(e["i"], st)
            self.on_index(e, b if b is not None else ("havoc", self.fresh()), i if i is not None else ("havoc", self.fresh()), st)
        elif k == "Member" and e.get("b"): self.lhs(e["b"], st)
        elif k in ("Var", "This"): pass
        else: self.ev(e, st)
    def ev_q(self, e, st):
        p = self.loc(e, st)
        if p is not None: return self.get(p, st)
        return self.ev(e, st)
    def e_Cond(self, e, st):
        f = self.formula(e["c"], st)
        t = self.copy(st); fs = self.copy(st)
        t.ctx = t.ctx | {f}; fs.ctx = fs.ctx | {f_not(f)}
        a = b = None; da = db = False
        try: a = self.ev(e["a"], t)
        except Dead: da = True
        try: b = self.ev(e["b"], fs)
        except Dead: db = True
        if da and db: raise Dead()
        keep = st.ctx
        self._assign_state(st, fs if da else t if db else self.join(t, fs)); st.ctx = keep
        if da: return b
        if db: return a
        if a == b: return a
        return ("ite", f, a, b) if a is not None and b is not None else ("havoc", self.fresh())
    def _assign_state(self, st, new):
        if new is None: raise Dead()
        if new is st: return
        st.env = new.env; st.ref = new.ref; st.ctx = new.ctx
    def e_InitList(self, e, st): return self.initlist(e, st, e.get("t", ""))
    def initlist(self, e, st, t):
        vals = [self.ev(a, st) for a in e["args"]]
        et = elem_type(t)
        if et is not None:
            n = len(vals)
            m = re.match(r".*\[(\d+)\]", base_type(t))
            if m and not base_type(t).startswith("vector"): n = int(re.search(r"\[(\d+)\]", base_type(t)).group(1))
            return ("vec", const(n), None, self.fresh())
        return ("init", base_type(t)) + tuple(v for v in vals if v is not None)
    def e_Ctor(self, e, st):
        t = base_type(e.get("t", "")); args = e["args"]
        if t.startswith("vector<"):
            if len(args) == 1 and args[0] is not None and args[0]["k"] == "InitList":
                return self.initlist(args[0], st, t)
            vals = [self.ev(a, st) for a in args if a is not None]
            f = e.get("f") or {}
            if not vals: return self.newvec(t, const(0))
            if f.get("pt") and is_int(f["pt"][0]):
                el = None
                if len(vals) > 1 and elem_type(elem_type(t) or "") is not None: el = vals[1] if vals[1][0] == "vec" else ("vec", size(vals[1]), elem(vals[1]), self.fresh())
                v = self.newvec(t, vals[0])
                if el is not None: v = ("vec", vals[0], el, v[3])
                self.on_newvec(e, vals[0], st)
                return v
            if len(vals) >= 2 and vals[0][0] == "iter" and vals[1][0] == "iter" and vals[0][1] == vals[1][1]:
                return ("vec", sub(vals[1][2], vals[0][2]), elem(vals[0][1]), self.fresh())
            if len(vals) == 1: return vals[0]
            return ("havoc", self.fresh())
        vals = [self.ev(a, st) for a in args if a is not None]
        c = self.P.callee(e.get("f"))
        if c is not None: self.on_libcall(e, c, st, vals)
        if len(vals) == 1 and vals[0] is not None and vals[0][0] == "iter": return vals[0]
        rec = self.P.records.get(t)
        if rec is not None and not args:
            return self.newrec(t)
        return ("ctor", t) + tuple(v for v in vals if v is not None)
    def on_newvec(self, e, n, st): pass
    def newvec(self, t, n):
        et = elem_type(t)
        el = None
        if et and elem_type(et) is not None: el = self.newvec(et, const(0))
        return ("vec", n, el, self.fresh())
    def newrec(self, t):
        rec = self.P.records.get(base_type(t)); fs = []
        for x in rec.get("fields", []):
            ft = x["t"]
            if isvec_type(ft) and base_type(ft).startswith("vector"): fs.append((x["n"], self.newvec(ft, const(0))))
        base = ("newobj", base_type(t), self.fresh())
        return ("rec", tuple(sorted(fs)), base) if fs else base
    def e_New(self, e, st):
        n = self.ev(e["n"], st) if isinstance(e.get("n"), dict) else None
        if isinstance(e.get("init"), dict): self.ev(e["init"], st)
        if n is not None: return ("vec", n, None, self.fresh())
        return ("newobj", base_type(e.get("t", "")), self.fresh())
    def e_Lambda(self, e, st): return ("lambda", self.fresh())
    def e_Throw(self, e, st):
        self.on_throw(e, st)
        raise Dead()
    def e_Inl(self, e, st):
        for d in e["binds"]:
            v = self.ev(d.get("init"), st) if d.get("init") else None
            self.decl(d, st, v)
        ctx0 = st.ctx
        self.inl += 1
        try: o = self.exec(e["body"], self.copy(st))
        finally: self.inl -= 1
        outs = ([(o.n, None, None)] if o.n is not None else []) + o.r
        if not outs: raise Dead()
        vals = []
        isb = base_type(e.get("t", "")) == "bool"
        for (s, ex, v) in outs:
            vals.append((frozenset(s.ctx - ctx0), v))
        self._assign_state(st, self.joinall([x[0] for x in outs])); st.ctx = ctx0 | (st.ctx if len(outs) == 1 else frozenset())
        if len(vals) == 1:
            if isb and vals[0][1] is not None: return vals[0][1]
            return vals[0][1]
        if isb:
            return ("fm", f_or(*[f_and(*(list(d) + [self.asformula(v)])) for d, v in vals]))
        vs = {v for _, v in vals}
        if len(vs) == 1: return vs.pop()
        if all(v is not None for v in vs) and len(vals) == 2:
            return ("ite", f_and(*vals[0][0]), vals[0][1], vals[1][1])
        return ("havoc", self.fresh())
    # ---- calls
    def e_Call(self, e, st):
        f = e.get("f")
        args = [self.ev(a, st) if a is not None else None for a in e["args"]]
        if e.get("fe"): self.ev(e["fe"], st)
        if not f: return ("havoc", self.fresh())
        c = self.P.callee(f); n = f["n"]
        if c is None:
            r = self.extcall(e, f, n, args, st)
            if n in NORETURN: raise Dead()
            return r
        self.on_libcall(e, c, st, args)
        return self.libcall(e, c, args, e["args"], None, st)
    def libcall(self, e, c, args, nodes, this, st):
        args = [a if a is not None else ("havoc", self.fresh()) for a in args]
        q = c.q
        sm = self.summ.get(c.key)
        if sm is not None: sm = sm.pick(args)
        w = self.eff.w.get(c.key, ()) if self.eff else ()
        targs = tuple(args[i] for i in range(len(args)))
        key = ("call", c.key) + ((this,) if this is not None else ()) + targs
        ret = None
        if sm is not None: ret = sm.apply_ret(self, args, this, key)
        outs = []
        for i, p in enumerate(c.params):
            if i >= len(nodes) or nodes[i] is None: continue
            if i in w and (is_ref(p["t"]) or "*" in p["t"]):
                pl = self.loc(nodes[i], st)
                v = None
                if sm is not None: v = sm.apply_out(self, i, args, this, ("out", i) + key)
                if v is None:
                    v = ("out", i) + key
                    if isvec_type(p["t"]) and not base_type(p["t"]).startswith("vector") and args[i] is not None: v = ("vec", size(args[i]), None, self.fresh())
                    elif "*" in p["t"]: v = ("vec", size(args[i]), elem(args[i]), self.fresh())
                if pl is not None: outs.append((pl, v))
        for pl, v in outs: self.put(pl, v, st)
        if ret is not None: return ret
        if base_type(c.ret) == "void": return None
        return key
    def extcall(self, e, f, n, args, st):
        nodes = e["args"]
        if n in ("abs", "fabs", "sqrt", "pow", "sin", "cos", "tan", "atan2", "acos", "asin", "atan", "ceil", "floor", "round", "fmod", "exp", "log", "isnan", "isinf", "hypot", "cbrt", "signbit"):
            if n == "fabs": n = "abs"
            if n == "sqrt": self.on_sqrt(e, args, st)
            return ("fn", n) + tuple(args)
        if n in ("min", "max"): 
            if len(args) == 2 and None not in args:
                ca, cb = cval(args[0]), cval(args[1])
                if ca is not None and cb is not None: return const(min(ca, cb) if n == "min" else max(ca, cb))
                return ("fn", n) + tuple(sorted(args[:2], key=repr))
        if n in ("move", "forward", "as_const") and len(args) == 1: return args[0]
        if n in ("begin", "cbegin") and args: return ("iter", args[0], const(0))
        if n in ("end", "cend") and args: return ("iter", args[0], size(args[0]))
        if n == "swap" and len(args) == 2:
            pa, pb = self.loc(nodes[0], st), self.loc(nodes[1], st)
            if pa is not None and pb is not None: self.put(pa, args[1], st); self.put(pb, args[0], st); return None
        if n in ("sort", "reverse", "fill", "stable_sort", "iota", "transform", "copy", "rotate", "shuffle", "nth_element"):
            # contents change, sizes stay
            for a in nodes:
                for r in self.iter_targets(a):
                    p = self.loc(r, st)
                    if p is not None:
                        v = self.get(p, st); self.put(p, ("vec", size(v), elem(v), self.fresh()), st)
            return ("havoc", self.fresh())
        if n == "is_sorted" and args: return ("fn", n, args[0])
        for a, t in zip(nodes, f.get("pt", [])):
            if a is not None and (is_mut_ref(t) or (t.endswith("*") and not t.startswith("const"))):
                p = self.loc(a, st)
                if p is not None: self.put(p, ("havoc", self.fresh()), st)
        return ("ext", n) + tuple(a for a in args if a is not None)
    def on_sqrt(self, e, args, st): pass
    def iter_targets(self, a):
        if a is None: return
        for x in walk(a):
            if x["k"] == "MCall" and x["f"]["n"] in ("begin", "end", "rbegin", "rend") and x.get("b"): yield x["b"]
    def e_MCall(self, e, st):
        f = e.get("f") or {}; n = f.get("n", ""); cls = f.get("cls")
        c = self.P.callee(f)
        bn = e.get("b")
        if c is None:
            if cls == "vector" or cls in ("array",): return self.vec_call(e, n, bn, st)
            args = [self.ev(a, st) for a in e["args"] if a is not None]
            b = self.ev(bn, st) if bn else None
            if n in ("size", "length") and b is not None: return ("size", b)
            if not f.get("const") and bn is not None and n not in ("begin", "end", "find", "at"):
                p = self.loc(bn, st)
                if p is not None: self.put(p, ("havoc", self.fresh()), st)
            return ("ext", n, b) + tuple(a for a in args if a is not None)
        args = [self.ev(a, st) if a is not None else None for a in e["args"]]
        b = self.ev(bn, st) if bn else ("this",)
        self.on_libcall(e, c, st, args)
        if "this" in self.eff.w.get(c.key, ()) and bn is not None:
            r = self.libcall(e, c, args, e["args"], b, st)
            p = self.loc(bn, st)
            if p is not None: self.put(p, ("havoc", self.fresh()), st)
            return r
        return self.libcall(e, c, args, e["args"], b, st)
    def vec_call(self, e, n, bn, st):
        args = [self.ev(a, st) if a is not None else None for a in e["args"]]
        b = self.ev(bn, st); p = self.loc(bn, st)
        if n == "size": return size(b)
        if n == "empty": return ("fm", ("eq", canon_lin_eq(size(b))))
        if n in ("begin", "cbegin"): return ("iter", b, const(0))
        if n in ("end", "cend"): return ("iter", b, size(b))
        if n in ("front", "back"):
            self.on_frontback(e, b, st)
            if b[0] == "vec" and b[2] is not None: return b[2]
            return ("at", b, const(0) if n == "front" else sub(size(b), const(1)), isvec_type(e.get("t", "")))
        if n == "data": return b
        if p is None: return ("havoc", self.fresh())
        t = bn.get("t", "")
        nested = elem_type(elem_type(t) or "") is not None
        if n in ("push_back", "emplace_back"):
            ne = None
            if nested and args and args[0] is not None:
                v = ("vec", size(args[0]), elem(args[0]), self.fresh())
                old = elem(b) if b[0] == "vec" else None
                ne = v if (cval(size(b)) == 0 or old is None) else self.mixelem(old, v)
            self.put(p, ("vec", add(size(b), const(1)), ne, self.fresh()), st); return None
        if n == "pop_back":
            self.put(p, ("vec", sub(size(b), const(1)), elem(b), self.fresh()), st); return None
        if n == "clear": self.put(p, self.newvec(t, const(0)), st); return None
        if n == "resize":
            el = elem(b)
            if nested and len(args) > 1 and args[1] is not None: el = ("vec", size(args[1]), elem(args[1]), self.fresh())
            if args and args[0] is not None: self.put(p, ("vec", args[0], el, self.fresh()), st); self.on_newvec(e, args[0], st)
            return None
        if n == "assign" and len(args) == 2:
            if args[0] and args[0][0] == "iter": v = ("vec", sub(args[1][2], args[0][2]), elem(args[0][1]), self.fresh()) if args[1] and args[1][0] == "iter" and args[1][1] == args[0][1] else ("havoc", self.fresh())
            else: v = ("vec", args[0], ("vec", size(args[1]), elem(args[1]), self.fresh()) if nested else None, self.fresh())
            self.put(p, v, st); return None
        if n == "insert":
            d = None
            if len(args) == 2: d = const(1)
            elif len(args) == 3:
                if args[1] and args[1][0] == "iter" and args[2] and args[2][0] == "iter" and args[1][1] == args[2][1]: d = sub(args[2][2], args[1][2])
                elif args[1] is not None and args[1][0] != "iter" and is_int((e["f"].get("pt") or ["", ""])[1]): d = args[1]
            self.put(p, ("vec", add(size(b), d) if d is not None else ("havoc", self.fresh()), elem(b), self.fresh()), st)
            return ("havoc", self.fresh())
        if n == "erase":
            d = None
            if len(args) == 1: d = const(1)
            elif len(args) == 2 and args[0] and args[1] and args[0][0] == "iter" and args[1][0] == "iter": d = sub(args[1][2], args[0][2])
            self.put(p, ("vec", sub(size(b), d) if d is not None else ("havoc", self.fresh()), elem(b), self.fresh()), st)
            return ("havoc", self.fresh())
        if n in ("reserve", "shrink_to_fit", "capacity"): return None
        if n == "swap": self.put(p, args[0] if args and args[0] else ("havoc", self.fresh()), st); return None
        return ("havoc", self.fresh())
    def e_OpCall(self, e, st):
        args = [self.ev(a, st) if a is not None else None for a in e["args"]]
        f = e.get("f"); op = e["op"]
        if op in ("+", "-") and len(args) == 2 and args[0] is not None and args[0][0] == "iter" and args[1] is not None:
            return ("iter", args[0][1], add(args[0][2], args[1], 1 if op == "+" else -1))
        c = self.P.callee(f)
        if c is not None:
            self.on_libcall(e, c, st, args)
            off = 1 if (c.cls and not c.static) else 0
            return self.libcall(e, c, args[off:], e["args"][off:], args[0] if off else None, st)
        if op == "()":
            for a in e["args"][1:]: pass
        for a, t in zip(e["args"][(1 if f and f.get("cls") else 0):], (f or {}).get("pt", [])):
            if a is not None and is_mut_ref(t):
                p = self.loc(a, st)
                if p is not None: self.put(p, ("havoc", self.fresh()), st)
        if op in ("++", "--", "+=", "-="):
            p = self.loc(e["args"][0], st)
            if p is not None: self.put(p, ("havoc", self.fresh()), st)
        return ("ext", op) + tuple(a for a in args if a is not None)
    # ---- formulas
    def asformula(self, v):
        if v is None: return ("b", ("havoc", self.fresh()), True)
        if v[0] == "fm": return v[1]
        if v[0] == "not": return f_not(self.asformula(v[1]))
        if v[0] == "ite": 
            a, b = self.asformula(v[2]), self.asformula(v[3])
            return f_or(f_and(v[1], a), f_and(f_not(v[1]), b))
        c = cval(v)
        if c is not None: return TRUE if c else FALSE
        if v[0] == "call":
            q = v[1].split("(")[0].split("::")
            if len(q) == 2 and q[0] == "MathUtils" and q[1] in CMPFN and len(v) >= 4:
                k, sw = CMPFN[q[1]]
                a, b = v[2], v[3]
                if sw: a, b = b, a
                if sw is None: a, b = sorted((a, b), key=repr)
                return ("b", (k, a, b) + tuple(v[4:]), True)
        return ("b", v, True)
    def formula(self, e, st):
        """boolean meaning of e; effects of e are applied to st (short circuit: joined)"""
        k = e["k"]
        if k == "Un" and e["op"] == "!": return f_not(self.formula(e["e"], st))
        if k == "Bin" and e["op"] in ("&&", "||"):
            a = self.formula(e["a"], st)
            t = self.copy(st); t.ctx = t.ctx | {a if e["op"] == "&&" else f_not(a)}
            b = self.formula(e["b"], t)
            keep = st.ctx
            if t.env != st.env: self._assign_state(st, self.join(st, t)); st.ctx = keep
            return f_and(a, b) if e["op"] == "&&" else f_or(a, b)
        if k == "Bin" and e["op"] in ("==", "!=", "<", ">", "<=", ">="):
            a, b = self.ev(e["a"], st), self.ev(e["b"], st)
            return self.compare(e["op"], a, b, e["a"].get("t", ""), e["b"].get("t", ""))
        if k == "Cast": return self.formula(e["e"], st) if base_type(e.get("from", "bool")) == "bool" else self.truth(self.ev(e["e"], st), e["e"].get("t", ""))
        v = self.ev(e, st)
        return self.truth(v, e.get("t", ""))
    def truth(self, v, t):
        if v is not None and base_type(t) in INTT and base_type(t) != "bool" and v[0] not in ("fm", "not"):
            return ("ne", canon_lin_eq(v)) if cval(v) is None else (TRUE if cval(v) else FALSE)
        return self.asformula(v)
    def compare(self, op, a, b, ta, tb):
        if a is None or b is None: return ("b", ("havoc", self.fresh()), True)
        ints = (is_int(ta, self.P) or cval(a) is not None and isinstance(cval(a), int)) and (is_int(tb, self.P) or cval(b) is not None and isinstance(cval(b), int))
        if base_type(ta) == "bool" and base_type(tb) == "bool" and op in ("==", "!="):
            c = cval(b); x = a
            if c is None: c, x = cval(a), b
            if c is not None:
                f = self.asformula(x)
                return f if bool(c) == (op == "==") else f_not(f)
        if ints:
            d = sub(a, b); c = cval(d)
            if c is not None:
                r = {"==": c == 0, "!=": c != 0, "<": c < 0, ">": c > 0, "<=": c <= 0, ">=": c >= 0}[op]
                return TRUE if r else FALSE
            if op == "==": return ("eq", canon_lin_eq(d))
            if op == "!=": return ("ne", canon_lin_eq(d))
            if op == "<=": return ("le", tolin(d))
            if op == "<": return ("le", tolin(add(d, const(1))))
            if op == ">=": return ("le", tolin(scale(d, -1)))
            return ("le", tolin(add(scale(d, -1), const(1))))
        if op in ("==", "!="):
            x, y = sorted((a, b), key=repr)
            return ("f", "==", x, y, op == "==")
        if op in (">", ">="): a, b, op = b, a, {">": "<", ">=": "<="}[op]
        return ("f", op, a, b, True)
    def cond(self, e, st):
        self.lastf = None
        try: f = self.formula(e, st)
        except Dead: return None, None
        self.lastf = f
        if f == TRUE: return st, None
        if f == FALSE: return None, st
        t = self.copy(st); t.ctx = t.ctx | {f}
        st.ctx = st.ctx | {f_not(f)}
        return t, st
    # ---- statements
    def x_If(self, s, st):
        before = st.ctx
        o = Out()
        if s.get("init"):
            oi = self.exec(s["init"], st); st = oi.n
        if s.get("cvar"):
            d = s["cvar"]; v = self.ev(d["init"], st) if d.get("init") else None; self.decl(d, st, v)
        t, f = self.cond(s["c"], st); fm = self.lastf
        a = self.exec(s["a"], t) if t is not None else Out(None)
        b = self.exec(s["b"], f) if (s.get("b") and f is not None) else Out(f)
        # a branch that only throws says nothing about the order of guards: forget its negation
        if t is not None and a.n is None and not (a.r or a.b or a.c) and b.n is not None and not s.get("b"): b.n.ctx = before | self.assume_after(s, b.n.ctx, before)
        self.phic = fm if self.ites else None
        o.n = self.joinopt(a.n, b.n); o.absorb(a); o.absorb(b)
        self.phic = None
        return o
    ites = False; once = False
    def assume_after(self, s, ctx, before): return frozenset()
    def decl(self, d, st, v):
        t = d.get("t", "")
        i = d.get("init")
        if d.get("rangeof") is not None:
            r = self.loc(d["rangeof"], st)
            if is_ref(t) and r is not None: st.ref[d["id"]] = (r[0], r[1] + [("[]", ("iv", d["id"]), isvec_type(t))])
            else:
                b = self.ev_q(d["rangeof"], st)
                el = elem(b) if b is not None and b[0] == "vec" else None
                self.put((d["id"], []), el if el is not None else ("at", b, ("iv", d["id"]), isvec_type(t)), st)
            return
        if is_ref(t) and i is not None:
            r = self.loc(i, st)
            if r is not None: st.ref[d["id"]] = r; return
        st.ref.pop(d["id"], None)
        if v is None:
            b = base_type(t)
            if b.startswith("vector"): v = self.newvec(b, const(0))
            elif re.search(r"\[(\d+)\]", b):
                dims = [int(x) for x in re.findall(r"\[(\d+)\]", b)]
                v = None
                for n in reversed(dims): v = ("vec", const(n), v, self.fresh())
            elif b in self.P.records: v = self.newrec(b)
            else: v = ("uninit", self.fresh())
        if v[0] == "init" and not isvec_type(t): pass
        self.put((d["id"], []), v, st)
    def on_decl(self, d, st, v): self.decl(d, st, v)
    def x_Decl(self, s, st):
        for d in s["d"]:
            v = None
            if d.get("init"):
                if is_ref(d.get("t", "")) and self.loc(d["init"], st) is not None:
                    self.lhs(d["init"], st)
                else: v = self.ev(d["init"], st)
                if v is None and not is_ref(d.get("t", "")): v = ("havoc", self.fresh())
            self.decl(d, st, v)
        return Out(st)
    def x_Return(self, s, st):
        o = Out()
        v = self.ev(s["e"], st) if s.get("e") else None
        if not self.inl: self.on_ret(s, st, v)
        o.r.append((st, s.get("e"), v)); return o
    # ---- loops: everything the body may change is forgotten; counted variables and unconditional appends get closed forms
    def modified(self, node, st):
        """locations (root, field prefix) the node may modify: [(root, prefix tuple, kind)]"""
        r = {}
        def note(e, kind, n=None):
            p = self.loc_q(e, st)
            if p is None: return
            pre = []
            for c in p[1]:
                if isinstance(c, tuple): kind = kind if kind == "size" and False else ("elem" if kind in ("set", "elem", "size") else kind); break
                pre.append(c)
            r.setdefault((p[0],) + tuple(pre), set()).add(kind)
        for n in walk(node):
            k = n["k"]
            if k == "Assign": note(n["a"], "set")
            elif k == "Un" and n["op"] in ("++", "--"): note(n["e"], "set")
            elif k in ("Decl",):
                for d in n["d"]: r.setdefault((d["id"],), set()).add("decl")
            elif k == "Inl":
                for d in n["binds"]: r.setdefault((d["id"],), set()).add("decl")
            elif k == "RangeFor": r.setdefault((n["v"]["id"],), set()).add("decl")
            elif k == "MCall":
                f = n.get("f") or {}
                c = self.P.callee(f)
                if c is None:
                    nm = f.get("n", "")
                    if self.grow(n) is not None: note(n["b"], "push")
                    elif nm in ("resize", "clear", "insert", "erase", "assign", "pop_back", "swap", "push", "pop", "emplace", "operator=", "push_front"): note(n["b"], "size")
                    elif not f.get("const") and f.get("cls") not in ("vector", "array") and nm not in ("begin", "end"): note(n["b"], "size")
                elif "this" in self.eff.w.get(c.key, ()): note(n["b"], "set")
            if k in ("Call", "MCall", "OpCall", "Ctor") and isinstance(n.get("f"), dict):
                c = self.P.callee(n["f"])
                args = n["args"]
                if c is not None:
                    off = 1 if (k == "OpCall" and c.cls and not c.static) else 0
                    w = self.eff.w.get(c.key, ())
                    if off and "this" in w: note(args[0], "set")
                    for i, p in enumerate(c.params):
                        if i + off < len(args) and args[i + off] is not None and i in w and (is_ref(p["t"]) or "*" in p["t"]): note(args[i + off], "fixed" if "*" in p["t"] and not base_type(p["t"]).startswith("vector") else "size")
                else:
                    nm = n["f"].get("n", "")
                    for a, t in zip(args, n["f"].get("pt", [])):
                        if a is not None and is_mut_ref(t) and nm not in ("move", "forward", "begin", "end", "max", "min"): note(a, "size")
                    for a in args:
                        if nm in ("sort", "reverse", "fill", "copy", "transform", "iota", "rotate"):
                            for x in self.iter_targets(a): note(x, "elem")
                    if k == "OpCall" and n["op"] in ("++", "--", "+=", "-=") and args: note(args[0], "set")
        return r
    def loc_q(self, e, st):
        k = e["k"]
        if k == "Var":
            if e.get("global"): return (("g", e.get("q")), [])
            if e["id"] in st.ref:
                r = st.ref[e["id"]]; return (r[0], list(r[1])) if r is not None else None
            # reference declared inside the loop: look through its initialiser
            if e["id"] in self.inner_refs:
                return self.loc_q(self.inner_refs[e["id"]], st) if self.inner_refs[e["id"]] is not None else None
            return (e["id"], [])
        if k == "This": return ("this", [])
        if k == "Member":
            b = self.loc_q(e["b"], st) if e.get("b") else ("this", [])
            return None if b is None else (b[0], b[1] + [e["f"]])
        if k == "Index":
            b = self.loc_q(e["b"], st)
            return None if b is None else (b[0], b[1] + [("[]", None, False)])
        if k == "Cast" and e.get("e"): return self.loc_q(e["e"], st)
        if k == "MCall" and e["f"]["n"] in ("back", "front") and e.get("b"):
            b = self.loc_q(e["b"], st)
            return None if b is None else (b[0], b[1] + [("[]", None, False)])
        return None
    inner_refs = {}
    inl = 0
    def uncond(self, body):
        """(top-level statements executed on every iteration, whether the body can leave early)"""
        early = False
        top = []
        def can_leave(n, inloop=False):
            if n is None: return False
            k = n["k"]
            if k in ("Return",): return True
            if k in ("Break", "Continue"): return not inloop
            if k in ("For", "While", "Do", "RangeFor"): return can_leave(n["body"], True)
            if k == "Switch": return any(x["k"] in ("Return", "Continue") for x in walk(n))
            if k == "If": return can_leave(n["a"], inloop) or can_leave(n.get("b"), inloop)
            if k == "Block": return any(can_leave(x, inloop) for x in n["s"])
            if k in ("Case", "Default", "Label"): return can_leave(n["body"], inloop)
            if k == "Try": return True
            return False
        def flat(n):
            nonlocal early
            if n is None: return
            if n["k"] == "Block":
                for x in n["s"]: flat(x)
            else:
                if not early: top.append(n)
                if can_leave(n): early = True
        flat(body)
        return top, early
    def comma(self, e):
        while e["k"] == "Cast" and e.get("e"): e = e["e"]
        if e["k"] == "Bin" and e["op"] == ",": return self.comma(e["a"]) + self.comma(e["b"])
        return [e]
    def counted(self, s, st):
        """(var id, lo, last (inclusive), step) for counted loops"""
        if s["k"] != "For": return None
        inc = s.get("inc"); c = s.get("c")
        if not inc or not c: return None
        step = None; vid = None
        parts = self.comma(inc)
        if len(parts) > 1:
            # several variables advance: the one the condition looks at counts
            cv = [n["id"] for n in walk(c) if n["k"] == "Var" and not n.get("global")]
            cand = [x for x in parts if (x.get("e") if x["k"] == "Un" else x.get("a") or {}).get("k") == "Var" and (x["e"] if x["k"] == "Un" else x["a"])["id"] in cv]
            if len(cand) != 1: return None
            inc = cand[0]
        if inc["k"] == "Un" and inc["op"] in ("++", "--") and inc["e"]["k"] == "Var": vid = inc["e"]["id"]; step = 1 if inc["op"] == "++" else -1
        elif inc["k"] == "Assign" and inc["a"]["k"] == "Var" and inc["op"] in ("+=", "-="):
            v = cval(self.ev(inc["b"], self.copy(st)) or ())  if inc["b"]["k"] == "Int" else None
            if v is None: return None
            vid = inc["a"]["id"]; step = v if inc["op"] == "+=" else -v
        elif inc["k"] == "Assign" and inc["op"] == "=" and inc["a"]["k"] == "Var" and inc["b"]["k"] == "Bin" and inc["b"]["op"] in "+-" and inc["b"]["a"]["k"] == "Var" and inc["b"]["a"]["id"] == inc["a"]["id"] and inc["b"]["b"]["k"] == "Int":
            vid = inc["a"]["id"]; step = int(inc["b"]["b"]["v"]) * (1 if inc["b"]["op"] == "+" else -1)
        if vid is None or not step: return None
        for n in walk(s["body"]):
            if n["k"] == "Assign" and n["a"]["k"] == "Var" and n["a"]["id"] == vid: return None
            if n["k"] == "Un" and n["op"] in ("++", "--") and n["e"]["k"] == "Var" and n["e"]["id"] == vid: return None
            if n["k"] in ("Call", "MCall", "OpCall") and isinstance(n.get("f"), dict):
                off = 0
                for a, t in zip(n["args"], n["f"].get("pt", [])):
                    if a is not None and a["k"] == "Var" and a["id"] == vid and is_mut_ref(t): return None
        return vid, step
    def bound(self, s, vid, step, st):
        """inclusive last value from the conjuncts of the loop condition"""
        def conj(e):
            if e["k"] == "Bin" and e["op"] == "&&": yield from conj(e["a"]); yield from conj(e["b"])
            else: yield e
        for c in conj(s["c"]):
            if c["k"] != "Bin" or c["op"] not in ("<", "<=", ">", ">=", "!="): continue
            a, b, op = c["a"], c["b"], c["op"]
            def strip(x):
                while x["k"] == "Cast": x = x["e"]
                return x
            def shift(x):
                """vid + const"""
                x = strip(x)
                if x["k"] == "Var" and x["id"] == vid: return 0
                if x["k"] == "Bin" and x["op"] in "+-" and strip(x["a"])["k"] == "Var" and strip(x["a"])["id"] == vid and strip(x["b"])["k"] == "Int": return int(strip(x["b"])["v"]) * (1 if x["op"] == "+" else -1)
                return None
            sh = shift(a)
            if sh is None:
                sh = shift(b)
                if sh is None: continue
                a, b = b, a; op = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "!=": "!="}[op]
            if any(n["k"] == "Var" and n["id"] == vid for n in walk(b)): continue
            v = self.ev(b, self.copy(st))
            if v is None: continue
            v = sub(v, const(sh))
            if step > 0 and op in ("<", "!="): return sub(v, const(1)), len(list(conj(s["c"]))) == 1
            if step > 0 and op == "<=": return v, len(list(conj(s["c"]))) == 1
            if step < 0 and op in (">", "!="): return add(v, const(1)), len(list(conj(s["c"]))) == 1
            if step < 0 and op == ">=": return v, len(list(conj(s["c"]))) == 1
        return None, False
    def loop(self, s, st, init, condf, bodyf, incf, dofirst=False):
        """one pass; a container whose size comes back to what it was before the loop (work buffers cleared at the end of the body) gets that
        size at the loop head in a second pass"""
        if not self.once or len(self.loops) > 2: return self.loop1(s, st, init, condf, bodyf, incf, dofirst)[0]
        st0 = self.copy(st)
        o, stable = self.loop1(s, st, init, condf, bodyf, incf, dofirst, probe=True)
        if not stable: return o
        return self.loop1(s, st0, init, condf, bodyf, incf, dofirst, stable)[0]
    def loop1(self, s, st, init, condf, bodyf, incf, dofirst=False, stable=(), probe=False):
        o = Out()
        if init: st = self.exec(init, st).n
        if st is None: return o, ()
        saved_refs = self.inner_refs
        self.inner_refs = dict(saved_refs)
        for n in walk(s["body"]):
            if n["k"] == "Decl":
                for d in n["d"]:
                    if is_ref(d.get("t", "")): self.inner_refs[d["id"]] = d.get("init")
            elif n["k"] == "RangeFor" and is_ref(n["v"].get("t", "")): self.inner_refs[n["v"]["id"]] = {"k": "Index", "b": n["r"], "i": {"k": "Int", "v": 0, "t": "int", "l": 0}, "t": "", "l": 0}
        if s["k"] == "RangeFor" and is_ref(s["v"].get("t", "")): self.inner_refs[s["v"]["id"]] = {"k": "Index", "b": s["r"], "i": {"k": "Int", "v": 0, "t": "int", "l": 0}, "t": "", "l": 0}
        nodes = [s["body"]] + ([s["c"]] if s.get("c") else []) + ([s["inc"]] if s.get("inc") else [])
        mod = {}
        for nd in nodes:
            for k, v in self.modified(nd, st).items(): mod.setdefault(k, set()).update(v)
        lid = self.fresh()
        cnt = self.counted(s, st)
        trip = None; ivt = None; exact = False; lo = last = None
        if cnt:
            vid, step = cnt
            lo = self.get((vid, []), st)
            last, exact = self.bound(s, vid, step, st)
            ivt = ("iv", lid)
            if last is not None and lo is not None:
                # the bound must not change inside the loop
                chg = self.bound_changes(s, mod, vid)
                if chg: last = None
            if last is not None:
                if abs(step) == 1: trip = add(sub(last, lo) if step > 0 else sub(lo, last), const(1))
                lt = self.tight(lo, last, step)
                if abs(step) != 1 and lt is not None: trip = add(scale(sub(lt, lo), Fraction(1, step)), const(1))
                if lt is None: self.ivloose.add(lid); lt = last
                self.iv[lid] = (lo, lt) if step > 0 else (lt, lo)
            mod[(vid,)] = {"iv"}
        elif s["k"] == "RangeFor":
            b = self.ev_q(s["r"], st)
            if b is not None: trip = size(b); ivt = ("iv", s["v"]["id"]); self.iv[s["v"]["id"]] = (const(0), sub(trip, const(1)))
            lo = const(0); step = 1; exact = True
        top, early = self.uncond(s["body"])
        before = {}
        closed = {}
        head = self.copy(st)
        for key, kinds in mod.items():
            if kinds == {"decl"}: continue
            p = (key[0], list(key[1:]))
            old = self.get(p, st) if not ("decl" in kinds) else None
            if kinds == {"iv"}: self.put(p, ivt, head); continue
            if "decl" in kinds and key[0] not in head.env: continue
            new = None
            if old is not None and key in stable: new = ("vec", size(old), None, self.fresh())
            elif old is not None and kinds <= {"elem", "fixed"}:
                new = ("vec", size(old), elem(old), self.fresh())
            elif old is not None and kinds <= {"push", "elem"} and "push" in kinds and trip is not None:
                n = self.count_push(s["body"], key, st)
                if n is not None:
                    it = scale(sub(ivt, lo), Fraction(1, step))
                    new = ("vec", add(size(old), scale(it, n)), elem(old) if cval(size(old)) != 0 or True else None, self.fresh())
                    closed[key] = add(size(old), scale(trip, n))
                else: new = ("vec", ("loop", lid, key_str(key), "size"), None, self.fresh())
            elif old is not None and kinds == {"set"} and trip is not None:
                k = self.count_inc(top, s, key, st)
                if k is not None and old[0] != "vec":
                    it = scale(sub(ivt, lo), Fraction(1, step))
                    new = add(old, scale(it, k)); closed[key] = add(old, scale(trip, k))
            if new is None:
                if old is not None and kinds <= {"push", "elem", "fixed"}: new = ("vec", ("loop", lid, key_str(key), "size"), None, self.fresh())
                elif old is not None and old[0] == "vec" and "set" in kinds and False: new = None
                else: new = ("loop", lid, key_str(key))
            self.put(p, new, head)
        self.loops.append(lid)
        self.on_loop(s, st, lid, cnt, trip)
        cur = self.copy(head)
        ctx0 = st.ctx
        exits = []; rets = []
        if not dofirst:
            t, f = condf(cur)
            if f is not None: exits.append(("f", f))
        else: t = cur
        fallback = None
        if t is not None:
            b = bodyf(t)
            rets = b.r
            back = self.joinall([x for x in [b.n] + b.c if x is not None])
            if back is not None and incf:
                try: incf(back)
                except Dead: back = None
            fallback = back
            if dofirst and back is not None:
                tt, ff = condf(back)
                if ff is not None: exits.append(("f", ff))
            for x in b.b: exits.append(("b", x))
        self.loops.pop()
        if probe and fallback is not None:
            stable = set()
            for key, kinds in mod.items():
                if kinds & {"iv", "decl"} or kinds <= {"elem", "fixed"} or key in closed: continue
                p = (key[0], list(key[1:])); old = self.get(p, st); bv = self.get(p, fallback)
                if old[0] == "vec" and bv[0] == "vec" and cval(old[1]) is not None and cval(old[1]) == cval(bv[1]): stable.add(key)
            if stable: self.inner_refs = saved_refs; return o, stable
        outs = []
        for kind, x in exits:
            x = self.copy(x)
            x.ctx = frozenset(c for c in x.ctx if c in ctx0)
            if kind == "f" and not dofirst:
                # values after normal exit
                for key in mod:
                    p = (key[0], list(key[1:]))
                    if key in closed:
                        v = self.get(p, x)
                        if v[0] == "vec":
                            bv = self.get(p, fallback) if fallback is not None else v
                            el = elem(bv) if bv[0] == "vec" else elem(v)
                            self.put(p, ("vec", closed[key], self.deiv(el, lid), self.fresh()), x)
                        else: self.put(p, closed[key], x)
                    elif mod[key] <= {"elem", "fixed"}:
                        if fallback is not None:
                            bv = self.get(p, fallback); v = self.get(p, x)
                            if bv[0] == "vec" and v[0] == "vec": self.put(p, ("vec", size(v), self.deiv(elem(bv), lid), self.fresh()), x)
                    elif mod[key] <= {"push", "elem", "fixed"}:
                        if fallback is not None:
                            bv = self.get(p, fallback); v = self.get(p, x)
                            if bv[0] == "vec" and v[0] == "vec" and elem(bv) is not None: self.put(p, ("vec", size(v), self.deiv(elem(bv), lid), self.fresh()), x)
                if self.once and fallback is not None:
                    for key in mod:
                        if key in closed or mod[key] <= {"iv"} or "decl" in mod[key]: continue
                        p = (key[0], list(key[1:])); v = self.get(p, x)
                        if not any(y and y[0] == "loop" and y[1] == lid for y in subterms(v) if y and isinstance(y[0], str)): continue
                        nv = self.after_once(self.get(p, fallback), lid, fallback)
                        if nv is not None: self.put(p, nv, x)
                if cnt and last is not None and exact:
                    self.put((cnt[0], []), add(last, const(cnt[1])) if abs(cnt[1]) == 1 else ("loop", lid, "end"), x)
                elif cnt: self.put((cnt[0], []), ("loop", lid, "end"), x)
            outs.append(x)
        o.n = self.joinall(outs); o.r = rets
        self.inner_refs = saved_refs
        return o, ()
    def tight(self, lo, last, step):
        """last value a strided loop variable really takes, None when it depends on a remainder"""
        n = abs(step)
        if n == 1: return last
        d = tolin(sub(last, lo) if step > 0 else sub(lo, last))
        if any(not isinstance(k, int) or k % n for _, k in d[2]) or not isinstance(d[1], int): return None
        return sub(last, const(d[1] % n)) if step > 0 else add(last, const(d[1] % n))
    def after_once(self, v, lid, st, depth=0):
        """value after a loop that ran at least once, from the value at the end of its body; None when it varies"""
        def inv(t): return not any(y and (y == ("iv", lid) or y[0] == "loop" and y[1] == lid) for y in subterms(t) if y and isinstance(y[0], str))
        if v[0] == "vec":
            if not inv(v[1]): return None
            return ("vec", v[1], self.after_once(v[2], lid, st, depth + 1) if v[2] is not None else None, self.fresh())
        if v[0] == "rec":
            fs = []
            for k, x in v[1]:
                y = self.after_once(x, lid, st, depth + 1)
                fs.append((k, y if y is not None else ("loop", lid, "f" + k)))
            return ("rec", tuple(fs), ("loop", lid, "base"))
        if inv(v): return v
        s = size(v)
        if s[0] != "size" and inv(s): return ("vec", s, None, self.fresh())
        return None
    def deiv(self, el, lid):
        """element shape after the loop: sizes that depend on the loop variable are unknown"""
        if el is None or el[0] != "vec": return el
        s = el[1]
        if any(x == ("iv", lid) for x in subterms(s)): s = ("loop", lid, "esize")
        return ("vec", s, self.deiv(el[2], lid), el[3])
    def on_loop(self, s, st, lid, cnt, trip): pass
    def bound_changes(self, s, mod, vid):
        for n in walk(s["c"]):
            if n["k"] == "Var" and n["id"] != vid:
                for key, kinds in mod.items():
                    if key[0] == n["id"] and kinds - {"elem", "fixed", "decl"}: return True
                    if key[0] == n["id"] and kinds & {"elem"} and False: return True
        return False
    def _key(self, e, st):
        p = self.loc_q(e, st)
        if p is None or any(isinstance(c, tuple) for c in p[1]): return None
        return (p[0],) + tuple(p[1])
    def grow(self, x):
        """change of the size of the container by a single-element call; None for any other call"""
        if x["k"] != "MCall" or not isinstance(x.get("f"), dict): return None
        n = x["f"].get("n"); na = len([a for a in x["args"] if a is not None])
        if n in ("push_back", "emplace_back"): return 1
        if n == "pop_back": return -1
        if n in ("insert", "emplace") and na == 2 and x["f"].get("cls") == "vector" and elem_type((x.get("b") or {}).get("t", "")) is not None: return 1 if n == "emplace" or "initializer_list" not in (x["f"].get("pt") or ["", ""])[1] else None
        if n == "erase" and na == 1 and elem_type((x.get("b") or {}).get("t", "")) is not None: return -1
        return None
    def count_push(self, body, key, st):
        """net number of elements added to `key` by each iteration that is completed, None when it differs between paths"""
        def site(x): return x["k"] == "MCall" and self.grow(x) is not None and self._key(x["b"], st) == key
        def ex(e):
            """set of deltas of an expression, None unknown"""
            if e is None or e["k"] == "Lambda": return None if e is not None and any(site(x) for x in walk(e)) else {0}
            k = e["k"]
            if k == "Inl":
                R = {0}
                for b in e.get("binds", ()): R = seq(R, ex(b.get("init")))
                q = go(e["body"])
                return None if q is None else seq(R, q[0] | q[2])
            if k == "Cond":
                c, a, b = ex(e["c"]), ex(e["a"]), ex(e["b"])
                return None if None in (c, a, b) else seq(c, a | b)
            if k == "Bin" and e["op"] in ("&&", "||"):
                a, b = ex(e["a"]), ex(e["b"])
                return None if None in (a, b) else seq(a, b | {0})
            R = {0}
            for c in children(e):
                R = seq(R, ex(c))
                if R is None: return None
            return {r + self.grow(e) for r in R} if site(e) else R
        def seq(a, b): return None if a is None or b is None else {x + y for x in a for y in b}
        def go(n):
            """(normal, continue, return) delta sets"""
            if n is None: return {0}, set(), set()
            k = n["k"]
            if k == "Block":
                N = {0}; C = set(); R = set()
                for x in n["s"]:
                    if not N: break
                    q = go(x)
                    if q is None: return None
                    C |= seq(N, q[1]); R |= seq(N, q[2]); N = seq(N, q[0])
                return N, C, R
            if k == "Expr":
                if n["e"]["k"] == "Throw": return set(), set(), set()
                r = ex(n["e"]); return None if r is None else (r, set(), set())
            if k == "Decl":
                r = {0}
                for d in n["d"]: r = seq(r, ex(d.get("init")))
                return None if r is None else (r, set(), set())
            if k == "If":
                c = ex(n["c"]); a = go(n["a"]); b = go(n.get("b"))
                if c is None or a is None or b is None: return None
                return tuple(seq(c, x | y) for x, y in zip(a, b))
            if k == "Break": return set(), set(), set()
            if k == "Continue": return set(), {0}, set()
            if k == "Return": return set(), set(), ex(n.get("e")) or {0}
            if k in ("For", "While", "Do", "RangeFor"):
                if any(site(x) for x in walk(n)): return None
                return {0}, set(), ({0} if any(x["k"] == "Return" for x in walk(n)) else set())
            if any(site(x) for x in walk(n)): return None
            if any(x["k"] == "Continue" for x in walk(n)): return {0}, {0}, {0}
            return {0}, set(), {0} if any(x["k"] == "Return" for x in walk(n)) else set()
        q = go(body)
        if q is None: return None
        t = q[0] | q[1]
        return next(iter(t)) if len(t) == 1 else None
    def count_inc(self, top, s, key, st):
        total = None; c = 0; nsite = 0; body = s["body"]
        inc = self.comma(s["inc"]) if s.get("inc") else []
        top = list(top) + [{"k": "Expr", "e": x} for x in inc]
        for n in [y for b in [body] + inc for y in walk(b)]:
            if n["k"] == "Assign" and self._key(n["a"], st) == key:
                if n["op"] not in ("+=", "-=") or not is_int(n["t"]): return None
                nsite += 1
            elif n["k"] == "Un" and n["op"] in ("++", "--") and self._key(n["e"], st) == key: nsite += 1
        for n in top:
            if n["k"] != "Expr": continue
            e = n["e"]
            if e["k"] == "Un" and e["op"] in ("++", "--") and self._key(e["e"], st) == key: c += 1 if e["op"] == "++" else -1; nsite -= 1
            elif e["k"] == "Assign" and e["op"] in ("+=", "-=") and self._key(e["a"], st) == key and e["b"]["k"] == "Int": c += int(e["b"]["v"]) * (1 if e["op"] == "+=" else -1); nsite -= 1
        return c if nsite == 0 else None
    def x_RangeFor(self, s, st):
        self.ev_q(s["r"], st)
        def c(x): return self.copy(x), x
        def b(x):
            self.decl(dict(s["v"], init=None, rangeof=s["r"]), x, None)
            return self.exec(s["body"], x)
        return self.loop(s, st, None, c, b, None)
    def x_Switch(self, s, st):
        v = self.ev(s["c"], st)
        items = s["body"]["s"] if s["body"]["k"] == "Block" else [s["body"]]
        o = Out(); cur = None; seen = []
        dflt = False; base = st
        allc = [self.ev(x["v"], self.copy(st)) for x in self._cases(items)]
        def eqf(c): return ("eq", canon_lin_eq(sub(v, c))) if cval(sub(v, c)) is None else (TRUE if cval(sub(v, c)) == 0 else FALSE)
        for it in items:
            if it["k"] in ("Case", "Default"):
                fs = []
                while it is not None and it["k"] in ("Case", "Default"):
                    if it["k"] == "Case": fs.append(eqf(self.ev(it["v"], self.copy(st))))
                    else: dflt = True; fs.append(f_and(*[f_not(eqf(c)) for c in allc]))
                    it = it["body"]
                ent = self.copy(base); ent.ctx = ent.ctx | {f_or(*fs)}
                cur = self.joinopt(cur, ent)
            if cur is None: continue
            o2 = self.exec(it, cur) if it is not None else Out(cur)
            cur = o2.n; o.absorb(o2)
        ends = [x for x in [cur] + o.b if x is not None]; o.b = []
        if not dflt:
            d = self.copy(base); d.ctx = d.ctx | {f_not(eqf(c)) for c in allc}; ends.append(d)
        o.n = self.joinall(ends)
        if o.n is not None: o.n.ctx = o.n.ctx & st.ctx if len(ends) > 1 else o.n.ctx
        return o
    def run(self):
        st = SS()
        if self.f.ctor:
            for i in getattr(self.f, "inits", None) or ():
                if i.get("e") is not None and isvec_type(i["e"].get("t", "")): self.put(("this", [i["f"]]), self.ev(i["e"], st), st)
        o = self.exec(self.f.body, st)
        rets = list(o.r)
        if o.n is not None: rets.append((o.n, None, None)); self.on_ret(None, o.n, None)
        return rets
def key_str(k): return "/".join(str(x) for x in k)
