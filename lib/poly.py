"""Value numbering with polynomial normal forms, for facts about a quantity being zero or not.

Atoms are interned value numbers (parameters, members, call results, loop-carried values); a value is a polynomial over
atoms with rational coefficients.  Norms, dot products of a vector with itself, distances, square roots, absolute values and
powers are reduced to one atom whose vanishing is equivalent."""
from fractions import Fraction
from ir import *
from flow import Flow, Dead
from effects import roots, aliases, MUTATING, PASS_ALGO_WRITE
CAP = 60
TINY = Fraction(1, 10**30)

class Tab:
    def __init__(s): s.id = {}; s.d = []
    def atom(s, *desc):
        i = s.id.get(desc)
        if i is None: i = s.id[desc] = len(s.d); s.d.append(desc)
        return i
    def poly(s, *desc): return pv(s.atom(*desc))

def pc(c): return ((((), Fraction(c)),)) if c else ()
def pv(a): return ((((a, 1),), Fraction(1)),)
def mk(d): return tuple(sorted((m, c) for m, c in d.items() if c))
def add(p, q, k=1):
    d = dict(p)
    for m, c in q: d[m] = d.get(m, 0) + k * c
    return mk(d)
def mmul(m, n):
    d = dict(m)
    for a, e in n: d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items()))
def mul(p, q):
    if len(p) * len(q) > CAP: return None
    d = {}
    for m, c in p:
        for n, e in q:
            k = mmul(m, n); d[k] = d.get(k, 0) + c * e
    return mk(d)
def const(p):
    if p == (): return Fraction(0)
    if len(p) == 1 and p[0][0] == (): return p[0][1]
    return None
def monic(p):
    """p up to a non-zero rational factor (its vanishing is unchanged)"""
    return p if not p else tuple((m, c / p[0][1]) for m, c in p)
def atoms_of(p): return {a for m, c in p for a, e in m}
def ispoly(x): return isinstance(x, tuple) and all(isinstance(y, tuple) and len(y) == 2 and isinstance(y[0], tuple) and not isinstance(y[1], tuple) for y in x)
def polys_in(x):
    """the polynomials among the arguments of an application (an initialiser list holds several)"""
    if not isinstance(x, tuple): return
    if ispoly(x): yield x
    else:
        for y in x: yield from polys_in(y)

ROOTLIKE = {"sqrt", "abs", "fabs", "cbrt"}
TOLF = {"IsAlmostEqualTo": "==", "IsGreaterThan": ">", "IsGreaterThanOrEqual": ">=", "IsLessThan": "<", "IsLessThanOrEqual": "<="}
VECT = ("XYZ", "UV", "XYZW")

class S:
    """state: env var -> poly; pos: p>0; nz: p!=0 (monic); z: p==0 (monic).  All facts hold on every path to here."""
    def __init__(s): s.env = {}; s.pos = frozenset(); s.nz = frozenset(); s.z = frozenset(); s.cl = frozenset()
    def copy(s):
        n = S(); n.env = dict(s.env); n.pos = s.pos; n.nz = s.nz; n.z = s.z; n.cl = s.cl; return n

class VN(Flow):
    """value-numbering flow; subclasses override on_div(e, st, num, den, nume, dene) and on_test(...)"""
    def __init__(s, P, eff, f, body=None, T=None):
        s.P = P; s.eff = eff; s.f = f; s.T = T or Tab(); s.body = body or f.body
        s.al = aliases(s.body); s.consts = {}; s.lams = []; s.wided = set()
    # ---- lattice
    def copy(s, st): return st.copy()
    def join(s, a, b):
        n = S(); n.pos = a.pos & b.pos
        n.cl = frozenset(c for c in a.cl | b.cl if s.clause(c, a) and s.clause(c, b))
        n.z = a.z & b.z
        n.nz = frozenset(p for p in a.nz | b.nz | {monic(p) for p in a.pos ^ b.pos} if s.nonzero(p, a) and s.nonzero(p, b))
        n.pos |= frozenset(p for p in a.pos ^ b.pos if s.positive(p, a) and s.positive(p, b))
        # correlations: where the branches disagree about p, what each of them knows holds conditionally
        for x, y in ((a, b), (b, a)):
            for p in x.z & y.nz if len(x.z) < 40 else ():
                for q in list(x.nz - y.nz)[:12]: n.cl |= {frozenset(((p, "!="), (q, "!=")))}
                for q in list(x.z - y.z - {p})[:12]: n.cl |= {frozenset(((p, "!="), (q, "==")))}
                for q in list(y.nz - x.nz - {p})[:12]: n.cl |= {frozenset(((p, "=="), (q, "!=")))}
        for v in a.env.keys() | b.env.keys():
            x, y = s.get(v, a), s.get(v, b)
            n.env[v] = x if x == y else s.T.poly("phi", v, x, y)
        # a fact about the merged value follows from the same fact about both sources
        for v, p in n.env.items():
            x, y = s.get(v, a), s.get(v, b)
            if x != y:
                if s.nonzero(x, a) and s.nonzero(y, b): n.nz |= {monic(p)}
                if s.positive(x, a) and s.positive(y, b): n.pos |= {p}
        return n
    def eq(s, a, b): return a.env == b.env and a.pos == b.pos and a.nz == b.nz and a.z == b.z and a.cl == b.cl
    def get(s, v, st):
        p = st.env.get(v)
        return p if p is not None else s.T.poly("var", v)
    # ---- queries
    def positive(s, p, st):
        c = const(p)
        if c is not None: return c > 0
        if p in st.pos: return True
        for q in st.pos:
            c = const(add(p, q, -1))
            if c is not None and c >= 0: return True
        return False
    def nonzero(s, p, st, depth=0):
        c = const(p)
        if c is not None: return c != 0
        m = monic(p)
        if m in st.nz or s.positive(p, st) or s.positive(tuple((k, -c) for k, c in p), st): return True
        if len(p) == 1 and p[0][0]:
            return all(s.atom_nonzero(a, st, depth) for a, e in p[0][0])
        # a sum of terms that are all non-negative powers with one positive term
        if all(c > 0 and all(e % 2 == 0 or s.nonneg(a) for a, e in m) for m, c in p) and any(all(s.atom_nonzero(a, st, depth) for a, e in m) for m, c in p): return True
        return False
    def nonneg(s, a): return s.T.d[a][0] in ("norm", "nn")
    def atom_nonzero(s, a, st, depth=0):
        p = pv(a)
        if p in st.nz or s.positive(p, st): return True
        d = s.T.d[a]
        if d[0] == "inv": return True
        if d[0] == "nn" and d[1] in ROOTLIKE and depth < 4: return s.nonzero(d[2], st, depth + 1)
        if d[0] == "phi" and depth < 4: return s.nonzero(d[2], st, depth + 1) and s.nonzero(d[3], st, depth + 1)
        return False
    def zero(s, p, st):
        c = const(p)
        if c is not None: return c == 0
        if monic(p) in st.z: return True
        return all(m and any(s.atom_zero(a, st) for a, e in m) for m, c in p)
    def atom_zero(s, a, st):
        if pv(a) in st.z: return True
        d = s.T.d[a]
        return d[0] == "nn" and d[1] in ROOTLIKE and s.zero(d[2], st)
    def assume(s, p, op, st, isint=False):
        """adds the fact (p op 0) to st; returns None when it is contradictory"""
        c = const(p)
        if c is not None:
            ok = {"==": c == 0, "!=": c != 0, ">": c > 0, ">=": c >= 0, "<": c < 0, "<=": c <= 0}[op]
            return st if ok else None
        neg = tuple((m, -c) for m, c in p)
        if op == "==":
            if s.nonzero(p, st): return None
            st.z |= {monic(p)}
            i = s.inner(p)
            if i is not None: return s.assume(i, "==", st)
        elif op == "!=":
            if monic(p) in st.z: return None
            st.nz |= {monic(p)}
            if len(p) == 1: st.nz |= {pv(a) for a, e in p[0][0]}
            s.inner_nz(p, st)
        elif op == ">":
            if monic(p) in st.z: return None
            st.pos |= {p}
            if len(p) == 1: st.nz |= {pv(a) for a, e in p[0][0]}
            s.inner_nz(p, st)
        elif op == "<": return s.assume(neg, ">", st, isint)
        elif op == ">=": st.pos |= {add(p, pc(1 if isint else TINY))}
        elif op == "<=": st.pos |= {add(neg, pc(1 if isint else TINY))}
        return st
    # ---- disjunctive facts: clauses of literals (p, op), with unit propagation
    def lit(s, l, st):
        p, op = l
        if op == "==": return True if s.zero(p, st) else False if s.nonzero(p, st) else None
        if op == "!=": return True if s.nonzero(p, st) else False if s.zero(p, st) else None
        if op == ">": return True if s.positive(p, st) else False if s.zero(p, st) else None
        return None
    def clause(s, c, st): return c in st.cl or any(s.lit(l, st) for l in c)
    def propagate(s, st):
        for _ in range(3):
            ch = False
            for c in list(st.cl):
                vs = [(l, s.lit(l, st)) for l in c]
                if any(v for _, v in vs): continue
                un = [l for l, v in vs if v is None]
                if len(un) == 1:
                    st.cl -= {c}
                    if s.assume(un[0][0], un[0][1], st) is None: return None
                    ch = True
            if not ch: break
        return st
    def cond(s, e, st):
        if e["k"] == "Bin" and e["op"] in ("&&", "||"):
            conj = e["op"] == "&&"
            parts = []
            def flat(x):
                if x["k"] == "Bin" and x["op"] == e["op"]: flat(x["a"]); flat(x["b"])
                else: parts.append(x)
            flat(e)
            lits = []
            for x in parts:
                neg = False
                while x["k"] == "Cast" or x["k"] == "Un" and x["op"] == "!":
                    if x["k"] == "Un": neg = not neg
                    x = x["e"]
                r = s.relation(x, st) if x["k"] in ("Bin", "Call", "MCall") and not (x["k"] == "Bin" and x["op"] in ("&&", "||")) else None
                if r is None: lits = None; break
                op = r[1]
                if neg != conj: op = {"==": "!=", "!=": "==", ">": "<=", ">=": "<", "<": ">=", "<=": ">"}[op]
                p = r[0]
                if op == "<": p, op = tuple((m, -c) for m, c in p), ">"
                lits.append((p, op))
            t, f = super().cond(e, st)
            tgt = f if conj else t
            if lits and tgt is not None and all(o in ("==", "!=", ">") for _, o in lits):
                tgt.cl |= {frozenset(lits)}
                r = s.propagate(tgt)
                if r is None:
                    if conj: f = None
                    else: t = None
            return t, f
        return super().cond(e, st)
    def inner(s, p):
        if len(p) == 1 and len(p[0][0]) == 1:
            d = s.T.d[p[0][0][0][0]]
            if d[0] == "nn" and d[1] in ROOTLIKE: return d[2]
        return None
    def inner_nz(s, p, st):
        if len(p) == 1:
            for a, e in p[0][0]:
                i = s.inner(pv(a))
                if i is not None: s.assume(i, "!=", st)
    # ---- values
    def visit(s, e, st, vals):
        k = e["k"]; T = s.T
        if k in ("Int", "Bool", "Enum"): return pc(int(e["v"]))
        if k == "Float":
            try: return pc(Fraction(str(e["v"])))
            except Exception: return T.poly("flt", str(e["v"]))
        if k == "Var":
            if e.get("global"):
                c = s.gconst(e); return pc(c) if c is not None else T.poly("glob", e.get("q"))
            return s.get(e["id"], st)
        if k == "This": return T.poly("this")
        if k == "Cast":
            v = vals[0] if vals else None
            if v is None: return s.fresh(e)
            if "int" in e.get("t", "") and ("double" in (e["e"].get("t", "")) or "float" in e["e"].get("t", "")): return T.poly("trunc", v)
            return v
        if k == "Member":
            if not e.get("b"): return T.poly("mem", e["f"])
            return T.poly("mem", vals[0] if vals[0] is not None else T.poly("?"), e["f"])
        if k == "Index": return T.poly("idx", vals[0] or T.poly("?"), vals[1] if vals[1] is not None else T.poly("?"))
        if k == "Un":
            op = e["op"]; v = vals[0]
            if v is None: return s.fresh(e)
            if op == "-": return tuple((m, -c) for m, c in v)
            if op == "+": return v
            if op == "*": return T.poly("deref", v)
            if op in ("++", "--"):
                n = add(v, pc(1), 1 if op == "++" else -1); s.write(e["e"], st, n)
                return v if e.get("post") else n
            return T.poly("un", op, v)
        if k == "Bin" and e["op"] in ("&&", "||"):
            f = s.formula(e, st) if not s.quiet else None
            return s.T.poly("bool", f) if f is not None else s.fresh(e)
        if k == "Bin": return s.arith(e["op"], vals[0] if vals else None, vals[1] if len(vals) > 1 else None, e, st, e["a"], e["b"])
        if k == "Assign":
            op = e["op"]; v = vals[1]
            if op != "=": v = s.arith(op[:-1], vals[0], v, e, st, e["a"], e["b"])
            if v is None: v = s.fresh(e)
            if op == "=": v = s.named(e["a"].get("t", ""), e["b"], st, v)
            s.write(e["a"], st, v); return v
        if k == "OpCall": return s.opcall(e, st, vals)
        if k in ("Call", "MCall"): return s.call(e, st, vals)
        if k == "Ctor": return s.ctor(e, st, vals)
        if k == "InitList": return T.poly("init", tuple(vals))
        if k == "Lambda": s.lams.append((e, st.copy())); return T.poly("lam", e.get("l"))
        if k == "Cond": return None
        return s.fresh(e)
    def named(s, t, e, st, v):
        if e is None or base_type(t) != "bool": return v
        f = s.formula(e, st)
        return v if f is None or const(v) is not None else s.T.poly("bool", f)
    def fresh(s, e): return s.T.poly("new", e.get("l"), e.get("k"), e.get("t"))
    def gconst(s, e):
        from term import const_int
        g = next((g for (q, _), g in s.P.globals.items() if q == e.get("q")), None)
        if g is not None and g.get("init") and "const" in g.get("t", ""):
            i = g["init"]
            while i["k"] == "Cast": i = i["e"]
            try:
                if i["k"] in ("Float", "Int"): return Fraction(str(i["v"]))
            except Exception: return None
        return None
    def isint(s, e): return "double" not in e.get("t", "") and "float" not in e.get("t", "")
    def arith(s, op, a, b, e, st, ea, eb):
        T = s.T
        if a is None or b is None:
            if op == "/" or op == "%": s.on_div(e, st, a, b if b is not None else T.poly("?"), ea, eb)
            return s.fresh(e)
        if op == "+": return add(a, b)
        if op == "-": return add(a, b, -1)
        if op == "*":
            r = mul(a, b); return r if r is not None else T.poly("prod", *sorted((a, b)))
        if op in ("/", "%"):
            if op == "/" or s.isint(e): s.on_div(e, st, a, b, ea, eb)
            c = const(b)
            if op == "/" and c and not s.isint(e): return tuple((m, x / c) for m, x in a)
            if op == "/" and const(b) != 0 and not s.isint(e):
                r = mul(a, T.poly("inv", monic(b)))
                if r is not None: return r
            return T.poly("quo", op, a, b)
        return T.poly("bin", op, a, b)
    def cond_value(s, e, st, va, vb):
        if va is None or vb is None: return s.fresh(e)
        if va == vb: return va
        c = s.sgn(e, va, vb)
        return s.T.poly("phi", "c", va, vb)
    def sgn(s, e, a, b): return None
    def inl_value(s, e, outs):
        vs = [v for (_, _, v) in outs if v is not None]
        if not vs: return None
        r = vs[0]
        for v in vs[1:]:
            if v != r: r = s.T.poly("phi", "i", r, v)
        return r
    def norm(s, v):
        if v == (): return ()
        if len(v) == 1 and len(v[0][0]) == 1 and v[0][0][0][1] == 1:
            a = v[0][0][0][0]; d = s.T.d[a]
            if d[0] == "unit": return pv(s.T.atom("norm", d[1]))     # vanishes exactly when the vector does
            if d[0] == "vec" and all(const(x) is not None for x in d[1:]):
                return pc(1) if any(const(x) for x in d[1:]) else ()
        neg = tuple((m, -c) for m, c in v)
        m = min(monic(v), monic(neg))
        return pv(s.T.atom("norm", m))
    def opcall(s, e, st, vals):
        op = e["op"]; A = e["args"]
        if op in ("=", "+=", "-=", "*=", "/=") and len(A) == 2:
            v = vals[1]
            if op != "=": v = s.arith(op[0], vals[0], v, e, st, A[0], A[1])
            s.write(A[0], st, v if v is not None else s.fresh(e)); return v
        if len(A) == 2 and op in ("+", "-", "*", "/"): return s.arith(op, vals[0], vals[1], e, st, A[0], A[1])
        if len(A) == 1 and op == "-" and vals[0] is not None: return tuple((m, -c) for m, c in vals[0])
        if op == "[]" and len(A) == 2: return s.T.poly("idx", vals[0] or s.T.poly("?"), vals[1] if vals[1] is not None else s.T.poly("?"))
        if op == "()": s.effects(e, st)
        if op in ("++", "--"): s.write(A[0], st, s.fresh(e))
        if all(v is not None for v in vals): return s.T.poly("opc", op, *vals)
        return s.fresh(e)
    def ctor(s, e, st, vals):
        t = base_type(e.get("t", ""))
        n = t.split("::")[-1].split("<")[0]
        if len(vals) == 1 and vals[0] is not None and e["args"] and base_type(e["args"][0].get("t", "")) == t: return vals[0]
        if n in VECT:
            if not vals: return s.T.poly("vec", *([()] * {"UV": 2, "XYZ": 3, "XYZW": 4}[n]))
            if all(v is not None for v in vals): return s.T.poly("vec", *vals)
        s.effects(e, st)
        if all(v is not None for v in vals): return s.T.poly("ctor", n, e.get("l") if not vals else 0, *vals)
        return s.fresh(e)
    def call(s, e, st, vals):
        fd = e.get("f") if isinstance(e.get("f"), dict) else {}
        n = fd.get("n", ""); T = s.T; A = e["args"]
        b = vals[0] if e["k"] == "MCall" and e.get("b") is not None else None
        av = vals[len(vals) - len(A):] if A else []
        if n in ROOTLIKE and len(av) == 1 and av[0] is not None:
            v = av[0]
            if const(v) is not None: return T.poly("cf", n, v)
            if len(v) == 1 and n in ("abs", "fabs"):
                m, c = v[0]
                if all(s.nonneg(a) or x % 2 == 0 for a, x in m): return ((m, abs(c)),)
            return T.poly("nn", n, monic(v)) if not (len(v) == 1 and len(v[0][0]) == 1 and v[0][0][0][1] == 1 and False) else v
        if n == "pow" and len(av) == 2 and av[0] is not None and const(av[1] or ()) is not None:
            c = const(av[1])
            if c.denominator == 1 and 0 < c <= 4:
                r = av[0]
                for _ in range(int(c) - 1):
                    r = mul(r, av[0])
                    if r is None: return T.poly("pow", av[0], c)
                return r
        if e["k"] == "MCall" and b is not None:
            if n == "Length" and not A: return s.norm(b)
            if n == "SqrLength" and not A: return s.sq(s.norm(b))
            if n == "Distance" and len(A) == 1 and av[0] is not None: return s.norm(add(b, av[0], -1))
            if n == "DotProduct" and len(A) == 1 and av[0] is not None:
                if av[0] == b: return s.sq(s.norm(b))
                return T.poly("dot", *sorted((b, av[0])))
            if n == "CrossProduct" and len(A) == 1 and av[0] is not None:
                x, y = b, av[0]
                return T.poly("cross", x, y) if x <= y else tuple((m, -c) for m, c in T.poly("cross", y, x))
            if n == "Normalize" and not A: return T.poly("unit", b) if b != () else ()
            if n in ("GetX", "GetY", "GetZ", "GetW", "GetU", "GetV", "X", "Y", "Z", "W", "U", "V") and not A: return T.poly("comp", n.replace("Get", ""), b)
            if n in ("at", "front", "back") and fd.get("n"): return T.poly("idx", b, av[0] if av else T.poly("cst", n))
            if n in ("size", "length"): return T.poly("nn", "size", b)
        if n in ("move", "forward", "as_const") and len(av) == 1: return av[0]
        if n in ("max", "min") and len(av) == 2 and None not in av: return T.poly("mm", n, *sorted(av))
        r = s.effects(e, st)
        args = tuple(x for x in vals)
        if any(x is None for x in args): return T.poly("callu", n, e.get("l"))
        if r: return T.poly("callw", n, e.get("l"), *args)
        return T.poly("call", n, *args)
    def sq(s, p): return mul(p, p)
    # ---- writes
    def write(s, lhs, st, v):
        while lhs["k"] == "Cast": lhs = lhs["e"]
        if lhs["k"] == "Var" and not lhs.get("global") and lhs["id"] not in s.al: st.env[lhs["id"]] = v; return
        for r in roots(lhs, s.al):
            if r == "this": s.havoc_this(st, lhs.get("l")); continue
            if isinstance(r, tuple): continue
            st.env[r] = s.T.poly("upd", r, lhs.get("l"), s.where(lhs))
        if lhs["k"] == "Var": st.env[lhs["id"]] = v
    def where(s, lhs): return lhs.get("f") if lhs["k"] == "Member" else lhs["k"]
    def havoc_this(s, st, l):
        st.env = {k: v for k, v in st.env.items()}
        drop = lambda fs: frozenset(p for p in fs if not any(s.mentions_this(a) for a in atoms_of(p)))
        st.pos = drop(st.pos); st.nz = drop(st.nz); st.z = drop(st.z)
        st.cl = frozenset(c for c in st.cl if not any(s.mentions_this(a) for p, _ in c for a in atoms_of(p)))
    def mentions_this(s, a, depth=0):
        d = s.T.d[a]
        if d[0] == "this" or d[0] == "mem" and isinstance(d[1], str): return True
        return any(s.mentions_this(b) for x in d[1:] for y in polys_in(x) for b in atoms_of(y) if depth < 20)
    def effects(s, e, st):
        """havocs what a call may write; returns True when it writes something"""
        k = e["k"]; fd = e.get("f") if isinstance(e.get("f"), dict) else {}
        args = e.get("args") or []
        any_ = False
        def hv(x):
            nonlocal any_
            any_ = True
            for r in roots(x, s.al):
                if r == "this": s.havoc_this(st, e.get("l"))
                elif not isinstance(r, tuple): st.env[r] = s.T.poly("out", fd.get("n", "?"), r, e.get("l"))
        tg = s.eff.targets(fd) if fd else []
        if tg:
            off = 1 if k == "OpCall" and fd.get("cls") and not fd.get("static") else 0
            for c in tg:
                w = s.eff.w.get(c.key, ())
                if "this" in w:
                    if k == "MCall" and e.get("b") is not None: hv(e["b"])
                    elif off: hv(args[0])
                    elif k == "Call": s.havoc_this(st, e.get("l"))
                for i in range(len(c.params)):
                    if i in w and i + off < len(args) and args[i + off] is not None: hv(args[i + off])
        else:
            n = fd.get("n", "")
            if k == "MCall" and e.get("b") is not None and not fd.get("const") and n in MUTATING: hv(e["b"])
            if n not in ("move", "forward", "begin", "end", "get", "max", "min", "addressof", "make_pair", "make_tuple"):
                for a, t in zip(args, fd.get("pt") or []):
                    if a is None: continue
                    if is_mut_ref(t) and not fd.get("const") or t.endswith("*") and not t.startswith("const") or n in PASS_ALGO_WRITE and "iterator" in t: hv(a)
            if not fd or k == "Call" and e.get("fe") is not None:
                # call through a function object: anything captured by reference may change
                for a in args:
                    if a is not None and a["k"] == "Var" and False: hv(a)
                for lam, _ in s.lams:
                    for x in s.lamwrites(lam):
                        any_ = True
                        if x in st.env or True: st.env[x] = s.T.poly("out", "lambda", x, e.get("l"))
        return any_
    def lamwrites(s, lam):
        if "_w" not in lam:
            w = set(); inner = set()
            for x in walk(lam.get("body")):
                if x["k"] == "Decl": inner |= {d["id"] for d in x["d"]}
                if x["k"] == "Assign": w |= roots(x["a"], s.al)
                elif x["k"] == "Un" and x["op"] in ("++", "--"): w |= roots(x["e"], s.al)
                elif x["k"] == "MCall" and (x.get("f") or {}).get("n") in MUTATING and x.get("b"): w |= roots(x["b"], s.al)
                elif x["k"] == "OpCall" and x["op"] in ("=", "+=", "-=", "*=", "/="): w |= roots(x["args"][0], s.al)
            lam["_w"] = {x for x in w if isinstance(x, int)} - inner
        return lam["_w"]
    def on_decl(s, d, st, val):
        t = d.get("t", "")
        if d.get("rangeof") is not None:
            v = s.T.poly("elem", val if val is not None else s.T.poly("?"), d.get("l") or d["id"])
            st.env[d["id"]] = v
        elif val is not None: st.env[d["id"]] = s.named(d.get("t", ""), d.get("init"), st, val)
        else:
            n = base_type(t).split("::")[-1]
            if d.get("init") is None and n in VECT: st.env[d["id"]] = s.T.poly("vec", *([()] * {"UV": 2, "XYZ": 3, "XYZW": 4}[n]))
            else: st.env[d["id"]] = s.T.poly("decl", d["id"])
        for x in d.get("bindings") or []: st.env[x["id"]] = s.T.poly("bind", st.env[d["id"]], x.get("n"))
    # ---- loops: values written in the loop are unknown at its head
    def written(s, n):
        if "_wr" in n: return n["_wr"]
        w = set()
        for part in (n.get("body"), n.get("c"), n.get("inc")):
            if part is None: continue
            for x in walk(part):
                k = x["k"]
                if k == "Assign": w |= roots(x["a"], s.al)
                elif k == "Un" and x["op"] in ("++", "--"): w |= roots(x["e"], s.al)
                elif k in ("Call", "MCall", "OpCall", "Ctor"):
                    tmp = S(); s.effects(x, tmp); w |= set(tmp.env)
                    if k == "OpCall" and x["op"] in ("=", "+=", "-=", "*=", "/=", "++", "--"): w |= roots(x["args"][0], s.al)
                    if k == "Call" and not x.get("f") or k == "OpCall" and x["op"] == "()":
                        for y in walk(s.body):
                            if y["k"] == "Lambda": w |= s.lamwrites(y)
                elif k == "Decl":
                    for d in x["d"]: w.add(d["id"])
                elif k == "RangeFor": w.add(x["v"]["id"])
                elif k == "Inl":
                    for d in x["binds"]: w.add(d["id"])
        n["_wr"] = w
        return w
    def on_loop_enter(s, n, st):
        for v in s.written(n):
            if v == "this": s.havoc_this(st, n.get("l"))
            elif not isinstance(v, tuple): st.env[v] = s.T.poly("loop", n.get("l"), v)
    def after_body(s, n, back, exits):
        for v in s.written(n):
            if not isinstance(v, tuple) and v != "this": back.env[v] = s.T.poly("loop", n.get("l"), v)
        for v in s.wided: back.env[v] = s.T.poly("wid", v)
        lp = s.T
        own = lambda a: lp.d[a][0] == "wid" or lp.d[a][0] == "loop" and lp.d[a][1] == n.get("l")
        bad = lambda p: any(s.has(a, own) for a in atoms_of(p))
        back.pos = frozenset(p for p in back.pos if not bad(p)); back.nz = frozenset(p for p in back.nz if not bad(p)); back.z = frozenset(p for p in back.z if not bad(p)); back.cl = frozenset(c for c in back.cl if not any(bad(p) for p, _ in c))
    def widen(s, old, new, it):
        if it >= 1:
            for v in list(new.env):
                if old.env.get(v) != new.env.get(v): new.env[v] = s.T.poly("wid", v); s.wided.add(v)
        return new
    def has(s, a, pred, depth=0):
        if pred(a): return True
        d = s.T.d[a]
        return depth < 25 and any(s.has(b, pred, depth + 1) for x in d[1:] for y in polys_in(x) for b in atoms_of(y))
    # ---- named conditions: a boolean value is a formula over literals about value numbers
    NEGOP = {"==": "!=", "!=": "==", ">": "<=", ">=": "<", "<": ">=", "<=": ">"}
    def formula(s, e, st):
        while e["k"] == "Cast": e = e["e"]
        if e["k"] == "Un" and e["op"] == "!":
            f = s.formula(e["e"], st); return None if f is None else ("not", f)
        if e["k"] == "Bin" and e["op"] in ("&&", "||"):
            a, b = s.formula(e["a"], st), s.formula(e["b"], st)
            return None if a is None and b is None else (e["op"], a, b)
        if e["k"] == "Var" and not e.get("global"): return s.boolof(s.get(e["id"], st))
        if e["k"] not in ("Bin", "Call", "MCall"): return None
        r = s.relation(e, st)
        if r is None: return None
        if r[3] is not None and not s.quiet: s.on_test(e, st, r[0], r[1], r[3])
        return ("lit", r[0], r[1], r[2])
    def boolof(s, p):
        if len(p) == 1 and p[0][1] == 1 and len(p[0][0]) == 1:
            d = s.T.d[p[0][0][0][0]]
            if d[0] == "bool": return d[1]
        return None
    def assume_formula(s, f, truth, st):
        if f is None or st is None: return st
        if f[0] == "lit": return s.assume(f[1], f[2] if truth else s.NEGOP[f[2]], st, f[3])
        if f[0] == "not": return s.assume_formula(f[1], not truth, st)
        if (f[0] == "&&") == truth:
            return s.assume_formula(f[2], truth, s.assume_formula(f[1], truth, st))
        lits = []
        def flat(g, t):
            if g is None: lits.append(None)
            elif g[0] == "not": flat(g[1], not t)
            elif g[0] == "lit": lits.append((g[1], g[2] if t else s.NEGOP[g[2]]))
            elif (g[0] == "||") == t: flat(g[1], t); flat(g[2], t)
            else: lits.append(None)
        flat(f, truth)
        if None in lits: return st
        lits = [(tuple((m, -c) for m, c in p), ">") if o == "<" else (p, o) for p, o in lits]
        if not all(o in ("==", "!=", ">") for p, o in lits):
            # try case split: the two outcomes joined
            return st
        st.cl |= {frozenset(lits)}
        return st
    def refine_var(s, e, st, truth):
        f = s.boolof(s.get(e["id"], st))
        if f is None: return s.assume(s.get(e["id"], st), "!=" if truth else "==", st, True)
        r = s.assume_formula(f, truth, st)
        return s.propagate(r) if r is not None and r.cl else r
    # ---- conditions
    def refine(s, e, st, truth):
        x = e
        while x["k"] == "Cast": x = x["e"]
        if x["k"] == "Var" and not x.get("global"): return s.refine_var(x, st, truth)
        c = s.relation(e, st)
        if c is None: return st
        p, op, isint, kind, node = c
        if kind is not None and truth: s.on_test(e, st, p, op, kind)
        if not truth: op = {"==": "!=", "!=": "==", ">": "<=", ">=": "<", "<": ">=", "<=": ">"}[op]
        r = s.assume(p, op, st, isint)
        return s.propagate(r) if r is not None and r.cl else r
    def on_test(s, e, st, p, op, kind): pass
    def on_div(s, e, st, num, den, ea, eb): pass
    def relation(s, e, st):
        """condition -> (poly, op, integer?, kind) meaning poly op 0; kind 'zero' when it is a test of the quantity for (almost) zero"""
        while e["k"] == "Cast": e = e["e"]
        k = e["k"]
        ev = lambda x: s.pure(x, st)
        if k == "Bin" and e["op"] in ("==", "!=", "<", "<=", ">", ">="):
            a, b = ev(e["a"]), ev(e["b"])
            if a is None or b is None: return None
            op = e["op"]; isint = s.isint(e["a"]) and s.isint(e["b"])
            cb, ca = const(b), const(a)
            if ca is not None and cb is None: a, b, ca, cb = b, a, cb, ca; op = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(op, op)
            if cb is not None and not isint and 0 <= cb < Fraction(1, 1000):
                # comparison with zero or a small tolerance: almost-zero test
                if op == "<" and cb == 0 and s.absval(a): return (a, "<", False, "zero", e)     # never holds
                if op in ("<", "<=") and s.absval(a): return (a, "==", False, "zero", e)
                if op in (">", ">=") and s.absval(a): return (a, "!=", False, "zero", e) if not (op == ">=" and cb == 0) else None
                if op in (">", ">=") and cb > 0 or op == ">": return (a, ">", False, "zero", e)
                if op in ("<=", "<") and cb > 0 or op == "<=": return (a, "<=", False, "zero", e)
            if op in ("==", "!="): return (add(a, b, -1), op, isint, "zero" if cb == 0 and not isint else None, e)
            return (add(a, b, -1), op, isint, None, e)
        if k in ("Call", "MCall") and isinstance(e.get("f"), dict):
            n = e["f"]["n"]; A = [x for x in e["args"] if x is not None]
            if k == "MCall" and n == "IsZero":
                b = ev(e["b"])
                return None if b is None else (s.norm(b), "==", False, "zero", e)
            if k == "MCall" and n == "IsAlmostEqualTo" and len(A) >= 1:
                b, a = ev(e["b"]), ev(A[0])
                return None if a is None or b is None else (s.norm(add(b, a, -1)), "==", False, "zero", e)
            if n in TOLF and len(A) >= 2 and k == "Call":
                a, b = ev(A[0]), ev(A[1])
                if a is None or b is None: return None
                op = TOLF[n]
                if op == ">=": return (add(a, b, -1), ">=", False, None, e)     # only its negation gives a strict fact
                if op == "<=" :
                    # negation of IsGreaterThan up to tolerance
                    return (add(a, b, -1), "<=", False, "zero" if const(b) == 0 else None, e)
                return (add(a, b, -1), op, False, "zero" if const(b) == 0 or op == "==" else None, e)
        return None
    def absval(s, p):
        """is p syntactically non-negative (norm, |x|, even power)?"""
        return bool(p) and all(c > 0 and all(x % 2 == 0 or s.nonneg(a) for a, x in m) for m, c in p)
    def pure(s, e, st):
        """value of an already evaluated pure expression (no second reporting)"""
        q = s.quiet; s.quiet = True
        try: return s.eval(e, st.copy())
        except Dead: return None
        finally: s.quiet = q
    quiet = False
