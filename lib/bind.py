"""Symbolic evaluation of the straight-line marshalling code of the language bindings.

Values are terms over the parameters of an exported function and opaque native calls.  Loops
that fill arrays are summarised as maps (element term over loop indices), so a copy loop, a
range constructor, push_back and memcpy of the same data have the same term.  Conversions that
only re-pack the components in order (ToXYZ, FromXYZ, matrices) cancel.  Whatever the evaluator
does not understand becomes an 'unk' term; a comparison that meets one is left undecided."""
import itertools, re
import ir
from ir import base_type

# ------------------------------------------------------------------ terms
def T(*a): return tuple(a)
UNK = 0
def unk(why="?"): return ("unk", why)
def is_unk(t): return isinstance(t, tuple) and bool(t) and t[0] == "unk"
def has_unk(t):
    if isinstance(t, tuple):
        if t and t[0] == "unk": return True
        return any(has_unk(x) for x in t)
    return False
def mentions(t, x):
    if t == x: return True
    return isinstance(t, tuple) and any(mentions(y, x) for y in t)
def subst(t, m):
    if t in m: return m[t]
    if isinstance(t, tuple): return rebuild(tuple(subst(x, m) for x in t))
    return t
def rebuild(t):
    if t and t[0] == "poly": return poly_make(t)
    if t and t[0] == "idx" and len(t) == 3: return index(t[1], t[2])
    if t and t[0] == "size": return size(t[1])
    if t and t[0] == "mem": return member(t[1], t[2])
    return t

# polynomials over opaque atoms: ("poly", ((monomial, coeff), ...)), a lone atom or int stays bare
def to_poly(t):
    if isinstance(t, int) and not isinstance(t, bool): return {(): t} if t else {}
    if isinstance(t, tuple) and t and t[0] == "int": return {(): t[1]} if t[1] else {}
    if isinstance(t, tuple) and t and t[0] == "poly": return dict(t[1])
    return {(t,): 1}
def from_poly(d):
    d = {k: v for k, v in d.items() if v}
    if not d: return ("int", 0)
    if len(d) == 1:
        (k, v), = d.items()
        if k == (): return ("int", v)
        if v == 1 and len(k) == 1: return k[0]
    return ("poly", tuple(sorted(d.items(), key=repr)))
def add(a, b, s=1):
    d = dict(to_poly(a))
    for k, v in to_poly(b).items(): d[k] = d.get(k, 0) + s * v
    return from_poly(d)
def mul(a, b):
    d = {}
    for k, v in to_poly(a).items():
        for k2, v2 in to_poly(b).items():
            kk = tuple(sorted(k + k2, key=repr)); d[kk] = d.get(kk, 0) + v * v2
    return from_poly(d)
def poly_make(t):
    r = ("int", 0)
    for k, v in t[1]:
        m = ("int", v)
        for x in k: m = mul(m, x)
        r = add(r, m)
    return r

INT0 = ("int", 0); INT1 = ("int", 1)
EMPTY = ("arr", (INT0,), (), (), ())

def arr(sizes, dims, path, x): return ("arr", sizes, dims, path, x)
def fresh_ix(c=itertools.count()): return ("ix", next(c))

def full(a):
    """a map whose element at (i, j, ..) is its term"""
    return a[0] == "arr" and a[2] and a[3] == tuple(d[0] for d in a[2])
def size(c):
    if not isinstance(c, tuple): return unk("size")
    if c[0] == "arr":
        if c[1] and c[1][0] is not None: return c[1][0]
        return unk("size of raw array")
    if c[0] == "fill": return c[1]
    if c[0] == "lit": return ("int", len(c[1]))
    if c[0] in ("upd", "recupd"): return size(c[1])
    if is_unk(c): return c
    if c[0] == "ite": return ite(c[1], size(c[2]), size(c[3]))
    if c[0] == "idx" and c[2] != INT0: return ("size", ("idx", c[1], INT0))      # rows of a grid have one length
    return ("size", c)
def index(c, i):
    if not isinstance(c, tuple): return unk("index")
    if c[0] == "arr" and full(c):
        d = c[2]
        sub = {d[0][0]: i}
        if len(d) == 1: return subst(c[4], sub)
        rest = tuple((x, subst(n, sub)) for x, n in d[1:])
        return arr(tuple(subst(s, sub) if s is not None else None for s in c[1][1:]) or (None,), rest, tuple(x for x, _ in rest), subst(c[4], sub))
    if c[0] == "fill": return c[2]
    if c[0] == "lit" and i[0] == "int" and 0 <= i[1] < len(c[1]): return c[1][i[1]]
    if c[0] == "upd":
        if c[2][0] == i: return c[3] if len(c[2]) == 1 else apply_path(index(c[1], i), c[2][1:], c[3])
        if c[2][0][0] == "int" and i[0] == "int": return index(c[1], i)
        return unk("read of an updated array")
    if c[0] == "native" and c[1] in ("XYZ", "XYZW", "UV") and i[0] == "int": return member(c, COMP[c[1]][i[1]])
    if is_unk(c): return c
    if c[0] == "ite": return ite(c[1], index(c[2], i), index(c[3], i))
    return ("idx", c, i)
def apply_path(base, path, x):
    if not path: return x
    return ("upd", base, path, x)

COMP = {"XYZ": ("GetX", "GetY", "GetZ"), "XYZW": ("GetWX", "GetWY", "GetWZ", "GetW"), "UV": ("GetU", "GetV")}
CREC = {"XYZ_C": ("x", "y", "z"), "XYZW_C": ("wx", "wy", "wz", "w"), "UV_C": ("u", "v")}
PAIR = {"XYZ": "XYZ_C", "XYZW": "XYZW_C", "UV": "UV_C"}
TO_NAT = {f: g for c in PAIR for f, g in zip(CREC[PAIR[c]], COMP[c])}
def member(b, f):
    """field access; native accessors and C fields of the shared point records coincide"""
    f = TO_NAT.get(f, f)
    if not isinstance(b, tuple): return unk("member")
    if b[0] == "rec":
        for k, v in b[2]:
            if k == f: return v
        return ("uninit", f)
    if is_unk(b): return b
    if b[0] == "ite": return ite(b[1], member(b[2], f), member(b[3], f))
    return ("mem", b, f)
def rec(t, items):
    return eta(("rec", t, tuple(sorted(items))))
def eta(r):
    """a record that holds exactly the components of one value, each in its place, is that value"""
    t = r[1]; it = dict(r[2])
    nat = {v: k for k, v in PAIR.items()}.get(t, t)
    if nat in COMP and set(it) == set(COMP[nat]):
        vs = [it[f] for f in COMP[nat]]
        if all(isinstance(v, tuple) and v[0] == "mem" and v[2] == f for v, f in zip(vs, COMP[nat])) and len({v[1] for v in vs}) == 1: return vs[0][1]
        return ("rec", nat, r[2])
    if t in ("Matrix4d", "Matrix4d_C"):
        m = it.get("m")
        if isinstance(m, tuple) and m[0] == "lit" and len(m[1]) == 16:
            if all(isinstance(v, tuple) and v[0] == "idx" and v[2] == ("int", i) and isinstance(v[1], tuple) and v[1][0] == "mem" and v[1][2] == "m" for i, v in enumerate(m[1])) and len({v[1] for v in m[1]}) == 1: return m[1][0][1][1]
        return ("rec", "Matrix4d", r[2])
    return r

def neg(c):
    if c == ("bool", True): return ("bool", False)
    if c == ("bool", False): return ("bool", True)
    if isinstance(c, tuple) and c[0] == "not": return c[1]
    if isinstance(c, tuple) and c[0] == "rel":
        op, a, b = c[1:]
        if op == "==": return ("rel", "!=", a, b)
        if op == "!=": return ("rel", "==", a, b)
        if op == "<": return rel(">=", a, b)
        if op == "<=": return rel(">", a, b)
    return ("not", c)
def rel(op, a, b):
    if op in (">", ">="): op = {">": "<", ">=": "<="}[op]; a, b = b, a
    if a[0] == "int" and b[0] == "int":
        return ("bool", {"<": a[1] < b[1], "<=": a[1] <= b[1], "==": a[1] == b[1], "!=": a[1] != b[1]}[op])
    if op in ("==", "!=") and repr(b) < repr(a): a, b = b, a
    return ("rel", op, a, b)
def truth(t):
    """the value used as a condition"""
    if not isinstance(t, tuple): return unk("cond")
    if t[0] in ("bool", "not", "rel", "and", "or"): return t
    if t[0] == "int": return ("bool", t[1] != 0)
    if t[0] in ("ptr", "parptr", "new", "to"): return ("bool", True)      # outputs are assumed to be given
    if t[0] == "null": return ("bool", False)
    if t[0] == "ite": return ite(t[1], truth(t[2]), truth(t[3]))
    return t
def ite(c, a, b):
    if c == ("bool", True): return a
    if c == ("bool", False): return b
    if a == b: return a
    if isinstance(c, tuple) and c[0] == "not": return ite(c[1], b, a)
    if isinstance(c, tuple) and c[0] == "rel" and c[1] in ("==",): return ite(("rel", "!=", c[2], c[3]), b, a)
    if a in (INT1, ("bool", True)) and b in (INT0, ("bool", False)): return c
    if a in (INT0, ("bool", False)) and b in (INT1, ("bool", True)): return neg(c)
    if isinstance(c, tuple) and c[0] == "rel" and c[1] in ("<", "<="):
        if (a, b) == (c[2], c[3]): return ("min",) + tuple(sorted((a, b), key=repr))
        if (a, b) == (c[3], c[2]): return ("max",) + tuple(sorted((a, b), key=repr))
    # the length of a row, and none when there is no row
    if b == INT0 and isinstance(a, tuple) and a[0] == "size" and a[1][0] == "idx" and a[1][2] == INT0:
        n = size(a[1][1])
        if c in (("rel", "<", INT0, n), ("rel", "<=", INT1, n), rel("!=", n, INT0)): return a
    # n > 0 ? first n : none   is   first n
    if isinstance(c, tuple) and c[0] == "rel":
        for x, y, cc in ((a, b, c), (b, a, neg(c))):
            if y == EMPTY and isinstance(x, tuple) and x[0] == "arr" and full(x) and len(x[2]) == 1 and cc in (("rel", "<", INT0, x[2][0][1]), ("rel", "<=", INT1, x[2][0][1])): return x
    return ("ite", c, a, b)

class Ret(Exception): pass

# ------------------------------------------------------------------ evaluation
class Eval:
    def __init__(self, P, native=lambda f: f.get("q", "").startswith("LNLib::")):
        self.P = P; self.native = native; self.depth = 0; self.notes = []; self.calls = []
    def field_names(self, t):
        r = self.P.records.get(base_type(t))
        return [f["n"] for f in r["fields"]] if r else None
    def field_type(self, t, f):
        r = self.P.records.get(base_type(t))
        if r:
            for x in r["fields"]:
                if TO_NAT.get(x["n"], x["n"]) == f: return x["t"]
        return None
    def default(self, t):
        t = base_type(t)
        if t.startswith(("vector<", "deque<", "map<", "unordered_map<", "initializer_list<")): return EMPTY
        if t in COMP: return ("new", t)
        if t == "Matrix4d": return ("new", t)
        if t in self.P.records: return ("rec", t, ())
        m = re.match(r"(.*)\[(\d+)\]$", t)
        if m: return ("raw", t)
        return ("uninit", t)

    # ---- locations: (root, path) with path elements ("f", name) or ("i", term)
    def loc(self, e, env):
        k = e["k"]
        if k in ("Paren",): return self.loc(e["e"], env)
        if k == "Cast": return self.loc(e["e"], env)
        if k == "Var":
            v = e["id"]
            if e.get("enum"): return None
            b = env.get(("ref", v))
            if b is not None: return b
            if e.get("global") or e.get("g"): return (("g", e["n"]), ())
            return (("v", v), ())
        if k == "Member":
            if e.get("arrow"):
                p = self.ev(e["b"], env); l = self.deref(p)
                return (l[0], l[1] + (("f", TO_NAT.get(e["f"], e["f"])),)) if l else None
            l = self.loc(e["b"], env)
            if l is None:
                return None
            bt = e["b"].get("t", "")
            if bt.endswith("*"):
                l = self.deref(self.ev(e["b"], env))
                if l is None: return None
            return (l[0], l[1] + (("f", TO_NAT.get(e["f"], e["f"])),))
        if k == "Index":
            i = self.ev(e["i"], env)
            bt = e["b"].get("t", "")
            if bt.rstrip().endswith("*"):
                l = self.deref(self.ev(e["b"], env), i)
                return l
            l = self.loc(e["b"], env)
            if l and not l[1] and base_type(bt).startswith("deque") and l[0][0] in ("g", "v"): return (("slot", l[0], i), ())
            return (l[0], l[1] + (("i", i),)) if l else None
        if k == "Un" and e["op"] == "*":
            return self.deref(self.ev(e["e"], env), INT0)
        if k == "MCall" and e["f"]["n"] in ("X", "Y", "Z", "WX", "WY", "WZ", "W", "U", "V") and not e["args"]:
            l = self.loc(e["b"], env)
            return (l[0], l[1] + (("f", "Get" + e["f"]["n"]),)) if l else None
        if k == "MCall" and e["f"]["n"] in ("front", "back") and not e["args"] and e["f"]["n"] == "front":
            l = self.loc(e["b"], env)
            return (l[0], l[1] + (("i", INT0),)) if l else None
        if k == "Call" and e["f"]["n"] in ("move", "forward", "as_const", "ref") and len(e["args"]) == 1: return self.loc(e["args"][0], env)
        return None
    def deref(self, p, i=INT0):
        if p[0] == "parptr": return (("p", p[1]), (("i", add(p[2], i)),))
        if p[0] == "ptr": return (p[1], p[2] + (("i", add(p[3], i)),)) if p[4] else ((p[1], p[2]) if add(p[3], i) == INT0 else None)
        return None
    def read(self, l, env):
        root, path = l
        if root not in env:
            if root[0] == "p": env[root] = ("parmem", root[1])
            elif root[0] in ("g", "slot"): env[root] = ("global", root[1])
            else: return unk("unbound")
        v = env[root]
        for kind, x in path:
            v = self.get(v, kind, x)
        return v
    def get(self, v, kind, x):
        if kind == "f": return member(v, x)
        if isinstance(v, tuple) and v[0] == "parmem": return ("idx", ("par", v[1]), x)
        return index(v, x)
    def write(self, l, val, env):
        root, path = l
        if root not in env:
            if root[0] == "p": env[root] = ("parmem", root[1])
            elif root[0] in ("g", "slot"): env[root] = ("global", root[1])
            else: env[root] = ("uninit", "?")
        env[root] = self.put(env[root], path, val)
        # views of what was overwritten keep reading the location, so nothing else to do
    def put(self, v, path, val):
        if not path: return val
        (kind, x), rest = path[0], path[1:]
        if kind == "f":
            if isinstance(v, tuple) and v[0] == "rec":
                old = dict(v[2]).get(x)
                if old is None:
                    ft = self.field_type(v[1], x)
                    old = self.default(ft) if ft else ("uninit", x)
                d = dict(v[2]); d[x] = self.put(old, rest, val)
                return rec(v[1], d.items())
            if isinstance(v, tuple) and v[0] in ("mem", "par", "idx", "out", "call", "new") and not rest:
                nat = next((c for c in COMP if x in COMP[c]), None)
                if nat: return rec(nat, [(f, val if f == x else member(v, f)) for f in COMP[nat]])
            return ("recupd", v, x, self.put(member(v, x), rest, val))
        # array element; nested element writes become one update with a path of indices
        idx = [x]; r = rest
        while r and r[0][0] == "i": idx.append(r[0][1]); r = r[1:]
        if r:
            old = v
            for i in idx: old = self.get(old, "i", i)
            val = self.put(old if not is_unk(old) else ("rec", "?", ()), r, val)
        if v[0] == "raw":
            m = re.match(r"(.*)\[(\d+)\]$", v[1])
            if m and len(idx) == 1 and int(m.group(2)) <= 16: v = ("lit", (("uninit", "e"),) * int(m.group(2)))
        if v[0] == "lit" and len(idx) == 1 and idx[0][0] == "int" and 0 <= idx[0][1] < len(v[1]):
            return ("lit", v[1][:idx[0][1]] + (val,) + v[1][idx[0][1] + 1:])
        if v[0] == "upd" and v[2] == tuple(idx): return ("upd", v[1], tuple(idx), val)
        return ("upd", v, tuple(idx), val)

    # ---- expressions
    def ev(self, e, env):
        if e is None: return unk("none")
        k = e["k"]; m = getattr(self, "e_" + k, None)
        if m is None: return unk(k)
        return m(e, env)
    def e_Int(self, e, env): return ("int", e["v"])
    def e_Char(self, e, env): return ("int", e["v"])
    def e_Bool(self, e, env): return ("bool", bool(e["v"]))
    def e_Real(self, e, env): return ("real", float(e["v"]))
    e_Float = e_Real
    def e_Str(self, e, env): return ("str", e.get("v"))
    def e_Null(self, e, env): return ("null",)
    e_Nullptr = e_Null
    def e_Paren(self, e, env): return self.ev(e["e"], env)
    def e_Sizeof(self, e, env): return ("sizeof", e.get("of"))
    def e_ZeroInit(self, e, env):
        t = base_type(e.get("t", ""))
        if t in self.P.records: return ("rec", t, ())
        return INT0
    e_ImplicitValueInit = e_ZeroInit
    def e_Cast(self, e, env):
        v = self.ev(e["e"], env); t = base_type(e.get("t", ""))
        if e.get("t") == "bool": return truth(v)
        return v
    def e_Var(self, e, env):
        if "enumv" in e or e.get("enum"): return ("int", e.get("v", e.get("enumv")))
        l = self.loc(e, env)
        v = self.read(l, env)
        if is_unk(v) and v[1] == "unbound":
            g = self.glob(e)
            return g
        if l[0][0] in ("v", "g", "p") and isinstance(v, tuple) and v[0] in ("raw",): return v
        return v
    def glob(self, e):
        return ("global", e.get("q") or e.get("n"))
    def e_Enum(self, e, env): return ("int", e["v"])
    def e_This(self, e, env): return ("par", "this")
    def e_Member(self, e, env):
        if e.get("arrow") or e["b"].get("t", "").rstrip().endswith("*"):
            l = self.deref(self.ev(e["b"], env))
            return member(self.read(l, env), e["f"]) if l else unk("arrow")
        return member(self.ev(e["b"], env), e["f"])
    def e_Index(self, e, env):
        i = self.ev(e["i"], env); b = self.ev(e["b"], env)
        if b[0] in ("parptr", "ptr"):
            l = self.deref(b, i)
            return self.read(l, env) if l else unk("pointer index")
        return index(b, i)
    def e_Un(self, e, env):
        op = e["op"]
        if op == "*":
            p = self.ev(e["e"], env); l = self.deref(p)
            return self.read(l, env) if l else index(p, INT0)
        if op == "&":
            l = self.loc(e["e"], env)
            if l is None: return unk("&")
            if l[1] and l[1][-1][0] == "i": return ("ptr", l[0], l[1][:-1], l[1][-1][1], True)
            return ("ptr", l[0], l[1], INT0, False)
        if op in ("++", "--"):
            l = self.loc(e["e"], env)
            if l is None: return unk(op)
            v = self.read(l, env); w = self.offset(v, INT1, 1 if op == "++" else -1)
            self.write(l, w, env)
            return v if e.get("post") else w
        v = self.ev(e["e"], env)
        if op == "!": return neg(truth(v))
        if e.get("f") and self.native(e["f"]): return self.opaque(e["f"], [v], e, env, None, [e["e"]])
        if op == "-": return add(INT0, v, -1)
        if op == "+": return v
        return unk("un" + op)
    def e_Bin(self, e, env):
        op = e["op"]
        a = self.ev(e["a"], env); b = self.ev(e["b"], env)
        if e.get("f") and self.native(e["f"]): return ("call", e["f"]["q"] if "q" in e["f"] else "operator" + op, (a, b))
        if op in ("&&", "||"):
            a, b = truth(a), truth(b)
            T_, F_ = ("bool", op == "||"), ("bool", op == "&&")
            if a == T_ or b == T_: return T_
            if a == F_: return b
            if b == F_: return a
            return (("and" if op == "&&" else "or"),) + tuple(sorted((a, b), key=repr))
        if op == "-" and a[0] == b[0] == "parptr" and a[1] == b[1]: return add(a[2], b[2], -1)
        if op == "-" and a[0] == b[0] == "ptr" and a[1:3] == b[1:3]: return add(a[3], b[3], -1)
        if op in ("+", "-"):
            for p, o, s in ((a, b, 1 if op == "+" else -1), (b, a, 1)):
                if op == "-" and p is b: continue
                if p[0] == "parptr": return ("parptr", p[1], add(p[2], o, s))
                if p[0] == "ptr": return ("ptr", p[1], p[2], add(p[3], o, s), p[4])
                if e.get("t", "").endswith("*"): return ("padd", p, o) if s == 1 else unk("ptr-")
            return add(a, b, 1 if op == "+" else -1)
        if op == "*":
            if b[0] == "sizeof": return ("bytes", a, b[1])
            if a[0] == "sizeof": return ("bytes", b, a[1])
            return mul(a, b)
        if op in ("==", "!=", "<", "<=", ">", ">="):
            for x, y in ((a, b), (b, a)):
                if y in (INT0, ("bool", False), ("null",)) and op in ("==", "!="):
                    t = e["a"].get("t") if y is b else e["b"].get("t")
                    if x[0] in ("parptr", "ptr", "new") or y == ("null",) or t in ("int", "bool") and x[0] in ("par", "out", "call", "mem", "rel", "not"):
                        c = truth(x); return c if op == "!=" else neg(c)
            return rel(op, a, b)
        return ("bin", op, a, b)
    def e_Cond(self, e, env):
        return ite(truth(self.ev(e["c"], env)), self.ev(e["a"], env), self.ev(e["b"], env))
    def e_Assign(self, e, env):
        v = self.ev(e["b"], env)
        l = self.loc(e["a"], env)
        if l is None: return self.lost(env, "assign")
        if e["op"] != "=":
            o = self.read(l, env)
            v = {"+=": lambda: self.offset(o, v), "-=": lambda: self.offset(o, v, -1), "*=": lambda: mul(o, v), "/=": lambda: ("bin", "/", o, v)}.get(e["op"], lambda: unk(e["op"]))()
        self.write(l, v, env)
        return v
    def offset(self, p, d, s=1):
        if p[0] == "parptr": return ("parptr", p[1], add(p[2], d, s))
        if p[0] == "ptr": return ("ptr", p[1], p[2], add(p[3], d, s), p[4])
        return add(p, d, s)
    def lost(self, env, why):
        """a write to an unknown place: no output is known any more"""
        for i in self.outs: env[("p", i)] = unk(why)
        return unk(why)
    outs = ()
    def e_InitList(self, e, env):
        t = base_type(e.get("t", "")); a = [self.ev(x, env) for x in e["args"]]
        if t.startswith(("vector<", "initializer_list<")): return ("lit", tuple(a)) if a else EMPTY
        if t in COMP: return rec(t, zip(COMP[t], a))
        fn = self.field_names(t)
        if fn and len(fn) >= len(a): return rec(t, [(TO_NAT.get(f, f), x) for f, x in zip(fn, a)])
        if len(a) == 1: return a[0]
        return ("lit", tuple(a))
    e_StdInitList = e_InitList
    def e_New(self, e, env):
        n = self.ev(e["n"], env) if e.get("n") else INT1
        r = ("new", next(self.newc))
        env[r] = ("alloc", n)
        return ("ptr", r, (), INT0, True)
    newc = itertools.count()
    def e_Delete(self, e, env): return INT0
    def e_Ctor(self, e, env):
        t = base_type(e.get("t", "")); args = [x for x in e["args"] if not (isinstance(x, dict) and x.get("dflt") and "allocator" in x.get("t", ""))]
        if t.startswith(("vector<", "deque<")):
            if not args: return EMPTY
            a = [self.ev(x, env) for x in args]
            return self.vec_from(a, args, t, env)
        if t in COMP:
            if not args: return ("new", t)
            if len(args) == 1 and base_type(args[0].get("t", "")) == t: return self.ev(args[0], env)
            a = [self.ev(x, env) for x in args]
            if len(a) == len(COMP[t]): return rec(t, zip(COMP[t], a))
            return ("call", t, tuple(a))
        if t == "Matrix4d":
            a = [self.ev(x, env) for x in args]
            if len(a) == 16: return rec("Matrix4d", [("m", ("lit", tuple(a)))])
            if not a: return ("new", "Matrix4d")
            return ("call", "Matrix4d", tuple(a))
        if not args: return self.default(t)
        if len(args) == 1:
            v = self.ev(args[0], env)
            return v
        a = [self.ev(x, env) for x in args]
        fn = self.field_names(t)
        if fn and len(fn) >= len(a) and (e.get("f") or {}).get("implicit"): return rec(t, [(TO_NAT.get(f, f), x) for f, x in zip(fn, a)])
        return ("call", t, tuple(a))
    def span(self, a, b, env):
        """contents of the iterator range [a, b)"""
        k = fresh_ix()
        if a[0] == "parptr" and b[0] == "parptr" and a[1] == b[1]:
            n = add(b[2], a[2], -1)
            l = self.deref(a, k)
            return arr((n,), ((k, n),), (k,), self.read(l, env))
        if a[0] == "ptr" and b[0] == "ptr" and a[1:3] == b[1:3]:
            n = add(b[3], a[3], -1); l = self.deref(a, k)
            if n[0] == "int" and a[3] == INT0 or True:
                c = self.read((a[1], a[2]), env)
                if size(c) == n and a[3] == INT0: return c
                x = self.read(l, env) if l else unk("range")
                return arr((n,), ((k, n),), (k,), x)
        if b[0] == "padd" and b[1] == a: return arr((b[2],), ((k, b[2]),), (k,), index(a, k))
        return unk("range")
    def vec_from(self, a, args, t, env):
        def isint(e): return not e.get("t", "").rstrip().endswith("*") and base_type(e.get("t", "")) in ("int", "unsigned long", "size_t", "unsigned int", "long")
        if len(a) == 1:
            if isint(args[0]): return ("fill", a[0], self.default(ir.elem_type(t) or re.sub(r"^deque<(.*)>$", r"\1", t)))
            return a[0]
        if len(a) == 2 and isint(args[0]): return ("fill", a[0], a[1])
        if len(a) == 2: return self.span(a[0], a[1], env)
        return unk("vector ctor")
    def e_Lambda(self, e, env): return ("lambda", id(e))
    def e_Inl(self, e, env): return unk("Inl")
    def e_Call(self, e, env):
        f = e["f"] if isinstance(e.get("f"), dict) else None
        if f is None: return unk("indirect call")
        n = f["n"]; q = f.get("q", "")
        if not self.native(f):
            g = self.P.callee(f)
            if g is not None and g.body is not None: return self.inline(g, e["args"], env)
            if n in ("move", "forward", "as_const", "ref", "cref") and len(e["args"]) == 1: return self.ev(e["args"][0], env)
            if n in ("min", "max") and len(e["args"]) == 2:
                return (n,) + tuple(sorted((self.ev(x, env) for x in e["args"]), key=repr))
            if n in ("memcpy", "memmove", "__builtin_memcpy"):
                d, s, z = [self.ev(x, env) for x in e["args"]]
                if z[0] == "bytes": self.copy(d, s, z[1], env); return d
                return unk("memcpy")
            if n in ("copy_n",):
                s, z, d = [self.ev(x, env) for x in e["args"]]
                self.copy(d, s, z, env); return unk("copy_n")
            if n == "copy" and len(e["args"]) == 3:
                s, b, d = [self.ev(x, env) for x in e["args"]]
                c = self.span(s, b, env)
                if is_unk(c): return self.clobber(d, env)
                self.copy_from(d, c, size(c), env); return unk("copy")
            if n == "transform" and len(e["args"]) == 4:
                s, b, d, fn = [self.ev(x, env) for x in e["args"]]
                c = self.span(s, b, env); k = fresh_ix()
                lam = self.callable_(e["args"][3])
                if is_unk(c) or lam is None: return self.clobber(d, env)
                x = lam(index(c, k), env); N = size(c)
                m = arr((N,), ((k, N),), (k,), x)
                if d[0] == "backins":
                    self.write(d[1], self.append_map(self.read(d[1], env), ((k, N),), x), env)
                else: self.copy_from(d, m, N, env)
                return unk("transform")
            if n == "back_inserter":
                l = self.loc(e["args"][0], env)
                return ("backins", l) if l else unk("backins")
            if n in ("begin", "cbegin", "end", "cend") and len(e["args"]) == 1: return self.edge(e["args"][0], n, env)
            if n == "size" and len(e["args"]) == 1: return size(self.ev(e["args"][0], env))
            if n == "make_tuple": return ("tuple", tuple(self.ev(x, env) for x in e["args"]))
            if "pybind11::" in q: return ("py", n, tuple(self.ev(x, env) for x in e["args"]))
        return self.opaque(f, None, e, env, None, e["args"])
    def callable_(self, e):
        while e["k"] in ("Cast", "Paren"): e = e["e"]
        if e["k"] == "Lambda":
            def go(x, env):
                p = e["params"][0]
                env[("v", p["id"])] = x
                return self.body(e["body"], env)[1]
            return go
        if e["k"] == "Var" and e.get("fn") or e["k"] == "FnRef":
            g = self.P.callee(e.get("f") or {})
            if g is not None:
                def go2(x, env):
                    en = dict(env); en[("v", g.params[0]["id"])] = x
                    return self.body(g.body, en)[1]
                return go2
        return None
    def clobber(self, d, env):
        l = None
        if d[0] == "backins": l = d[1]
        elif d[0] in ("ptr", "parptr"):
            l = self.deref(d); l = (l[0], l[1][:-1] if l[1] and l[1][-1][0] == "i" else l[1]) if l else None
        if l: self.write(l, unk("copy"), env)
        return unk("copy")
    def edge(self, e, n, env):
        l = self.loc(e, env)
        if l is None: return unk("iterator")
        c = self.read(l, env)
        return ("ptr", l[0], l[1], INT0 if n in ("begin", "cbegin", "data") else size(c), True)
    def copy(self, d, s, n, env):
        k = fresh_ix()
        if s[0] == "ptr":
            c = self.read((s[1], s[2]), env) if s[4] else None
            x = index(c, add(s[3], k)) if c is not None else unk("memcpy")
        elif s[0] == "parptr": x = self.read(self.deref(s, k), env)
        else: x = index(s, k)
        self.copy_from(d, arr((n,), ((k, n),), (k,), x), n, env)
    def copy_from(self, d, c, n, env):
        k = fresh_ix()
        l = self.deref(d, k)
        if l is None: return
        root, path = l
        pre, last = path[:-1], path[-1][1]
        old = self.read((root, pre), env)
        self.write((root, pre), self.map_update(old, ((k, n),), (last,), index(c, k)), env)
    def e_MCall(self, e, env):
        f = e["f"]; n = f["n"]; cls = f.get("cls")
        if cls in ("vector", "deque", "array", "map", "unordered_map", "initializer_list", "basic_string") or f.get("q", "").startswith("std::"):
            if n == "size": return size(self.ev(e["b"], env))
            if n == "empty": return rel("==", size(self.ev(e["b"], env)), INT0)
            if n in ("data", "begin", "end", "cbegin", "cend"): return self.edge(e["b"], n, env)
            if n == "front": return index(self.ev(e["b"], env), INT0)
            if n == "back": c = self.ev(e["b"], env); return index(c, add(size(c), INT1, -1))
            if n == "reserve" or n == "shrink_to_fit": return INT0
            l = self.loc(e["b"], env)
            if l is None and n == "swap" and (m := self.loc(e["args"][0], env)): self.write(m, self.ev(e["b"], env), env); return INT0
            if l is None: return unk("container method")
            if n == "clear": self.write(l, EMPTY, env); return INT0
            if n in ("push_back", "emplace_back"):
                a = [self.ev(x, env) for x in e["args"]]
                if len(a) == 1: x = a[0]
                else:
                    t = ir.elem_type(base_type(e["b"].get("t", ""))) or "?"
                    x = rec(t, zip(COMP[t], a)) if t in COMP and len(a) == len(COMP[t]) else ("call", t, tuple(a))
                self.write(l, ("app", self.read(l, env), x), env); return INT0
            if n == "resize":
                a = [self.ev(x, env) for x in e["args"]]
                if cls == "deque" and l[0][0] in ("g", "v") : return INT0         # grows a pool, keeps its elements
                t = base_type(e["b"].get("t", ""))
                if a[0] == INT0: self.write(l, EMPTY, env); return INT0
                self.write(l, ("fill", a[0], a[1] if len(a) > 1 else self.default(ir.elem_type(t) or "?")), env); return INT0
            if n == "assign":
                a = [self.ev(x, env) for x in e["args"]]
                self.write(l, self.vec_from(a, e["args"], base_type(e["b"].get("t", "")), env), env); return INT0
            if n == "swap":
                m = self.loc(e["args"][0], env)
                if m: a, b = self.read(l, env), self.read(m, env); self.write(l, b, env); self.write(m, a, env); return INT0
            if n == "insert" and len(e["args"]) == 3:
                a = [self.ev(x, env) for x in e["args"]]
                c = self.span(a[1], a[2], env); old = self.read(l, env)
                if not is_unk(c) and a[0] == ("ptr", l[0], l[1], size(old), True) and c[0] == "arr" and full(c):
                    self.write(l, self.append_map(old, c[2], c[4]), env); return INT0
            self.write(l, unk("container." + n), env)
            return unk("container." + n)
        if n.startswith("Get") and n in ("GetX", "GetY", "GetZ", "GetWX", "GetWY", "GetWZ", "GetW", "GetU", "GetV") and not e["args"]:
            return member(self.ev(e["b"], env), n)
        if n in ("X", "Y", "Z", "WX", "WY", "WZ", "W", "U", "V") and not e["args"] and self.native(f):
            return member(self.ev(e["b"], env), "Get" + n)
        if n.startswith("Set") and "Get" + n[3:] in TO_NAT.values() and len(e["args"]) == 1:
            l = self.loc(e["b"], env)
            if l: self.write((l[0], l[1] + (("f", "Get" + n[3:]),)), self.ev(e["args"][0], env), env); return INT0
        if cls == "Matrix4d" and n == "GetElement":
            i, j = (self.ev(x, env) for x in e["args"])
            return index(member(self.ev(e["b"], env), "m"), add(mul(i, ("int", 4)), j))
        if cls == "Matrix4d" and n == "SetElement":
            i, j, x = (self.ev(x, env) for x in e["args"])
            l = self.loc(e["b"], env)
            if l is None: return unk("SetElement")
            v = self.read(l, env); k = add(mul(i, ("int", 4)), j)
            m = member(v, "m") if v[0] == "rec" else None
            if m is None or m[0] != "lit": m = ("lit", tuple(index(member(v, "m"), ("int", t)) for t in range(16)))
            if k[0] != "int" or not 0 <= k[1] < 16: self.write(l, unk("SetElement"), env); return INT0
            m = ("lit", m[1][:k[1]] + (x,) + m[1][k[1] + 1:])
            self.write(l, rec("Matrix4d", [("m", m)]), env)
            return INT0
        if not self.native(f):
            g = self.P.callee(f)
            if "pybind11::" in f.get("q", ""): return unk("py")
            return unk("method " + n)
        return self.opaque(f, None, e, env, e["b"], e["args"])
    def blank(self, v):
        """nothing the callee could read: the argument only receives a result"""
        if not isinstance(v, tuple): return True
        return v == EMPTY or v[0] in ("new", "uninit", "raw", "alloc", "parmem", "global", "pool", "int", "real", "bool", "fill", "out", "unk") or v[0] == "rec" and not v[2]
    def opaque(self, f, vals, e, env, this, args):
        """a native operation: its result and every output argument are functions of its inputs"""
        pt = f.get("pt", [])
        ins = []; outs = []
        tv = None
        if this is not None: tv = self.ev(this, env)
        for i, a in enumerate(args):
            p = pt[i] if i < len(pt) else ""
            if isinstance(a, dict) and a.get("dflt"): continue
            if ir.is_mut_ref(p) or p.endswith("*") and not p.startswith("const "):
                l = None
                if p.endswith("*"):
                    pv = self.ev(a, env); l = self.deref(pv)
                    if pv[0] == "parptr": l = (("p", pv[1]), ())
                    elif pv[0] == "ptr": l = (pv[1], pv[2])
                    else:
                        l2 = self.loc(a, env)
                        l = l2
                else: l = self.loc(a, env)
                old = self.read(l, env) if l is not None and l[0] in env else None
                ins.append(("out",) if self.blank(old) else ("inout", old)); outs.append((i, l))
            elif re.search(r"\(\*\)|\[", p) or (p.endswith("]")):
                l = self.loc(a, env); ins.append(("out",)); outs.append((i, l))
            else:
                ins.append(self.ev(a, env))
        name = f.get("q", f["n"]).replace("LNLib::", "")
        name = re.sub(r"<.*>", "", name)
        t = ("call", name, ((tv,) if this is not None else ()) + tuple(ins))
        self.calls.append((f, t, e))
        for i, l in outs:
            if l is not None: self.write(l, ("out", t, i), env)
        if this is not None and not f.get("const") and not f.get("static") and f["n"] not in ("DotProduct",):
            l = self.loc(this, env)
            if l is not None and l[0] in env: self.write(l, ("out", t, "this"), env)
        return t
    def inline(self, g, args, env):
        if self.depth > 8: return unk("recursion")
        self.depth += 1
        try:
            new = {}
            for p, a in zip(g.params, args):
                t = p["t"]
                if ir.is_ref(t):
                    l = self.loc(a, env)
                    if l is not None: new[("ref", p["id"])] = l; continue
                new[("v", p["id"])] = self.ev(a, env)
            before = dict(env)
            for k in new:
                env.pop(("ref", k[1]), None); env.pop(("v", k[1]), None)
            env.update(new)
            r = self.body(g.body, env)
            own = {p["id"] for p in g.params} | {d["id"] for x in ir.walk(g.body) if x["k"] == "Decl" for d in x["d"] if not d.get("static")} | {x["v"]["id"] for x in ir.walk(g.body) if x["k"] == "RangeFor"}
            for k in list(env):
                if k[0] in ("v", "ref") and k[1] in own:
                    if k in before: env[k] = before[k]
                    else: del env[k]
            return r[1]
        finally: self.depth -= 1

    # ---- statements: env is updated in place; returns (returned?, value)
    def body(self, b, env):
        ss = b["s"] if b["k"] == "Block" else [b]
        r = self.seq(ss, env)
        return r if r[0] else (True, ("void",))
    def seq(self, ss, env):
        for i, s in enumerate(ss):
            k = s["k"]
            if k == "Block":
                if any(x["k"] == "Return" for x in ir.walk(s)): return self.seq(s["s"] + ss[i + 1:], env)
                self.seq(s["s"], env); continue
            if k == "Return":
                return (True, self.ev(s["e"], env) if s.get("e") else ("void",))
            if k == "If":
                if s.get("init"): self.seq([s["init"]], env)
                c = truth(self.ev(s["c"], env))
                A = [s["a"]] if s.get("a") else []; B = [s["b"]] if s.get("b") else []
                rest = ss[i + 1:]
                if c == ("bool", True): return self.seq(A + rest, env)
                if c == ("bool", False): return self.seq(B + rest, env)
                ret = any(x["k"] in ("Return", "Break", "Continue") for y in A + B for x in ir.walk(y))
                e1, e2 = dict(env), dict(env)
                if ret:
                    r1 = self.seq(A + rest, e1); r2 = self.seq(B + rest, e2)
                    self.merge(env, c, e1, e2)
                    if r1[0] or r2[0]: return (True, ite(c, r1[1] if r1[0] else ("void",), r2[1] if r2[0] else ("void",)))
                    return (False, None)
                self.seq(A, e1); self.seq(B, e2)
                self.merge(env, c, e1, e2)
                continue
            if k == "Decl":
                for d in s["d"]: self.decl(d, env)
                continue
            if k == "Expr": self.ev(s["e"], env); continue
            if k == "For": self.for_(s, env); continue
            if k == "RangeFor": self.range_for(s, env); continue
            if k in ("Null", "Empty", "Using", "Typedef"): continue
            if k in ("While", "Do", "Switch", "Try"):
                self.havoc(s, env); continue
            if k in ("Break", "Continue"):
                self.notes.append(k); return (False, None)
            self.havoc(s, env)
        return (False, None)
    def merge(self, env, c, e1, e2):
        env.clear()
        for k in set(e1) | set(e2):
            a, b = e1.get(k), e2.get(k)
            if k[0] == "ref": env[k] = a if a is not None else b; continue
            if a is None or b is None:
                if k[0] == "p": a = a if a is not None else ("parmem", k[1]); b = b if b is not None else ("parmem", k[1])
                elif k[0] in ("g", "slot"): a = a if a is not None else ("global", k[1]); b = b if b is not None else ("global", k[1])
                else: env[k] = a if a is not None else b; continue
            env[k] = ite(c, a, b)
    def decl(self, d, env):
        t = d.get("t", "")
        if d.get("static"):
            r = ("v", d["id"])
            if r not in env: env[r] = ("global", "static:" + d["n"]) if not base_type(t).startswith("deque") else ("pool", d["n"])
            return
        i = d.get("init")
        if ir.is_ref(t) and i is not None:
            l = self.loc(i, env)
            if l is not None: env[("ref", d["id"])] = l; return
        env.pop(("ref", d["id"]), None)
        if i is None: env[("v", d["id"])] = self.default(t)
        else:
            v = self.ev(i, env)
            env[("v", d["id"])] = v if base_type(t) != "bool" else truth(v)
    def havoc(self, s, env):
        for v in ir.written_ids(s):
            if ("v", v) in env: env[("v", v)] = unk(s["k"])
        self.notes.append(s["k"])
        for k in list(env):
            if k[0] == "p": env[k] = unk(s["k"])
        if any(x["k"] in ("Assign", "Un", "Call", "MCall", "OpCall") for x in ir.walk(s)):
            for i in self.outs: env[("p", i)] = unk(s["k"])
    # ---- loops
    def for_(self, s, env):
        ini = s.get("init"); c = s.get("c"); inc = s.get("inc")
        iv = None; start = None
        if ini and ini["k"] == "Decl" and len(ini["d"]) == 1 and ini["d"][0].get("init"):
            iv = ini["d"][0]["id"]; start = self.ev(ini["d"][0]["init"], env)
        elif ini and ini["k"] == "Expr" and ini["e"]["k"] == "Assign" and ini["e"]["a"]["k"] == "Var":
            iv = ini["e"]["a"]["id"]; start = self.ev(ini["e"]["b"], env)
        elif not ini and inc and inc["k"] in ("Un", "Assign"):
            x = inc.get("e") or inc.get("a")
            if x and x["k"] == "Var" and isinstance(env.get(("v", x["id"])), tuple) and not is_unk(env[("v", x["id"])]): iv = x["id"]; start = env[("v", iv)]
        outer = iv if not (ini and ini["k"] == "Decl") else None
        ok = iv is not None and inc and inc["k"] in ("Un", "Assign") and c and c["k"] == "Bin" and c["op"] in ("<", "<=", "!=", ">", ">=")
        if ok:
            up = inc["k"] == "Un" and inc["op"] == "++" and inc["e"].get("id") == iv or inc["k"] == "Assign" and inc["op"] == "+=" and inc["b"] == dict(inc["b"], k="Int", v=1) and inc["a"].get("id") == iv
            op, A, B = c["op"], c["a"], c["b"]
            def strip(e):
                while e["k"] in ("Cast", "Paren"): e = e["e"]
                return e
            if strip(B).get("id") == iv and strip(B)["k"] == "Var": A, B = B, A; op = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "!=": "!="}[op]
            A = strip(A)
            ok = up and A["k"] == "Var" and A.get("id") == iv and op in ("<", "<=", "!=")
        if not ok or any(x["k"] in ("Return", "Break") for x in ir.walk(s["body"])) and not self.guard_only(s):
            if ini: self.seq([ini], env)
            self.havoc(s, env); return
        if any(x["k"] == "Return" for x in ir.walk(s["body"])) and self.guard_only(s) == "all":
            return                         # a shape check that only leaves early
        N = self.ev(B, env)
        if op == "<=": N = add(N, INT1)
        n = add(N, start, -1)
        if n[0] == "int" and start[0] == "int" and n[1] <= 16:
            for j in range(n[1]):
                env[("v", iv)] = ("int", start[1] + j)
                self.seq([s["body"]], env)
            return
        k = fresh_ix()
        self.loop(lambda en: en.__setitem__(("v", iv), add(start, k)), s["body"], k, n, env, ("v", iv))
        if outer is not None: env[("v", outer)] = N
    def guard_only(self, s):
        """the body leaves early only by `if (shape test) return;`: assumed not to happen"""
        ss = s["body"]["s"] if s["body"]["k"] == "Block" else [s["body"]]
        g = [x for x in ss if x["k"] == "If" and any(y["k"] == "Return" for y in ir.walk(x))]
        rest = [x for x in ss if x not in g]
        if any(y["k"] in ("Return", "Break") for x in rest for y in ir.walk(x)): return None
        for x in g:
            if x.get("b") or any(y["k"] == "Assign" for y in ir.walk(x["a"])): return None
        self.notes.append("shape check assumed to pass")
        return "all" if not rest else "some"
    def range_for(self, s, env):
        k = fresh_ix(); v = s["v"]
        l = self.loc(s["r"], env)
        c = self.read(l, env) if l else self.ev(s["r"], env)
        n = size(c)
        if n[0] == "int" and n[1] <= 16:
            for j in range(n[1]):
                env[("v", v["id"])] = index(c, ("int", j)); self.seq([s["body"]], env)
            return
        def bind(en):
            if l and ir.is_ref(v.get("t", "")) and not v["t"].startswith("const"): en[("ref", v["id"])] = (l[0], l[1] + (("i", k),))
            else: en[("v", v["id"])] = index(c, k)
        if any(x["k"] in ("Return", "Break") for x in ir.walk(s["body"])): self.havoc(s, env); return
        self.loop(bind, s["body"], k, n, env)
    def loop(self, bind, body, k, n, env, loopvar=None):
        def drop(b):
            return dict(b, s=[x for x in b["s"] if not (x["k"] == "If" and any(y["k"] == "Return" for y in ir.walk(x)))]) if b["k"] == "Block" else b
        body = drop(body)
        if any(x["k"] in ("Continue", "Break", "Return") for x in ir.walk(body)): self.havoc(dict(k="For", body=body, l=0), env); return
        e0 = dict(env); ncalls = len(self.calls)
        bind(e0); seen = dict(e0)
        self.seq([body], e0)
        def init(r): return env[r] if r in env else (("parmem", r[1]) if r[0] == "p" else ("global", r[1]))
        own = {d["id"] for x in ir.walk(body) if x["k"] == "Decl" for d in x["d"] if not d.get("static")}
        ch = [r for r in e0 if r in env and r[0] != "ref" and e0[r] != env[r] and not (r[0] == "v" and (r[1] in own or r == loopvar))]
        ch += [r for r in e0 if r not in env and r[0] in ("p", "g", "slot") and e0[r] != init(r) and not mentions(r, k)]
        # second run: changed roots start as symbols, so what an iteration does to them can be read off
        del self.calls[ncalls:]
        e1 = dict(env); bind(e1)
        lv = {}
        def wrap(r, x):
            i = init(r)
            if i[0] == "parptr": return ("parptr", i[1], x)
            if i[0] == "ptr": return ("ptr", i[1], i[2], x, i[4])
            return x
        def unwrap(r, x):
            i = init(r)
            if i[0] in ("parptr", "ptr") and isinstance(x, tuple) and x[0] == i[0] and x[1] == i[1] and (i[0] == "parptr" or x[2] == i[2]): return x[2] if i[0] == "parptr" else x[3]
            return x
        for r in ch:
            lv[r] = ("lv", r); e1[r] = wrap(r, lv[r])
        self.seq([body], e1)
        # integer recurrences v = v + c
        recur = {}
        for r in ch:
            cur = unwrap(r, e1[r])
            d = add(cur, lv[r], -1) if cur[0] in ("poly", "lv", "int") else None
            if d is not None and not any(mentions(d, x) for x in lv.values()) and unwrap(r, init(r))[0] in ("int", "poly", "par", "size", "lv", "psum"):
                recur[r] = d
        if recur:
            del self.calls[ncalls:]
            e1 = dict(env); bind(e1)
            for r in ch:
                if r in recur:
                    c = recur[r]
                    e1[r] = wrap(r, add(unwrap(r, init(r)), mul(k, c) if not mentions(c, k) else ("psum", k, c)))
                else: e1[r] = wrap(r, lv[r])
            self.seq([body], e1)
        for r in e1:
            if r[0] == "slot" and mentions(r, k): env[r] = e1[r]
        for r in ch:
            if r in recur:
                c = recur[r]
                env[r] = wrap(r, add(unwrap(r, init(r)), mul(n, c) if not mentions(c, k) else ("psum", n, subst(c, {k: ("bound",)}))))
                continue
            env[r] = self.summarise(init(r), e1[r], lv[r], set(lv.values()) - {lv[r]}, k, n)
    def summarise(self, old, new, lv, others, k, n):
        if not isinstance(new, tuple): return unk("loop")
        if new == lv: return old
        if any(mentions(new, o) for o in others): return unk("loop-carried")
        if not mentions(new, lv):
            return subst(new, {k: add(n, INT1, -1)}) if not is_unk(new) else new
        if new[0] == "upd" and new[1] == lv and not mentions(new[3], lv) and not mentions(new[2], lv):
            return self.map_update(old, ((k, n),), new[2], new[3])
        if new[0] == "mapu" and new[1] == lv and not mentions(new[2:], lv):
            return self.map_update(old, ((k, n),) + new[2], new[3], new[4])
        if new[0] == "app" and new[1] == lv and not mentions(new[2], lv):
            return self.append_map(old, ((k, n),), new[2])
        if new[0] == "appm" and new[1] == lv and not mentions(new[2:], lv):
            return self.append_map(old, ((k, n),) + new[2], new[3])
        if new[0] == "rec" and isinstance(old, tuple) and old[0] == "rec" and old[1] == new[1]:
            o = dict(old[2]); out = []
            for f, v in new[2]: out.append((f, self.summarise(o.get(f, EMPTY), v, member(lv, f), set(), k, n)))
            return rec(old[1], out)
        if new[0] == "recupd" and new[1] == lv:
            f = new[2]; sub = self.summarise(member(old, f), new[3], ("mem", lv, f), set(), k, n)
            return self.put(old, (("f", f),), sub)
        if new[0] == "upd" and new[1][0] == "upd": return unk("two writes per iteration")
        return unk("loop")
    def map_update(self, old, dims, path, x):
        """old with old[path(ix..)] = x for all ix in dims"""
        if not isinstance(old, tuple): return unk("map")
        if old[0] == "lv" or old[0] == "mem" and mentions(old, "lv"): return ("mapu", old, dims, path, x)
        ixs = tuple(d[0] for d in dims)
        sizes = self.sizes(old, len(path))
        if old[0] in ("pool",): return arr((None,), dims, path, x)
        flatd = path == ixs
        if flatd:
            if old[0] in ("parmem", "raw", "uninit", "alloc", "global"):
                return arr((old[1],) if old[0] == "alloc" else (None,), dims, path, x)
            if sizes is not None and tuple(sizes) == tuple(d[1] for d in dims): return arr(sizes, dims, path, x)
        if old[0] == "alloc": return arr((old[1],), dims, path, x)
        if old[0] in ("parmem", "raw", "uninit", "global"): return arr((None,), dims, path, x)
        if sizes is not None and old[0] == "fill": return arr(tuple(sizes), dims, path, x)
        # a second region of the same array
        return ("over", old, dims, path, x)
    def sizes(self, v, depth):
        out = []
        for _ in range(depth):
            if not isinstance(v, tuple) or v[0] not in ("fill", "arr", "lit"): return None
            out.append(size(v))
            v = v[2] if v[0] == "fill" else (index(v, INT0))
        return tuple(out)
    def append_map(self, old, dims, x):
        if not isinstance(old, tuple): return unk("append")
        if old[0] == "lv" or mentions(old, "lv"): return ("appm", old, dims, x)
        if old != EMPTY and old[0] != "global": return ("cat", old, dims, x)
        if old[0] == "global": return ("cat", old, dims, x)      # whatever an earlier call left is still there
        if len(dims) == 1 and isinstance(x, tuple) and x[0] == "arr" and full(x) and None not in x[1] and len(x[1]) == len(x[2]) and not any(mentions(z, dims[0][0]) for z in x[1]):
            return arr((dims[0][1],) + x[1], dims + x[2], (dims[0][0],) + x[3], x[4])
        off = INT0; total = INT1
        # flattened index
        pos = INT0
        for j, (k, n) in enumerate(dims):
            inner = INT1
            dep = False
            for k2, n2 in dims[j + 1:]:
                if mentions(n2, k): dep = True
                inner = mul(inner, n2)
            if j == len(dims) - 1: pos = add(pos, k)
            elif dep: pos = add(pos, ("psum", k, inner))
            else: pos = add(pos, mul(k, inner))
        for k, n in dims: total = mul(total, n) if not any(mentions(n, d[0]) for d in dims) else ("total", dims)
        if any(mentions(n, d[0]) for _, n in dims for d in dims): total = ("total", tuple(n for _, n in dims))
        return arr((total,), dims, (pos,), x)

    # ---- final form
    def resolve(self, t, env, depth=0, known=None):
        """pointers are replaced by what they point to when the function returns"""
        known = known or {}
        if not isinstance(t, tuple) or depth > 60: return t
        if t and t[0] == "ptr":
            v = self.read((t[1], t[2]), env)
            return ("to", self.resolve(v, env, depth + 1, known), t[3])
        if t and t[0] == "ite":
            if t[1] in known: return self.resolve(t[2] if known[t[1]] else t[3], env, depth + 1, known)
            c = self.resolve(t[1], env, depth + 1, known)
            return ite(c, self.resolve(t[2], env, depth + 1, {**known, t[1]: True}), self.resolve(t[3], env, depth + 1, {**known, t[1]: False}))
        if t and t[0] == "upd" and t[1][0] == "parmem" and t[2] == (INT0,): return self.resolve(t[3], env, depth + 1, known)
        return tuple(self.resolve(x, env, depth + 1, known) for x in t)

def canon(t):
    """loop indices are numbered in order of appearance"""
    names = {}
    def bound(x):
        if isinstance(x, tuple):
            if x and x[0] == "ix":
                names.setdefault(x, ("ix#", len(names))); return
            for y in x: bound(y)
    bound(t)
    def ren(x):
        if isinstance(x, tuple):
            if x in names: return names[x]
            return tuple(ren(y) for y in x)
        return x
    t = ren(t)
    def again(x):          # polynomials are ordered by representation
        if isinstance(x, tuple):
            x = tuple(again(y) for y in x)
            return poly_make(x) if x and x[0] == "poly" else x
        return x
    return again(t)

def signature(P, f):
    ev = Eval(P)
    env = {}
    ev.outs = tuple(i for i, p in enumerate(f.params) if p["t"].strip().endswith("*") and "const" not in p["t"])
    for i, p in enumerate(f.params):
        t = p["t"].strip()
        if t.endswith("*"): env[("v", p["id"])] = ("parptr", i, INT0)
        elif ir.is_ref(t): env[("v", p["id"])] = ("par", i)
        else: env[("v", p["id"])] = ("par", i)
    r = ev.body(f.body, env)
    sig = {}
    if f.ret != "void": sig["return"] = canon(ev.resolve(r[1], env))
    for i, p in enumerate(f.params):
        v = env.get(("p", i))
        if v is not None and v != ("parmem", i):
            if v[0] == "upd" and v[1] == ("parmem", i) and v[2] == (INT0,): v = v[3]
            sig[f"out{i}"] = canon(ev.resolve(v, env))
    return sig, ev

def lambda_signature(P, lam):
    """results of a binding lambda; ("par", i) are its parameters"""
    ev = Eval(P); env = {}
    roots = []
    for i, p in enumerate(lam["params"]):
        r = ("v", p["id"]); env[r] = ("par", i); roots.append((i, r, p["t"]))
    r = ev.body(lam["body"], env)
    sig = {}
    if lam.get("ret") != "void": sig["return"] = canon(ev.resolve(r[1], env))
    for i, r, t in roots:
        if ir.is_mut_ref(t) and env.get(r) != ("par", i): sig[f"out{i}"] = canon(ev.resolve(env[r], env))
    return sig
def direct_signature(f, static):
    """the function itself given as the binding"""
    n0 = 0 if static else 1
    args = []
    name = re.sub(r"<.*>", "", f.get("q", f["n"]).replace("LNLib::", ""))
    for i, t in enumerate(f.get("pt", [])):
        args.append(("inout", ("par", n0 + i)) if ir.is_mut_ref(t) else ("par", n0 + i))
    if not static and not args and f["n"] in TO_NAT.values(): return {"native": ("mem", ("par", 0), f["n"])}
    return {"native": ("call", name, (() if static else (("par", 0),)) + tuple(args))}
