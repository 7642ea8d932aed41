"""Index obligations: for every element access, the index and the size of the container as symbolic linear terms, and bounds on them from loop
ranges, path conditions, passed guards and the well-formedness of inputs.  A linear term is bounded by substituting the attained ends of the loop
variables and adding known non-positive terms; nothing is executed or searched for."""
import math
from summ import *
from logic import show, implied, contradictory, subst_f, truth

SPAN = "Polynomials::GetKnotSpanIndex("
def is_span(t): return t[0] == "call" and t[1].startswith(SPAN)

class Obl:
    __slots__ = ("e", "idx", "size", "ctx", "nf", "loops", "what", "base", "iv", "inl", "l")
class Idx(RunS):
    def __init__(s, P, f, eff, summ, req=None):
        super().__init__(P, f, eff, summ); s.gl = []; s.obl = {}; s.req = req or {}; s.fln = []; s.calls = []
    def note(s, e, b, i, st, what):
        if b is None: return
        o = Obl(); o.e = e; o.idx = i; o.size = size(b); bn = e.get("b") or {}
        m = re.match(r"[^\[\]<>]*\[(\d+)\]", base_type(bn.get("t", "")))
        if m: o.size = const(int(m.group(1)))
        elif "*" in bn.get("t", "") and b[0] != "vec" and b[0] != "p": return
        o.ctx = st.ctx; o.nf = len(s.gl); o.loops = tuple(s.loops); o.what = what; o.base = b; o.l = e.get("l")
        s.obl[(id(e), what)] = o          # the last pass over a loop is the stable one
    def on_index(s, e, b, i, st): s.note(e, b, i, st, "index")
    def on_frontback(s, e, b, st): s.note(e, b, const(0), st, "front/back")
    def on_throw(s, e, st):
        super().on_throw(e, st); s.gl.append(frozenset(flat(st.ctx)))
    def on_libcall(s, e, c, st, args):
        super().on_libcall(e, c, st, args)
        sm = s.summ.get(c.key)
        if sm is not None: sm = sm.pick(args)
        if sm is not None and sm.facts and len(s.gl) < 2000:
            def f(t):
                if isinstance(t, tuple) and t and t[0] == "p": return args[t[1]] if t[1] < len(args) and args[t[1]] is not None else ("havoc", s.fresh())
                return None
            cx = flat(st.ctx)
            for conj in sm.facts:
                if any(a[0] in ("le", "eq", "ne", "or", "and") for a in conj): s.gl.append(frozenset(cx | flat([subst_f(a, f) for a in conj])))
        s.calls.append((e, c, st.ctx, list(args), len(s.gl), tuple(s.loops)))

def holds(A, f):
    if f in A: return True
    if f[0] == "and": return all(holds(A, x) for x in f[1])
    if f[0] == "or": return any(holds(A, x) for x in f[1])
    return implied(A, f)
def resolve(a, A):
    def g(x):
        if isinstance(x, tuple) and len(x) == 4 and x[0] == "ite":
            if holds(A, x[1]): return subst(x[2], g)
            if holds(A, f_not(x[1])): return subst(x[3], g)
        return None
    if not any(isinstance(x, tuple) and x and x[0] == "ite" for x in subterms(a)): return a
    return subst_f(a, g)
# ------------------------------------------------------------------ facts
def sized(t, out):
    """shape objects (terms with degree and control points) mentioned in t"""
    for x in subterms(t):
        if isinstance(x, tuple) and x and x[0] == "m" and len(x) == 3 and x[2] in ("ControlPoints", "KnotVector", "KnotVectorU", "KnotVectorV", "KnotVectorW", "Degree", "DegreeU", "DegreeV", "DegreeW"): out.add((x[1], x[2]))
AX = {"Degree": ("ControlPoints", "Degree", 0), "KnotVector": ("ControlPoints", "Degree", 0),
      "DegreeU": ("ControlPoints", "DegreeU", 0), "KnotVectorU": ("ControlPoints", "DegreeU", 0),
      "DegreeV": ("ControlPoints", "DegreeV", 1), "KnotVectorV": ("ControlPoints", "DegreeV", 1),
      "DegreeW": ("ControlPoints", "DegreeW", 2), "KnotVectorW": ("ControlPoints", "DegreeW", 2)}
def flat(fs):
    out = set()
    for f in fs:
        if f[0] == "and": out |= flat(f[1])
        else: out.add(f)
    return out
def les(fs):
    """linear terms known to be <= 0"""
    r = []
    for a in fs:
        if a[0] == "le": r.append(tolin(a[1]))
        elif a[0] == "eq": r.append(tolin(a[1])); r.append(tolin(scale(a[1], -1)))
    return r

class Facts:
    def __init__(s, R, ctx, nf, terms, fix=lambda t: t, nosize=False):
        s.R = R
        A = flat(ctx); s.A = A
        L = les(A)
        s.ors = [a for a in A if a[0] == "or"]
        # guards already passed: what throws does not happen
        G = []
        fA = frozenset(A)
        for c in R.gl[:nf]:
            rest = None
            for a in c:
                if a in fA or holds(fA, a): continue
                if rest is not None: rest = None; break
                rest = a
            else:
                if rest is not None: G.append(f_not(rest))
        G = flat(G)
        ne = [a[1] for a in (A | G) if a[0] == "ne"]
        L += les(G)
        s.G = G
        # ranges of loop variables and of span indices, well-formedness of shapes
        todo = list(terms) + L; seen = set()
        objs = set()
        while todo:
            t = todo.pop()
            for x in subterms(t):
                if not (isinstance(x, tuple) and x and isinstance(x[0], str)) or x in seen: continue
                seen.add(x)
                if x[0] == "iv" and x[1] in R.iv:
                    lo, hi = R.iv[x[1]]
                    lo = fix(lo) if lo is not None else None; hi = fix(hi) if hi is not None else None
                    if lo is not None: L.append(tolin(sub(lo, x))); todo.append(lo)
                    if hi is not None: L.append(tolin(sub(x, hi))); todo.append(hi)
                elif is_span(x) and len(x) >= 4:
                    lo = x[2]; hi = sub(sub(size(x[3]), x[2]), const(2))
                    L.append(tolin(sub(lo, x))); L.append(tolin(sub(x, hi))); todo += [lo, hi]
                elif x[0] == "size" and not nosize: L.append(tolin(scale(x, -1)))
                elif x[0] == "fn" and x[1] == "min" and len(x) == 4:
                    L.append(tolin(sub(x, x[2]))); L.append(tolin(sub(x, x[3])))
                elif x[0] == "fn" and x[1] == "max" and len(x) == 4:
                    L.append(tolin(sub(x[2], x))); L.append(tolin(sub(x[3], x)))
                elif x[0] == "m" and len(x) == 3 and x[2] in AX: objs.add((x[1], AX[x[2]]))
                elif x[0] == "m" and len(x) == 3 and x[2] == "ControlPoints":
                    L.append(tolin(sub(const(1), ("size", x))))
                    for q in AX.values():
                        pass
        for o, (cp, dg, dep) in objs:
            if o[0] in ("newobj", "rec"): continue
            x = fld(o, cp)
            for _ in range(dep): x = ("at", x, "*", True)
            d = fld(o, dg)
            L.append(tolin(sub(const(1), d)))
            L.append(tolin(sub(add(d, const(1)), size(x))))
        # a != b with a <= b known: strict
        s.L = []
        for l in L:
            if l[2] and l not in s.L: s.L.append(l)
        for n in ne:
            for sg in (1, -1):
                l = tolin(scale(n, sg))
                if l in s.L or tolin(l) in s.L: s.L.append(tolin(add(l, const(1))))
        s.by = {}
        for l in s.L:
            for a, k in l[2]: s.by.setdefault(a, []).append((k, l))
    def le0(s, E, depth=7, used=frozenset(), bud=None):
        """E <= 0 follows from a sum of known facts"""
        if bud is None: bud = [4000]
        E = tolin(E)
        if not E[2]: return E[1] <= 0
        if depth == 0: return False
        bud[0] -= 1
        if bud[0] < 0: return False
        # pick the atom to eliminate: latest loop variable first, then spans
        cand = sorted(E[2], key=lambda ak: prio(ak[0]))
        a, k = cand[0]
        for kf, l in sorted(s.by.get(a, ()), key=lambda x: len(x[1][2])):
            if kf * k <= 0: continue
            if l in used: continue
            lam = Fraction(k) / Fraction(kf)
            if s.le0(sub(E, scale(l, lam)), depth - 1, used | {l}, bud): return True
        return False
def prio(a):
    if a[0] == "iv": return (0, -(a[1] if isinstance(a[1], int) else 0), repr(a))
    if is_span(a): return (1, 0, repr(a))
    if a[0] == "fn": return (2, 0, repr(a))
    return (3, 0, repr(a))
def prove(R, ctx, nf, E):
    E = tolin(E)
    if not E[2]: return E[1] <= 0
    m = R.__dict__.setdefault("pm", {}); k = (E, ctx, nf)
    if k not in m: m[k] = prove1(R, ctx, nf, E)
    return m[k]
def prove1(R, ctx, nf, E):
    for conds, x in cases(E):
        fix = fixer(conds); x = fix(x)
        F = Facts(R, list(ctx) + list(conds), nf, [x], fix)
        if contradictory(frozenset(a for a in F.A if a[0] != "or")): continue
        if not F.le0(x):
            if any(a[0] == "mul" for a, _ in tolin(x)[2]):
                y = extreme(R, x, {}, fix)
                if y is not None and Facts(R, list(ctx) + list(conds), nf, [y], fix).le0(y): continue
            # one disjunction split
            done = False
            for o in F.ors[:3]:
                if all(Facts(R, list(ctx) + list(conds) + [d], nf, [x], fix).le0(x) for d in o[1]): done = True; break
            if not done: return False
    return True

FREE_BAD = {"loop", "phi", "new", "uninit", "havoc", "lambda", "ext", "rec", "init", "iter", "vec", "newobj", "out"}
def extreme(R, E, env, fix=lambda t: t):
    """E with every loop variable and span index at the end that makes E largest; env collects the choices.  None when an end is unknown"""
    for _ in range(12):
        E = tolin(E)
        at = {}
        for a, k in E[2]:
            if a[0] == "iv" or is_span(a): at.setdefault(a, []).append(k)
            elif a[0] == "mul":
                for x in set(a[1:]):
                    if x[0] == "iv" or is_span(x):
                        rest = list(a[1:]); rest.remove(x)
                        at.setdefault(x, []).append(k if all(nonneg(R, r) for r in rest) else None)
        if not at: return E
        a, ks = sorted(at.items(), key=lambda ak: prio(ak[0]))[0]
        if None in ks or (min(ks) < 0 < max(ks)): return None
        k = ks[0]
        if a in env: v = env[a]
        elif a[0] == "iv":
            if a[1] not in R.iv or a[1] in R.ivloose: return None
            lo, hi = R.iv[a[1]]; v = hi if k > 0 else lo
        else: v = sub(sub(size(a[3]), a[2]), const(2)) if k > 0 else a[2]
        if v is None or v == a: return None
        v = fix(v)
        env[a] = v
        E = subst1(E, a, v)
    return None
def nonneg(R, t):
    if t[0] == "size": return True
    if t[0] == "m": return t[2] in AX
    if t[0] == "iv" and t[1] in R.iv:
        lo = R.iv[t[1]][0]
        return lo is not None and cval(lo) is not None and cval(lo) >= 0
    return False
def subst1(E, a, v):
    """replace a by v in the sum and in its products (not inside other terms)"""
    acc = const(tolin(E)[1])
    for t, k in tolin(E)[2]:
        if t == a: acc = add(acc, scale(v, k))
        elif t[0] == "mul" and a in t[1:]:
            p = const(k)
            for x in t[1:]: p = mul(p, v if x == a else x)
            acc = add(acc, p)
        else: acc = add(acc, scale(t, k))
    return acc
def at_env(t, env):
    for _ in range(12):
        t = tolin(t); ch = False
        for a, k in t[2]:
            b = a if a in env else next((x for x in a[1:] if x in env), None) if a[0] == "mul" else None
            if b is not None:
                t = subst1(t, b, env[b]); ch = True; break
        if not ch: return t
    return t
def settle(A, le=()):
    """conditions with their if-then-else terms resolved and disjunctions reduced; None when contradictory"""
    A = set(A) | {("le", tolin(t)) for t in le}
    for _ in range(4):
        fa = frozenset(A); new = set(); ch = False
        for a in A:
            b = resolve(a, fa - {a}) if has_ite(a) else a
            if b[0] == "or":
                ds = [resolve(d, fa) for d in b[1]]
                ds = [d for d in ds if not all_false(d, fa)]
                if not ds: return None
                b = f_or(*ds)
            if b != a: ch = True
            new |= flat([b])
        A = new
        if any(truth(a) is False for a in A): return None
        if not ch: break
    return A
def has_ite(a): return any(isinstance(x, tuple) and x and x[0] == "ite" for x in subterms(a))
def all_false(d, fa):
    if d[0] == "and": return any(all_false(x, fa) for x in d[1])
    if d[0] == "or": return all(all_false(x, fa) for x in d[1])
    return truth(d) is False or implied(fa, f_not(d))
def fixer(conds):
    if not conds: return lambda t: t
    A = frozenset(flat(conds))
    return lambda t: resolve(("le", tolin(t)), A)[1] if has_ite(t) else t
def input_atom(a):
    if a[0] == "p": return True
    if a[0] == "m": return a[2] in AX
    if a[0] == "size": return not (kinds(a) & FREE_BAD)
    return False
MAXDEG = [7]
def degree_like(R, x):
    if x[0] == "m": return x[2].startswith("Degree")
    return x[0] == "p" and "degree" in R.f.params[x[1]]["n"].lower()
def attained(R, A, nf, y, fix, csize):
    """y depends on one input quantity only and is positive at the smallest (or largest) value the guards accept"""
    if len(y[2]) != 1: return False
    (x, k), = y[2]
    if not input_atom(x): return False
    F = Facts(R, A, nf, [y], fix, True)
    if any(x in subterms(a) and (kinds(a) & FREE_BAD) for a in A): return False
    if k > 0:
        ub = next((c for c in range(0, 40) if F.le0(sub(x, const(c)))), None)
        if ub is None: return csize == MAXDEG[0] + 1 and degree_like(R, x)
        return y[1] + k * ub >= 1
    lb = next((c for c in range(12, -2, -1) if F.le0(sub(const(c), x))), None)
    return lb is not None and y[1] + k * lb >= 1
# what these operations ask of their caller: (a, b) means a <= b.  Operands of a product or a linear system have matching dimensions, a span index
# and a degree fit the knot vector, an index names an element
def _n(i): return size(("p", i))
def _c(i): return size(("at", ("p", i), "*", True))
def _eq(a, b): return [(a, b), (b, a)]
_p = [("p", i) for i in range(6)]
_span = lambda k: [(add(add(_p[0], _p[1]), const(1)), _n(k))]
NEEDS = {"MathUtils::MatrixMultiply(": _eq(_c(0), _n(1)), "ControlPointsUtils::Multiply(": _eq(_c(0), _n(1)),
         "MathUtils::SolveLinearSystemBanded(": _eq(_c(3), _c(4)) + _eq(_p[0], _n(1)) + _eq(_p[2], _c(1)) + _eq(_p[0], _n(3)) + _eq(_p[0], _n(4)),
         "Polynomials::GetKnotSpanIndex(": [(add(scale(_p[0], 2), const(2)), _n(1))], "Polynomials::BasisFunctions(": _span(2), "Polynomials::BasisFunctionsDerivatives(": _span(3),
         "Polynomials::BasisFunctionsFirstOrderDerivative(": _span(2), "Polynomials::AllBasisFunctions(": _span(2),
         "Polynomials::OneBasisFunction(": [(add(add(_p[0], _p[1]), const(2)), _n(2))], "Polynomials::OneBasisFunctionDerivative(": [(add(add(_p[0], _p[1]), const(2)), _n(3))],
         "Polynomials::PowerToBezierMatrix(": _eq(add(_p[0], const(1)), _n(1)) + _eq(add(_p[0], const(1)), _c(1)),
         "Getqk(": [(add(_p[1], const(1)), _n(0))], "MathUtils::GetColumn(": [(add(_p[1], const(1)), _c(0))], "VoronoiDiagramGenerator::endpoint(": [(_p[1], const(1))],
         "Matrix4d::GetElement(": [(_p[0], const(3)), (_p[1], const(3))], "Matrix4d::SetElement(": [(_p[0], const(3)), (_p[1], const(3))],
         "UV::operator[](": [(_p[0], const(1))], "XYZ::operator[](": [(_p[0], const(2))], "XYZW::operator[](": [(_p[0], const(3))],
         "rdft(": [(_p[0], _n(3))], "ddct(": [(_p[0], _n(3))], "dfct(": [(add(_p[0], const(1)), _n(3))]}
def conform(R):
    return [tolin(sub(a, b)) for k, v in NEEDS.items() if R.f.key.startswith(k) for a, b in v]
def rooted(a):
    while isinstance(a, tuple) and len(a) > 1 and a[0] in ("size", "m", "at"): a = a[1]
    return isinstance(a, tuple) and a and a[0] == "p"
def raisable(a): return rooted(a) and (a[0] in ("size", "p") or (a[0] == "m" and a[2] in AX and a[2].startswith("Degree")))
def spans(a): return isinstance(a, tuple) and a[0] == "call" and str(a[1]).startswith("Polynomials::GetKnotSpanIndex(") and all(rooted_all(x) for x in a[2:])
def rooted_all(a): return not (kinds(a) & FREE_BAD)
def capped(l): return len(l[2]) == 1 and l[2][0][1] > 0 and l[2][0][0][0] == "m" and str(l[2][0][0][2]).startswith("Degree")
def unbounded(R, F, A, y):
    """y grows along a direction of input sizes and degrees that every known fact allows (without bound, or up to the largest degree): [the raised quantities] or None"""
    if any(not rooted(a) for a, _ in y[2]): return None
    L = F.L + conform(R); caps = [l for l in L if capped(l)]; free = [l for l in L if not capped(l)]
    for s, k in y[2]:
        if k <= 0 or not raisable(s): continue
        d = {s: Fraction(1)}
        for _ in range(12):
            bad = None
            for l in free:
                v = sum(Fraction(c) * d.get(a, 0) for a, c in l[2])
                if v > 0: bad = (l, v); break
            if bad is None: break
            l, v = bad
            up = [(a, c) for a, c in l[2] if c < 0 and (raisable(a) or spans(a)) and a != s]
            if not up: break
            up.sort(key=lambda ac: (dict(y[2]).get(ac[0], 0) < 0, repr(ac[0])))
            a, c = up[0]
            d[a] = d.get(a, Fraction(0)) + v / -Fraction(c)
        else: continue
        if bad is not None: continue
        if sum(Fraction(c) * d.get(a, 0) for a, c in y[2]) <= 0: continue
        far = not any(l[2][0][0] in d for l in caps)      # far enough along the direction a linear form differs from zero
        if any(x in d for a in A if a[0] not in ("le", "eq") and not (far and a[0] == "ne" and not has_ite(a) and "mul" not in kinds(a)) for x in subterms(a)): continue
        if any(l[2][0][0] in d for l in caps) and not reaches(L, d, y): continue
        return sorted(d, key=repr)
    return None
def reaches(L, d, y):
    """some step along d from a small input that satisfies all facts makes y positive without leaving them"""
    x = {}
    def val(l): return l[1] + sum(Fraction(c) * x.get(a, 0) for a, c in l[2])
    for _ in range(80):
        l = next((l for l in L if val(l) > 0), None)
        if l is None: break
        up = [(a, c) for a, c in l[2] if c < 0]
        if not up: return False
        a, c = up[0]; x[a] = x.get(a, 0) + math.ceil(val(l) / -Fraction(c))
    else: return False
    for t in range(1, 40):
        for a, c in d.items(): x[a] = x.get(a, 0) + c
        if any(val(l) > 0 for l in L): return False
        if val(y) >= 1 and all(Fraction(v).denominator == 1 for v in x.values()): return True
    return False
def leaves(x):
    if isinstance(x, tuple) and x and x[0] == "ite": return leaves(x[2]) | leaves(x[3])
    if isinstance(x, tuple) and x and x[0] == "lin" and not x[2]: return {Fraction(x[1])}
    c = cval(x)
    return {Fraction(c)} if c is not None else set()
def refute(R, ctx, nf, E, loops=(), csize=False):
    """a case in which E >= 1 is attained whatever the input: (residue, conditions) or None"""
    known = {}
    for a in flat(list(ctx)):                  # a selector variable compared with one of the values it is given
        if a[0] == "eq" and a[1][0] == "lin" and len(a[1][2]) == 1 and a[1][2][0][0][0] == "ite":
            (x, k), = a[1][2]; v = Fraction(-a[1][1]) / k
            if v in leaves(x): known[x] = v
    if known and E[0] == "lin" and E[2] and all(x in known for x, _ in E[2]):
        v = E[1] + sum(k * known[x] for x, k in E[2])
        if v >= 1: return const(int(v)), [], {}
    for conds, x in cases(E):
        if any(kinds(c) & FREE_BAD for c in conds): continue
        env = {}
        fix = fixer(conds)
        y = extreme(R, fix(x), env, fix)
        if y is None or kinds(y) & FREE_BAD: continue
        y = tolin(y)
        if any("iv" in kinds(a) for a, _ in y[2]): continue
        base = settle(flat(list(ctx) + list(conds)), [sub(*R.iv[l]) for l in loops if l in R.iv and R.iv[l][0] is not None and R.iv[l][1] is not None])
        if base is None or any("mul" in kinds(c) or has_ite(c) for a in conds for c in atoms_of(a) if c[0] in ("le", "eq", "ne")): continue
        y = tolin(resolve(("le", y), frozenset(base))[1])
        if has_ite(y): continue
        pure = [a for a in base if "iv" not in kinds(a)]
        F = Facts(R, pure, nf, [y], fix)
        if contradictory(frozenset(a for a in F.A if a[0] != "or")): continue
        for _ in range(4):
            m = next((a for a, _ in y[2] if a[0] == "fn" and a[1] in ("min", "max") and len(a) == 4), None)
            if m is None: break
            d = sub(m[2], m[3])
            F = Facts(R, pure, nf, [y, m[2], m[3]], fix)
            small = m[2] if F.le0(d) else m[3] if F.le0(scale(d, -1)) else None
            if small is None: break
            v = small if m[1] == "min" else (m[3] if small is m[2] else m[2])
            k = dict(y[2])[m]; env[m] = v
            y = tolin(add(sub(y, scale(m, k)), scale(v, k)))
        if not F.le0(sub(const(1), y)) and not attained(R, set(pure) | set(flat(list(ctx) + list(conds))), nf, y, fix, csize) and not unbounded(R, F, set(pure) | set(F.G), y): continue
        # the chosen ends must satisfy the integer conditions on the way to the access
        ok = True
        for a in base:
            if not any(b in env for b in subterms(a) if isinstance(b, tuple)): continue
            for d in atoms_of(a):
                if d[0] == "le":
                    z = at_env(fix(d[1]), env)
                    zz = extreme(R, fix(scale(z, -1)), {}, fix)       # unrelated loop variables take their best value
                    zz = scale(zz, -1) if zz is not None else None
                    if zz is None or not F.le0(zz): 
                        # a loop may be empty for some inputs: fine as long as it is not empty for all
                        if zz is None or F.le0(sub(const(1), zz)) or a[0] == "or" or not loopcond(R, d): ok = False
                elif d[0] in ("eq", "ne"):
                    z = at_env(fix(d[1]), env)
                    if d[0] == "eq" and cval(z) != 0: ok = False
                    if d[0] == "ne" and not (F.le0(add(z, const(1))) or F.le0(sub(const(1), z))): ok = False
            if not ok: break
        if ok: return y, conds, env
    return None
def loopcond(R, d): return True
def atoms_of(f):
    if f[0] in ("and", "or"):
        for x in f[1]: yield from atoms_of(x)
    else: yield f
