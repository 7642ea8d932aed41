"""Syntactic implication between conjunctions of the atoms produced by sym.py (no solver): linear integer atoms that differ by
a constant, equalities, sign atoms, and bounded case splits on atoms of the other side."""
from sym import *
from fractions import Fraction

def show(t):
    if isinstance(t, frozenset): return "{" + ", ".join(sorted(show(x) for x in t)) + "}"
    if not isinstance(t, tuple): return str(t)
    if not t: return "()"
    k = t[0]
    if k == "lin":
        s = "+".join(([f"{c}*{show(a)}" if c not in (1, -1) else ("-" if c < 0 else "") + show(a) for a, c in t[2]]) + ([str(t[1])] if t[1] or not t[2] else []))
        return s.replace("+-", "-")
    if k == "p": return f"arg{t[1]}"
    if k == "m": return show(t[1]) + "." + str(t[2])
    if k == "at": return show(t[1]) + "[" + show(t[2]) + "]"
    if k == "size": return show(t[1]) + ".size()"
    if k == "call": return t[1].split("(")[0] + "(" + ", ".join(show(x) for x in t[2:]) + ")"
    if k == "le": return show(t[1]) + " <= 0"
    if k == "eq": return show(t[1]) + " == 0"
    if k == "ne": return show(t[1]) + " != 0"
    if k == "f": return ("" if t[4] else "!") + f"({show(t[2])} {t[1]} {show(t[3])})"
    if k == "b": return ("" if t[2] else "!") + show(t[1])
    if k == "fn": return t[1] + "(" + ", ".join(show(x) for x in t[2:]) + ")"
    if k == "g": return str(t[1]).split("::")[-1]
    if k == "mul": return "*".join(show(x) for x in t[1:])
    if k in ("GT", "GE", "EQ"): return k + "(" + ", ".join(show(x) for x in t[1:]) + ")"
    if k in ("and", "or"): return "(" + f" {k} ".join(sorted(show(x) for x in t[1])) + ")"
    return str(k) + "<" + ", ".join(show(x) for x in t[1:]) + ">"

# ---- serialisation
def ser(t):
    if isinstance(t, frozenset): return "F(" + ",".join(sorted(ser(x) for x in t)) + ")"
    if isinstance(t, tuple): return "(" + "".join(ser(x) + "," for x in t) + ")"
    if isinstance(t, Fraction): return f"Q({t.numerator},{t.denominator})"
    return repr(t)
def de(s): return eval(s, {"__builtins__": {}, "F": lambda *a: frozenset(a), "Q": Fraction, "True": True, "False": False, "None": None})

BAD = {"vec", "newobj", "out", "loop", "phi", "new", "uninit", "havoc", "lambda", "ext", "rec", "init", "iter"}
def kinds(t):
    r = set()
    for x in subterms(t):
        if isinstance(x, tuple) and x and isinstance(x[0], str): r.add(x[0])
    return r
def pure(c): return all(not (kinds(a) & BAD) for a in c)

def rename_iv(c):
    """loop variables renamed in order of appearance"""
    m = {}
    def f(t):
        if isinstance(t, tuple) and t and t[0] == "iv":
            return ("iv", m.setdefault(t[1], len(m)))
        return None
    out = []
    for a in sorted(c, key=lambda a: re.sub(r"'iv', \d+", "'iv'", repr(a))): out.append(subst_f(a, f))
    return frozenset(out)
def subst_f(a, f):
    """substitute inside a formula"""
    k = a[0]
    if k in ("and", "or"): return (k, frozenset(subst_f(x, f) for x in a[1]))
    if k == "le": return ("le", tolin(subst(a[1], f)))
    if k in ("eq", "ne"): return (k, canon_lin_eq(subst(a[1], f)))
    if k == "f":
        x, y = subst(a[2], f), subst(a[3], f)
        if a[1] == "==": x, y = sorted((x, y), key=repr)
        return ("f", a[1], x, y, a[4])
    if k == "b":
        t = a[1]
        if t[0] in ("GT", "GE", "EQ"):
            x, y = subst(t[1], f), subst(t[2], f)
            if t[0] == "EQ": x, y = sorted((x, y), key=repr)
            return ("b", (t[0], x, y) + tuple(subst(z, f) for z in t[3:]), a[2])
        return ("b", subst(t, f), a[2])
    return a

def truth(a):
    """constant truth of an atom"""
    if a[0] in ("le", "eq", "ne"):
        c = cval(a[1]) if a[1][0] == "lin" else None
        if c is not None: return {"le": c <= 0, "eq": c == 0, "ne": c != 0}[a[0]]
    return None
def is_sz(t): return t[0] == "size"

def implied(A, b):
    if b in A: return True
    t = truth(b)
    if t is not None: return t
    k = b[0]
    if k == "le":
        B = tolin(b[1])
        if B[2] and all(is_sz(x) and c < 0 for x, c in B[2]) and B[1] <= 0: return True
        for a in A:
            if a[0] == "le":
                d = cval(sub(a[1], b[1]))
                if d is not None and d >= 0: return True
                # modulo sizes, which are never negative:  a - b = nonneg combination of sizes
                D = tolin(sub(a[1], b[1]))
                if D[1] >= 0 and all(is_sz(x) and c > 0 for x, c in D[2]): return True
            elif a[0] == "eq":
                for s in (1, -1):
                    d = cval(sub(scale(a[1], s), b[1]))
                    if d is not None and d >= 0: return True
    elif k == "eq":
        x = b[1]
        if implied_le(A, x) and implied_le(A, scale(x, -1)): return True
    elif k == "ne":
        x = b[1]
        if implied_le(A, add(x, const(1))) or implied_le(A, add(scale(x, -1), const(1))): return True
    elif k == "f":
        _, op, x, y, sg = b
        if op == "<=" and not sg:                                       # x > y (or NaN)
            if ("f", "<", y, x, True) in A: return True
            # |i| > tiny  follows from i != 0 for integer i
            if x[0] == "fn" and x[1] == "abs" and (y[0] == "g" or cval(y) is not None and cval(y) < 1):
                i = x[2]
                if implied_le(A, add(i, const(1))) or implied_le(A, add(scale(i, -1), const(1))): return True
        if op == "<" and not sg and ("f", "<=", y, x, True) in A: return True
        if op == "<=" and sg and ("f", "<", x, y, True) in A: return True
        if op == "<" and not sg and ("f", "<=", x, y, False) in A: return True
    elif k == "b":
        t, sg = b[1], b[2]
        if t[0] == "GE" and sg and ("b", ("GT",) + t[1:], True) in A: return True
        if t[0] == "GT" and not sg and ("b", ("GE",) + t[1:], False) in A: return True
    return False
def implied_le(A, l): return implied(A, ("le", tolin(l)))

def contradictory(A):
    for a in A:
        if truth(a) is False: return True
        if implied(A - {a}, f_not(a)): return True
        if a[0] == "le":
            L = tolin(a[1])
            if L[2] and L[1] > 0 and all(is_sz(x) and c > 0 for x, c in L[2]): return True
    return False
def simp(c):
    """drop atoms that follow from the others"""
    c = set(c)
    for a in sorted(c, key=repr):
        if truth(a) is True or implied(frozenset(c - {a}), a): c.discard(a)
    r = set()
    for a in c:
        # a size is never negative: size == 0  is  size <= 0
        if a[0] == "eq" and is_sz_form(a[1]): a = ("le", tolin(a[1]))
        if a[0] == "ne" and is_sz_form(a[1]): a = ("le", add(const(1), scale(a[1], -1)))
        r.add(a)
    return frozenset(r)
def is_sz_form(l):
    l = tolin(l)
    return l[1] == 0 and len(l[2]) == 1 and is_sz(l[2][0][0]) and l[2][0][1] == 1

def covers(R, D, depth=4):
    """conjunction R implies the disjunction of the conjunctions in D"""
    if contradictory(R): return True
    cand = []
    for d in D:
        miss = [b for b in d if not implied(R, b)]
        if not miss: return True
        if any(implied(R, f_not(b)) for b in miss): continue
        cand.append((len(miss), d, miss))
    if depth <= 0 or not cand: return False
    cand.sort(key=lambda x: (x[0], repr(x[1])))
    tried = set()
    for n, d, miss in cand[:6]:
        b = min(miss, key=repr)
        if b in tried: continue
        tried.add(b)
        if n > 3: break
        # split on b: the half where b holds must be covered and so must the other
        if covers(R | {b}, D, depth - 1) and covers(R | {f_not(b)}, D, depth - 1): return True
    return False
