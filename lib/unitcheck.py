"""C08, C09, C10: every function body is analysed together with its recorded unit specification.  An equation between
interface units that the specification does not imply means that the body combines quantities the specification keeps
apart; it is attributed to the scalings (weights, length, parameters and directions) under which it fails."""
import os, re, json
import units
from units import *
from effects import Effects

TABLE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tables", "units.json")

def local(P, f):
    """functions that only one source file can call: their specification is inferred, not recorded"""
    if not f.file.endswith(".cpp"): return False
    if f.internal: return True
    if f.cls is None: return not f.n.startswith("operator")
    r = P.records.get(f.cls)
    return r is not None and str(r.get("file", "")).endswith(".cpp")
def selkey(sel): return json.dumps([list(x) if isinstance(x, tuple) else x for x in sel])
def targets(P, U):
    for f in sorted(P.funcs.values(), key=lambda f: f.key):
        if f.body and not excluded(f) and not f.dtor: yield f
def enc(sp): return {"rows": sorted([{k: (c if isinstance(c, int) else str(c)) for k, c in sorted(r.items())} for r in sp.rows], key=json.dumps), "any": sorted(sp.any)}
def dec(d):
    from fractions import Fraction
    return Spec([{k: (c if isinstance(c, int) else norm1(Fraction(c))) for k, c in r.items()} for r in d["rows"]], frozenset(d["any"]))
def load_table(): return json.load(open(TABLE))

def classify(name):
    """scaling group of an interface unit: (base, group) or None for untyped numbers"""
    m = re.match(r"(this!?|ret|[po]\d+)(.*)$", name)
    if not m: return None
    b, r = m.groups()
    if "#" in r or "%" in r: return (b, "step")
    if re.search(r"m_xyzw\.[012]$", r): return (b, "X")
    if re.search(r"m_xyzw\.3$", r): return (b, "W")
    if re.search(r"m_xyz\.[012]$", r): return (b, "L")
    if re.search(r"(KnotVector[UVW]?\[\]|m_uvw?\.\d)$", r): return (b, "K")
    if re.search(r"\.(d[UVW]?|ix)$", r): return (b, "d")
    return None
GROUPS = {"C08": "weights", "C09": "length", "C10": "parameters"}
def dims(e, rows):
    """properties whose scalings do not satisfy e although they satisfy rows"""
    names = set(e) | {v for r in rows for v in r}
    out = []
    for pid in GROUPS:
        S = Solver()
        for r in rows: S.add(r)
        for n in sorted(names):
            c = classify(n)
            if c is None or c[1] == "step": continue
            b, g = c
            if pid == "C08":
                if g in ("L", "K", "d"): S.add({n: 1})
                elif g in ("X", "W"): S.add({n: 1, "~" + b: -1})
            elif pid == "C09":
                if g in ("K", "W", "d"): S.add({n: 1})
            else:
                if g in ("X", "W", "L"): S.add({n: 1})
        if S.red(e): out.append(pid)
    return out

def length_degree(e):
    """of an equation over the units of a point search or diagram, where everything but the direction of an edge is a length"""
    if any("#" in n or "%" in n for n in e): return 0
    return sum(c for n, c in e.items() if not re.search(r"\.(a|b)$", n))
def run_units(P, ctx, pid):
    eff = Effects(P); tab = load_table()
    specs = {}
    for k, d in tab.items():
        for sk, sp in d.items():
            specs[(k, tuple(tuple(x) if isinstance(x, list) else x for x in json.loads(sk)))] = dec(sp)
    # callers use the axioms in place of the recorded rows
    call = {}
    for f in P.funcs.values():
        ax = axiom(f)
        for sel in [s for (k, s) in specs if k == f.key] if ax is not None else (): call[(f.key, sel)] = ax
    U = Units(P, eff, {**specs, **call})
    nf = ne = nrows = 0; bad = {}
    for f in targets(P, U):
        for sel in U.combos(f):
            rec = specs.get((f.key, sel))
            if rec is None: continue
            nf += 1; nrows += len(rec.rows)
            rep = []
            r = Run(U, f, sel, rec, lambda e, l: rep.append((l, dict(e))))
            n0 = r.S.add
            cnt = [0]
            def add(e, n0=n0, cnt=cnt): cnt[0] += 1; n0(e)
            r.S.add = add
            r.go()
            ne += cnt[0]
            rows = list(rec.rows)
            known = {n for r2 in rows for n in r2}
            for l, e in rep:
                # a result the specification says nothing about may come to be determined: no demand on the inputs
                free = [n for n in e if re.match(r"(ret|o\d+|this!)", n) and n not in known]
                if free:
                    known |= set(e); rows.append(e); continue
                ds = dims(e, rows) if not spatial(f) else ["C09"] if length_degree(e) else []
                rows.append(e)
                if pid in ds:
                    bad.setdefault(f.key, []).append((l, e, sel))
    for k, xs in bad.items():
        f = P.funcs[k]
        l, e, sel = xs[0]
        ctx.violation(f.q, f"combines quantities that scale differently: it now requires {render(e, f)} (first needed at line {l}; {len(xs)} such equations)", f"{f.rel()}:{l}")
    ctx.cov.update(functions_and_modes=nf, equations_solved=ne, specification_rows=nrows)
    return U
def render(e, f):
    def nm(n):
        m = re.match(r"([po])(\d+)(.*)$", n)
        s = f.params[int(m.group(2))]["n"] + m.group(3) if m and int(m.group(2)) < len(f.params) else n
        return s
    l = " + ".join((f"{c}*" if c != 1 else "") + nm(n) for n, c in e.items() if c > 0)
    r = " + ".join((f"{-c}*" if c != -1 else "") + nm(n) for n, c in e.items() if c < 0)
    return f"unit({l or '1'}) = unit({r or '1'})"
