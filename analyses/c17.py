"""C17: real quantities stay real.  Three conversions are violations:
 - a real value converted to an integer without an explicit cast and without an explicit rounding (floor, ceil, round, trunc);
 - an integer quotient converted to a real (1/2, i/n), unless it is rounded down anyway;
 - single precision outside of the plane-sweep generator and the operation that feeds it.
An explicitly truncated value that is used as a real again is a violation, too."""
from ir import *
ROUND = {"floor", "ceil", "round", "trunc", "rint", "nearbyint", "lround", "lrint", "llround"}
DOWN = {"floor", "trunc"}
# the sweep-line generator works on buckets of a hash and on single-precision sites by design
TRUNC_OK = ("VoronoiDiagramGenerator::",)
TRUNC_ARG = ("XYZ::CreateRandomOrthogonal",)      # range of the documented arbitrary choice
FLOAT_OK = ("VoronoiDiagramGenerator::", "NurbsSurface::Triangulate")
def name(n): return (n.get("f") or {}).get("n") if isinstance(n.get("f"), dict) else None
def rounded(e):
    k = e.get("k")
    if k == "Cast": return rounded(e["e"]) if e.get("ck") != "IntegralToFloating" else True
    if k == "Cond": return rounded(e["a"]) and rounded(e["b"])
    if k in ("Float", "Int"): return float(e.get("v", 0.5)).is_integer()
    if k == "Un" and e.get("op") == "-": return rounded(e["e"])
    if k == "Bin" and e["op"] in "+-*": return rounded(e["a"]) and rounded(e["b"])
    if k == "Call":
        n = name(e)
        if n in ROUND: return True
        if n in ("max", "min", "fmax", "fmin", "abs", "fabs"): return all(rounded(a) for a in e["args"])
    return False
def quotient(e):
    """the integer expression may have lost a fraction"""
    k = e.get("k")
    if k == "Bin":
        if e["op"] == "/":
            a, b = e["a"], e["b"]
            if a.get("k") == "Int" and b.get("k") == "Int" and int(b["v"]) and int(a["v"]) % int(b["v"]) == 0: return None
            return e
        if e["op"] in ("+", "-", "*"): return quotient(e["a"]) or quotient(e["b"])
    if k == "Un": return quotient(e["e"])
    if k == "Cond": return quotient(e["a"]) or quotient(e["b"])
    if k == "Cast" and e.get("ck") != "FloatingToIntegral": return quotient(e["e"])
    return None
def run(P, ctx):
    real_int = int_real = floats = 0
    for f in sorted(P.funcs.values(), key=lambda f: f.key):
        if f.body is None or f.key in getattr(P, "new_funcs", ()) and f.key in P.inlined: continue
        where = f.rel()
        tr = any(f.q.startswith(x) for x in TRUNC_OK); fl = any(f.q.startswith(x) for x in FLOAT_OK) or any(c.startswith(FLOAT_OK[0]) for c in [f.cls or ""]) or f.file.endswith(("Voronoi.cpp", "Voronoi.h"))
        def rec(n, par, down):
            nonlocal real_int, int_real, floats
            if isinstance(n, list):
                for x in n: rec(x, par, down)
                return
            if not isinstance(n, dict): return
            k = n.get("k")
            if k == "Cast":
                ck = n.get("ck")
                if ck == "FloatingToIntegral":
                    real_int += 1
                    expl = not n.get("impl") or (par is not None and par.get("k") == "Cast" and not par.get("impl"))
                    if not expl and not rounded(n["e"]) and not tr and f.q not in TRUNC_ARG:
                        ctx.violation(f"{f.q}|real to integer", "a real value is silently truncated to an integer", f"{where}:{n.get('l')}")
                elif ck == "IntegralToFloating":
                    int_real += 1
                    if not down and not tr:
                        q = quotient(n["e"])
                        if q is not None: ctx.violation(f"{f.q}|integer quotient", "an integer quotient, already truncated, is used as a real value", f"{where}:{n.get('l')}")
                        e = n["e"]
                        while e.get("k") == "Cast" and e.get("ck") != "FloatingToIntegral": e = e["e"]
                        if e.get("k") == "Cast" and not rounded(e["e"]): ctx.violation(f"{f.q}|truncated real", "a real value is truncated to an integer and then used as a real again", f"{where}:{n.get('l')}")
            if n.get("t") in ("float", "const float", "float *", "float &", "const float &", "float *&") or (k == "Decl" and any(base_type(d.get("t", "")).split(" ")[0].split("[")[0] == "float" for d in n["d"])):
                floats += 1
                if not fl: ctx.violation(f"{f.q}|single precision", "a real quantity is kept in single precision", f"{where}:{n.get('l')}")
            if not f.file.endswith(("Voronoi.cpp", "Voronoi.h")):
                ups = []
                if k == "Bin" and base_type(n.get("t", "")) == "double": ups = [n["a"], n["b"]]
                elif k == "Assign" and base_type(n["a"].get("t", "")) == "double": ups = [n["b"]]
                elif k == "Decl": ups = [d["init"] for d in n["d"] if d.get("init") and base_type(d.get("t", "")) == "double"]
                elif k in ("Call", "MCall", "Ctor") and isinstance(n.get("f"), dict):
                    c = P.callee(n["f"])
                    if c is not None: ups = [a for a, q in zip(n.get("args") or [], c.params) if base_type(q["t"]) == "double"]
                if any(isinstance(u, dict) and base_type(u.get("t", "")) == "float" for u in ups): ctx.violation(f"{f.q}|back from single", "a single precision value becomes a real quantity again", f"{where}:{n.get('l')}")
            d2 = k == "Call" and name(n) in DOWN
            for kk, v in n.items():
                if kk == "f" and isinstance(v, dict): continue
                if isinstance(v, (dict, list)): rec(v, n if k else par, d2 if kk == "args" else (down if k in ("Cast", "Cond") else False))
        rec(f.body, None, False)
        for i in f.inits or []: rec(i, None, False)
        for p in f.params:
            if base_type(p["t"]).split(" ")[0] == "float" and not fl: ctx.violation(f"{f.q}|single precision", f"parameter {p['n']} is single precision", f.loc)
        if base_type(f.ret or "").split(" ")[0] == "float" and not fl: ctx.violation(f"{f.q}|single precision", "the result is single precision", f.loc)
    nrec = 0
    for t, r in P.records.items():
        nrec += 1
        if str(r.get("file", "")).endswith(("Voronoi.h", "Voronoi.cpp")): continue
        for fd in r.get("fields", []):
            b = base_type(fd["t"])
            if b.split("[")[0].strip().split("<")[-1].split(">")[0] == "float": ctx.violation(f"{t}|{fd['n']}", "a real member is kept in single precision", str(r.get("file", "")))
    ctx.rule = "every conversion of the type-checked program: real to integer needs an explicit rounding or cast; an integer quotient is not converted to a real; single precision only in the plane-sweep generator and the operation feeding it"
    ctx.assumptions = ["explicit casts that produce an integer (bucket numbers, counts) are intended"]
    ctx.cov.update(records=nrec, single_precision_expressions=floats)
    ctx.floor("real_to_integer", real_int, 8)
    ctx.floor("integer_to_real", int_real, 200)
