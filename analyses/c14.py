"""C14 selectors.  Every operation with a bool/enum selector is specialised for each selector value (partial evaluation of
the AST, helpers inlined) and the specialised bodies are compared."""
import json, os, itertools
from collections import Counter
from ir import *
from flow import path_of, selectors, assigned_ids
from prune import prune, canon, Pruner

from slicer import Slicer, outputs

TABLE = VERIF + "/tables/selectors.json"
OUTS = VERIF + "/tables/selector_outputs.json"
EXEMPT = {"Octant::Octant": "isLeaf only initialises the member of the same name"}

def operations(P):
    for k in sorted(P.funcs):
        f = P.funcs[k]
        if not f.body or f.q in EXEMPT or k in getattr(P, "new_funcs", ()): continue
        sel = selectors(P, f, 40)
        if sel: yield f, sel

def features(P, f, body, consts):
    """what the specialised code touches: input and output members, callees with constant selectors, operators, literals"""
    C = Counter()
    loc = {}
    asg = assigned_ids(body)
    pid = {p["id"]: i for i, p in enumerate(f.params)}
    def res(e):
        p = path_of(e)
        if p is None: return None
        for _ in range(6):
            if p[0] in loc: q = loc[p[0]]; p = (q[0], list(q[1]) + p[1])
            else: break
        return p
    for n in walk(body):
        if n["k"] == "Decl":
            for d in n["d"]:
                i = d.get("init")
                if i is not None and d["id"] not in asg:
                    q = path_of(i)
                    if q is not None: loc[d["id"]] = q
        elif n["k"] == "RangeFor":
            q = path_of(n["r"])
            if q: loc[n["v"]["id"]] = (q[0], q[1] + ["[]"])
    lhs = set()
    inner = set()
    for n in walk(body):
        if n["k"] == "Assign": lhs.add(id(n["a"]))
        if n["k"] in ("Member", "Index") : inner.add(id(n["b"]))
    # value flow: output members <- input members, and the operators of the returned expression (locals expanded)
    defs = {}
    for n in walk(body):
        if n["k"] == "Decl":
            for d in n["d"]:
                if d.get("init") is not None and d["id"] not in asg: defs[d["id"]] = d["init"]
    def name(p): return f"{pid[p[0]]}." + ".".join(c for c in p[1] if c not in ("[]", "*"))
    for n in walk(body):
        if n["k"] == "Assign" and n["op"] == "=":
            a, b = res(n["a"]), res(n["b"])
            if a and b and a[0] in pid and b[0] in pid: C["f:" + name(a) + "<-" + name(b)] += 2
        if n["k"] == "Return" and n.get("e"):
            budget = [400]
            def exp(e, d):
                if e is None or budget[0] <= 0: return
                budget[0] -= 1
                k = e["k"]
                if k == "Var":
                    if e["id"] in defs and d < 12: exp(defs[e["id"]], d + 1)
                    return
                if k == "Bin": C["R:" + e["op"]] += 1
                elif k == "Un" and e["op"] == "-": C["R:neg"] += 1
                elif k in ("Call", "MCall") and isinstance(e.get("f"), dict): C["R:" + e["f"]["n"]] += 1
                elif k in ("Int", "Float", "Bool", "Enum"): C["R:" + str(e["v"])] += 1
                for kk in ("a", "b", "e", "i", "c"):
                    if isinstance(e.get(kk), dict): exp(e[kk], d)
                for x in e.get("args") or (): exp(x, d)
            exp(n["e"], 0)
    for n in walk(body):
        k = n["k"]
        if k in ("Member", "Var", "Index") and id(n) not in inner:
            p = res(n)
            if p and p[0] in pid:
                fld = ".".join(c for c in p[1] if c not in ("[]", "*"))
                if not (p[0] in consts): C[("w" if id(n) in lhs else "r") + f"{pid[p[0]]}.{fld}"] += 1
        if k in ("Call", "MCall", "OpCall") and isinstance(n.get("f"), dict):
            c = P.callee(n["f"])
            a = ",".join(str(x.get("v")) if x is not None and x["k"] in ("Int", "Bool", "Enum") and base_type(t) in ("bool",) + tuple(P.enums) else "_" for x, t in zip(n["args"], n["f"].get("pt", [])))
            C["c:" + n["f"]["n"] + "(" + a + ")"] += 1
        if k == "Bin" and n["op"] in "+-*/" : C["o:" + n["op"]] += 1
        if k == "Un" and n["op"] == "-": C["o:neg"] += 1
        if k in ("Int", "Float") : C["l:" + str(float(n["v"]))] += 1
        if k == "Return": C["ret"] += 1
        if k == "Throw": C["throw"] += 1
        if k == "Enum": C["e:" + str(n.get("n"))] += 1
    return C

def trivial(body):
    """nothing happens besides returning"""
    return body is None or (body["k"] == "Block" and all(trivial(s) for s in body["s"])) or body["k"] == "Break"

def table(P):
    T = {}
    for f, sel in operations(P):
        ent = {}
        for combo in itertools.product(*[v for _, v in sel]):
            cs = {f.params[i]["id"]: v for (i, _), v in zip(sel, combo)}
            b = prune(f.body, cs)
            ent[",".join(map(str, combo))] = dict(sorted(features(P, f, b, cs).items()))
        T[f.key] = ent
    return T

def slices(P, f, i, vals):
    """{output: {value: canonical slice}} with parameter i fixed to each value"""
    p = f.params[i]; R = {}
    for v in vals:
        b = prune(f.body, {p["id"]: v})
        if b is None: b = {"k": "Block", "l": 0, "s": []}
        for nm, crit, ret in outputs(P, f):
            S = Slicer(b, f.params, None)
            R.setdefault(nm, {})[v] = canon(S.run(crit, ret) or {"k": "Block", "l": 0, "s": []}, {q["id"]: j for j, q in enumerate(f.params)})
    return R
def sites(P, f): return sites_in(P, f.body)
def sites_in(P, body):
    """{callee: {argument position: Counter of constant selector values}} ; None for a position with an argument that is not constant"""
    R = {}
    for n in walk(body):
        if n["k"] not in ("Call", "MCall") or not isinstance(n.get("f"), dict): continue
        c = P.callee(n["f"])
        if c is None: continue
        for j, (x, t) in enumerate(zip(n["args"], n["f"].get("pt", []))):
            if base_type(t) != "bool" and base_type(t) not in P.enums: continue
            d = R.setdefault(c.key, {})
            while x is not None and x["k"] == "Cast": x = x["e"]
            if x is None or x["k"] not in ("Int", "Bool", "Enum"): d[j] = None
            elif d.get(j, 0) is not None: d.setdefault(j, Counter())[int(x["v"])] += 1
    return R
def forwarded(P, f, i, vals):
    """{callee: {argument position: {value of selector i: selector values passed}}} where what is passed depends on the value"""
    R = {}
    for v in vals:
        b = prune(f.body, {f.params[i]["id"]: v})
        for c, d in (sites_in(P, b) if b is not None else {}).items():
            for j, m in d.items(): R.setdefault(c, {}).setdefault(j, {})[v] = None if m is None else sorted(m)
    return {c: e for c, d in R.items() for e in [{j: m for j, m in d.items() if None not in m.values() and len({str(x) for x in m.values()}) > 1}] if e}
def meant(P, f, i, nm, a, b):
    """do values a and b of selector i call for different contents of output nm (rather than merely for differently written code)?"""
    if f.q.startswith("VoronoiDiagramGenerator::"): return False
    if nm == "return": return True
    fld = nm.split(".")[-1]
    if fld == "ControlPoints": return True
    if fld[-1] not in "UVW" or f.n in ("Swap", "Extract"): return False
    if fld.startswith("Degree") and f.n not in ("ElevateDegree", "ReduceDegree"): return False
    t = base_type(f.params[i]["t"])
    if t not in P.enums: return True
    names = {c["v"]: c["n"] for c in P.enums[t]["c"]}
    acts = [names[v] == "All" or names[v].startswith(fld[-1]) for v in (a, b)]
    return acts[0] != acts[1]
def out_table(P):
    T = {"outputs": {}, "sites": {}, "forwarded": {}}
    for f, sel in operations(P):
        for i, vals in sel:
            R = slices(P, f, i, vals)
            e = {nm: [[a, b] for a, b in itertools.combinations(vals, 2) if m[a] != m[b] and meant(P, f, i, nm, a, b)] for nm, m in R.items()}
            T["outputs"].setdefault(f.key, {})[str(i)] = {k: v for k, v in e.items() if v}
            F = forwarded(P, f, i, vals)
            if F: T["forwarded"].setdefault(f.key, {})[str(i)] = {c: {str(j): {str(v): x for v, x in m.items()} for j, m in d.items()} for c, d in F.items()}
    for k in sorted(P.funcs):
        f = P.funcs[k]
        if not f.body or k in getattr(P, "new_funcs", ()): continue
        e = {c: {str(j): {str(v): n for v, n in sorted(m.items())} for j, m in d.items() if m is not None} for c, d in sites(P, f).items()}
        e = {c: d for c, d in e.items() if d}
        if e: T["sites"][k] = e
    return T

def l1(a, b, keys): return sum(abs(a.get(k, 0) - b.get(k, 0)) for k in keys)

def run(P, ctx):
    T = json.load(open(TABLE))
    nops = npairs = nspec = 0
    cur = {}
    for f, sel in operations(P):
        nops += 1
        used = {n["id"] for n in walk(f.body) if n["k"] == "Var"} | {n["id"] for i in f.inits for n in walk(i) if n["k"] == "Var"}
        for i, vals in sel:
            p = f.params[i]
            if p["id"] not in used:
                ctx.violation(f"{f.key}|{i}|unused", f"{f.key}: selector '{p['n']}' has no influence", f.loc); continue
            t = base_type(p["t"])
            names = {c["v"]: c["n"] for c in P.enums[t]["c"]} if t in P.enums else {0: "false", 1: "true"}
            test = list(vals) + ([max(vals) + 97] if t in P.enums else [])
            forms = {}
            for v in test:
                b = prune(f.body, {p["id"]: v}); nspec += 1
                forms[v] = canon(b)
            for a, b in itertools.combinations(test, 2):
                npairs += 1
                if forms[a] == forms[b]:
                    if b not in names: msg = f"values outside the enumeration are treated exactly like {names[a]}"
                    else: msg = f"{names[a]} and {names[b]} get the same treatment"
                    ctx.violation(f"{f.key}|{i}|{names.get(a,a)}={names.get(b,'outside')}", f"{f.key}: selector '{p['n']}': {msg}", f.loc)
        ent = T.get(f.key)
        if ent is None: continue
        for combo in itertools.product(*[v for _, v in sel]):
            key = ",".join(map(str, combo))
            cs = {f.params[i]["id"]: v for (i, _), v in zip(sel, combo)}
            c = features(P, f, prune(f.body, cs), cs)
            own = ent.get(key)
            if own is None: continue
            for k2, other in ent.items():
                if k2 == key: continue
                keys = [x for x in set(own) | set(other) if own.get(x, 0) != other.get(x, 0)]
                D = l1(own, other, keys)
                npairs += 1
                if D == 0: continue
                do, dx = l1(c, own, keys), l1(c, other, keys)
                if dx + D * 0.4 < do:
                    lab = lambda k: ", ".join(f"{f.params[i]['n']}={v}" for (i, _), v in zip(sel, k.split(",")))
                    ctx.violation(f"{f.key}|{key}->{k2}", f"{f.key}: with {lab(key)} the operation now does what belongs to {lab(k2)} (members and callees used: distance to own treatment {do}, to the other {dx})", f.loc)
    # an output two values are meant to produce differently
    O = json.load(open(OUTS)); nout = nsite = 0
    for f, sel in operations(P):
        for i, vals in sel:
            want = O["outputs"].get(f.key, {}).get(str(i))
            if not want: continue
            R = slices(P, f, i, vals); p = f.params[i]; t = base_type(p["t"])
            names = {c["v"]: c["n"] for c in P.enums[t]["c"]} if t in P.enums else {0: "false", 1: "true"}
            for nm, pairs in want.items():
                for a, b in pairs:
                    nout += 1
                    m = R.get(nm, {})
                    if a in m and b in m and m[a] == m[b]:
                        what = "the returned value" if nm == "return" else f.params[int(nm.split(".")[0])]["n"] + nm[len(nm.split(".")[0]):]
                        ctx.violation(f"{f.key}|{i}|{nm}|{names.get(a)}={names.get(b)}", f"{f.key}: {what} is computed in the same way for {p['n']} = {names.get(a)} and {names.get(b)}", f.loc)
    # selector values operations pass on to other operations
    for k, want in O["sites"].items():
        f = P.funcs.get(k)
        if f is None or not f.body: continue
        cur = sites(P, f)
        for c, d in want.items():
            for j, m in d.items():
                now = cur.get(c, {}).get(int(j)); nsite += 1
                if not now: continue
                own = Counter({int(v): n for v, n in m.items()})
                if sum(now.values()) == sum(own.values()) and now != own:
                    g = P.funcs.get(c); pn = g.params[int(j)]["n"] if g is not None and int(j) < len(g.params) else j
                    ctx.violation(f"{k}|calls {c}|{j}", f"{k}: its {sum(now.values())} call(s) of {c} pass {pn} = {dict(sorted(now.items()))} instead of {dict(sorted(own.items()))}", f.loc)
    nfw = 0
    for f, sel in operations(P):
        for i, vals in sel:
            want = O["forwarded"].get(f.key, {}).get(str(i))
            if not want: continue
            for v in vals:
                b = prune(f.body, {f.params[i]["id"]: v}); cur = sites_in(P, b) if b is not None else {}
                for c, d in want.items():
                    for j, m in d.items():
                        nfw += 1; now = cur.get(c, {}).get(int(j)); own = m.get(str(v))
                        if not now or own is None: continue
                        for x in sorted(now):
                            if x not in own: ctx.violation(f"{f.key}|{i}={v}|calls {c}|{j}", f"{f.key}: with {f.params[i]['n']} = {v} it calls {c} with selector value {x} instead of {own}", f.loc)
    ctx.cov["forwarded_selectors"] = nfw
    ctx.cov["output_pairs_compared"] = nout; ctx.cov["passed_selectors"] = nsite
    # switches over an enumeration list every enumerator
    nsw = 0
    for f in P.funcs.values():
        if not f.body: continue
        for n in walk(f.body):
            if n["k"] != "Switch": continue
            c = n["c"]
            while c["k"] == "Cast": c = c["e"]
            t = base_type(c.get("t", ""))
            if t not in P.enums: continue
            nsw += 1
            have = set(); dflt = False
            st = [n["body"]]
            for x in walk(n["body"]):
                if x["k"] == "Case":
                    v = x["v"]
                    while v["k"] == "Cast": v = v["e"]
                    have.add(v.get("v"))
                if x["k"] == "Default": dflt = True
            items = n["body"]["s"] if n["body"]["k"] == "Block" else [n["body"]]
            live = False; stops = Pruner({"k": "Block", "s": [], "l": 0}, {}).stops; prev = None
            for it in items:
                if it["k"] in ("Case", "Default"):
                    if live: ctx.violation(f"{f.key}|switch {t}|fallthrough", f"{f.key}: the treatment of {prev} runs on into the next case of the switch over {t}", f"{f.rel()}:{it['l']}")
                    lab = it
                    while it is not None and it["k"] in ("Case", "Default"):
                        if it["k"] == "Case": prev = it["v"].get("n") or prev
                        it = it["body"]
                    live = it is not None and it["k"] != "Null"
                if it is not None and stops(it): live = False
            miss = [c["n"] for c in P.enums[t]["c"] if c["v"] not in have]
            if miss and (len(miss) > 1 or not dflt):
                ctx.violation(f"{f.key}|switch {t}|{','.join(miss)}", f"{f.key}: switch over {t} has no case for {', '.join(miss)}", f"{f.rel()}:{n['l']}")
    ctx.rule = ("Rule: each selector (bool or enumeration parameter) of each operation is partially evaluated to every value, and to one value outside the enumeration; "
        "(a) no two values may yield the same specialised code, (b) no selector may be unused, (c) a value may not use the members, callees and operators recorded for a "
        "different value rather than its own, (d) switches cover every enumerator, (e) an output "
        "whose backward slices differed between two values still differs between them, (f) an operation that calls another as often as before passes it the same selector values, (g) a selector "
        "handed on to a callee reaches it with the value (or the value derived from it) it has.")
    ctx.assumptions = ["whether the treatment of a value is numerically right is outside this check"]
    ctx.floor("selecting_operations", nops, 25); ctx.floor("specialisations", nspec, 80)
    ctx.cov["value_pairs_compared"] = npairs; ctx.cov["enum_switches"] = nsw
    ctx.samples = [{"operation": f.key, "selectors": [f.params[i]["n"] for i, _ in s]} for f, s in itertools.islice(operations(P), 8)]
