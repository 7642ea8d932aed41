"""C05: every loop and every recursion is bounded."""
from ir import *
from effects import Effects
from term import *

STRICT = set(); WORK = set()
def bounded_pushes(f, L):
    """every addition to the work list is under a test of a whole number that the additions increase (or decrease)"""
    n = L.n; loc = locals_of(f)
    lists = vars_of(n["c"]) if n.get("c") else set()
    def pushes(x): return [y for y in walk(x) if y["k"] == "MCall" and y["f"]["n"] in ("push_back", "emplace_back", "push", "emplace", "insert") and (vars_of(y["b"]) & lists)]
    def keys(e):
        e = strip(e); r = set()
        if e["k"] == "Member" and is_intt(e.get("t", "")): r.add(e["f"])
        if e["k"] == "Var" and is_intt(e.get("t", "")) and not e.get("global") and e["id"] in L.inner:
            r.add(e["id"])
            if e["id"] in loc: r |= keys(loc[e["id"]])
        if e["k"] == "Bin" and e["op"] in ("+", "-"): r |= keys(e["a"]) | keys(e["b"])
        return r
    def tested(c):
        c = strip(c); r = set()
        for y in walk(c):
            if y["k"] == "Bin" and y["op"] in ("<", "<=", ">", ">=", "==", "!="): r |= keys(y["a"]) | keys(y["b"])
            if y["k"] == "Var" and y["id"] in loc and y["id"] in L.inner and strip(loc[y["id"]])["k"] == "Bin" and strip(loc[y["id"]])["op"] in ("<", "<=", ">", ">=", "&&", "||"): r |= tested(loc[y["id"]])
        return r
    moved = set()
    for y in walk(n["body"]):
        if y["k"] == "Bin" and y["op"] in ("+", "-") and is_intt(y.get("t", "")): moved |= keys(y["a"]) | keys(y["b"])
        if y["k"] == "Un" and y["op"] in ("++", "--"): moved |= keys(y["e"])
        if y["k"] == "Assign" and y["op"] in ("+=", "-="): moved |= keys(y["a"])
    ok = True
    def go(st, have):
        nonlocal ok
        if st is None: return
        k = st["k"]
        if k == "Block":
            for x in st["s"]:
                go(x, have)
                if x["k"] == "If" and any(y["k"] in ("Continue", "Return", "Break", "Throw") for y in walk(x)): have = have | tested(x["c"])
        elif k == "If":
            h = have | tested(st["c"]); go(st["a"], h); go(st.get("b"), h)
        elif k in LOOPS:
            go(st["body"], have | (tested(st["c"]) if st.get("c") and k != "RangeFor" and False else set()))
        elif pushes(st) and not (have & moved): ok = False
    go(n["body"], set())
    return ok
def advances(f, L):
    """a real variable that outlives the iteration is only ever replaced by a value tested to be strictly beyond it"""
    loc = locals_of(f)
    def terms(e, sg, out):
        e = expand(e, {k: v for k, v in loc.items() if strip(v)["k"] in ("Var", "Bin") and k not in L.inner})
        if e["k"] == "Bin" and e["op"] in ("+", "-"): terms(e["a"], sg, out); terms(e["b"], sg if e["op"] == "+" else -sg, out)
        elif e["k"] == "Var" and not e.get("global"): out[e["id"]] = out.get(e["id"], 0) + sg
        elif e["k"] not in ("Int", "Float", "Var"): out[id(e)] = sg
        return out
    def strictly(c, pol, up):
        """the test, known to come out as pol, says that the linear form up is positive"""
        c = expand(c, loc)
        while c["k"] == "Un" and c["op"] == "!": c = expand(c["e"], loc); pol = not pol
        if c["k"] == "Bin" and c["op"] in NEG: op, a, b = c["op"], c["a"], c["b"]
        elif c["k"] == "Call" and (c.get("f") or {}).get("n") in CMPS and len(c["args"]) >= 2: op, a, b = CMPS[c["f"]["n"]], c["args"][0], c["args"][1]
        else: return False
        if not pol: op = NEG[op]
        d = terms(a, 1, {}); terms(b, -1, d); d = {k: x for k, x in d.items() if x}
        return (d == up and op == ">") or ({k: -x for k, x in d.items()} == up and op == "<")
    for v, ws in L.written.items():
        if v in L.inner or L.types.get(v) not in ("double", "float") or not ws: continue
        if any(w["k"] != "Assign" or w["op"] != "=" or strip(w["a"])["k"] != "Var" for w in ws): continue
        def diff(new, old): d = dict(new); d[old] = d.get(old, 0) - 1; return {k: x for k, x in d.items() if x}
        if all(any(strictly(c, pol, diff(terms(w["b"], 1, {}), v)) for c, pol in facts(f, w)) for w in ws): return True
        # or the value before the iteration is kept and compared afterwards
        body = L.n["body"]["s"] if L.n["body"]["k"] == "Block" else [L.n["body"]]
        for i, st in enumerate(body):
            for d in st["d"] if st["k"] == "Decl" else ():
                if d.get("init") is None or not isvar(d["init"], v): continue
                if any(x is w for y in body[:i] for x in walk(y) for w in ws): continue
                last = max((j for j, y in enumerate(body) if any(x is w for x in walk(y) for w in ws)), default=0)
                for y in body[last + 1:]:
                    if y["k"] == "If" and exits(y["a"]) and any(strictly(c, pol, {v: 1, d["id"]: -1}) for c, pol in lits(y["c"], False)): return True
    return False

def table():
    weak = {}; rec = {}
    for l in open(VERIF + "/tables/termination.txt"):
        if l.startswith("#") or not l.strip(): continue
        w = l.split(None, 2 if l.startswith("recursion") else 3)
        if w[0] == "recursion": rec[w[1]] = w[2].strip(); continue
        weak[w[1]] = int(w[2])
        if w[0] == "strict": STRICT.add(w[1])
        if w[0] == "worklist": WORK.add(w[1])
    return weak, rec

# ---- recursion
def graph(P, eff):
    G = {}
    for k, f in P.funcs.items():
        if not f.body: continue
        G[k] = []
        for n in walk(f.body):
            if n["k"] in ("Call", "MCall", "OpCall", "Ctor"):
                for c in eff.targets(n.get("f") or {}): G[k].append((n, c.key))
    return G
def reach(G, a):
    seen = set(); st = [k for _, k in G.get(a, ())]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x); st += [k for _, k in G.get(x, ())]
    return seen

def locals_of(f):
    """single-assignment locals and their initialisers"""
    d = {}; w = {}
    for n in walk(f.body):
        if n["k"] == "Decl":
            for x in n["d"]:
                if x.get("init"): d[x["id"]] = x["init"]
        elif n["k"] == "Assign" and n["a"]["k"] == "Var": w[n["a"]["id"]] = 1
        elif n["k"] == "Un" and n["op"] in ("++", "--") and n["e"]["k"] == "Var": w[n["e"]["id"]] = 1
        elif n["k"] == "RangeFor": d[n["v"]["id"]] = {"k": "Index", "b": n["r"], "i": {"k": "Int", "v": 0, "l": n["l"]}, "t": n["v"].get("t", ""), "l": n["l"]}
        elif n["k"] == "Inl":
            for b in n["binds"]:
                if b.get("init"): d[b["id"]] = b["init"]
    return {k: v for k, v in d.items() if k not in w}
def expand(e, loc, depth=0):
    e = strip(e)
    if e["k"] == "Var" and e.get("id") in loc and depth < 8: return expand(loc[e["id"]], loc, depth + 1)
    return e
def mpath(e):
    e = strip(e)
    if e["k"] == "Var": return (e["id"],)
    if e["k"] == "This": return ("this",)
    if e["k"] == "Un" and e["op"] == "*": return mpath(e["e"])
    if e["k"] == "Member":
        b = mpath(e["b"]); return b + (e["f"],) if b else None
    return None
def flags_of(f):
    """members that the function sets once, unconditionally with respect to what follows, to a condition"""
    d = {}
    for n in walk(f.body):
        if n["k"] == "Assign" and n["a"]["k"] == "Member": d.setdefault(mpath(n["a"]), []).append(n)
    return {k: v[0]["b"] for k, v in d.items() if k and len(v) == 1 and v[0]["op"] == "="}
def lits0(c, pol, loc, flg, depth=0):
    """tests known to hold (pol True) or to fail (pol False) once c is known to be pol"""
    c = strip(c)
    if c["k"] == "Un" and c["op"] == "!": return lits0(c["e"], not pol, loc, flg, depth)
    if c["k"] == "Bin" and c["op"] == ("&&" if pol else "||"): return lits0(c["a"], pol, loc, flg, depth) + lits0(c["b"], pol, loc, flg, depth)
    if depth < 8 and c["k"] == "Var" and c.get("id") in loc: return lits0(loc[c["id"]], pol, loc, flg, depth + 1)
    if depth < 8 and c["k"] == "Member" and mpath(c) in flg: return lits0(flg[mpath(c)], pol, loc, flg, depth + 1)
    return [(c, pol)]
def facts(f, site):
    out = []; seen = False; loc = locals_of(f); flg = flags_of(f)
    def lits(c, pol): return lits0(c, pol, loc, flg)
    for n in walk(f.body):
        if n is site: seen = True
        if n["k"] not in ("If", "Cond"): continue
        a, b = n["a"], n.get("b")
        ina = any(x is site for x in walk(a)); inb = b is not None and any(x is site for x in walk(b))
        if ina: out += lits(n["c"], True)
        elif inb: out += lits(n["c"], False)
        elif n["k"] == "If" and not seen:
            if exits(a): out += lits(n["c"], False)
            elif b is not None and exits(b): out += lits(n["c"], True)
    return out
SWAP = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}
CMPS = {"IsLessThan": "<", "IsGreaterThan": ">", "IsLessThanOrEqual": "<=", "IsGreaterThanOrEqual": ">="}
def nonneg(e, loc):
    """a bound that is at least zero (whatever the arguments)"""
    e = expand(e, loc)
    if e["k"] in ("Float", "Int"): return float(e["v"]) >= 0
    if e["k"] == "Var": return bool(e.get("global"))
    if e["k"] == "Call" and (e.get("f") or {}).get("n") in ("max", "fmax"): return any(nonneg(x, loc) for x in (e["args"][0].get("args") or e["args"][0].get("e") if len(e["args"]) == 1 and isinstance(e["args"][0].get("e"), list) else e["args"]) if isinstance(x, dict))
    if e["k"] == "Call" and (e.get("f") or {}).get("n") in ("abs", "fabs"): return True
    if e["k"] == "Cond":
        c = strip(e["c"])
        if nonneg(e["a"], loc) and nonneg(e["b"], loc): return True
        # x > 0 ? x : 0
        return c["k"] == "Bin" and c["op"] in (">", ">=", "<", "<=") and (nonneg(e["b"], loc) or nonneg(e["a"], loc)) and (nonneg(c["a"], loc) or nonneg(c["b"], loc))
    return False
def guards(f, site, pid, loc, up, strict=False, pos=False):
    """on every way to the call a test limits the parameter from above (up) or from below"""
    good = ("<", "<=", "!=") if up else (">", ">=", "!=")
    if strict: good = good[:2]
    def about(e):
        return pid in vars_of(e) or any(pid in vars_of(expand(x, loc)) for x in walk(e) if x["k"] == "Var")
    for c, pol in facts(f, site):
        if c["k"] == "Bin" and c["op"] in NEG: op, a, b = c["op"], c["a"], c["b"]
        elif c["k"] == "Call" and (c.get("f") or {}).get("n") in CMPS and len(c["args"]) >= 2: op, a, b = CMPS[c["f"]["n"]], c["args"][0], c["args"][1]
        else: continue
        if not pol: op = NEG[op]
        if about(a) and not about(b) and op in good and (not pos or op == ">" and nonneg(b, loc)): return True
        if about(b) and not about(a) and SWAP[op] in good and (not pos or SWAP[op] == ">" and nonneg(a, loc)): return True
    return False
def recursion(P, eff, f, site):
    """reason why this recursive call of f is bounded, or None"""
    loc = locals_of(f); args = site.get("args") or []
    written = {}
    for n in walk(f.body):
        if n["k"] == "Assign" and n["a"]["k"] == "Var": written.setdefault(n["a"]["id"], []).append(n)
        if n["k"] == "Un" and n["op"] in ("++", "--") and n["e"]["k"] == "Var": written.setdefault(n["e"]["id"], []).append(n)
    for i, p in enumerate(f.params):
        if i >= len(args) or args[i] is None: continue
        a = expand(args[i], loc); pid = p["id"]
        if "*" in p["t"] and pid not in written:
            x = a; steps = 0
            while x["k"] in ("Member", "Index", "Cast", "Un", "MCall", "OpCall") and (x["k"] != "Un" or x["op"] in ("*", "&")):
                if x["k"] in ("Member",): steps += 1
                x = expand(x.get("b") if x["k"] in ("Member", "Index", "MCall") else x["args"][0] if x["k"] == "OpCall" else x["e"], loc)
            if steps and x["k"] == "Var" and x["id"] == pid: return "descends the tree"
        if is_intt(p["t"]) and pid not in written and a["k"] == "Bin" and a["op"] in ("+", "-", "/", ">>"):
            if isvar(expand(a["a"], loc), pid) and (const_int(a["b"], P) or 0) > 0 and guards(f, site, pid, loc, a["op"] == "+"): return "depth counter"
            if a["op"] == "+" and isvar(expand(a["b"], loc), pid) and (const_int(a["a"], P) or 0) > 0 and guards(f, site, pid, loc, True): return "depth counter"
        if p["t"] in ("double", "const double", "float") and pid not in written and a["k"] == "Bin" and a["op"] in ("*", "/"):
            for x, y in ((a["a"], a["b"]), (a["b"], a["a"])):
                v = expand(y, loc)
                if isvar(x, pid) and v["k"] in ("Float", "Int") and (0 < float(v["v"]) < 1 if a["op"] == "*" else float(v["v"]) > 1) and guards(f, site, pid, loc, False, False, True): return "extent halves"
        if is_mut_ref(p["t"]) and isvar(a, pid) and "vector" in p["t"]:
            grow = [n for n in walk(f.body) if n["k"] == "MCall" and n.get("b") is not None and isvar(n["b"], pid) and n["f"]["n"] in ("push_back", "emplace_back")]
            shrink = [n for n in walk(f.body) if n["k"] == "MCall" and n.get("b") is not None and isvar(n["b"], pid) and n["f"]["n"] in ("pop_back", "clear", "erase", "resize")]
            if grow and not shrink and guards(f, site, pid, loc, True, True) and precedes(f.body, grow, site): return "container fills up"
    return None
def precedes(body, grow, site):
    """in the statement list holding the call, an unconditional growth comes first"""
    for n in walk(body):
        if n["k"] == "Block":
            for i, x in enumerate(n["s"]):
                if any(y is site for y in walk(x)) and not (x["k"] in ("Block", "If") or x["k"] in LOOPS):
                    return any(any(y is g for g in grow for y in walk(z)) and z["k"] in ("Expr", "Decl") for z in n["s"][:i])
    return False

def run(P, ctx):
    ctx.rule = "every loop has a variant that is tested on each iteration and progresses on every path back to the test; every recursive call moves a guarded depth, descends a tree or fills a guarded container"
    eff = Effects(P); weak, trusted = table()
    kinds = {}; nl = 0; weak_seen = {}
    for k, f in sorted(P.funcs.items()):
        if not f.body: continue
        for n, L in loops_of(P, eff, f):
            nl += 1
            r = L.prove()
            if r is None:
                w = L.weak()
                if w and f.q in weak and L.stagnant():
                    ctx.violation(f"{f.q}|stagnant|{describe(n)}", f"loop in {f.q} may run for ever: it can go round again without having changed anything that outlives the iteration", f"{f.file}:{n['l']}"); continue
                if w and f.q in STRICT and not advances(f, L):
                    ctx.violation(f"{f.q}|advance|{describe(n)}", f"loop in {f.q} may run for ever: no value carried from one iteration to the next is tested to be strictly beyond the one it replaces", f"{f.file}:{n['l']}"); continue
                if w and f.q in WORK and not bounded_pushes(f, L):
                    ctx.violation(f"{f.q}|work list|{describe(n)}", f"loop in {f.q} may not terminate: its work list grows without a test of a depth that grows with it", f"{f.file}:{n['l']}"); continue
                if w and f.q in weak:
                    weak_seen[f.key] = weak_seen.get(f.key, 0) + 1
                    if weak_seen[f.key] <= weak[f.q]:
                        kinds["trusted"] = kinds.get("trusted", 0) + 1; ctx.undecided.append(f"{f.q}: bound is a runtime fact (tables/termination.txt)")
                        continue
                what = "nothing tested for leaving it changes on every path" if not w else "no counter with a fixed bound limits the number of iterations"
                ctx.violation(f"{f.q}|loop|{describe(n)}", f"loop in {f.q} may not terminate: {what}", f"{f.file}:{n['l']}")
            else:
                kinds[r] = kinds.get(r, 0) + 1
                if len(ctx.samples) < 6: ctx.samples.append(f"{f.q}:{n['l']} {r}")
    G = graph(P, eff); nr = 0
    for k in G:
        R = reach(G, k)
        if k not in R: continue
        f = P.funcs[k]
        for site, c in G[k]:
            if c != k and k not in reach(G, c) and c != k: continue
            nr += 1
            if f.q in trusted: continue
            r = recursion(P, eff, f, site) if c == k else None
            if r is None:
                ctx.violation(f"{f.q}|recursion|{P.funcs[c].q}", f"{f.q} calls itself (through {P.funcs[c].q}) with no argument that is bounded by a guard", f"{f.file}:{site['l']}")
            else: ctx.samples.append(f"{f.q}:{site['l']} recursion: {r}")
    ctx.cov["loop_proofs"] = kinds
    ctx.floor("loops", nl, 800); ctx.floor("recursive_calls", nr, 8)
    ctx.assumptions += ["loop bounds are ints below overflow; library calls and standard algorithms terminate", "the loops and recursions in tables/termination.txt were judged by reading; for those only progress on every path is checked"]

def describe(n):
    c = n.get("c")
    def t(e):
        e = strip(e); k = e["k"]
        if k == "Var": return e["n"]
        if k in ("Int", "Float", "Bool"): return str(e.get("v"))
        if k == "Bin": return t(e["a"]) + e["op"] + t(e["b"])
        if k == "Un": return e["op"] + t(e["e"])
        if k in ("Call", "MCall"): return (e.get("f") or {}).get("n", "") + "(" + ",".join(t(a) for a in e.get("args") or [] if a) + ")"
        if k == "Member": return t(e["b"]) + "." + e["f"] if e.get("b") else e["f"]
        return k
    return n["k"] + " " + (t(c) if c else "")
