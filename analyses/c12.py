"""C12 memory is released exactly once on every path: ownership analysis over abstract heap graphs (lib/heap.py)."""
from ir import *
from heap import *

# what the members of the owning classes are: list of nodes / block with its form of release / pointer into a list
SPEC = {"VoronoiDiagramGenerator": {
    "allMemoryList": ("list", "FreeNodeArrayList"), "allEdges": ("list", "GraphEdge"), "delaunayEdges": ("list", "GraphEdge"),
    "sites": ("block", "malloc"), "ELhash": ("block", "malloc"), "PQhash": ("block", "malloc"), "finalVertices": ("block", "malloc"),
    "vertexLinks": ("block", "malloc"), "vertices": ("block", "malloc"), "finalVertexLinks": ("block", "malloc"),
    "currentMemoryBlock": ("alias", "allMemoryList", "last"), "iteratorEdges": ("alias", "allEdges", "in"), "iteratorDelaunayEdges": ("alias", "delaunayEdges", "in")}}
NODES = {"FreeNodeArrayList": {"memory": "malloc", "next": "next"}, "GraphEdge": {"next": "next"}}
POINTER_CONTAINERS = {"Octant": ["Children"]}
RAW = {"malloc", "calloc", "realloc", "free", "strdup", "aligned_alloc"}

def direct(x):
    if x["k"] in ("New", "Delete"): return True
    return x["k"] == "Call" and isinstance(x.get("f"), dict) and x["f"]["n"] in RAW

def relevant(P):
    fields = {n for sp in SPEC.values() for n in sp}
    r = set(); callers = {}
    for k, f in P.funcs.items():
        if not f.body: continue
        for x in walk(f.body):
            if direct(x) or x["k"] == "Assign" and strip(x["a"])["k"] == "Member" and strip(x["a"])["f"] in fields and f.cls in SPEC: r.add(k)
            if x["k"] in ("Call", "MCall") and isinstance(x.get("f"), dict):
                c = P.callee(x["f"])
                if c is not None and (x["k"] == "Call" or strip(x["b"])["k"] == "This"): callers.setdefault(c.key, set()).add(k)
    todo = list(r)
    while todo:
        for c in callers.get(todo.pop(), ()):
            if c not in r: r.add(c); todo.append(c)
    return r
def throwing(P):
    r = set(); callers = {}
    for k, f in P.funcs.items():
        if not f.body: continue
        for x in walk(f.body):
            if x["k"] == "Throw": r.add(k)
            if x["k"] in ("Call", "MCall", "OpCall", "Ctor") and isinstance(x.get("f"), dict):
                c = P.callee(x["f"])
                if c is not None: callers.setdefault(c.key, set()).add(k)
    todo = list(r)
    while todo:
        for c in callers.get(todo.pop(), ()):
            if c not in r: r.add(c); todo.append(c)
    return r

def pointees(P):
    if not hasattr(P, "_pointees"):
        P._pointees = {base_type(x["t"].rstrip("* ")) for f in P.funcs.values() if f.body for x in walk(f.body) if x["k"] == "New"} | set(NODES)
    return P._pointees
def prepare(P, cls, extra):
    rec = P.records.get(cls)
    if rec is None: return {}
    fl = {f["n"]: f for f in rec["fields"]}
    sp = {n: v for n, v in SPEC.get(cls, {}).items() if n in fl and isptr(fl[n]["t"])}
    sp.update(extra)
    return {n: v for n, v in sp.items() if v[0] != "alias" or v[1] in sp}

def one_node(a, h, o):
    nf = [fn for fn, kd in NODES[o.t].items() if kd == "next"][0]
    refs = {}
    for d, own in [(h.v, "v"), (h.f, "f")] + [(x.fields, i) for i, x in h.o.items()]:
        for k, w in d.items():
            if isinstance(w, tuple) and w[0] == "o": refs.setdefault(w[1], []).append((own, k))
    return o.fields.get(nf) == "n" and a.tidy(h, o, refs)

def run_class(P, cls, rel, thr, ctx, stats):
    extra = {}
    for _ in range(4):
        spec = prepare(P, cls, extra); found = {}; bad = {}
        rec = P.records.get(cls); fl = {f["n"]: f for f in rec["fields"]}
        new = set(getattr(P, "new_funcs", ()))
        for k, f in sorted(P.funcs.items()):
            if f.cls != cls or not f.body or f.static or f.access != "public" or k in new: continue
            a = Heap(P, cls, spec, NODES, rel, thr); a.stack = [f]; a.pointees = pointees(P)
            h = a.invariant()
            if f.ctor:
                h = H()
                for n in spec:
                    d = fl[n]
                    h.f[n] = "x" if not d.get("init") else "n"
                for i in f.inits or []:
                    n = i.get("n") or i.get("f")
                    if n in spec:
                        for h2, w in a.ev(i.get("e"), h): h = h2; h.f[n] = w; break
            for p in f.params:
                if isptr(p["t"]): h.v[p["id"]] = "u"
            outs = a.exec(f.body, [h])
            for h2, w in [(x, "u") for x in outs["n"]] + outs["r"]:
                h2 = h2.copy(); a.escape(h2, w); h2.v = {}
                a.leaks(h2, f.line, "return")
                h2 = a.fold(h2)
                if f.dtor:
                    for n, w in h2.f.items():
                        if isinstance(w, tuple) and w[0] == "o" and w[1] in h2.o and not h2.o[w[1]].freed:
                            a.report("not released by the destructor", n, f.line)
                    continue
                seen = {}
                for n in list(h2.f):
                    w = h2.f[n]; sp = spec.get(n)
                    if sp is None:
                        if isinstance(w, tuple) and w[0] == "o" and w[1] in h2.o and not any(h2.f.get(m) == w for m in spec):
                            o = h2.o[w[1]]
                            if o.kind == "b" and n in fl: found[n] = ("block", o.form)
                        continue
                    if w == "d": a.report("member left pointing to released memory", n, f.line)
                    elif w == "x": a.report("member left undefined", n, f.line)
                    if sp[0] == "alias":
                        if sp[2] == "last" and isinstance(w, tuple) and w[0] == "in": a.report("member no longer refers to the end of its list", n, f.line)
                        continue
                    if isinstance(w, tuple):
                        if w[0] != "o": a.report("owner refers into another list", n, f.line)
                        else:
                            if w[1] in seen: a.report("two owners of the same memory", f"{seen[w[1]]} and {n}", f.line)
                            seen[w[1]] = n
                            o = h2.o.get(w[1])
                            if o is not None and sp[0] == "list" and o.kind == "c" and not one_node(a, h2, o): a.report("malformed list", n + ": " + ",".join(f"{x}={'undefined' if y == 'x' else 'released' if y == 'd' else 'unknown' if y == 'u' else 'shared'}" for x, y in o.fields.items() if y in ("x", "d", "u") or isinstance(y, tuple)), f.line)
                            if o is not None and o.kind == "b" and sp[0] == "block" and o.form != sp[1]: pass
            bad.update(a.bad); stats["entries"] += 1; stats["sites"] += a.sites; stats["steps"] += a.work
        if not (set(found) - set(extra)): break
        extra.update(found)
    return spec, bad

def run(P, ctx):
    rel = relevant(P); thr = throwing(P); stats = {"entries": 0, "sites": 0, "steps": 0}
    owning = 0; allbad = {}
    try:
        for cls in SPEC:
            if cls not in P.records: continue
            spec, bad = run_class(P, cls, rel, thr, ctx, stats); allbad.update(bad); owning += len([1 for v in spec.values() if v[0] != "alias"])
    except TooMany: ctx.undecided.append("heap graphs of VoronoiDiagramGenerator exceed the bound")
    # functions and classes with local ownership
    for k, f in sorted(P.funcs.items()):
        if k not in rel or f.cls in SPEC or not f.body or k in getattr(P, "new_funcs", ()): continue
        a = Heap(P, f.cls, {}, NODES, rel, thr); a.stack = [f]; h = H(); a.pointees = pointees(P)
        for p in f.params:
            if isptr(p["t"]): h.v[p["id"]] = "u"
        try: outs = a.exec(f.body, [h])
        except TooMany: ctx.undecided.append("heap graphs of " + k); continue
        for h2, w in [(x, "u") for x in outs["n"]] + outs["r"]:
            h2 = h2.copy(); a.escape(h2, w); h2.v = {}
            a.leaks(h2, f.line, "return")
        allbad.update(a.bad); stats["entries"] += 1; stats["sites"] += a.sites; stats["steps"] += a.work
    for (k, kind, what), (f, line) in sorted(allbad.items()):
        ctx.violation(f"{k}|{kind}|{what}", f"{k}: {kind}: {what}" + (f" (in {f.q})" if f.key != k else ""), f"{f.file}:{line}")
    # containers of owned pointers
    ncont = 0
    for cls, members in POINTER_CONTAINERS.items():
        rec = P.records.get(cls)
        if rec is None: continue
        for m in members:
            fd = next((x for x in rec["fields"] if x["n"] == m), None)
            if fd is None or not fd["t"].rstrip(">").rstrip().endswith("*"): continue
            ncont += 1
            d = next((f for f in P.funcs.values() if f.cls == cls and f.dtor and f.body), None)
            if d is None or not deletes_all(d.body, m): ctx.violation(f"{cls}|container|{m}", f"{cls}: the destructor does not release every element of {m}", d.loc if d else cls)
    # owners of raw memory cannot be copied
    ncopy = 0
    for cls in sorted(set(SPEC) | set(POINTER_CONTAINERS)):
        r = P.records.get(cls)
        if r is None: continue
        owns = any(isptr(x["t"]) and x["n"] in SPEC.get(cls, {}) for x in r["fields"]) or any(x["n"] in POINTER_CONTAINERS.get(cls, ()) and x["t"].rstrip(">").rstrip().endswith("*") for x in r["fields"])
        if not owns: continue
        ncopy += 1
        if not ((r.get("copydeleted") or r.get("usercopy") or r.get("usermove")) and (r.get("assigndeleted") or r.get("userassign") or r.get("usermove"))):
            ctx.violation(f"{cls}|copy", f"{cls} owns raw memory but can be copied: both copies release it", r.get("file", cls))
        if not r.get("userdtor"): ctx.violation(f"{cls}|dtor", f"{cls} owns raw memory but has no destructor", r.get("file", cls))
    ctx.rule = ("Rule: every public member function of a class that owns raw memory is interpreted over sets of heap graphs (linked lists summarised, unfolded on demand), starting from the class invariant (each owning member is null or owns an intact list or block); "
        "functions that allocate locally are interpreted likewise. Reported: a block nothing refers to any more, a second release, a use after release, a release with another form than the allocation, members left dangling, undefined or sharing memory, "
        "lists that do not end, anything alive after the destructor, locally owned memory when an exception leaves, copyable owners.")
    ctx.assumptions = ["allocation itself does not throw", "pointers into pool blocks (sites, half edges) are not tracked individually", "library calls borrow their pointer arguments"]
    ctx.floor("owning_members", owning + ncont, 1); ctx.floor("entry_points", stats["entries"], 10); ctx.floor("allocation_and_release_events", stats["sites"], 20)
    ctx.cov["abstract_steps"] = stats["steps"]; ctx.cov["noncopyable_owners"] = ncopy
    ctx.samples = [{"class": c, "members": list(m)} for c, m in SPEC.items()]

def deletes_all(body, m):
    def is_m(e):
        e = strip(e)
        if e is None: return False
        if e["k"] == "Member" and e["f"] == m: return True
        return False
    def must_delete(n, test):
        """every path through n releases the element (null elements excepted)"""
        if n is None: return False
        k = n["k"]
        if k == "Block":
            def skip(c):      # if (!element) continue;
                if c["k"] != "If" or c.get("b"): return False
                x = strip(c["c"])
                nl = x["k"] == "Un" and x["op"] == "!" and test(strip(x["e"])) or x["k"] == "Bin" and x["op"] == "==" and (test(strip(x["a"])) or test(strip(x["b"])))
                return nl and not any(y["k"] in ("Break", "Return") for y in walk(c))
            rest = [c for c in n["s"] if not skip(c)]
            return any(must_delete(c, test) for c in rest) and not any(x["k"] in ("Break", "Return", "Continue") for c in rest for x in walk(c))
        if k == "Expr": return any(x["k"] == "Delete" and test(strip(x["e"])) for x in walk(n["e"]))
        if k == "If":
            c = strip(n["c"])
            nn = test(c) or c["k"] == "Bin" and c["op"] == "!=" and (test(strip(c["a"])) or test(strip(c["b"])))
            nl = c["k"] == "Un" and c["op"] == "!" and test(strip(c["e"])) or c["k"] == "Bin" and c["op"] == "==" and (test(strip(c["a"])) or test(strip(c["b"])))
            if nn: return must_delete(n["a"], test)
            if nl and n.get("b"): return must_delete(n["b"], test)
            return must_delete(n["a"], test) and must_delete(n.get("b"), test)
        if k == "Inl": return must_delete(n["body"], test)
        return False
    alias = set()
    for x in walk(body):
        if x["k"] == "Decl":
            for d in x["d"]:
                if d.get("init") is not None and is_m(d["init"]) and is_ref(d["t"]): alias.add(d["id"])
    def cont(e):
        e = strip(e); return is_m(e) or e is not None and e["k"] == "Var" and e["id"] in alias
    for x in walk(body):
        if x["k"] == "RangeFor" and cont(x["r"]):
            vid = x["v"]["id"]; al = {vid}
            for y in walk(x["body"]):
                if y["k"] == "Decl":
                    for d in y["d"]:
                        if d.get("init") is not None and strip(d["init"])["k"] == "Var" and strip(d["init"])["id"] in al: al.add(d["id"])
            if must_delete(x["body"], lambda e: e["k"] == "Var" and e["id"] in al): return True
        if x["k"] in ("For", "While"):
            txt = x.get("c")
            if txt is None: continue
            sized = any(y["k"] == "MCall" and y["f"]["n"] in ("size", "end", "cend", "empty") and cont(y["b"]) for y in walk(txt)) or any(y["k"] == "Int" and y["v"] == 8 for y in walk(txt))
            if not sized: continue
            st = [y["v"] for d in (x.get("init") or {}).get("d", []) for y in [strip(d["init"])] if d.get("init") is not None and y["k"] == "Int"] if isinstance(x.get("init"), dict) and x["init"].get("k") == "Decl" else []
            if st and st[0] != 0 and st[0] != 7: continue
            al = set()
            def elem(e):
                e = strip(e)
                if e is None: return False
                if e["k"] == "Var" and e["id"] in al: return True
                if e["k"] == "Index" and cont(e["b"]): return True
                if e["k"] == "OpCall" and e["op"] == "[]" and cont(e["args"][0]): return True
                if e["k"] == "OpCall" and e["op"] == "*": return True
                if e["k"] == "Un" and e["op"] == "*": return True
                if e["k"] == "MCall" and e["f"]["n"] in ("back", "front", "at") and cont(e["b"]): return True
                return False
            for y in walk(x["body"]):
                if y["k"] == "Decl":
                    for d in y["d"]:
                        if d.get("init") is not None and elem(d["init"]): al.add(d["id"])
            if must_delete(x["body"], elem): return True
    return False
