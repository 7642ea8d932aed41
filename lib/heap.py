"""Ownership analysis of raw memory: an abstract interpreter over sets of small heap graphs.

A heap graph holds the pointer variables, the pointer members of the object under analysis and the blocks they refer to.  A linked
list of unknown length is one summary object that is unfolded when it is looked into and folded back at loop heads and calls.
Values: 'n' null, 'd' dangling (released), 'u' unknown, 'x' undefined, ('o', id) start of a block, ('in', id) / ('last', id) somewhere
in / last node of the list that starts at id."""
from ir import *

ALLOC = {"malloc": "malloc", "calloc": "malloc", "strdup": "malloc", "aligned_alloc": "malloc"}
MOVERS = {"push_back", "emplace_back", "insert", "emplace", "push", "push_front", "emplace_front", "assign", "reset"}

class TooMany(Exception): pass

class Obj:
    __slots__ = ("kind", "form", "may", "fields", "freed", "held", "t", "line", "esc")
    # kind: 'b' block, 'l' list of unknown length (maybe empty), 'c' one node
    def __init__(s, kind, form, t, line, may=False):
        s.kind = kind; s.form = form; s.t = t; s.line = line; s.may = may; s.fields = {}; s.freed = False; s.held = None; s.esc = False
    def copy(s):
        o = Obj(s.kind, s.form, s.t, s.line, s.may); o.fields = dict(s.fields); o.freed = s.freed; o.held = s.held; o.esc = s.esc
        return o

class H:
    __slots__ = ("v", "f", "o", "k", "n")
    def __init__(s): s.v = {}; s.f = {}; s.o = {}; s.k = {}; s.n = 0
    def copy(s):
        h = H(); h.v = dict(s.v); h.f = dict(s.f); h.o = {i: x.copy() for i, x in s.o.items()}; h.k = dict(s.k); h.n = s.n
        return h
    def new(s, *a, **k):
        s.n += 1; s.o[s.n] = Obj(*a, **k); return s.n
    def vals(s):
        yield from s.v.values(); yield from s.f.values()
        for x in s.o.values(): yield from x.fields.values()
    def subst(s, a, b):
        for d in [s.v, s.f] + [x.fields for x in s.o.values()]:
            for k, w in d.items():
                if w == a: d[k] = b
    def key(s):
        """canonical form: objects renumbered in order of discovery"""
        num = {}; out = []
        def val(w):
            if isinstance(w, tuple) and w[0] in ("o", "in", "last"):
                i = w[1]
                if i not in s.o: return "d"
                if s.o[i].freed: return "d"
                if i not in num: num[i] = len(num); todo.append(i)
                return (w[0], num[i])
            return w
        todo = []
        out.append(tuple((k, val(w)) for k, w in sorted(s.f.items(), key=str)))
        out.append(tuple((k, val(w)) for k, w in sorted(s.v.items(), key=str) if w != "u"))
        while todo:
            i = todo.pop(0); o = s.o[i]
            out.append((num[i], o.kind, o.form, o.may, o.t, o.esc, val(("o", o.held)) if o.held else None, tuple((k, val(w)) for k, w in sorted(o.fields.items()))))
        out.append(tuple(sorted((k, v) for k, v in s.k.items())))
        return tuple(out)

def strip(e):
    while e is not None and e["k"] in ("Cast",) and e.get("e"): e = e["e"]
    return e
def isptr(t): return (t or "").rstrip().endswith("*") or (t or "").rstrip().endswith("*const")

class Heap:
    MAX = 400
    def __init__(s, P, cls, spec, nodes, relevant, throws):
        s.P = P; s.cls = cls; s.spec = spec; s.nodes = nodes; s.rel = relevant; s.throws = throws
        s.bad = {}; s.depth = 0; s.stack = []; s.memo = {}; s.work = 0; s.sites = 0; s.cur = None
    # ---------- reports
    def report(s, kind, what, line, f=None):
        f = f or s.stack[-1]
        s.bad.setdefault((s.stack[0].key, kind, what), (f, line))
    def name(s, e):
        e = strip(e)
        if e is None: return "?"
        if e["k"] == "Var": return e["n"]
        if e["k"] == "Member": return (s.name(e["b"]) + "->" if e.get("b") is not None and strip(e["b"])["k"] != "This" else "") + str(e["f"])
        if e["k"] == "Index": return s.name(e["b"]) + "[]"
        return e["k"]
    # ---------- invariant state of the class under analysis
    def invariant(s):
        h = H()
        for n, sp in s.spec.items():
            if sp[0] == "list": h.f[n] = ("o", h.new("l", "new", sp[1], 0))
            elif sp[0] == "block": h.f[n] = ("o", h.new("b", sp[1], n, 0, may=True))
        for n, sp in s.spec.items():
            if sp[0] == "alias": h.f[n] = (sp[2], h.f[sp[1]][1]) if sp[1] in h.f else "u"
        return h
    # ---------- materialisation
    def unfold(s, h, i):
        """the list i is empty / has a first node"""
        o = h.o[i]
        if o.kind != "l": return [(h, True)]
        e = h.copy(); e.subst(("o", i), "n"); e.subst(("in", i), "n"); e.subst(("last", i), "n"); del e.o[i]
        g = h.copy(); s.to_node(g, i)
        return [(e, False), (g, True)]
    def to_node(s, h, i):
        o = h.o[i]; o.kind = "c"
        for fn, kind in s.nodes[o.t].items():
            if kind == "next": o.fields[fn] = ("o", h.new("l", "new", o.t, 0))
            else: o.fields[fn] = ("o", h.new("b", kind, o.t + "." + fn, 0, may=True))
    def nonnull(s, h, w, e, line):
        """cases in which w is not null; reports uses of released memory"""
        if w == "d":
            s.report("use after release", s.name(e), line); return []
        if w == "x":
            s.report("use of an undefined pointer", s.name(e), line); return []
        if not isinstance(w, tuple): return [(h, w)]
        i = w[1]; o = h.o.get(i)
        if o is None or o.freed:
            s.report("use after release", s.name(e), line); return []
        if w[0] == "o":
            if o.kind == "l":
                g = h.copy(); s.to_node(g, i); return [(g, w)]
            if o.may:
                g = h.copy(); g.o[i].may = False; return [(g, w)]
        return [(h, w)]
    def touch(s, h, i):
        """node at the end of list i, for writing"""
        b = h.new("c", "new", h.o[i].t, 0); o = h.o[b]; o.held = i
        for fn, kind in s.nodes[o.t].items():
            if kind == "next": o.fields[fn] = "n"
            else: o.fields[fn] = ("o", h.new("b", kind, o.t + "." + fn, 0, may=True))
        h.subst(("last", i), ("o", b))
        return b
    def owned(s, t): return base_type((t or "").rstrip("* ")) in s.pointees
    pointees = ()
    # ---------- lvalues
    def load(s, e, h):
        """value of an lvalue or pointer expression: list of (heap, value)"""
        return s.ev(e, h)
    def place(s, e, h):
        """list of (heap, place): ('v', id) ('f', name) ('m', obj, field) or None"""
        e = strip(e); k = e["k"]
        if k == "Var":
            return [(h, ("v", e["id"]) if not e.get("global") else ("g",))]
        if k == "Member":
            b = strip(e["b"]) if e.get("b") is not None else {"k": "This"}
            if b["k"] == "This": return [(h, ("f", e["f"]))]
            if isptr(b.get("t", "")) or e.get("arrow"):
                r = []
                for h2, w in s.ev(b, h):
                    for h3, w3 in s.nonnull(h2, w, b, e["l"]):
                        if isinstance(w3, tuple):
                            i = w3[1]
                            if w3[0] == "last": i = s.touch(h3, i)
                            elif w3[0] == "in": r.append((h3, ("in", i, e["f"]))); continue
                            o = h3.o[i]
                            if o.kind == "c": r.append((h3, ("m", i, e["f"]))); continue
                        r.append((h3, None))
                return r
            return [(h2, None) for h2, _ in s.ev(b, h)]
        if k == "Index":
            r = []
            for h2, w in s.ev(e["b"], h):
                for h3, _ in s.ev(e["i"], h2):
                    if isptr(strip(e["b"]).get("t", "")):
                        for h4, _ in s.nonnull(h3, w, e["b"], e["l"]): r.append((h4, None))
                    else: r.append((h3, None))
            return r
        if k == "Un" and e["op"] == "*":
            r = []
            for h2, w in s.ev(e["e"], h):
                for h3, _ in s.nonnull(h2, w, e["e"], e["l"]): r.append((h3, None))
            return r
        return [(h2, None) for h2, _ in s.ev(e, h)]
    def get(s, h, p, e):
        if p is None or p[0] == "g": return [(h, "u")]
        if p[0] == "v": return [(h, h.v.get(p[1], "u"))]
        if p[0] == "f": return [(h, h.f.get(p[1], "u"))]
        if p[0] == "m": return [(h, h.o[p[1]].fields.get(p[2], "u"))]
        if p[0] == "in":
            t = h.o[p[1]].t
            if s.nodes.get(t, {}).get(p[2]) == "next":
                return [(h, ("in", p[1])), (h.copy(), "n")]
            return [(h, "u")]
        return [(h, "u")]
    def put(s, h, p, w, e, t):
        if p is None or p[0] in ("g", "in"):
            s.escape(h, w); return
        if p[0] == "v": h.v[p[1]] = "u" if w in ("n", "x") and not s.owned(t) and h.v.get(p[1], "u") == "u" else w
        elif p[0] == "f":
            if isptr(t): h.f[p[1]] = w
            else: s.escape(h, w); return
        elif p[0] == "m":
            if isptr(t): h.o[p[1]].fields[p[2]] = w
        s.leaks(h, e["l"], s.name(e))
    def escape(s, h, w, seen=None):
        if isinstance(w, tuple) and w[0] == "o" and w[1] in h.o:
            o = h.o[w[1]]
            if o.esc: return
            o.esc = True
            for x in o.fields.values(): s.escape(h, x)
    def leaks(s, h, line, what):
        """objects that nothing refers to any more"""
        live = set(); todo = []
        for w in list(h.v.values()) + list(h.f.values()):
            if isinstance(w, tuple) and w[0] == "o": todo.append(w[1])
        for i, o in h.o.items():
            if o.esc: todo.append(i)
        while todo:
            i = todo.pop()
            if i in live or i not in h.o: continue
            live.add(i)
            for w in h.o[i].fields.values():
                if isinstance(w, tuple) and w[0] == "o" and not h.o[i].freed: todo.append(w[1])
            for j, o in h.o.items():
                if o.held == i and not h.o[i].freed: todo.append(j)
        for i in [i for i in h.o if i not in live]:
            o = h.o[i]
            if not o.freed and not (o.held and o.held in live):
                s.report("leak", o.t, o.line or line)
            if not any(isinstance(w, tuple) and w[1] == i for w in h.vals()): del h.o[i]
    def release(s, h, w, form, e, line):
        """list of heaps after releasing w"""
        if w in ("n", "u"): return [h]
        if w == "d":
            s.report("released twice", s.name(e), line); return [h]
        if w == "x":
            s.report("release of an undefined pointer", s.name(e), line); return [h]
        i = w[1]; o = h.o.get(i)
        if o is None or o.freed:
            s.report("released twice", s.name(e), line); return [h]
        if w[0] != "o":
            s.report("releases memory another member owns", s.name(e), line); return [h]
        if o.form != form: s.report("released with the wrong form", f"{s.name(e)} ({o.form} memory with {'free' if form == 'malloc' else 'delete' + form[3:]})", line)
        r = []
        for h2, some in (s.unfold(h, i) if o.kind == "l" else [(h, True)]):
            if some:
                x = h2.o[i]; x.freed = True
                # what the block owned must have been taken care of
                for fn, y in list(x.fields.items()):
                    if isinstance(y, tuple) and y[0] == "o" and y[1] in h2.o and not h2.o[y[1]].freed and not x.esc:
                        z = h2.o[y[1]]
                        if not any(q == y for q in list(h2.v.values()) + list(h2.f.values())) and z.held is None and not z.esc:
                            s.report("leak", f"{x.t}.{fn} of a released node", line)
                x.fields = {}
                for j, z in h2.o.items():
                    if z.held == i: z.freed = True
                h2.subst(("o", i), "d"); h2.subst(("in", i), "d"); h2.subst(("last", i), "d")
                del h2.o[i]
                for j in [j for j, z in h2.o.items() if z.freed]:
                    h2.subst(("o", j), "d"); del h2.o[j]
            r.append(h2)
        return r
    # ---------- expressions: list of (heap, value)
    def ev(s, e, h):
        s.work += 1
        if s.work > 3000000: raise TooMany()
        if e is None: return [(h, "u")]
        k = e["k"]
        if k == "Cast": return s.ev(e.get("e"), h)
        if k == "Null": return [(h, "n")]
        if k == "Int": return [(h, "n" if e["v"] == 0 else "u")]
        if k in ("Float", "Bool", "Str", "This", "Enum", "Sizeof", "Fn", "ZeroInit"): return [(h, "n" if k == "ZeroInit" and isptr(e.get("t")) else "u")]
        if k == "Var":
            return [(h, h.v.get(e["id"], "u"))]
        if k in ("Member", "Index") or k == "Un" and e["op"] == "*":
            r = []
            for h2, p in s.place(e, h):
                r += s.get(h2, p, e)
            return r
        if k == "Un":
            r = []
            if e["op"] in ("++", "--"):
                for h2, p in s.place(e["e"], h):
                    if p is not None and p[0] == "v" and isptr(strip(e["e"]).get("t")): h2.v[p[1]] = "u"
                    if p is not None and p[0] == "v": h2.k.pop(p[1], None)
                    r.append((h2, "u"))
                return r
            if e["op"] == "&":
                return [(h2, "u") for h2, _ in s.place(e["e"], h)]
            if e["op"] == "!":
                a, b = s.cond(e, h); return [(x, "u") for x in a + b]
            return [(h2, "u") for h2, _ in s.ev(e["e"], h)]
        if k == "Bin":
            if e["op"] in ("&&", "||") or e["op"] in ("==", "!=") and any(isptr(strip(y).get("t", "")) or strip(y)["k"] == "Null" for y in (e["a"], e["b"])):
                a, b = s.cond(e, h); return s.dedup([(x, "u") for x in a + b])
            if e["op"] == ",":
                r = []
                for h2, _ in s.ev(e["a"], h): r += s.ev(e["b"], h2)
                return r
            r = []
            for h2, w in s.ev(e["a"], h):
                for h3, _ in s.ev(e["b"], h2): r.append((h3, "u"))
            return r
        if k == "Cond":
            a, b = s.cond(e["c"], h); r = []
            for x in a: r += s.ev(e["a"], x)
            for x in b: r += s.ev(e["b"], x)
            return r
        if k == "Assign":
            r = []; t = strip(e["a"]).get("t", "")
            for h2, w in s.ev(e["b"], h):
                for h3, p in s.place(e["a"], h2):
                    # the value may have been renamed by unfolding
                    if isinstance(w, tuple) and w[1] not in h3.o: w2 = "d"
                    else: w2 = w
                    if e["op"] != "=" : w2 = "u"
                    if isptr(t) or p is None or p[0] in ("g", "in"): s.put(h3, p, w2, e["a"], t)
                    elif p[0] == "v": s.setk(h3, p[1], e["b"] if e["op"] == "=" else None)
                    r.append((h3, w2))
            return r
        if k == "New":
            hs = [(h, "u")]
            if e.get("n"): hs = s.ev(e["n"], h)
            r = []
            for h2, _ in hs:
                for h3, _ in (s.ev(e["init"], h2) if e.get("init") else [(h2, "u")]):
                    s.sites += 1
                    t = base_type(e["t"].rstrip("* "))
                    node = t in s.nodes and not e.get("arr")
                    i = h3.new("c" if node else "b", "new[]" if e.get("arr") else "new", t, e["l"])
                    if node: h3.o[i].fields = {fn: "x" for fn in s.nodes[t]}
                    r.append((h3, ("o", i)))
            return r
        if k == "Delete":
            r = []; s.sites += 1
            for h2, w in s.ev(e["e"], h):
                for h3 in s.release(h2, w, "new[]" if e.get("arr") else "new", e["e"], e["l"]): r.append((h3, "u"))
            return r
        if k == "Throw":
            for h2, _ in s.ev(e.get("e"), h): s.throw(h2, e["l"])
            return []
        if k == "Inl":
            return s.inline(e["binds"], e["body"], h, e)
        if k == "Lambda": return [(h, "u")]
        if k in ("Call", "MCall", "OpCall", "Ctor", "InitList"): return s.call(e, h)
        # anything else: operands for effect
        hs = [h]
        for c in children(e):
            n = []
            for x in hs: n += [y for y, _ in s.ev(c, x)]
            hs = n
        return [(x, "u") for x in hs]
    def dedup(s, l):
        d = {}
        for h, w in l: d.setdefault((h.key(), w if not isinstance(w, tuple) else w[0] + str(w[1])), (h, w))
        return list(d.values())
    def call(s, e, h):
        f = e.get("f") if isinstance(e.get("f"), dict) else None
        n = f["n"] if f else ""
        args = [a for a in e.get("args") or []]
        hs = [(h, [])]
        b = e.get("b")
        if b is not None and strip(b)["k"] != "This":
            nx = []
            for h2, ws in hs:
                for h3, w in s.ev(b, h2):
                    if isptr(strip(b).get("t", "")): nx += [(h4, ws) for h4, _ in s.nonnull(h3, w, b, e["l"])]
                    else: nx.append((h3, ws))
            hs = nx
        for a in args:
            nx = []
            for h2, ws in hs:
                for h3, w in (s.ev(a, h2) if a is not None else [(h2, "u")]): nx.append((h3, ws + [w]))
            hs = nx
        c = s.P.callee(f) if f else None
        r = []
        for h2, ws in hs:
            if n in ALLOC and c is None:
                s.sites += 1
                i = h2.new("b", ALLOC[n], "block", e["l"], may=True); r.append((h2, ("o", i)))
            elif n == "realloc" and c is None and ws:
                s.sites += 1
                form = "malloc"; w = ws[0]
                for h3 in s.release(h2, w, form, args[0], e["l"]):
                    i = h3.new("b", "malloc", "block", e["l"]); r.append((h3, ("o", i)))
            elif n == "free" and c is None and ws:
                s.sites += 1
                r += [(h3, "u") for h3 in s.release(h2, ws[0], "malloc", args[0], e["l"])]
            elif e["k"] == "Ctor":
                for w in ws: s.escape(h2, w)
                r.append((h2, "u"))
            elif c is not None and c.body and c.key in s.rel and (b is None or strip(b)["k"] == "This") and c.key not in [x.key for x in s.stack]:
                r += s.enter(c, ws, h2, e)
            else:
                if n in MOVERS:
                    for w in ws: s.escape(h2, w)
                for w, a in zip(ws, args):
                    if w == "d" and c is not None: s.report("use after release", s.name(a), e["l"])
                if c is not None and c.key in s.throws and not s.handled:
                    s.throw(h2.copy(), e["l"])
                own = c is not None and c.key in s.rel and isptr(c.ret)
                if own:
                    i = h2.new("b", "new", base_type(c.ret.rstrip("* ")), e["l"], may=True); r.append((h2, ("o", i)))
                else: r.append((h2, "u"))
        return r
    handled = 0
    def throw(s, h, line):
        """an exception leaves the function: locals are gone"""
        if s.handled: return
        h = h.copy(); h.v = {}
        s.leaks(h, line, "exception")
    def enter(s, c, ws, h, e):
        """interpret the callee on this heap"""
        if len(s.stack) > 24: raise TooMany()
        # locals of the caller are set aside under other names
        g = h.copy(); d = len(s.stack)
        saved = {k: w for k, w in g.v.items()}
        g.v = {("up", d, k): w for k, w in saved.items()}
        kk = g.k; g.k = {}
        plain = not any(isinstance(w, tuple) for w in saved.values())
        if plain: g.v = {}
        for p, w in zip(c.params, ws):
            if isptr(p["t"]): g.v[p["id"]] = w
        mk = (c.key, g.key()) if plain and not s.handled else None
        if mk is not None and mk in s.memo:
            out = []
            for h2, w in s.memo[mk]:
                h2 = h2.copy(); h2.v = dict(saved); h2.k = dict(kk); out.append((h2, w))
            return out
        s.stack.append(c)
        outs = s.exec(c.body, [g])
        s.stack.pop()
        res = []
        for h2, w in [(x, "u") for x in outs["n"]] + outs["r"]:
            h2 = h2.copy()
            h2.v["#ret"] = w
            for k in [k for k in h2.v if k != "#ret" and not (isinstance(k, tuple) and k[0] == "up" and k[1] == d)]:
                if isinstance(k, tuple): continue
                del h2.v[k]
            s.stack.append(c); s.leaks(h2, e["l"], "return"); s.stack.pop()
            h2.v = {(k[2] if isinstance(k, tuple) and k[0] == "up" and k[1] == d else k): w2 for k, w2 in h2.v.items()}
            h2.k = dict(kk); h2 = s.fold(h2)
            w = h2.v.pop("#ret")
            res.append((h2, w))
        res = s.dedup(res)
        if len(res) > 12:
            groups = {}
            for h2, w in res: groups.setdefault(w if not isinstance(w, tuple) else (w[0], id(h2)), []).append(h2)
            res = [(h3, w if not isinstance(w, tuple) else w2) for w, hs in groups.items() for w2 in [[y for x, y in res if x is hs[0]][0]] for h3 in s.merge(hs)]
        if plain:
            if mk is not None: s.memo[mk] = [(h2.copy(), w) for h2, w in res]
            for h2, w in res: h2.v = dict(saved)
        return res
    def inline(s, binds, body, h, e):
        hs = [h]
        for d in binds: hs = [y for x in hs for y in s.decl(d, x)]
        outs = s.exec(body, hs)
        return s.dedup([(x, "u") for x in outs["n"]] + outs["r"])
    def setk(s, h, vid, e):
        x = strip(e) if e is not None else None
        if x is not None and x["k"] == "Bool": h.k[vid] = int(x["v"])
        else: h.k.pop(vid, None)
    # ---------- conditions: (heaps where true, heaps where false)
    def cond(s, e, h):
        x = strip(e); k = x["k"]
        if k == "Un" and x["op"] == "!":
            a, b = s.cond(x["e"], h); return b, a
        if k == "Bin" and x["op"] in ("&&", "||"):
            a, b = s.cond(x["a"], h)
            if x["op"] == "&&":
                T, F = [], b
                for y in a:
                    p, q = s.cond(x["b"], y); T += p; F = F + q
            else:
                T, F = a, []
                for y in b:
                    p, q = s.cond(x["b"], y); T = T + p; F += q
            return s.uniq(T), s.uniq(F)
        if k == "Bin" and x["op"] in ("==", "!="):
            a, b = strip(x["a"]), strip(x["b"])
            pa = isptr(a.get("t", "")) or a["k"] == "Null"; pb = isptr(b.get("t", "")) or b["k"] == "Null"
            if pa or pb:
                T, F = [], []
                for h2, wa in s.ev(a, h):
                    for h3, wb in s.ev(b, h2):
                        if wb == "n": t, f = s.isnull(h3, wa, a)
                        elif wa == "n": t, f = s.isnull(h3, wb, b)
                        elif isinstance(wa, tuple) and isinstance(wb, tuple) and wa[0] == wb[0] == "o" and h3.o.get(wa[1]) and h3.o.get(wb[1]) and not h3.o[wa[1]].may and not h3.o[wb[1]].may and h3.o[wa[1]].kind != "l" and h3.o[wb[1]].kind != "l":
                            t, f = ([h3], []) if wa == wb else ([], [h3])
                        else: t, f = [h3], [h3.copy()]
                        T += t; F += f
                T, F = s.uniq(T), s.uniq(F)
                return (T, F) if x["op"] == "==" else (F, T)
        if isptr(x.get("t", "")):
            T, F = [], []
            for h2, w in s.ev(x, h):
                t, f = s.isnull(h2, w, x); T += f; F += t
            return s.uniq(T), s.uniq(F)
        if k == "Bool": return ([h], []) if x["v"] else ([], [h])
        if k == "Int": return ([h], []) if x["v"] else ([], [h])
        if k == "Var" and x["id"] in h.k: return ([h], []) if h.k[x["id"]] else ([], [h])
        l = [y for y, _ in s.ev(x, h)]
        T = [y.copy() for y in l]; F = l
        if k == "Var" and base_type(x.get("t", "")) == "bool" and not x.get("global"):
            for y in T: y.k[x["id"]] = 1
            for y in F: y.k[x["id"]] = 0
        return s.uniq(T), s.uniq(F)
    def isnull(s, h, w, e):
        if w == "n": return [h], []
        if w == "d":                      # maybe released
            a = h.copy(); x = strip(e)
            if x["k"] == "Member" and strip(x["b"])["k"] == "This": a.f[x["f"]] = "n"
            elif x["k"] == "Var": a.v[x["id"]] = "n"
            return [a], [h]
        if isinstance(w, tuple):
            o = h.o.get(w[1])
            if o is None or o.freed: return [], [h]
            if w[0] == "o":
                if o.kind == "l":
                    T, F = [], []
                    for g, some in s.unfold(h, w[1]): (F if some else T).append(g)
                    return T, F
                if o.may:
                    a = h.copy(); a.subst(w, "n"); a.o.pop(w[1], None)
                    b = h.copy(); b.o[w[1]].may = False
                    return [a], [b]
                return [], [h]
            return [h], [h.copy()]
        # unknown: remember null in the true branch
        a = h.copy(); x = strip(e)
        if x["k"] == "Var" and w == "u" and not x.get("global") and s.owned(x.get("t")): a.v[x["id"]] = "n"
        return [a], [h]
    def uniq(s, hs):
        d = {}
        for h in hs: d.setdefault(h.key(), h)
        hs = list(d.values())
        if len(hs) > 12: hs = s.merge(hs)
        if len(hs) > 60:                  # what is known about flags is given up first
            d = {}
            for h in hs:
                h = h.copy(); h.k = {}; d.setdefault(h.key(), h)
            hs = s.merge(list(d.values()))
        if len(hs) > s.MAX: raise TooMany()
        return hs
    def merge(s, hs):
        """heaps that differ in one member only become one: null or released -> maybe released; null or a block -> maybe a block; null or a list -> list"""
        for n in sorted(s.spec):
            groups = {}
            for h in hs:
                w = h.f.get(n); o = h.o.get(w[1]) if isinstance(w, tuple) else None
                if o is not None and (w[0] != "o" or o.kind == "c" or o.held is not None or any(x == w for x in list(h.v.values())) or sum(x == w for x in h.f.values()) > 1 or any(y[1:] == (w[1],) and y[0] != "o" for y in h.vals() if isinstance(y, tuple))):
                    groups[("#", id(h))] = [(h, w, o)]; continue
                g = h.copy(); g.f[n] = None
                if o is not None: g.o.pop(w[1])
                groups.setdefault(g.key(), []).append((h, w, o))
            out = []
            for l in groups.values():
                if len(l) == 1: out.append(l[0][0]); continue
                if any(w == "x" or w == "u" for _, w, _ in l): out += [h for h, _, _ in l]; continue
                objs = [(h, w, o) for h, w, o in l if o is not None]
                if len({o.kind + o.form for _, _, o in objs}) > 1 or objs and any(w == "d" for _, w, _ in l): out += [h for h, _, _ in l]; continue
                if objs:
                    h, w, o = objs[0]; h = h.copy()
                    if o.kind == "b": h.o[w[1]].may = h.o[w[1]].may or any(x is None for _, _, x in l) or any(x.may for _, _, x in objs)
                    out.append(h)
                else:
                    h = l[0][0].copy(); h.f[n] = "d" if any(w == "d" for _, w, _ in l) else "n"; out.append(h)
            hs = out
        return hs
    # ---------- folding
    def fold(s, h):
        """canonical class members: well formed lists become summary objects again"""
        h = h.copy(); refs = {}
        changed = True
        while changed:
            changed = False
            refs = {}
            for d, own in [(h.v, "v"), (h.f, "f")] + [(o.fields, i) for i, o in h.o.items()]:
                for k, w in d.items():
                    if isinstance(w, tuple) and w[0] == "o": refs.setdefault(w[1], []).append((own, k))
            for i, o in list(h.o.items()):
                if o.kind == "l" and o.held is not None and o.held in h.o and h.o[o.held].kind == "l" and not o.freed:
                    # the rest of a list of which only aliases know
                    main = [x for x in refs.get(i, []) if not (x[0] == "f" and s.spec.get(x[1], ("",))[0] == "alias")]
                    if main: continue
                    j = o.held
                    for q in h.o.values():
                        if q.held == i: q.held = j
                    h.subst(("o", i), ("in", j)); h.subst(("in", i), ("in", j)); h.subst(("last", i), ("last", j))
                    del h.o[i]; changed = True; break
                if o.kind != "c" or o.freed or o.esc or o.t not in s.nodes: continue
                r = refs.get(i, [])
                nf = [fn for fn, kd in s.nodes[o.t].items() if kd == "next"][0]
                nx = o.fields.get(nf)
                alias = [x for x in r if x[0] == "f" and s.spec.get(x[1], ("",))[0] == "alias"]
                main = [x for x in r if x not in alias]
                if o.held is not None:
                    # a node known only through an alias of its list: absorbed again when it is in order
                    if main: continue
                    ok = nx == "n" or isinstance(nx, tuple) and nx[0] == "o" and nx[1] in h.o and h.o[nx[1]].t == o.t and len([x for x in refs.get(nx[1], []) if not (x[0] == "f" and s.spec.get(x[1], ("",))[0] == "alias")]) == 1
                    if not ok or not s.tidy(h, o, refs): continue
                    for x in alias: h.f[x[1]] = ("last", o.held) if nx == "n" else ("in", o.held)
                    if isinstance(nx, tuple):
                        h.o[nx[1]].held = o.held
                        h.o[i].fields[nf] = "n"
                    for fn, w in o.fields.items():
                        if isinstance(w, tuple): h.o.pop(w[1], None)
                    del h.o[i]; changed = True; break
                # an ordinary node: fold when its rest is a folded list or nothing
                if len(main) != 1 or main[0][0] == "v" : continue
                if not s.tidy(h, o, refs): continue
                if nx == "n":
                    if main[0][0] == "f" and len(s.nodes[o.t]) > 1: continue      # a list of one node stays as it is
                elif isinstance(nx, tuple) and nx[0] == "o" and nx[1] in h.o and h.o[nx[1]].kind == "l" and len([x for x in refs.get(nx[1], []) if x[0] != "f" or s.spec.get(x[1], ("",))[0] != "alias"]) == 1:
                    j = nx[1]
                    for q in h.o.values():
                        if q.held == j: q.held = i
                    for a in ("in", "last"): h.subst((a, j), (a, i))
                    for n, sp in s.spec.items():
                        if sp[0] == "alias" and h.f.get(n) == ("o", j): h.f[n] = ("in", i)
                    del h.o[j]
                else: continue
                for fn, w in o.fields.items():
                    if fn != nf and isinstance(w, tuple): h.o.pop(w[1], None)
                for x in alias: h.f[x[1]] = ("last", i) if nx == "n" else ("in", i)
                o.fields = {}; o.kind = "l"; o.may = False; changed = True; break
        # blocks held by members: only whether they may be there matters
        return h
    def tidy(s, h, o, refs):
        for fn, kd in s.nodes[o.t].items():
            w = o.fields.get(fn)
            if kd == "next": continue
            if w in ("n", "u"): continue
            if isinstance(w, tuple) and w[0] == "o" and w[1] in h.o and not h.o[w[1]].freed and len([x for x in refs.get(w[1], []) if x[0] != "v"]) == 1 and h.o[w[1]].form == kd: continue
            return False
        return True
    # ---------- statements: {'n': heaps, 'b':, 'c':, 'r': [(heap, value)]}
    def exec(s, n, hs):
        o = {"n": [], "b": [], "c": [], "r": []}
        if n is None: o["n"] = hs; return o
        if not hs: return o
        k = n["k"]
        def add(x):
            for q in "bcr": o[q] += x[q]
        if k == "Block":
            declared = []
            for c in n["s"]:
                x = s.exec(c, hs); add(x); hs = s.uniq(x["n"])
                if c["k"] == "Decl": declared += [d["id"] for d in c["d"] if isptr(d["t"])]
                if not hs: break
            for h in hs:
                if declared:
                    for d in declared: h.v.pop(d, None)
                    s.leaks(h, n.get("le", n["l"]), "end of block")
            o["n"] = hs
        elif k == "Expr":
            o["n"] = s.uniq([y for h in hs for y, _ in s.ev(n["e"], h)])
        elif k == "Decl":
            for d in n["d"]: hs = s.uniq([y for h in hs for y in s.decl(d, h)])
            o["n"] = hs
        elif k == "If":
            if n.get("init"):
                x = s.exec(n["init"], hs); add(x); hs = x["n"]
            T, F = [], []
            for h in hs:
                a, b = s.cond(n["c"], h); T += a; F += b
            x = s.exec(n["a"], s.uniq(T)); add(x); o["n"] += x["n"]
            if n.get("b"):
                x = s.exec(n["b"], s.uniq(F)); add(x); o["n"] += x["n"]
            else: o["n"] += F
            o["n"] = s.uniq(o["n"])
        elif k in ("While", "For", "Do", "RangeFor"):
            if k == "For" and n.get("init"):
                x = s.exec(n["init"], hs); hs = x["n"]
            seen = {}; todo = [s.fold(h) for h in hs]; out = []; first = k == "Do"
            while todo:
                nxt = []
                for h in todo:
                    kk = h.key()
                    if kk in seen: continue
                    seen[kk] = h
                    if len(seen) > s.MAX: raise TooMany()
                    nxt.append(h)
                if not nxt: break
                if k == "RangeFor":
                    out += [x.copy() for x in nxt]; body = []
                    for h in nxt:
                        for h2, _ in s.ev(n["r"], h):
                            h2 = h2.copy()
                            if isptr(n["v"]["t"]): h2.v[n["v"]["id"]] = "u"
                            body.append(h2)
                elif k == "Do": body = nxt
                else:
                    body = []
                    for h in nxt:
                        if n.get("c"):
                            a, b = s.cond(n["c"], h)
                        else: a, b = [h], []
                        body += a; out += b
                x = s.exec(n["body"], s.uniq([b.copy() for b in body]))
                o["r"] += x["r"]; out += x["b"]
                cont = s.uniq(x["n"] + x["c"])
                if k == "Do":
                    c2 = []
                    for h in cont:
                        a, b = s.cond(n["c"], h); c2 += a; out += b
                    cont = c2
                if k == "For" and n.get("inc"): cont = [y for h in cont for y, _ in s.ev(n["inc"], h)]
                if k == "RangeFor":
                    for h in cont: h.v.pop(n["v"]["id"], None)
                todo = [s.fold(h) for h in cont]
            o["n"] = s.uniq([s.fold(h) for h in out])
        elif k == "Switch":
            hs = [y for h in hs for y, _ in s.ev(n["c"], h)]
            cur = []; items = n["body"]["s"] if n["body"]["k"] == "Block" else [n["body"]]; deflt = False
            for c in items:
                while c["k"] in ("Case", "Default"):
                    if c["k"] == "Default": deflt = True
                    cur = s.uniq(cur + [h.copy() for h in hs]); c = c["body"]
                    if c is None: break
                if c is None: continue
                x = s.exec(c, cur); o["r"] += x["r"]; o["c"] += x["c"]; o["n"] += x["b"]; cur = x["n"]
            o["n"] = s.uniq(o["n"] + cur + ([] if deflt else hs))
        elif k == "Return":
            for h in hs:
                for h2, w in (s.ev(n["e"], h) if n.get("e") else [(h, "u")]): o["r"].append((h2, w))
        elif k == "Break": o["b"] = hs
        elif k == "Continue": o["c"] = hs
        elif k == "Try":
            s.handled += 1
            try: x = s.exec(n["body"], [h.copy() for h in hs])
            finally: s.handled -= 1
            add(x); o["n"] += x["n"]
            for c in n["h"]:
                x = s.exec(c, [h.copy() for h in hs]); add(x); o["n"] += x["n"]
            o["n"] = s.uniq(o["n"])
        elif k in ("Label",): return s.exec(n["body"], hs)
        else: o["n"] = hs
        return o
    def decl(s, d, h):
        i = d.get("init"); t = d["t"]
        if i is None:
            if isptr(t): h.v[d["id"]] = "x" if s.owned(t) else "u"
            h.k.pop(d["id"], None)
            return [h]
        r = []
        for h2, w in s.ev(i, h):
            if isptr(t): h2.v[d["id"]] = "u" if w in ("n", "x") and not s.owned(t) else w
            else: s.setk(h2, d["id"], i)
            r.append(h2)
        return r

def children(e):
    for k, v in e.items():
        if k in ("f", "fe", "of"): continue
        if isinstance(v, dict) and "k" in v: yield v
        elif isinstance(v, list):
            for x in v:
                if isinstance(x, dict) and "k" in x: yield x
