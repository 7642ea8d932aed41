"""Loads the resolved AST of LNLib (produced by extractor/extract from /repo's current
sources with the real front end) and normalises it for the analyses.

Nothing of LNLib is executed.  The extractor is a libTooling tool; this module drives it
over every translation unit of src/LNLib plus a stub unit that instantiates the header
templates, and merges the dumps by mangled name."""
import os, sys, json, re, hashlib, subprocess, glob, copy
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("LNLIB_REPO", "/repo")
SRC = REPO + "/src/LNLib"
CACHE = os.environ.get("LNLIB_CACHE", VERIF + "/.cache")

class AnalysisBroken(Exception):
    """An anchor vanished, the code does not parse, or a rule matched nothing."""

# ---------------------------------------------------------------- extraction
def _sha(*paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode()); h.update(b"\0")
        with open(p, "rb") as f: h.update(f.read())
    return h.hexdigest()

def ensure_extractor():
    out = VERIF + "/.build/extract"
    src = VERIF + "/extractor/extract.cpp"
    stamp = out + ".sha"
    sha = _sha(src)
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == sha:
        return out
    if os.path.exists(out): os.remove(out)
    r = subprocess.run(["bash", VERIF + "/extractor/build.sh", out], capture_output=True, text=True)
    if r.returncode or not os.path.exists(out):
        raise AnalysisBroken("extractor does not build: " + r.stderr[-2000:])
    open(stamp, "w").write(sha)
    return out

def sources():
    return sorted(glob.glob(SRC + "/**/*.cpp", recursive=True))

def headers():
    return sorted(glob.glob(SRC + "/**/*.h", recursive=True))

EIGEN = [p for p in (REPO + "/_build/_deps/eigen-src", "/usr/include/eigen3") if os.path.isdir(p)]

def flags():
    fl = ["-std=c++17", "-I" + SRC + "/include", "-DLNLIB_HOME", "-DNDEBUG", "-w",
          "-resource-dir", "/usr/lib/llvm-18/lib/clang/18"]
    fl += ["-isystem", "/usr/include/eigen3"]
    return fl

def extract_all():
    exe = ensure_extractor()
    srcs = sources()
    if len(srcs) < 15: raise AnalysisBroken("too few sources under " + SRC)
    stub = VERIF + "/extractor/instantiate.cpp"
    key0 = _sha(VERIF + "/extractor/extract.cpp", *headers())
    os.makedirs(CACHE, exist_ok=True)
    jobs = []
    for s in srcs + [stub]:
        k = hashlib.sha256((key0 + _sha(s) + " ".join(flags())).encode()).hexdigest()[:24]
        jobs.append((s, f"{CACHE}/{os.path.basename(s)}.{k}.json"))
    def run(j):
        s, out = j
        if os.path.exists(out): return None
        tmp = out + f".tmp{os.getpid()}"
        r = subprocess.run([exe, tmp, SRC, s, "--"] + flags(), capture_output=True, text=True)
        if r.returncode:
            if os.path.exists(tmp): os.remove(tmp)
            return f"{s}: front end failed\n" + r.stderr[-3000:]
        os.replace(tmp, out)
        return None
    # slowest first
    order = sorted(jobs, key=lambda j: -(10**9 if "MathUtils" in j[0] else os.path.getsize(j[0])))
    with ThreadPoolExecutor(8) as ex:
        errs = [e for e in ex.map(run, order) if e]
    if errs: raise AnalysisBroken("; ".join(errs))
    # keep the cache small
    keep = {o for _, o in jobs}
    for f in glob.glob(CACHE + "/*.json"):
        if f not in keep:
            try:
                if len(glob.glob(CACHE + "/*.json")) > 400: os.remove(f)
            except OSError: pass
    return jobs

def load_units(srcs, root, fl, extra=()):
    """A program of its own: the given translation units, keeping what is declared under root.
    Units the front end rejects are returned with their diagnostics."""
    exe = ensure_extractor()
    os.makedirs(CACHE, exist_ok=True)
    key0 = _sha(VERIF + "/extractor/extract.cpp", *headers(), *extra)
    def run(s):
        out = f"{CACHE}/{os.path.basename(s)}." + hashlib.sha256((key0 + _sha(s) + s + " ".join(fl)).encode()).hexdigest()[:24] + ".json"
        if not os.path.exists(out):
            tmp = out + f".tmp{os.getpid()}"
            r = subprocess.run([exe, tmp, root, s, "--"] + fl, capture_output=True, text=True)
            if r.returncode or not os.path.exists(tmp):
                if os.path.exists(tmp): os.remove(tmp)
                return s, None, r.stderr[-1500:]
            os.replace(tmp, out)
        return s, out, None
    with ThreadPoolExecutor(8) as ex: res = list(ex.map(run, srcs))
    P = Program(); bad = []
    for tu, (src, js, err) in enumerate(res):
        if err is not None: bad.append((src, err)); continue
        d = json.load(open(js))
        if d.get("rc") or d.get("errors"): bad.append((src, str(d.get("errors")))); continue
        P.tus.append(src)
        for fd in d["functions"]:
            internal = fd.get("internal")
            if not internal and fd["m"] in P.bym: continue
            f = Func(norm(fd, tu), tu)
            if internal: P.bymtu[(f.m, tu)] = f
            else: P.bym[f.m] = f
            k = f.key
            while k in P.funcs: k += "'"
            f.key = k; P.funcs[k] = f
        for r in d["records"]:
            r = norm(r, tu); P.records.setdefault(simp_type(r["t"]), r)
        for e in d["enums"]: P.enums.setdefault(simp_type(e["q"]), e)
        for g in d["globals"]:
            g = norm(g, tu); P.globals.setdefault((g["q"], g["file"]), g)
    return P, bad

# ---------------------------------------------------------------- types
_tc = {}
def simp_type(t):
    r = _tc.get(t)
    if r is None:
        s = t.replace("LNLib::", "").replace("std::", "")
        # strip default template arguments that carry no information
        for w in ("allocator<", "less<", "equal_to<", "hash<"):
            while True:
                i = s.find(", " + w)
                if i < 0: break
                d = 0; j = i + 2 + len(w) - 1
                while True:
                    if s[j] == "<": d += 1
                    elif s[j] == ">":
                        d -= 1
                        if d == 0: break
                    j += 1
                s = s[:i] + s[j+1:]
        r = _tc[t] = s.replace("> >", ">>")
    return r

def is_ref(t): return t.endswith("&")
def base_type(t):
    t = t.strip()
    while t.endswith("&") or t.endswith("*"): t = t[:-1].strip()
    if t.startswith("const "): t = t[6:]
    if t.endswith(" const"): t = t[:-6]
    return t.strip()
def is_mut_ref(t): return t.endswith("&") and not t.endswith("&&") and not t.startswith("const ")
def is_const_ref(t): return t.endswith("&") and t.startswith("const ")
def elem_type(t):
    t = base_type(t)
    m = re.match(r"vector<(.*)>$", t)
    if m: return m.group(1).strip()
    m = re.match(r"(.*?)\s*\[[^\]]*\](.*)$", t)
    if m: return (m.group(1) + m.group(2)).strip()
    return None

ARITH = {"+", "-", "*", "/", "%", "==", "!=", "<", ">", "<=", ">=", "^", "&&", "||"}

def norm(n, tu):
    """Normalise one JSON node in place / return replacement."""
    if isinstance(n, list): return [norm(x, tu) for x in n]
    if not isinstance(n, dict): return n
    k = n.get("k")
    for key, v in list(n.items()):
        if key in ("f",) and isinstance(v, dict):
            v["pt"] = [simp_type(x) for x in v.get("pt", [])]
            v["tu"] = tu
            continue
        if isinstance(v, (dict, list)): n[key] = norm(v, tu)
        elif key == "t" and isinstance(v, str): n["t"] = simp_type(v)
        elif key in ("from", "ret", "of") and isinstance(v, str): n[key] = simp_type(v)
    if "id" in n and isinstance(n["id"], int): n["id"] = tu * 1000000 + n["id"]
    if k in ("Ctor", "MCall", "Call"):
        n["args"] = [a for a in n["args"] if not (isinstance(a, dict) and a.get("dflt") and "allocator<" in a.get("t", ""))]
    if k == "OpCall":
        op, a, f = n["op"], n["args"], n.get("f") or {}
        if op == "[]" and len(a) == 2:
            return {"k": "Index", "l": n["l"], "t": n["t"], "b": a[0], "i": a[1], "cls": f.get("cls"), "f": f}
        if op in ("=", "+=", "-=", "*=", "/=") and len(a) == 2:
            return {"k": "Assign", "l": n["l"], "t": n["t"], "op": op, "a": a[0], "b": a[1], "f": f}
        if op in ARITH and len(a) == 2:
            return {"k": "Bin", "l": n["l"], "t": n["t"], "op": op, "a": a[0], "b": a[1], "f": f}
        if op == "-" and len(a) == 1:
            return {"k": "Un", "l": n["l"], "t": n["t"], "op": "-", "e": a[0], "f": f}
        if op == "!" and len(a) == 1:
            return {"k": "Un", "l": n["l"], "t": n["t"], "op": "!", "e": a[0], "f": f}
    elif k == "While" and isinstance(n.get("body"), dict) and n["body"].get("k") == "Block" and n["body"]["s"]:
        # while (c) { ...; i++; }  is  for (; c; i++) { ... }   when nothing continues past the increment
        last = n["body"]["s"][-1]
        e = last.get("e") if last.get("k") == "Expr" else None
        v = None
        if e and e.get("k") == "Un" and e["op"] in ("++", "--") and e["e"].get("k") == "Var": v = e["e"]["id"]
        elif e and e.get("k") == "Assign" and e["op"] in ("+=", "-=") and e["a"].get("k") == "Var" and e["b"].get("k") == "Int": v = e["a"]["id"]
        if v is not None and not n.get("cvar") and any(x["k"] == "Var" and x["id"] == v for x in walk(n["c"])) and not has_continue(n["body"]):
            return {"k": "For", "l": n["l"], "init": None, "c": n["c"], "inc": e, "body": dict(n["body"], s=n["body"]["s"][:-1]), "was": "While"}
    elif k == "MCall":
        f = n.get("f") or {}
        if f.get("n") == "at" and f.get("cls") in ("vector", "array", "basic_string") and len(n["args"]) == 1:
            return {"k": "Index", "l": n["l"], "t": n["t"], "b": n["b"], "i": n["args"][0], "cls": f["cls"], "checked": True, "f": f}
        if (f.get("n") or "").startswith("operator") and len(n["args"]) == 1 and f["n"][8:] in ("=", "+=", "-=", "*=", "/="):
            return {"k": "Assign", "l": n["l"], "t": n["t"], "op": f["n"][8:], "a": n["b"], "b": n["args"][0], "f": f}
    elif k == "Ctor":
        f = n.get("f") or {}
        a = n["args"]
        if len(a) == 1 and isinstance(a[0], dict) and len(f.get("pt", [])) == 1:
            p = f["pt"][0]
            if p.endswith("&") and base_type(p) == base_type(n["t"]) or p.endswith("&&") and base_type(p[:-2]) == base_type(n["t"]):
                if a[0].get("k") != "InitList":
                    return a[0]
    return n

def has_continue(n):
    k = n.get("k") if isinstance(n, dict) else None
    if k == "Continue": return True
    if k in ("For", "While", "Do", "RangeFor", "Lambda"): return False
    if isinstance(n, dict): return any(has_continue(v) for kk, v in n.items() if isinstance(v, (dict, list)) and kk != "f")
    if isinstance(n, list): return any(has_continue(x) for x in n)
    return False

def walk(n):
    """All nodes (dicts with 'k') below n, including n, descending into lambdas and inlined bodies."""
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if "k" in x: yield x
            for key, v in x.items():
                if key == "f" and isinstance(v, dict): continue
                if isinstance(v, (dict, list)): st.append(v)
        elif isinstance(x, list):
            st.extend(reversed(x))

def children(n):
    """direct child nodes"""
    st = [v for key, v in n.items() if isinstance(v, (dict, list)) and not (key == "f" and isinstance(v, dict))][::-1]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if "k" in x: yield x
            else: st.extend([v for v in x.values() if isinstance(v, (dict, list))][::-1])
        else: st.extend(reversed(x))

CHILD_KEYS = ("init", "cvar", "b", "i", "c", "a", "e", "n", "args", "inc", "body", "s", "d", "v", "r", "h", "fe", "binds")

class Func:
    def __init__(self, d, tu):
        self.d = d; self.tu = tu
        self.q = d["q"].replace("LNLib::", "", 1) if d["q"].startswith("LNLib::") else d["q"]
        self.q = simp_type(self.q)
        self.n = d["n"]; self.m = d["m"]; self.file = d["file"]; self.line = d["l"]
        self.ret = simp_type(d["ret"]); self.params = d["params"]; self.body = d["body"]
        self.cls = d.get("cls"); self.access = d.get("access"); self.internal = d.get("internal", False) or "(anonymous" in d["q"]
        self.static = d.get("static", False); self.const = d.get("const", False)
        self.ctor = d.get("ctor", False); self.dtor = d.get("dtor", False); self.inits = d.get("inits", [])
        self.key = self.q + "(" + ", ".join(p["t"] for p in self.params) + ")" + (" const" if self.const else "")
    @property
    def public(self):
        return not self.internal and self.access in (None, "public")
    @property
    def loc(self): return f"{os.path.relpath(self.file, REPO)}:{self.line}"
    def rel(self): return os.path.relpath(self.file, REPO)
    def pindex(self, vid):
        for i, p in enumerate(self.params):
            if p["id"] == vid: return i
        return None
    def __repr__(self): return self.key

class Program:
    def __init__(self):
        self.funcs = {}      # key -> Func
        self.bym = {}        # mangled -> Func
        self.bymtu = {}      # (mangled, tu) -> Func, internal linkage
        self.records = {}; self.enums = {}; self.globals = {}
        self.tus = []; self.inlined = []

    def callee(self, f):
        """Func for a callee descriptor, or None."""
        if not f: return None
        r = self.bymtu.get((f["m"], f.get("tu")))
        if r is None: r = self.bym.get(f["m"])
        return r
    def find(self, q, nparams=None, one=True):
        r = [f for f in self.funcs.values() if f.q == q and (nparams is None or len(f.params) == nparams)]
        if one:
            if len(r) != 1: raise AnalysisBroken(f"anchor {q}: {len(r)} definitions found")
            return r[0]
        return r

def load(inline=True, baseline=None):
    jobs = extract_all()
    P = Program()
    for tu, (src, js) in enumerate(jobs):
        d = json.load(open(js))
        if d.get("rc") or d.get("errors"): raise AnalysisBroken("front end errors in " + src)
        P.tus.append(src)
        for fd in d["functions"]:
            internal = fd.get("internal")
            if not internal and fd["m"] in P.bym: continue
            fd = norm(fd, tu)
            f = Func(fd, tu)
            if internal: P.bymtu[(f.m, tu)] = f
            else: P.bym[f.m] = f
            k = f.key
            while k in P.funcs: k += "'"
            f.key = k
            P.funcs[k] = f
        for r in d["records"]:
            r = norm(r, tu); P.records.setdefault(simp_type(r["t"]), r)
        for e in d["enums"]: P.enums.setdefault(simp_type(e["q"]), e)
        for g in d["globals"]:
            g = norm(g, tu); P.globals.setdefault((g["q"], g["file"]), g)
    if inline:
        for f in P.funcs.values():
            if f.body: f.body = desugar(f.body)
        if baseline is None:
            p = VERIF + "/tables/functions.txt"
            baseline = set(open(p).read().split("\n")) if os.path.exists(p) else None
        if baseline is not None: inline_new(P, baseline)
        for f in P.funcs.values():
            if f.body: structure(f)
    return P

# ---------------------------------------------------------------- standard algorithms over whole containers are loops
def _same(a, b):
    """structurally the same expression, apart from positions"""
    if isinstance(a, dict) and isinstance(b, dict):
        if a.get("k") != b.get("k"): return False
        ka = {k for k in a if k not in ("l", "le", "t")}; kb = {k for k in b if k not in ("l", "le", "t")}
        if a.get("k") in ("MCall", "Call", "Index", "OpCall"):
            if (a.get("f") or {}).get("n") != (b.get("f") or {}).get("n"): return False
            ka.discard("f"); kb.discard("f")
        return ka == kb and all(_same(a[k], b[k]) for k in ka)
    if isinstance(a, list) and isinstance(b, list): return len(a) == len(b) and all(_same(x, y) for x, y in zip(a, b))
    return a == b
def _edge(e, names):
    while isinstance(e, dict) and e.get("k") == "Cast" and e.get("e"): e = e["e"]
    if not isinstance(e, dict): return None
    f = e.get("f") if isinstance(e.get("f"), dict) else {}
    if e.get("k") == "MCall" and f.get("n") in names and not e["args"] and f.get("cls") in ("vector", "array", "deque"): return e["b"]
    if e.get("k") == "Call" and f.get("n") in names and len(e["args"]) == 1 and not f.get("repo"): return e["args"][0]
    return None
def _whole(args):
    if len(args) < 2 or not isinstance(args[0], dict) or not isinstance(args[1], dict): return None
    a, b = _edge(args[0], ("begin", "cbegin")), _edge(args[1], ("end", "cend"))
    return a if a is not None and b is not None and is_lvalue(a) and _same(a, b) else None
def _newid(): _fresh[0] += 1; return _fresh[0]
def _index(c, i, l, et):
    return {"k": "Index", "l": l, "t": et, "b": copy.deepcopy(c), "i": copy.deepcopy(i), "cls": "vector", "f": {"cls": "vector", "m": "_ZSt_index", "n": "operator[]", "pt": ["unsigned long"], "q": "std::vector::operator[]", "repo": False, "tu": -1, "const": True}}
def _call(lam, args, l):
    body, _ = freshen(lam["body"], {})
    ps = lam["params"]
    b2, dec = freshen({"k": "Block", "l": l, "s": [lam["body"]], "ps": copy.deepcopy(ps)}, {})
    ps2 = b2.pop("ps")
    for p in ps2: p.pop("k", None)
    return make_inline(ps2, b2["s"][0], args, lam["ret"], l)
def desugar(body):
    lam = {}
    for n in walk(body):
        if n["k"] == "Decl":
            for d in n["d"]:
                i = d.get("init")
                if isinstance(i, dict) and i.get("k") == "Lambda" and not i.get("generic"): lam[d["id"]] = i
    def L(e):
        while isinstance(e, dict) and e.get("k") == "Cast" and e.get("e"): e = e["e"]
        if not isinstance(e, dict): return None
        if e.get("k") == "Lambda" and not e.get("generic"): return e
        if e.get("k") == "Var" and e.get("id") in lam: return lam[e["id"]]
        return None
    def counting(C, l, mk):
        i = _newid(); iv = {"k": "Var", "id": i, "n": "i", "t": "int", "l": l}
        size = {"k": "MCall", "l": l, "t": "unsigned long", "b": copy.deepcopy(C), "args": [], "f": {"cls": "vector", "const": True, "m": "_ZSt_size", "n": "size", "pt": [], "q": "std::vector::size", "repo": False, "tu": -1}}
        return {"k": "For", "l": l, "init": {"k": "Decl", "l": l, "d": [{"id": i, "n": "i", "t": "int", "l": l, "style": "c", "init": {"k": "Int", "l": l, "t": "int", "v": 0}}]},
                "c": {"k": "Bin", "op": "<", "l": l, "t": "bool", "a": dict(iv), "b": size}, "inc": {"k": "Un", "op": "++", "l": l, "t": "int", "e": dict(iv)},
                "body": {"k": "Block", "l": l, "le": l, "s": mk(iv)}}
    def et(c): return elem_type(c.get("t", "")) or "double"
    def store(dst, val, iv, l):
        D = _edge(dst, ("begin",))
        if D is not None and is_lvalue(D): return {"k": "Expr", "l": l, "e": {"k": "Assign", "op": "=", "l": l, "t": et(D), "a": _index(D, iv, l, et(D)), "b": val}}
        while isinstance(dst, dict) and dst.get("k") == "Cast": dst = dst["e"]
        if isinstance(dst, dict) and dst.get("k") == "Call" and (dst.get("f") or {}).get("n") == "back_inserter" and is_lvalue(dst["args"][0]):
            return {"k": "Expr", "l": l, "e": {"k": "MCall", "l": l, "t": "void", "b": dst["args"][0], "args": [val], "f": {"cls": "vector", "m": "_ZSt_push", "n": "push_back", "pt": ["const " + et(dst["args"][0]) + " &"], "q": "std::vector::push_back", "repo": False, "tu": -1}}}
        return None
    def stmt(n):
        e = n["e"]
        while isinstance(e, dict) and e.get("k") == "Cast" and e.get("e"): e = e["e"]
        if not isinstance(e, dict) or e.get("k") != "Call" or (e.get("f") or {}).get("repo"): return n
        nm = (e.get("f") or {}).get("n"); a = e["args"]; l = n["l"]
        C = _whole(a)
        if C is None: return n
        if nm == "for_each" and len(a) == 3 and L(a[2]) is not None:
            F = L(a[2]); p = F["params"][0]
            b2, dec = freshen({"k": "Block", "l": l, "s": [F["body"]], "ps": [copy.deepcopy(p)]}, {})
            q = b2.pop("ps")[0]
            if any(x["k"] == "Return" for x in walk(b2)): return n
            return {"k": "RangeFor", "l": l, "v": dict(q), "r": C, "body": b2["s"][0]}
        if nm == "transform" and len(a) == 4 and L(a[3]) is not None:
            F = L(a[3])
            r = []
            lp = counting(C, l, lambda iv: r.append(store(a[2], _call(F, [_index(C, iv, l, et(C))], l), iv, l)) or r)
            return lp if r[0] is not None else n
        if nm == "transform" and len(a) == 5 and L(a[4]) is not None and _edge(a[2], ("begin", "cbegin")) is not None:
            F = L(a[4]); C2 = _edge(a[2], ("begin", "cbegin"))
            r = []
            lp = counting(C, l, lambda iv: r.append(store(a[3], _call(F, [_index(C, iv, l, et(C)), _index(C2, iv, l, et(C2))], l), iv, l)) or r)
            return lp if r[0] is not None else n
        if nm == "copy" and len(a) == 3:
            r = []
            lp = counting(C, l, lambda iv: r.append(store(a[2], _index(C, iv, l, et(C)), iv, l)) or r)
            return lp if r[0] is not None else n
        return n
    def expr(n):
        nm = (n.get("f") or {}).get("n"); a = n["args"]; l = n["l"]
        if (n.get("f") or {}).get("repo"): return n
        if nm in ("any_of", "all_of", "none_of", "count_if") and len(a) == 3 and L(a[2]) is not None:
            C = _whole(a)
            if C is None: return n
            F = L(a[2]); i = _newid(); t = et(C)
            x = {"k": "Var", "id": i, "n": "x", "t": "const " + t, "l": l}
            B = lambda v: {"k": "Bool", "l": l, "t": "bool", "v": v}
            c = _call(F, [x], l)
            if nm == "count_if":
                j = _newid(); acc = {"k": "Var", "id": j, "n": "n", "t": "int", "l": l}
                ss = [{"k": "Decl", "l": l, "d": [{"id": j, "n": "n", "t": "int", "l": l, "style": "c", "init": {"k": "Int", "l": l, "t": "int", "v": 0}}]}]
                hit = {"k": "Expr", "l": l, "e": {"k": "Un", "op": "++", "l": l, "t": "int", "e": dict(acc)}}; end = {"k": "Return", "l": l, "e": dict(acc)}
            else:
                ss = []; hit = {"k": "Return", "l": l, "e": B(nm == "any_of")}; end = {"k": "Return", "l": l, "e": B(nm != "any_of")}
                if nm == "all_of": c = {"k": "Un", "op": "!", "l": l, "t": "bool", "e": c}
            ss.append({"k": "RangeFor", "l": l, "v": {"id": i, "n": "x", "t": "const " + t + " &", "l": l}, "r": C, "body": {"k": "Block", "l": l, "le": l, "s": [{"k": "If", "l": l, "c": c, "a": {"k": "Block", "l": l, "le": l, "s": [hit]}}]}})
            ss.append(end)
            return {"k": "Inl", "l": l, "t": n.get("t", "bool"), "binds": [], "body": {"k": "Block", "l": l, "le": l, "s": ss}}
        if nm == "accumulate" and len(a) in (3, 4):
            C = _whole(a)
            if C is None or len(a) == 4 and L(a[3]) is None: return n
            i, j = _newid(), _newid(); t = et(C); at = base_type(n.get("t", t))
            x = {"k": "Var", "id": i, "n": "x", "t": "const " + t, "l": l}; acc = {"k": "Var", "id": j, "n": "acc", "t": at, "l": l}
            val = _call(L(a[3]), [dict(acc), x], l) if len(a) == 4 else {"k": "Bin", "op": "+", "l": l, "t": at, "a": dict(acc), "b": x}
            ss = [{"k": "Decl", "l": l, "d": [{"id": j, "n": "acc", "t": at, "l": l, "style": "c", "init": a[2]}]},
                  {"k": "RangeFor", "l": l, "v": {"id": i, "n": "x", "t": "const " + t + " &", "l": l}, "r": C, "body": {"k": "Block", "l": l, "le": l, "s": [{"k": "Expr", "l": l, "e": {"k": "Assign", "op": "=", "l": l, "t": at, "a": dict(acc), "b": val}}]}},
                  {"k": "Return", "l": l, "e": dict(acc)}]
            return {"k": "Inl", "l": l, "t": at, "binds": [], "body": {"k": "Block", "l": l, "le": l, "s": ss}}
        return n
    def either(ss):
        """T& x = c ? a : b; rest   is   if (c) { T& x = a; rest } else { T& x = b; rest }"""
        for i, st in enumerate(ss):
            if st.get("k") != "Decl" or len(st["d"]) != 1: continue
            d = st["d"][0]; c = d.get("init")
            if not isinstance(c, dict) or c.get("k") != "Cond": continue
            t = d.get("t", "")
            A, B = c["a"], c["b"]
            addr = t.endswith("*") and all(x.get("k") == "Un" and x.get("op") == "&" for x in (A, B))
            if not (is_ref(t) and is_lvalue(A) and is_lvalue(B) or addr): continue
            rest = ss[i + 1:]
            if any(x["k"] in ("Case", "Default", "Break", "Continue") for y in rest for x in walk(y)) and any(x["k"] in ("Case", "Default") for y in rest for x in walk(y)): continue
            if sum(1 for y in rest for _ in walk(y)) > 4000: continue
            def br(v):
                b, _ = freshen({"k": "Block", "l": st["l"], "le": st["l"], "s": [{"k": "Decl", "l": st["l"], "d": [dict(d, init=v)]}] + rest}, {})
                b["s"] = either(b["s"])
                return b
            return ss[:i] + [{"k": "If", "l": st["l"], "c": c["c"], "a": br(A), "b": br(B)}]
        return ss
    def rw(n):
        if isinstance(n, list): return [rw(x) for x in n]
        if not isinstance(n, dict): return n
        for k, v in list(n.items()):
            if k == "f" and isinstance(v, dict): continue
            if isinstance(v, (dict, list)): n[k] = rw(v)
        if n.get("k") == "Block": n["s"] = either(n["s"])
        if n.get("k") == "Expr": return stmt(n)
        if n.get("k") == "Call" and isinstance(n.get("f"), dict): return expr(n)
        return n
    return rw(body)

# ---------------------------------------------------------------- inlining of helpers that are not in the baseline
_fresh = [10**9]
def freshen(n, mp):
    """Deep copy with variable ids renamed (declared inside n) or substituted by expressions."""
    decl = {}
    def collect(x):
        if isinstance(x, dict):
            if "id" in x and x.get("k") != "Var" and "t" in x:   # declarations, params, bindings
                if x["id"] not in decl and x["id"] not in mp:
                    _fresh[0] += 1; decl[x["id"]] = _fresh[0]
            for v in x.values():
                if isinstance(v, (dict, list)): collect(v)
        elif isinstance(x, list):
            for v in x: collect(v)
    collect(n)
    def cp(x):
        if isinstance(x, list): return [cp(v) for v in x]
        if not isinstance(x, dict): return x
        if x.get("k") == "Var" and x["id"] in mp:
            r = mp[x["id"]]
            if isinstance(r, dict): return copy.deepcopy(r)
            y = dict(x); y["id"] = r; return y
        y = {}
        for k, v in x.items():
            if k == "f" and isinstance(v, dict): y[k] = v
            elif k == "id" and v in decl: y[k] = decl[v]
            elif k == "id" and v in mp and not isinstance(mp[v], dict): y[k] = mp[v]
            elif isinstance(v, (dict, list)): y[k] = cp(v)
            else: y[k] = v
        return y
    return cp(n), decl

def is_lvalue(e):
    k = e.get("k")
    if k in ("Var", "This"): return True
    if k == "Member": return is_lvalue(e["b"])
    if k == "Index": return is_lvalue(e["b"])
    if k == "Un" and e["op"] == "*": return True
    return False

def make_inline(params, body, args, ret, line, this=None):
    """Inl node: binds = declarations for by-value parameters; reference parameters are substituted."""
    mp = {}; binds = []
    wr = written_ids(body); pw = repointed_ids(body)
    for p, a in zip(params, args):
        t = p["t"]
        if is_ref(t) and is_lvalue(a):
            mp[p["id"]] = a
        elif (p["id"] not in wr or t.endswith(("*", "]")) and p["id"] not in pw) and stable(a, args, params, wr):
            # a parameter the helper never changes stands for its argument
            mp[p["id"]] = a
        else:
            _fresh[0] += 1; nid = _fresh[0]
            mp[p["id"]] = nid
            binds.append({"n": p["n"], "t": base_type(t) if is_ref(t) else t, "id": nid, "l": line, "init": a, "style": "c"})
    b, _ = freshen(body, mp)
    if this is not None: b = subst_this(b, this)
    return {"k": "Inl", "l": line, "t": ret, "binds": binds, "body": b}

def root_id(e):
    while isinstance(e, dict):
        k = e.get("k")
        if k == "Var": return e["id"]
        if k in ("Member", "Index"): e = e.get("b")
        elif k in ("Cast", "Un"): e = e.get("e")
        elif k == "MCall" and (e.get("f") or {}).get("n") in ("begin", "end", "rbegin", "rend", "data", "front", "back", "at"): e = e.get("b")
        else: return None
    return None
def written_ids(n):
    """variables whose own value may change in n: assigned, counted, passed for writing or changed by a member function"""
    out = set()
    def direct(e):
        while isinstance(e, dict) and e.get("k") in ("Cast",): e = e.get("e")
        r = root_id(e)
        if r is not None: out.add(r)
    for x in walk(n):
        k = x["k"]; f = x.get("f") if isinstance(x.get("f"), dict) else {}
        if k == "Assign": direct(x["a"])
        elif k == "Un" and x["op"] in ("++", "--", "&"): direct(x["e"])
        elif k == "MCall":
            if not f.get("const"): direct(x["b"])
        elif k == "OpCall":
            if not f.get("const") and x["args"]: direct(x["args"][0])
        if k in ("Call", "MCall", "Ctor", "OpCall"):
            a = x.get("args") or []
            pt = f.get("pt") or []
            off = len(a) - len(pt) if len(a) > len(pt) else 0
            for i, y in enumerate(a):
                t = pt[i - off] if 0 <= i - off < len(pt) else "&"
                if isinstance(y, dict) and (is_mut_ref(t) or t.endswith("*") and not t.startswith("const") or t.endswith("&&")): direct(y)
        if k == "RangeFor":
            v = x["v"]
            if is_mut_ref(v.get("t", "")): direct(x["r"])
        if k == "Decl":
            for d in x["d"]:
                if is_mut_ref(d.get("t", "")) and d.get("init"): direct(d["init"])
    return out
def repointed_ids(n):
    """pointer variables that may be made to point elsewhere in n (writing what they point to does not count)"""
    out = set()
    def direct(e):
        while isinstance(e, dict) and e.get("k") == "Cast": e = e.get("e")
        if isinstance(e, dict) and e.get("k") == "Var": out.add(e["id"])
    for x in walk(n):
        k = x["k"]; f = x.get("f") if isinstance(x.get("f"), dict) else {}
        if k == "Assign": direct(x["a"])
        elif k == "Un" and x["op"] in ("++", "--", "&"): direct(x["e"])
        if k in ("Call", "MCall", "Ctor", "OpCall"):
            a = x.get("args") or []; pt = f.get("pt") or []
            off = len(a) - len(pt) if len(a) > len(pt) else 0
            for i, y in enumerate(a):
                t = pt[i - off] if 0 <= i - off < len(pt) else "&"
                if isinstance(y, dict) and (is_mut_ref(t) or t.endswith("&&")): direct(y)
        if k == "Decl":
            for d in x["d"]:
                if is_mut_ref(d.get("t", "")) and d.get("init"): direct(d["init"])
    return out
def stable(a, args, params, wr):
    """the argument means the same anywhere in the helper: a literal, or a variable that no reference parameter lets the helper change"""
    while a.get("k") == "Cast" and a.get("impl") and not a.get("ck"): a = a["e"]
    if a.get("k") in ("Int", "Bool", "Float", "Enum", "Null", "Str"): return True
    if a.get("k") != "Var" or a.get("global"): return False
    for q, b in zip(params, args):
        if b is not a and is_mut_ref(q["t"]) and root_id(b) == a["id"] and q["id"] in wr: return False
    return True

# ---------------------------------------------------------------- named conditions
def pure(e):
    for x in walk(e):
        k = x["k"]
        if k in ("Assign", "Lambda", "New", "Delete", "Throw", "Inl") or k == "Un" and x["op"] in ("++", "--"): return False
        if k in ("Call", "MCall", "OpCall", "Ctor"):
            f = x.get("f") or {}
            if k == "MCall" and not f.get("const"): return False
            pt = f.get("pt")
            if pt is None or k == "Call" and not pt: return False
            if any(is_mut_ref(t) or t.endswith("*") and not t.startswith("const") for t in pt): return False
    return True
def subst_var(n, vid, e):
    if isinstance(n, list): return [subst_var(x, vid, e) for x in n]
    if not isinstance(n, dict): return n
    if n.get("k") == "Var" and n.get("id") == vid: return copy.deepcopy(e)
    for k, v in list(n.items()):
        if isinstance(v, (dict, list)) and not (k == "f" and isinstance(v, dict)): n[k] = subst_var(v, vid, e)
    return n
def name_conditions(body):
    """const bool c = <pure test>;  if (c) ...   is  if (<pure test>) ...   while nothing in the test has changed"""
    allw = None
    for blk in list(walk(body)):
        if blk["k"] != "Block": continue
        ss = blk["s"]
        for i, st in enumerate(ss):
            if st.get("k") != "Decl": continue
            for d in st["d"]:
                e = d.get("init")
                if base_type(d.get("t", "")) != "bool" or is_ref(d.get("t", "")) or not isinstance(e, dict) or e.get("k") in ("Bool", "Int"): continue
                if not pure(e): continue
                if allw is None: allw = written_ids(body)
                if d["id"] in allw: continue
                ops = {x["id"] for x in walk(e) if x["k"] == "Var" and not x.get("global")}
                this = any(x["k"] == "This" or base_type(x.get("t", "")).startswith("LN_") for x in walk(e))
                for j in range(i + 1, len(ss)):
                    x = ss[j]
                    if this:                             # members: only up to the first statement that could change one
                        if x.get("k") == "If": x["c"] = subst_var(x["c"], d["id"], e)
                        if x.get("k") == "Decl" and all(not isinstance(y.get("init"), dict) or pure(y["init"]) for y in x["d"]): continue
                        break
                    w = written_ids(x) & ops
                    if x.get("k") == "If": x["c"] = subst_var(x["c"], d["id"], e)
                    if w:
                        if x.get("k") in ("Return", "Expr"): pass
                        break
                    ss[j] = subst_var(x, d["id"], e)

    used = {x["id"] for x in walk(body) if x["k"] == "Var"}
    for blk in walk(body):
        if blk["k"] != "Block": continue
        keep = []
        for st in blk["s"]:
            if st.get("k") == "Decl":
                st["d"] = [d for d in st["d"] if not (base_type(d.get("t", "")) == "bool" and not is_ref(d["t"]) and d["id"] not in used and isinstance(d.get("init"), dict) and d["init"].get("k") not in ("Bool", "Int") and pure(d["init"]))]
                if not st["d"]: continue
            keep.append(st)
        blk["s"] = keep
def structure(f):
    """bring equivalent ways of writing control flow to one form"""
    f.body = tail_calls(f.body, f.ret)
    f.body = decisions(f.body)
    name_conditions(f.body)
    return_temps(f.body)
    tails(f.body, f.ret)
    flatten(f.body)
def tail_calls(n, ret):
    """return helper(...)   is the helper's own body, its returns being the function's"""
    def st(x):
        if not isinstance(x, dict): return x
        k = x.get("k")
        if k == "Return" and isinstance(x.get("e"), dict):
            e = x["e"]
            while e["k"] == "Cast" and e.get("impl") and base_type(e.get("t", "")) == base_type(e["e"].get("t", "")): e = e["e"]
            if e["k"] == "Inl" and base_type(e.get("t", "")) == base_type(ret) and not is_ref(ret):
                b = st(e["body"])
                return {"k": "Block", "l": x["l"], "le": x["l"], "s": [{"k": "Decl", "l": x["l"], "d": [d]} for d in e["binds"]] + [b]}
        if k == "Block": x["s"] = [st(y) for y in x["s"]]
        elif k == "If":
            x["a"] = st(x["a"])
            if x.get("b"): x["b"] = st(x["b"])
        elif k in ("For", "While", "Do", "RangeFor", "Switch", "Case", "Default", "Label", "Try"):
            for y in ("body", "s", "e2"):
                if isinstance(x.get(y), dict): x[y] = st(x[y])
                elif isinstance(x.get(y), list): x[y] = [st(z) for z in x[y]]
        return x
    return st(n)
def decisions(n):
    """a helper that only tests and answers is the condition it computes"""
    T, F = ({"k": "Bool", "v": True, "t": "bool"}, {"k": "Bool", "v": False, "t": "bool"})
    def isb(e, v): return e["k"] == "Bool" and (bool(e["v"]) if not isinstance(e["v"], str) else e["v"] in ("true", "1")) is v
    def cond(c, a, b, l):
        if isb(a, True) and isb(b, False): return c
        if isb(a, False) and isb(b, True): return {"k": "Un", "op": "!", "t": "bool", "l": l, "e": c}
        if isb(a, True): return {"k": "Bin", "op": "||", "t": "bool", "l": l, "a": c, "b": b}
        if isb(b, False): return {"k": "Bin", "op": "&&", "t": "bool", "l": l, "a": c, "b": a}
        if isb(a, False): return {"k": "Bin", "op": "&&", "t": "bool", "l": l, "a": {"k": "Un", "op": "!", "t": "bool", "l": l, "e": c}, "b": b}
        if isb(b, True): return {"k": "Bin", "op": "||", "t": "bool", "l": l, "a": {"k": "Un", "op": "!", "t": "bool", "l": l, "e": c}, "b": a}
        return None
    def tree(ss):
        if not ss: return None
        x = ss[0]; k = x.get("k")
        if k == "Block": return tree(x["s"] + ss[1:])
        if k == "Return": return x.get("e") if isinstance(x.get("e"), dict) and pure(x["e"]) else None
        if k == "Decl" and len(x["d"]) == 1 and isinstance(x["d"][0].get("init"), dict) and pure(x["d"][0]["init"]) and not is_ref(x["d"][0]["t"]) and base_type(x["d"][0]["t"]) in ("bool", "int", "double"):
            r = tree(ss[1:])
            if r is None: return None
            if x["d"][0]["id"] in written_ids({"k": "Block", "s": ss[1:], "l": 0}): return None
            return subst_var(copy.deepcopy(r), x["d"][0]["id"], x["d"][0]["init"])
        if k == "If" and not x.get("init"):
            if not pure(x["c"]): return None
            a = tree([x["a"]]); 
            if a is None: return None
            b = tree(([x["b"]] if x.get("b") else []) + ss[1:])
            return None if b is None else cond(x["c"], a, b, x["l"])
        return None
    def rw(x):
        if isinstance(x, list): return [rw(y) for y in x]
        if not isinstance(x, dict): return x
        for k, v in list(x.items()):
            if k == "f" and isinstance(v, dict): continue
            if isinstance(v, (dict, list)): x[k] = rw(v)
        if x.get("k") == "Inl" and base_type(x.get("t", "")) == "bool" and not x["binds"]:
            r = tree([x["body"]])
            if r is not None: return r
        return x
    return rw(n)
def leaves(n):
    """no normal way past this statement"""
    if not isinstance(n, dict): return False
    k = n.get("k")
    if k in ("Return", "Throw", "Break", "Continue"): return True
    if k == "Expr": return isinstance(n.get("e"), dict) and n["e"].get("k") == "Throw"
    if k == "Block": return any(leaves(x) for x in n["s"])
    if k == "If": return bool(n.get("b")) and leaves(n["a"]) and leaves(n["b"])
    return False
def same_expr(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        ka = {k for k in a if k not in ("l", "le")}; kb = {k for k in b if k not in ("l", "le")}
        return ka == kb and all(same_expr(a[k], b[k]) for k in ka)
    if isinstance(a, list) and isinstance(b, list): return len(a) == len(b) and all(same_expr(x, y) for x, y in zip(a, b))
    return a == b
def tails(body, ret):
    """if (c) { x = A; } ...; return x;   is   if (c) { x = A; return A; } ... return x;  -- for answers that are flags or enumerators"""
    rt = base_type(ret or "")
    if rt in ("void", "double", "") or is_ref(ret or "") or "<" in rt or "*" in (ret or ""): return
    def konst(e):
        while isinstance(e, dict) and e.get("k") == "Cast" and e.get("impl"): e = e["e"]
        return e if isinstance(e, dict) and (e.get("k") in ("Bool", "Enum")) else None
    def neg(c):
        while c["k"] == "Cast" and c.get("impl"): c = c["e"]
        return (neg(c["e"])[0], not neg(c["e"])[1]) if c["k"] == "Un" and c["op"] == "!" else (c, True)
    def assigned(n): return written_ids(n)
    def block(ss, env):
        """env: variable id -> constant"""
        env = dict(env); out = []
        i = 0
        while i < len(ss):
            x = ss[i]; k = x.get("k")
            if k == "Return" and isinstance(x.get("e"), dict):
                e = x["e"]
                while e["k"] == "Cast" and e.get("impl"): e = e["e"]
                if e["k"] == "Var" and e["id"] in env: x["e"] = copy.deepcopy(env[e["id"]])
                elif e["k"] == "Cond" and (konst(e["a"]) or konst(e["b"])):
                    x = {"k": "If", "l": x["l"], "c": e["c"], "a": {"k": "Return", "l": x["l"], "e": e["a"]}, "b": {"k": "Return", "l": x["l"], "e": e["b"]}}
                out.append(x); i += 1; continue
            if k == "If" and not x.get("init"):
                nx = ss[i + 1] if i + 1 < len(ss) else None
                r = nx.get("e") if nx is not None and nx.get("k") == "Return" and isinstance(nx.get("e"), dict) else None
                ea = dict(env); eb = dict(env); dup = False
                if r is not None:
                    rr, rp = neg(r)
                    if rr["k"] == "Var" and not rr.get("global") and rp and rr["id"] in assigned(x): dup = True
                    cc, cp = neg(x["c"])
                    if base_type(r.get("t", "")) == "bool" and pure(cc) and same_expr(rr, cc):
                        ops = {y["id"] for y in walk(cc) if y["k"] == "Var"}
                        if not (assigned(x) & ops) and not any(y["k"] == "This" for y in walk(cc)):
                            dup = True
                            v = lambda t: {"k": "Return", "l": nx["l"], "e": {"k": "Bool", "v": t, "t": "bool", "l": nx["l"]}}
                            ra, rb = v(cp == rp), v(cp != rp)
                            x["a"] = add(x["a"], ra); x["b"] = add(x.get("b"), rb)
                            x["a"] = blockify(x["a"], env); x["b"] = blockify(x["b"], env)
                            out.append(x); return out
                if dup:
                    x["a"] = add(x["a"], copy.deepcopy(nx)); x["b"] = add(x.get("b"), copy.deepcopy(nx))
                    x["a"] = blockify(x["a"], env); x["b"] = blockify(x["b"], env)
                    out.append(x); return out
                x["a"] = blockify(x["a"], env)
                if x.get("b"): x["b"] = blockify(x["b"], env)
                for v in assigned(x): env.pop(v, None)
                out.append(x); i += 1; continue
            if k == "Block":
                x["s"] = block(x["s"], env)
                for v in assigned(x): env.pop(v, None)
            elif k in ("For", "While", "Do", "RangeFor", "Switch"):
                w = assigned(x); e2 = {v: c for v, c in env.items() if v not in w}
                if isinstance(x.get("body"), dict): x["body"] = blockify(x["body"], e2)
                env = e2
            elif k == "Decl":
                for v in assigned(x): env.pop(v, None)
                for d in x["d"]:
                    c = konst(d.get("init")) if not is_ref(d.get("t", "")) and not d.get("static") else None
                    if c is not None: env[d["id"]] = c
            else:
                for v in assigned(x): env.pop(v, None)
                if k == "Expr" and x["e"].get("k") == "Assign" and x["e"]["op"] == "=" and x["e"]["a"].get("k") == "Var" and not x["e"]["a"].get("global"):
                    c = konst(x["e"]["b"])
                    if c is not None and x["e"]["a"]["id"] not in refs: env[x["e"]["a"]["id"]] = c
            out.append(x); i += 1
        return out
    def add(br, r):
        if br is None: return {"k": "Block", "l": r["l"], "le": r["l"], "s": [r]}
        if leaves(br): return br
        if br["k"] == "Block": br["s"].append(r); return br
        return {"k": "Block", "l": br["l"], "le": br["l"], "s": [br, r]}
    def blockify(x, env):
        if x is None: return None
        if x["k"] == "Block": x["s"] = block(x["s"], env); return x
        r = block([x], env)
        return r[0] if len(r) == 1 else {"k": "Block", "l": x["l"], "le": x["l"], "s": r}
    # variables bound to references are left alone
    refs = {root_id(d["init"]) for n in walk(body) if n["k"] == "Decl" for d in n["d"] if is_mut_ref(d.get("t", "")) and isinstance(d.get("init"), dict)}
    if any(n["k"] == "Lambda" for n in walk(body)): return
    body["s"] = block(body["s"], {})
def flatten(body):
    """{ { a; } b; } without declarations inside is { a; b; }"""
    for blk in walk(body):
        if blk["k"] != "Block": continue
        ch = True
        while ch:
            ch = False; out = []
            for x in blk["s"]:
                if x.get("k") == "Block" and not any(y.get("k") in ("Decl",) for y in x["s"]): out += x["s"]; ch = True
                else: out.append(x)
            blk["s"] = out
def return_temps(body):
    """T x = e; return x;   is   return e;"""
    uses = {}
    for x in walk(body):
        if x["k"] == "Var": uses[x["id"]] = uses.get(x["id"], 0) + 1
    for blk in walk(body):
        if blk["k"] != "Block" or len(blk["s"]) < 2: continue
        i = 0
        while i + 1 < len(blk["s"]):
            a, b = blk["s"][i], blk["s"][i + 1]
            if a.get("k") == "Decl" and len(a["d"]) == 1 and b.get("k") == "Return" and isinstance(b.get("e"), dict) and b["e"].get("k") == "Var" and b["e"]["id"] == a["d"][0]["id"]:
                d = a["d"][0]; e = d.get("init")
                if isinstance(e, dict) and d.get("style") == "c" and not is_ref(d["t"]) and not d.get("static") and uses.get(d["id"]) == 1:
                    b["e"] = e; del blk["s"][i]; continue
            i += 1

def subst_this(n, this):
    if isinstance(n, list): return [subst_this(x, this) for x in n]
    if not isinstance(n, dict): return n
    if n.get("k") == "This": return copy.deepcopy(this)
    return {k: (v if (k == "f" and isinstance(v, dict)) else subst_this(v, this) if isinstance(v, (dict, list)) else v) for k, v in n.items()}

def calls_in(n):
    for x in walk(n):
        if x["k"] in ("Call", "MCall", "OpCall", "Ctor", "Bin", "Assign", "Un", "Index") and isinstance(x.get("f"), dict): yield x
        elif x["k"] == "Fn": yield x

def inline_new(P, baseline):
    new = {f.key for f in P.funcs.values() if f.key not in baseline and not f.ctor and not f.dtor and not f.d.get("virtual")
           and f.body and not f.d.get("defaulted")}
    # recursion among new helpers: do not inline those on a cycle
    def callees(f):
        return {c.key for c in (P.callee(x.get("f")) for x in calls_in(f.body)) if c and c.key in new}
    g = {k: callees(P.funcs[k]) for k in new}
    bad = set()
    for k in new:
        seen = set(); st = list(g[k])
        while st:
            y = st.pop()
            if y == k: bad.add(k); break
            if y in seen: continue
            seen.add(y); st.extend(g[y])
    new -= bad
    P.new_funcs = new | bad
    def rw(n, lam):
        if isinstance(n, list): return [rw(x, lam) for x in n]
        if not isinstance(n, dict): return n
        for k, v in list(n.items()):
            if k == "f" and isinstance(v, dict): continue
            if isinstance(v, (dict, list)): n[k] = rw(v, lam)
        k = n.get("k")
        if k == "Decl":
            for d in n["d"]:
                i = d.get("init")
                if isinstance(i, dict) and i.get("k") == "Lambda" and not i.get("generic"): lam[d["id"]] = i; d["lam"] = True
        if k in ("Call", "MCall") and isinstance(n.get("f"), dict):
            c = P.callee(n["f"])
            if c is not None and c.key in new and c.key in done:
                this = None
                if k == "MCall" and not c.static: this = n["b"]
                elif k == "Call" and c.cls and not c.static: return n
                P.inlined.append(c.key)
                return make_inline(c.params, c.body, n["args"], c.ret, n["l"], this)
        if k == "OpCall" and n["op"] == "()" and n["args"] and n["args"][0].get("k") == "Var" and n["args"][0]["id"] in lam:
            L = lam[n["args"][0]["id"]]
            return make_inline(L["params"], L["body"], n["args"][1:], L["ret"], n["l"])
        return n
    done = set()
    # bottom-up over the new helpers, then everyone
    rest = set(new)
    while rest:
        ready = [k for k in rest if not (g[k] & rest)]
        if not ready: break
        for k in sorted(ready):
            f = P.funcs[k]; f.body = rw(f.body, {}); done.add(k); rest.discard(k)
    for k, f in P.funcs.items():
        if k not in new: f.body = rw(f.body, {})
