"""C15: the bindings agree with the native interface.

C API     every exported function is evaluated symbolically (lib/bind.py): its result and each of
          its outputs is a term over its parameters and calls of native operations.  The term has
          to be the one of the reviewed table (tables/bindings.json), and every parameter has to
          reach some result.  Copy loops, range constructors, push_back and memcpy, conversion
          helpers and their inlined bodies have the same term.
.NET      every DllImport names an exported function; parameters agree with the C prototype in
          number, passing (value / pointer), kind and name order; structs agree in their fields'
          kinds and order; enumerators agree in name and value.
Python    every def / def_static / property / enumerator of the pybind11 modules (type-checked
          against a declarations-only stand-in of pybind11) has the term of the reviewed table."""
import os, re, glob, json, hashlib
import ir, bind
from ir import *
TABLE = VERIF + "/tables/bindings.json"

def capi(P0=None):
    srcs = sorted(glob.glob(REPO + "/dotnet/CAPI/src/*.cpp"))
    return ir.load_units(srcs, REPO, ir.flags() + ["-I" + REPO + "/dotnet/CAPI/include"], sorted(glob.glob(REPO + "/dotnet/CAPI/**/*.h*", recursive=True)))
def pyapi():
    srcs = sorted(glob.glob(REPO + "/python/src/**/*.cpp", recursive=True))
    return ir.load_units(srcs, REPO, ir.flags() + ["-I" + VERIF + "/extractor/stubs", "-I" + REPO + "/python/src"], sorted(glob.glob(REPO + "/python/src/**/*.h*", recursive=True) + glob.glob(VERIF + "/extractor/stubs/**/*.h", recursive=True)))

def strip(e):
    while isinstance(e, dict) and e.get("k") in ("Cast", "Paren") or isinstance(e, dict) and e.get("k") == "Ctor" and len(e.get("args", [])) == 1: e = e["e"] if e["k"] != "Ctor" else e["args"][0]
    return e
def fn_of(e):
    """native function named by a pointer expression or an overload_cast"""
    e = strip(e)
    if e.get("k") == "Un" and e["op"] == "&": e = strip(e["e"])
    if e.get("k") == "Fn": return e["f"]
    if e.get("k") in ("Call", "OpCall", "MCall", "OCall"):
        for a in e.get("args", []):
            f = fn_of(a)
            if f: return f
    return None
def short(t):
    return re.sub(r"\bstd::|\bLNLib::|\s", "", t)
def chain(e):
    """calls of a fluent expression, innermost first"""
    out = []
    e = strip(e)
    while e and e.get("k") == "MCall":
        out.append(e); e = strip(e["b"])
    return e, out[::-1]

def py_defs(P):
    """(key, signature, where)"""
    ev = bind.Eval(P)
    def term(x): return repr(bind.canon(ev.ev(x, {})))
    out = []
    def handle(f, e):
        base, calls = chain(e)
        if not calls: return
        cls = None
        t = (base or {}).get("t", "")
        m = re.search(r"(class_|enum_)<\s*(?:LNLib::)?(.*)>$", t.strip())
        if not m: return
        kind, cls = m.group(1), short(m.group(2))
        pyname = None
        if base.get("k") == "Ctor":
            for a in base.get("args", []):
                a = strip(a)
                if isinstance(a, dict) and a.get("k") == "Str": pyname = a["v"]
        if pyname is None: pyname = names.get(base.get("id"), cls)
        for c in calls:
            n = c["f"]["n"]; a = c["args"]; where = f"{f.file}:{c.get('l')}"
            def extras(xs):
                r = []
                for x in xs:
                    x0 = strip(x)
                    if x0.get("dflt"): continue
                    nm = next((y["v"] for y in ir.walk(x0) if y.get("k") == "Str"), None)
                    if nm is None: continue
                    dv = None
                    if x0.get("k") in ("Assign", "Bin", "OpCall", "Call", "MCall") :
                        parts = [x0.get("b")] if x0.get("k") in ("Assign", "Bin") else x0.get("args", [])[-1:]
                        if parts and parts[0] is not None and not any(y.get("k") == "Str" for y in ir.walk(parts[0])): dv = term(strip(parts[0]))
                    r.append([nm, dv])
                return r
            if n in ("def", "def_static") and a and strip(a[0]).get("k") == "Str":
                s0 = strip(a[1]); nm = strip(a[0])["v"]
                fn = fn_of(a[1])
                if s0.get("k") == "Lambda":
                    pts = [short(p["t"]) for p in s0["params"]]
                    sig = bind.lambda_signature(P, s0)
                elif fn is not None:
                    pts = ([] if n == "def_static" else [cls + "&"]) + [short(x) for x in fn.get("pt", [])]
                    sig = bind.direct_signature(fn, n == "def_static")
                else: pts = []; sig = {"return": bind.unk("callable")}
                # identity of an overload: kinds of its parameters
                key = f"{pyname}.{nm}({','.join(re.sub(r'^const|[&*]$', '', p) for p in pts)})"
                out.append((key, sig, extras(a[2:]), where, n))
            elif n == "def_property" or n == "def_property_readonly":
                nm = strip(a[0])["v"]
                for role, x in zip(("get", "set"), a[1:]):
                    x = strip(x)
                    if x.get("k") == "Lambda": sig = bind.lambda_signature(P, x)
                    else:
                        fn = fn_of(x); sig = bind.direct_signature(fn, False) if fn else {"return": bind.unk("property")}
                    out.append((f"{pyname}.{nm}:{role}", sig, [], where, n))
            elif n in ("def_readwrite", "def_readonly"):
                nm = strip(a[0])["v"]; x = strip(a[1])
                mem = next((y.get("f") or y.get("n") for y in ir.walk(x) if y.get("k") in ("Member", "Var", "Field", "Fn")), None)
                if isinstance(mem, dict): mem = mem.get("n")
                out.append((f"{pyname}.{nm}:field", {"return": ("field", mem) if mem else bind.unk("member pointer")}, [], where, n))
            elif n == "value":
                nm = strip(a[0])["v"]; x = strip(a[1])
                en = next((y for y in ir.walk(x) if y.get("k") in ("Var", "Enum")), None)
                out.append((f"{pyname}.{nm}:value", {"return": ("enumerator", cls, (en or {}).get("n"))}, [], where, n))
            elif n == "def" and a:
                x = strip(a[0])
                out.append((f"{pyname}.op:{x.get('op') or short(x.get('t', ''))}({short(str((x.get('a') or {}).get('t','')))},{short(str((x.get('b') or {}).get('t','')))})", {"return": ("op",)}, [], where, n))
    for f in P.funcs.values():
        if "/python/src/" not in f.file or f.body is None: continue
        names = {}
        for s in ir.walk(f.body):
            if s["k"] == "Decl":
                for d in s["d"]:
                    i = strip(d.get("init") or {})
                    b, _ = chain(i) if i else (None, [])
                    if b and b.get("k") == "Ctor":
                        for a in b.get("args", []):
                            a = strip(a)
                            if isinstance(a, dict) and a.get("k") == "Str": names[d["id"]] = a["v"]
        for s in ir.walk(f.body):
            if s["k"] == "Expr": handle(f, s["e"])
            elif s["k"] == "Decl":
                for d in s["d"]:
                    if d.get("init"): handle(f, d["init"])
    return out
def py_registered(P):
    """binding groups the module's initialiser runs"""
    r = set()
    seen = set()
    def go(f):
        if f.key in seen: return
        seen.add(f.key)
        for x in ir.walk(f.body):
            if x["k"] == "Call" and isinstance(x.get("f"), dict):
                g = P.callee(x["f"])
                if g is not None and g.body is not None and "/python/src/" in g.file: r.add(g.n); go(g)
    for f in P.funcs.values():
        if f.n.startswith("pybind11_init_"): go(f)
    return r

# ------------------------------------------------------------------ .NET declarations
def nocomment(s):
    s = re.sub(r"/\*.*?\*/", lambda m: re.sub(r"[^\n]", " ", m.group(0)), s, flags=re.S)
    return re.sub(r"//[^\n]*", "", s)
def cs_parse():
    imports = []; structs = {}; enums = {}
    for p in sorted(glob.glob(REPO + "/dotnet/PInvoke/src/*.cs")):
        s = nocomment(open(p, encoding="utf-8-sig", errors="replace").read())
        rel = os.path.relpath(p, REPO)
        for m in re.finditer(r"\[\s*DllImport\s*\((.*?)\)\s*\](?:\s*\[.*?\])*\s*(?:public|internal|private)\s+static\s+extern\s+(?:unsafe\s+)?([\w.\[\]*]+)\s+(\w+)\s*\((.*?)\)\s*;", s, re.S):
            ep = re.search(r'EntryPoint\s*=\s*"(\w+)"', m.group(1))
            ln = s.count("\n", 0, m.start()) + 1
            imports.append(dict(entry=ep.group(1) if ep else m.group(3), ret=m.group(2), name=m.group(3), params=cs_params(m.group(4)), where=f"{rel}:{ln}"))
        for m in re.finditer(r"((?:\[[^\]]*\]\s*)*)public\s+(?:unsafe\s+)?struct\s+(\w+)\s*\{(.*?)\n?\s*\}", s, re.S):
            fields = []
            for fm in re.finditer(r"(?:public|internal|private)\s+(?!const|static)([\w\[\]*]+)\s+([\w\s,]+);", m.group(3)):
                for n in fm.group(2).split(","): fields.append((n.strip(), fm.group(1)))
            structs[m.group(2)] = (fields, "Sequential" in m.group(1) or "StructLayout" not in m.group(1), rel)
        for m in re.finditer(r"public\s+enum\s+(\w+)(?:\s*:\s*\w+)?\s*\{(.*?)\}", s, re.S):
            v = 0; d = {}
            for it in m.group(2).split(","):
                it = it.strip()
                if not it: continue
                n, _, x = it.partition("=")
                if x.strip(): v = int(x.strip(), 0)
                d[n.strip()] = v; v += 1
            enums[m.group(1)] = (d, rel)
    return imports, structs, enums
def cs_params(s):
    out = []; depth = 0; cur = ""
    for ch in s:
        if ch in "[(<": depth += 1
        if ch in "])>": depth -= 1
        if ch == "," and depth == 0: out.append(cur); cur = ""
        else: cur += ch
    if cur.strip(): out.append(cur)
    r = []
    for p in out:
        p = p.strip()
        p = re.sub(r"\[(?:Out|In|MarshalAs)[^\]]*\]\s*", "", p)
        m = re.match(r"(?:(out|ref|in)\s+)?([\w.]+)(\s*\[\s*\]|\s*\*)?\s+@?(\w+)$", p)
        if not m: r.append(None); continue
        mode, t, suf, n = m.groups()
        by = "ptr" if mode or suf or t == "IntPtr" else "val"
        r.append((by, t, n, mode))
    return r
def c_kind(t, enums):
    t = t.strip(); by = "ptr" if t.endswith("*") else "val"
    b = re.sub(r"\b(const|struct|enum)\b|\*", "", t).strip()
    if b in enums or b.startswith("LNLIB_ENUMS_"): b = "int"
    return by, b
def cs_kind(t, csenums):
    if t in csenums: return "int"
    return t
KIND = {"int": "int", "double": "double", "void": "void", "bool": "bool", "float": "float"}
def same_kind(ct, st, csstructs):
    """C base type ~ C# type"""
    if st == "bool": st = "int"              # marshalled as a four-byte BOOL by default
    if ct in KIND or st in KIND: return ct == st
    if st == "IntPtr": return True
    return norm(re.sub(r"^LNLIB_|^LN_|_C$", "", ct)) == norm(re.sub(r"^LN_", "", st))
def norm(n): return re.sub(r"[^a-z0-9]", "", n.lower())

def table():
    out = {"c": {}, "py": {}, "args": {}, "registered": [], "exposed": []}
    P, bad = capi()
    if bad: raise AnalysisBroken(str(bad)[:400])
    for f in P.funcs.values():
        if f.n.startswith("LNLIB_") and f.body is not None:
            sig, ev = bind.signature(P, f)
            out["c"][f.n] = {k: repr(v) for k, v in sig.items()}
    Q, bad = pyapi()
    if bad: raise AnalysisBroken(str(bad)[:400])
    for key, sig, ex, where, n in py_defs(Q):
        out["py"][key] = {k: repr(v) for k, v in sig.items()}
        if ex: out["args"][key] = ex
    out["registered"] = sorted(py_registered(Q))
    return out

def first_diff(a, b, depth=0):
    if not isinstance(a, tuple) or not isinstance(b, tuple) or len(a) != len(b) or (a and b and isinstance(a[0], str) and a[0] != b[0]): return a, b
    if a and a[0] in ("par", "ix#", "int", "mem", "out") and a[1:2] != b[1:2] or a and a[0] in ("out", "mem") and a[2] != b[2]: return a, b
    for x, y in zip(a, b):
        if x != y: return first_diff(x, y, depth + 1)
    return a, b
def show(t, n=110):
    s = re.sub(r"[(']\s*par', (\d+)\)", r"<param \1>", repr(t)); s = s.replace("('par', ", "(param ").replace("'", "")
    return s if len(s) <= n else s[:n] + "..."

def compare(ctx, lang, key, want, got, where, stats):
    import ast
    for o in sorted(set(want) | set(got)):
        if o not in got:
            ctx.violation(f"{lang}:{key}:{o}", f"{lang} {key} no longer produces its {o}", where); continue
        if o not in want:
            ctx.violation(f"{lang}:{key}:{o}", f"{lang} {key} writes {o}, which it did not", where); continue
        g = repr(got[o])
        stats["terms"] += 1
        if g == want[o]: stats["proved"] += 1; continue
        if bind.has_unk(got[o]):
            ctx.undecided.append(f"{lang} {key} {o}: marshalling not understood"); continue
        w = ast.literal_eval(want[o])
        x, y = first_diff(w, got[o])
        ctx.violation(f"{lang}:{key}:{o}", f"{lang} {key}: {o} is not what the native operation gives for these parameters: expected {show(x)}, found {show(y)}", where)

def run(P0, ctx):
    tab = json.load(open(TABLE))
    stats = dict(terms=0, proved=0)
    # ---- C API
    P, bad = capi()
    for f, err in bad:
        m = re.search(r"error: (.*)", err)
        ctx.violation(f"c-compile:{os.path.basename(f)}", f"{os.path.relpath(f, REPO)} does not compile against the native interface: {m.group(1) if m else err[:200]}", os.path.relpath(f, REPO))
    cf = {f.n: f for f in P.funcs.values() if f.n.startswith("LNLIB_") and f.body is not None}
    # ---- buffers that outlive a call belong to one thread
    nstat = 0
    stat = [(g, f"{g['file']}:{g.get('l', 0)}") for g in P.globals.values() if "dotnet/CAPI" in g["file"]]
    stat += [(d, f"{f.file}:{d.get('l', 0)}") for f in P.funcs.values() if f.body is not None and "dotnet/CAPI" in (f.file or "") for x in ir.walk(f.body) if x["k"] == "Decl" for d in x["d"] if d.get("static")]
    for g, where in stat:
        if g.get("isconst") or g.get("constq"): continue
        nstat += 1
        t = base_type(g["t"])
        if not g.get("tls") and not re.search(r"\b(mutex|once_flag|atomic)", t):
            ctx.violation(f"c-shared:{g['n']}", f"{g['n']} keeps results between calls and is shared by all threads: a call on another thread changes what was handed out", os.path.relpath(where, REPO) if where.startswith("/") else where)
    ctx.cov["result_buffers"] = nstat
    broken = {os.path.basename(f) for f, _ in bad}
    ctx.floor("c_functions", len(cf) if not bad else len(tab["c"]), 150)
    nparam = 0
    for n, f in sorted(cf.items()):
        where = f"{os.path.relpath(f.file, REPO)}:{f.line}"
        try: sig, ev = bind.signature(P, f)
        except RecursionError: ctx.undecided.append(f"{n}: too deep"); continue
        if n in tab["c"]: compare(ctx, "C", n, tab["c"][n], sig, where, stats)
        opaque = any(bind.has_unk(t) for t in sig.values())
        for i, p in enumerate(f.params):
            nparam += 1
            if f"out{i}" in sig or opaque: continue
            if not any(bind.mentions(t, ("par", i)) or bind.mentions(t, ("parptr", i)) for t in sig.values()):
                ctx.violation(f"unused:{n}:{p['n']}", f"C {n}: parameter {p['n']} reaches neither the native operation nor a result", where)
    if not bad:
        for n in sorted(set(tab["c"]) - set(cf)): ctx.violation(f"gone:{n}", f"C function {n} is no longer exported", "dotnet/CAPI")
    ctx.cov["c_parameters"] = nparam
    # ---- enumerations: native, C, C#
    native = {short(k): v for k, v in P0.enums.items()}
    cenums = {k: v for k, v in P.enums.items() if k.startswith("LNLIB_ENUMS_") or "LNLIB_ENUMS_" in k}
    imports, structs, csenums = cs_parse()
    def items(v): return [(x["n"], x["v"]) if isinstance(x, dict) else tuple(x) for x in (v["c"] if isinstance(v, dict) and "c" in v else v.get("items", v.get("values", v)) if isinstance(v, dict) else v)]
    nen = 0
    for ck, v in cenums.items():
        name = re.sub(r".*LNLIB_ENUMS_|_C$", "", ck)
        nat = native.get(name)
        if nat is None: continue
        ni = items(nat); ci = items(v)
        for cn, cv in ci:
            nen += 1
            hits = [(n, x) for n, x in ni if norm(cn).endswith(norm(n))]
            best = max(hits, key=lambda h: len(h[0])) if hits else None
            if best is None:
                same = [n for n, x in ni if x == cv]
                if not same: ctx.violation(f"enum:{name}:{cn}", f"C enumerator {cn} = {cv} has no native counterpart", "dotnet/CAPI/include/LNEnums_CAPI.h")
            elif best[1] != cv: ctx.violation(f"enum:{name}:{cn}", f"C enumerator {cn} is {cv}, the native {name}::{best[0]} is {best[1]}", "dotnet/CAPI/include/LNEnums_CAPI.h")
        cs = csenums.get(name)
        if cs:
            for n, x in cs[0].items():
                nen += 1
                if n in dict(ci) and dict(ci)[n] != x: ctx.violation(f"csenum:{name}:{n}", f".NET enumerator {name}.{n} is {x}, the C one is {dict(ci)[n]}", cs[1])
                elif n not in dict(ci) and x not in dict(ci).values(): ctx.violation(f"csenum:{name}:{n}", f".NET enumerator {name}.{n} = {x} has no C counterpart", cs[1])
    ctx.floor("enumerators", nen, 30)
    # ---- structs
    nst = 0
    for n, (fields, seq, rel) in structs.items():
        r = P.records.get(n + "_C") or P.records.get("LNLIB_" + re.sub("^LN_", "", n) + "_C")
        if not r: continue
        flat = []
        for f in r["fields"]:
            m = re.match(r"(.*)\[(\d+)\]$", f["t"])
            if m: flat += [(f"{f['n']}[{i}]", m.group(1).strip()) for i in range(int(m.group(2)))]
            else: flat.append((f["n"], f["t"]))
        nst += len(flat)
        if not seq: ctx.violation(f"layout:{n}", f".NET struct {n} is not laid out sequentially", rel)
        if len(flat) != len(fields): ctx.violation(f"struct:{n}", f".NET struct {n} has {len(fields)} fields, the C struct has {len(flat)}", rel); continue
        cn = [x for x, _ in flat]
        for i, ((a, at), (b, bt)) in enumerate(zip(flat, fields)):
            by, base = c_kind(at, P.enums)
            ok = (bt == "IntPtr" or bt.endswith("*")) if by == "ptr" else same_kind(base, cs_kind(bt, csenums), structs) and bt != "IntPtr"
            if not ok: ctx.violation(f"struct:{n}:{b}", f".NET field {n}.{b} ({bt}) does not match the C field {a} ({at})", rel)
            if "[" not in a and norm(b) != norm(a) and norm(b) in [norm(x) for x in cn]: ctx.violation(f"struct:{n}:{b}", f".NET field {n}.{b} lies where the C struct has {a}", rel)
    ctx.floor("struct_fields", nst, 30)
    # ---- imports
    npar = 0
    byname = {}
    for im in imports:
        f = cf.get(im["entry"])
        if f is None:
            if bad: continue
            ctx.violation(f"entry:{os.path.basename(im['where']).split(':')[0]}:{im['name']}", f".NET {im['name']} imports {im['entry']}, which the C API does not export", im["where"]); continue
        suffix = norm(re.sub(r"^LNLIB_[A-Z0-9]+_", "", im["entry"]))
        pre = re.match(r"LNLIB_[A-Z0-9]+_", im["entry"]).group(0)
        nm = norm(im["name"])
        if nm != suffix:
            other = [e for e in cf if e.startswith(pre) and norm(e[len(pre):]) == nm]
            if other: ctx.violation(f"entry:{os.path.basename(im['where']).split(':')[0]}:{im['name']}", f".NET {im['name']} imports {im['entry']} although {other[0]} is exported", im["where"])
        if None in im["params"]: ctx.undecided.append(f".NET {im['name']}: parameter not understood"); continue
        if len(im["params"]) != len(f.params):
            ctx.violation(f"params:{im['entry']}", f".NET {im['name']} passes {len(im['params'])} parameters, {im['entry']} takes {len(f.params)}", im["where"]); continue
        cnames = [norm(p["n"]) for p in f.params]
        for i, (cs, p) in enumerate(zip(im["params"], f.params)):
            npar += 1
            by, base = c_kind(p["t"], P.enums); sby, st, sn, mode = cs
            st = cs_kind(st, csenums)
            if by != sby: ctx.violation(f"param:{im['entry']}:{i}", f".NET {im['name']} passes {sn} by {'reference' if sby == 'ptr' else 'value'}, {im['entry']} takes {p['t']}", im["where"])
            elif not same_kind(base, st, structs) and not (sby == "ptr" and st == "IntPtr"): ctx.violation(f"param:{im['entry']}:{i}", f".NET {im['name']} passes {sn} as {st}, {im['entry']} takes {p['t']} {p['n']}", im["where"])
            elif norm(sn) != cnames[i] and norm(sn) in cnames: ctx.violation(f"param:{im['entry']}:{i}", f".NET {im['name']}: {sn} is at the position of {p['n']}", im["where"])
            elif mode == "in" and not re.search(r"\bconst\b", p["t"]): ctx.violation(f"param:{im['entry']}:{i}", f".NET {im['name']}: {sn} is read-only, {im['entry']} writes it", im["where"])
        by, base = c_kind(f.ret, P.enums)
        if by == "val" and not same_kind(base, cs_kind(im["ret"], csenums), structs): ctx.violation(f"ret:{im['entry']}", f".NET {im['name']} returns {im['ret']}, {im['entry']} returns {f.ret}", im["where"])
    ctx.floor("dotnet_imports", len(imports), 150); ctx.cov["dotnet_parameters"] = npar
    # ---- Python
    Q, bad = pyapi()
    for f, err in bad:
        m = re.search(r"error: (.*)", err)
        if "pybind11" in (m.group(1) if m else ""): ctx.undecided.append(f"{f}: {m.group(1)[:120]}"); continue
        ctx.violation(f"py-compile:{os.path.basename(f)}", f"{os.path.relpath(f, REPO)} does not compile against the native interface: {m.group(1) if m else err[:200]}", os.path.relpath(f, REPO))
    defs = py_defs(Q); seen = set()
    for key, sig, ex, where, n in defs:
        seen.add(key); where = os.path.relpath(where, REPO)
        want = tab["py"].get(key)
        if n == "value":
            c = re.match(r".*\.(\w+):value$", key).group(1)
            got = sig["return"][2]
            if got and norm(got) != norm(c): ctx.violation(f"py:{key}", f"Python enumerator {key[:-6]} stands for {sig['return'][1]}::{got}", where)
            stats["terms"] += 1; stats["proved"] += 1; continue
        if n in ("def_readwrite", "def_readonly"):
            mem = sig["return"][1]
            if not bind.has_unk(sig["return"]) and want is None and mem and norm(mem) != norm(key.rsplit(".", 1)[1][:-6]): ctx.violation(f"py:{key}", f"Python field {key[:-6]} is bound to {mem}", where)
        if want is None: continue
        if "native" in want and "native" not in sig or "native" in sig and "native" not in want:
            w = dict(want); w = {"return" if k == "native" else k: v for k, v in w.items()}; g = {"return" if k == "native" else k: v for k, v in sig.items()}
            if "return" in g and "return" in w: compare(ctx, "Python", key, {"return": w["return"]}, {"return": g["return"]}, where, stats)
            else: ctx.undecided.append(f"Python {key}: given in another form")
        else: compare(ctx, "Python", key, want, sig, where, stats)
        if key in tab["args"] or ex:
            wa = tab["args"].get(key, [])
            if ex and wa and [x[0] for x in ex] != [x[0] for x in wa] and sorted(x[0] for x in ex) == sorted(x[0] for x in wa): ctx.violation(f"pyarg:{key}", f"Python {key}: keyword names are attached to other positions", where)
            for (an, ad), (bn, bd) in zip(wa, ex):
                if ad and bd and "unk" not in bd and ad != bd: ctx.violation(f"pyarg:{key}:{bn}", f"Python {key}: default of {bn} is {bd}, expected {ad}", where)
    if not bad:
        for k in sorted(set(tab["py"]) - seen):
            # the same name may have been re-declared with other parameter spellings
            stem = k.split("(")[0]
            alt = [d for d in defs if d[0].split("(")[0] == stem and d[0] not in tab["py"]]
            if alt: ctx.undecided.append(f"Python {k}: declared with other parameter types"); continue
            ctx.violation(f"pygone:{k}", f"Python no longer exposes {k}", "python/src")
        reg = py_registered(Q)
        for g in sorted(set(tab["registered"]) - reg):
            if any(f.n == g for f in Q.funcs.values()): ctx.violation(f"pyreg:{g}", f"the Python module no longer registers {g}", "python/src/PyLNLib.cpp")
    ctx.floor("python_definitions", len(defs) if not bad else 999, 200)
    ctx.cov["terms"] = stats["terms"]; ctx.cov["terms_equal"] = stats["proved"]
    ctx.rule = "per exported operation: symbolic term of the result and of every output over parameters and native calls equals the reviewed term; every parameter is used; .NET declarations match the C prototypes, structs and enumerators field by field; Python definitions name the native operation with parameters in order"
    ctx.assumptions += ["output pointers are valid (null tests pass)", "shape tests that only leave early pass", "buffers handed out by the C API live until the next call, as documented"]
