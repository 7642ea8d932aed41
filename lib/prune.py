"""Specialisation of a function body for constant selector values, and canonical (alpha-renamed) serialisation."""
from ir import *
from flow import assigned_ids

class Pruner:
    def __init__(self, body, consts):
        self.c = dict(consts); self.asg = assigned_ids(body)
    def st(self, e):
        """constant value of e or None"""
        if e is None: return None
        k = e["k"]
        if k in ("Enum", "Int", "Bool"): return int(e["v"])
        if k == "Var": return self.c.get(e["id"])
        if k == "Cast": return self.st(e.get("e"))
        if k == "Un" and e["op"] in ("!", "-"):
            v = self.st(e["e"]); return None if v is None else (int(not v) if e["op"] == "!" else -v)
        if k == "Bin":
            a, b = self.st(e["a"]), self.st(e["b"])
            op = e["op"]
            if op == "&&":
                if a == 0 or b == 0: return 0
                return None if a is None or b is None else int(bool(a and b))
            if op == "||":
                if (a is not None and a) or (b is not None and b): return 1
                return None if a is None or b is None else 0
            if a is None or b is None: return None
            f = {"==": lambda: a == b, "!=": lambda: a != b, "<": lambda: a < b, ">": lambda: a > b, "<=": lambda: a <= b, ">=": lambda: a >= b}.get(op)
            return int(f()) if f else None
        if k == "Cond":
            v = self.st(e["c"]); return None if v is None else self.st(e["a"] if v else e["b"])
        return None
    def e(self, x):
        if isinstance(x, list): return [self.e(y) for y in x]
        if not isinstance(x, dict): return x
        k = x.get("k")
        if k == "Cond":
            v = self.st(x["c"])
            if v is not None: return self.e(x["a"] if v else x["b"])
        if k == "Var" and x["id"] in self.c: return {"k": "Int", "v": self.c[x["id"]], "t": x.get("t", "int"), "l": x["l"]}
        if k == "Bin" and x["op"] in ("&&", "||"):
            v = self.st(x)
            if v is not None: return {"k": "Bool", "v": bool(v), "l": x["l"]}
            for p, q in (("a", "b"), ("b", "a")):
                if self.st(x[p]) is not None: return self.e(x[q])
        if k in ("Bin", "Un") and self.st(x) is not None and k == "Bin" and x["op"] in ("==", "!="):
            return {"k": "Bool", "v": bool(self.st(x)), "l": x["l"]}
        if k == "Un" and x["op"] == "!" and self.st(x) is not None: return {"k": "Bool", "v": bool(self.st(x)), "l": x["l"]}
        if k in ("Block", "If", "For", "While", "Do", "RangeFor", "Switch", "Decl", "Expr", "Return", "Try"): return self.s(x)
        r = {}
        for kk, v in x.items():
            if kk == "f" and isinstance(v, dict): r[kk] = v
            elif kk == "body" and k in ("Lambda", "Inl"): r[kk] = self.s(v)
            elif isinstance(v, (dict, list)): r[kk] = self.e(v)
            else: r[kk] = v
        return r
    def stops(self, s):
        if s is None: return False
        k = s["k"]
        if k in ("Return", "Break", "Continue"): return True
        if k == "Expr" and s["e"]["k"] == "Throw": return True
        if k == "Block": return any(self.stops(x) for x in s["s"])
        if k == "If": return bool(s.get("b")) and self.stops(s["a"]) and self.stops(s["b"])
        return False
    def s(self, x):
        if x is None: return None
        k = x["k"]
        if k == "Block":
            out = []
            for y in x["s"]:
                z = self.s(y)
                if z is None: continue
                out.append(z)
                if self.stops(z): break
            return {"k": "Block", "l": x["l"], "s": out}
        if k == "Null": return None
        if k == "Decl":
            ds = []
            for d in x["d"]:
                v = self.st(d.get("init")) if d.get("init") else None
                if v is not None and d["id"] not in self.asg and (base_type(d["t"]) == "bool" or not self._numeric(d["init"])): self.c[d["id"]] = v; continue
                ds.append(self.e(d))
            return {"k": "Decl", "l": x["l"], "d": ds} if ds else None
        if k == "If":
            v = self.st(x["c"])
            if v is not None and not x.get("cvar"):
                r = self.s(x["a"]) if v else self.s(x.get("b"))
                return r
            return {**x, "c": self.e(x["c"]), "a": self.s(x["a"]) or {"k": "Block", "l": x["l"], "s": []}, "b": self.s(x.get("b"))}
        if k == "Switch":
            v = self.st(x["c"])
            if v is None: return {**x, "c": self.e(x["c"]), "body": self.s(x["body"])}
            items = x["body"]["s"] if x["body"]["k"] == "Block" else [x["body"]]
            out = []; on = False; default = None; flat = []
            for it in items:
                labels = []
                while it is not None and it["k"] in ("Case", "Default"):
                    labels.append(it); it = it["body"]
                flat.append((labels, it))
            start = next((i for i, (ls, _) in enumerate(flat) if any(l["k"] == "Case" and self.st(l["v"]) == v for l in ls)), None)
            if start is None: start = next((i for i, (ls, _) in enumerate(flat) if any(l["k"] == "Default" for l in ls)), None)
            if start is None: return None
            for _, it in flat[start:]:
                z = self.s(it) if it else None
                if z is None: continue
                if z["k"] == "Break": break
                if z["k"] == "Block" and z["s"] and z["s"][-1]["k"] == "Break":
                    out += z["s"][:-1]; break
                out.append(z)
                if self.stops(z): break
            return {"k": "Block", "l": x["l"], "s": out}
        if k == "Expr": return {**x, "e": self.e(x["e"])}
        if k == "Return": return {**x, "e": self.e(x["e"])} if x.get("e") else x
        if k in ("For", "While", "Do", "RangeFor"):
            r = dict(x)
            for kk in ("init",):
                if isinstance(x.get(kk), dict): r[kk] = self.s(x[kk])
            for kk in ("c", "inc", "r"):
                if isinstance(x.get(kk), dict): r[kk] = self.e(x[kk])
            r["body"] = self.s(x["body"]) or {"k": "Block", "l": x["l"], "s": []}
            return r
        if k == "Try": return {**x, "body": self.s(x["body"])}
        if k in ("Case", "Default", "Label"): return {**x, "body": self.s(x["body"])}
        return x
    def _numeric(self, e):
        while e["k"] == "Cast": e = e["e"]
        return e["k"] in ("Int",)

def prune(body, consts): return Pruner(body, consts).s(body)

SKIP = {"l", "le", "dflt", "style", "temp", "list", "impl", "lam", "from"}
def canon(n, ren=None, top=None):
    """hashable canonical form: variables renamed in order of first appearance, source positions dropped, nested blocks flattened"""
    ren = {} if ren is None else ren
    def go(x):
        if isinstance(x, list): return tuple(go(y) for y in x)
        if not isinstance(x, dict): return x
        k = x.get("k")
        if k == "Var" and not x.get("global"):
            return ("v", ren.setdefault(x["id"], len(ren)))
        if k == "Block":
            out = []
            for s in x["s"]:
                g = go(s)
                if s["k"] == "Block": out.extend(g[1])
                elif s["k"] != "Null": out.append(g)
            return ("B", tuple(out))
        if k == "Str": return "s"
        r = []
        for kk in sorted(x):
            if kk in SKIP or kk == "n" and k is None: continue
            v = x[kk]
            if kk == "f" and isinstance(v, dict): r.append(("f", v.get("q"), tuple(v.get("pt", ())))); continue
            if kk == "id": r.append(("id", ren.setdefault(v, len(ren)))); continue
            r.append((kk, go(v)))
        return tuple(r)
    return go(n)
