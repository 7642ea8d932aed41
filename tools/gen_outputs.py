"""Regenerates tables/outputs.json: per function the arguments it is meant to modify (reviewed by hand against the headers)."""
import sys, os, json
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import ir
from effects import Effects
P = ir.load(inline=False); E = Effects(P); T = {}
for f in P.funcs.values():
    if not f.body: continue
    k = f"{f.q}/{len(f.params)}"
    w = {i for i in E.w[f.key] if i == "this" or isinstance(i, int) and not f.params[i]["t"].startswith("const ")}
    T[k] = sorted(set(T.get(k, [])) | w, key=str)
json.dump(T, open(ir.VERIF + "/tables/outputs.json", "w"), indent=0, sort_keys=True)
for f in P.funcs.values():
    if not f.body: continue
    for i, p in enumerate(f.params):
        if ir.is_mut_ref(p["t"]) and i not in E.w[f.key]: print("not written:", f.key, p["n"])
        if i in E.w[f.key] and p["t"].startswith("const "): print("CONST WRITTEN", f.key, p["n"], E.sites[f.key].get(i))
