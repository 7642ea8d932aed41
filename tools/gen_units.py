import sys, os, json
sys.path[:0] = [os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib")]
sys.setrecursionlimit(20000)
import ir, effects
from unitcheck import *
P = ir.load(); eff = effects.Effects(P); specs = {}
for rnd in range(8):
    call = {k: (axiom(P.funcs[k[0]]) or sp) for k, sp in specs.items()}
    U = Units(P, eff, call if rnd else None); new = {}; more = 0
    for f in targets(P, U):
        for sel in U.combos(f):
            rep = []
            sp = Run(U, f, sel, specs.get((f.key, sel)), lambda e, l: rep.append(e)).go()
            new[(f.key, sel)] = sp; more += len(rep) if rnd else 1
    specs = new
    if rnd: print("round", rnd, "new equations", more)
    if not more: break
tab = {}
for (k, sel), sp in specs.items(): tab.setdefault(k, {})[selkey(sel)] = enc(sp)
json.dump(tab, open(TABLE, "w"), indent=0, sort_keys=True)
print(len(tab), "functions", sum(len(d) for d in tab.values()), "modes")
