"""Regenerates tables/functions.txt: the functions the analyses know by name. Functions not listed (helpers extracted later) are inlined."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import ir
P = ir.load(inline=False)
open(ir.VERIF + "/tables/functions.txt", "w").write("\n".join(sorted(P.funcs)) + "\n")
print(len(P.funcs))
