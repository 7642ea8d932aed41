import sys, os, json
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path[:0]=[V+"/lib",V+"/analyses"]; sys.setrecursionlimit(20000)
import ir, c01
json.dump(c01.table(ir.load()), open(V+"/tables/guards.json","w"), indent=0, sort_keys=True)
