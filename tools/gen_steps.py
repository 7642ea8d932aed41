import sys, os, json
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path[:0]=[V+"/lib",V+"/analyses"]; sys.setrecursionlimit(20000)
import ir, c06
json.dump(c06.table(ir.load()), open(V+"/tables/steps.json","w"), indent=0, sort_keys=True)
