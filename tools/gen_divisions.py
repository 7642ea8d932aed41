import sys, os, json
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path[:0]=[V+"/lib",V+"/analyses"]; sys.setrecursionlimit(20000)
import ir, c07
json.dump(c07.table(ir.load()), open(V+"/tables/divisions.json","w"), indent=1, sort_keys=True)
