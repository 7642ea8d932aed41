import sys, os, json
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path[:0]=[V+"/lib",V+"/analyses"]; sys.setrecursionlimit(20000)
import c15
json.dump(c15.table(), open(V+"/tables/bindings.json","w"), indent=0, sort_keys=True)
