import sys,json
sys.path[:0]=['/verif/lib','/verif/analyses']; sys.setrecursionlimit(20000)
import ir,c14
P=ir.load(); json.dump(c14.table(P),open(c14.TABLE,'w'),indent=0,sort_keys=True)
json.dump(c14.out_table(P),open(c14.OUTS,'w'),indent=0,sort_keys=True)
