"""Regenerates known_findings.json from the table below."""
import json, os
K=[]
def known(p, key, what): K.append({"property":p,"status":"known","key":key,"what":what})
def fixed(p, commit, what): K.append({"property":p,"status":"fixed","key":"","commit":commit,"what":f"fixed: property={p} {commit} {what}"})
exec(open(os.path.join(os.path.dirname(__file__),"known_text.py")).read())
json.dump(K, open(os.path.join(os.path.dirname(__file__),"..","known_findings.json"),"w"), indent=1)
