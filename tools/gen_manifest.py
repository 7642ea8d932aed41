"""Regenerates MANIFEST.json: a property is claimed when analyses/<id>.py exists."""
import json, os
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
exec(open(V+"/tools/manifest_text.py").read())
checks=[]; na=[]
for l in open(V+"/properties.jsonl"):
    p=json.loads(l); i=p["id"]
    if os.path.exists(f"{V}/analyses/{i.lower()}.py"):
        t,n=T[i]
        checks.append({"property":i,"quick_cmd":f"python3 check.py {i}","thorough_cmd":f"python3 check.py {i} --thorough","technique":t,"level":"other","level_note":n})
    else:
        na.append({"property":i,"reason":NA.get(i,"no static check has been built yet")})
json.dump({"version":1,"setup_cmd":"python3 -c \"import sys; sys.path.insert(0,'lib'); import ir; ir.ensure_extractor()\"","checks":checks,"not_applicable":na},open(V+"/MANIFEST.json","w"),indent=1)
print([c["property"] for c in checks],[n["property"] for n in na])
