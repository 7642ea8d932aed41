import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
S="src/LNLib/"
CUR=S+"Geometry/Curve/NurbsCurve.cpp"; SUR=S+"Geometry/Surface/NurbsSurface.cpp"; VOL=S+"Geometry/Volume/NurbsVolume.cpp"
exec(open('/verif/tools/props_text.py').read())
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
