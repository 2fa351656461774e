import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    assert len(title)<=80,(id,len(title))
    d={"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":a,"where":b} for a,b in mech]}}
    if observe: d["anchors"]["observe_at"]=observe
    P.append(d)
R="packages/drafter/src/refract/"
D="packages/drafter/src/"
S="packages/apib-parser/src/snowcrash/"
M="packages/apib-parser/src/markdown-parser/"
NA={}
exec(open("/verif/tools/p_body.py").read())
exec(open("/verif/tools/na_body.py").read())
ids=[x["id"] for x in P]; assert len(ids)==len(set(ids))
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
TECH={}
import sys
sys.path.insert(0,"/verif/lib")
import catalogue
claimed=[x["id"] for x in P if x["id"] in catalogue.CHECKS]
assert set(catalogue.CHECKS)<=set(claimed),set(catalogue.CHECKS)-set(claimed)
assert set(x["id"] for x in P)-set(claimed)==set(NA), set(x["id"] for x in P)-set(claimed)^set(NA)
m={"version":1,"setup_cmd":"python3 lib/build.py %s"%" ".join(sorted({q["build"] for c in catalogue.CHECKS.values() for q in c["parts"]})),
"checks":[{"property":i,"quick_cmd":"python3 check.py %s --tier quick"%i,"thorough_cmd":"python3 check.py %s --tier thorough"%i,
"technique":"deterministic simulation with fault injection: "+catalogue.CHECKS[i]["technique"],"level":"exploration","level_note":catalogue.CHECKS[i]["note"]} for i in claimed],
"not_applicable":[{"property":k,"reason":v} for k,v in sorted(NA.items())]}
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1); open("/verif/MANIFEST.json","a").write("\n")
