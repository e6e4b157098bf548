import json
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,**k):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    a.update(k)
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
exec(open('/verif/dev/props_data.py').read())
open('/verif/properties.jsonl','w').write("".join(json.dumps(p)+"\n" for p in P))
import sys; sys.path.insert(0,'/verif')
from checks import CHECKS
ids=[p["id"] for p in P]
assert set(CHECKS)<=set(ids),set(CHECKS)-set(ids)
M={"version":1,"setup_cmd":"python3 run.py --setup","checks":[{"property":i,"quick_cmd":"python3 run.py %s --tier quick"%i,"thorough_cmd":"python3 run.py %s --tier thorough"%i,
 "technique":"property-based testing: "+CHECKS[i]["technique"],"level":"exploration","level_note":CHECKS[i]["note"]} for i in ids if i in CHECKS],
 "not_applicable":[{"property":i,"reason":"the check is not built yet"} for i in ids if i not in CHECKS]}
json.dump(M,open('/verif/MANIFEST.json','w'),indent=1)
