#!/usr/bin/env python3
# Writes MANIFEST.json. CHECKS: id -> (technique, level_note); properties without an entry are listed as not applicable.
import json,subprocess
T="exhaustive bounded exploration of the real code against a reference model"
CHECKS={}; import os; V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(V+'/tools/checks.py').read())
ids=[json.loads(l)['id'] for l in open(V+'/properties.jsonl')]
m={"version":1,"setup_cmd":"./check.sh build",
 "checks":[{"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough","technique":CHECKS[i][0],"level":"model_checking","level_note":CHECKS[i][1]} for i in ids if i in CHECKS],
 "not_applicable":[{"property":i,"reason":NA.get(i,"check not built yet")} for i in ids if i not in CHECKS]}
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1)
print(len(m['checks']),'checks')
