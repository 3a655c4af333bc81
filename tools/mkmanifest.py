#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every property registered in the harness, the rest under not_applicable."""
import json,os,re,glob
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(H+'/properties.jsonl')]
reg={}
for f in sorted(glob.glob(H+'/harness/props/*.go')):
    s=open(f).read()
    for m in re.finditer(r'ID:\s+"(P\d\d)",\s*Level:\s+"(\w+)"',s): reg[m.group(1)]=m.group(2)
T=json.load(open(H+'/tools/techniques.json'))
checks=[];na=[]
for p in props:
    i=p['id']
    if i in reg:
        t=T[i]
        checks.append({"property":i,"quick_cmd":f"./run.sh {i} quick","thorough_cmd":f"./run.sh {i} thorough","evidence_file":f"evidence/{i}.json",
            "technique":t[0],"level":reg[i],"level_note":t[1]})
    else:
        na.append({"property":i,"reason":"check not built yet"})
m={"version":1,"setup_cmd":"./build.sh /tmp/verif-setup/vrun /tmp/verif-setup && rm -rf /tmp/verif-setup","checks":checks,"not_applicable":na,
 "notes":"Property-based testing with generated histories, schedules and faults under virtual time against a fake Kafka cluster; see DESIGN.md. No hooks in /repo: the harness overlays three standard-library files at build time."}
json.dump(m,open(H+'/MANIFEST.json','w'),indent=1)
print(len(checks),'claimed',len(na),'not')
