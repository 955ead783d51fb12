#!/usr/bin/env python3
"""Writes MANIFEST.json: every property that has a harness is claimed."""
import json,os,re,glob,sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
have={}
for f in glob.glob(V+'/harness/*/*.go'):
    for m in re.finditer(r'^//symgo:run (C\d\d) ',open(f).read(),re.M): have.setdefault(m[1],set()).add(f)
NOTES=json.load(open(V+'/tools/notes.json')) if os.path.exists(V+'/tools/notes.json') else {}
NA=NOTES.get('not_applicable',{})
checks=[];na=[]
T="symbolic execution of the real Go code (go/ssa, regenerated per run) with SMT (z3) and a GF(q) polynomial decision procedure; counterexamples replayed natively"
for p in props:
    i=p['id']
    if i in have and i not in NA:
        checks.append({"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough","technique":T+NOTES.get('technique',{}).get(i,''),"level":"model_checking",
          "level_note":NOTES.get('level_note',{}).get(i,"holds for every input, choice and schedule within the bounds listed per harness in the evidence file; nothing is claimed beyond them. Calls to math/big, fmt, sha256, crypto/rand and sync are modelled.")})
    else:
        na.append({"property":i,"reason":NA.get(i,"no check yet")})
json.dump({"version":1,"setup_cmd":"./setup.sh","hooks":{"guard":"verif","enable":"no hooks are needed: harnesses are added by a build overlay, /repo carries only fix: commits","source_commits":[]},"checks":checks,"not_applicable":na},open(V+'/MANIFEST.json','w'),indent=1)
print(len(checks),'claimed',[x['property'] for x in na])
