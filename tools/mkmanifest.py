#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the harnesses present."""
import json,re,glob,os
os.chdir(os.path.dirname(os.path.abspath(__file__))+'/..')
props=[json.loads(l) for l in open('properties.jsonl')]
have={}
for f in sorted(glob.glob('harness/h/*.go')):
    for m in re.finditer(r'^func (C\d\d)_(\w+)\(\)',open(f).read(),re.M):
        have.setdefault(m.group(1),[]).append(m.group(2))
NA={}
if os.path.exists('tools/na.json'): NA=json.load(open('tools/na.json'))
checks=[];na=[]
for p in props:
    i=p['id']
    if i in have and i not in NA:
        checks.append({"property":i,"quick_cmd":f"/verif/check.sh {i} quick","thorough_cmd":f"/verif/check.sh {i} thorough",
          "evidence_file":f"/verif/evidence/{i}.json",
          "technique":"solver-based checking of the real code: symbolic execution of the go/ssa form of the current /repo source, every branch and assertion decided by an SMT solver over bit-vectors, counterexamples replayed natively",
          "level":"model_checking",
          "level_note":"bounded: all inputs within the bounds stated per harness (%s); the evidence lists anything left undecided"%", ".join(have[i])})
    else:
        na.append({"property":i,"reason":NA.get(i,"not encoded yet")})
m={"version":1,"setup_cmd":"cd /verif/engine && mkdir -p /verif/bin && GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local go build -o /verif/bin/engine .",
 "hooks":{"guard":"none","enable":"none: the checks need no hook in /repo; harnesses are added at build time with a Go overlay","source_commits":[]},
 "checks":checks,"not_applicable":na,
 "notes":"known_findings.txt lists repaired and open findings; engine/ is the symbolic executor, harness/ the specifications."}
json.dump(m,open('MANIFEST.json','w'),indent=1);print(len(checks),'checks',len(na),'not applicable')
