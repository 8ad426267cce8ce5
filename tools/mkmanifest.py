#!/usr/bin/env python3
# Writes MANIFEST.json: the properties listed in CLAIMED have a check, the
# others are not applicable with the reason given in NA.
import json
P=[json.loads(l) for l in open('/verif/properties.jsonl')]
LEVEL="every obligation generated from /repo's current source is discharged by an SMT solver (or the term normaliser) for all inputs; "
REAL="floats are treated as exact reals, integers as mathematical; "
CLAIMED={
'C01': "RingBuffer and Deque of the dependencies have assumed contracts. "+REAL,
'C09': "Pebay's update formulas are connected to the definition by lemmas proved in Lean; RingBuffer has an assumed contract. "+REAL,
'C10': "the decayed update formulas are connected to the definition by lemmas proved in Lean. "+REAL,
'C11': "errors.Wrap and the RingBuffer have assumed contracts; a sum of degenerate windows (division by 0) is unspecified. "+REAL,
'C23': "overflow obligations are on; n!/(k!(n-k)!) is a lemma proved by induction. ",
'C19': "a ghost lockset is tracked through every exported method of the metric packages; mutexes, WaitGroup and the containers' read methods are assumed to behave as documented. ",
'C20': "worker bodies are executed once each under their own lockset, shared variables must be protected by one common lock, and the calls on wrapped metrics are recorded in a ghost log. ",
'C21': "rand.Intn(n) is assumed uniform on [0,n); the step from the transition contract to uniformity is proved in Lean. ",
}
NA={}
DEFAULT="contracts for this property are still being written; no check is claimed yet"
try:
    exec(open('/verif/tools/claims.py').read())
except FileNotFoundError:
    pass
checks=[];na=[]
for p in P:
    i=p['id']
    if i in CLAIMED:
        n=CLAIMED[i]
        checks.append({"property":i,"quick_cmd":f"./check.sh {i}","thorough_cmd":f"./check.sh {i}",
          "technique":"contract-based deductive verification of the Go SSA of /repo (gvc weakest preconditions, SMT)",
          "level":"proof","level_note":LEVEL+n+"a rejected obligation is reported with a concrete failing input when the replay search finds one"})
    else:
        na.append({"property":i,"reason":NA.get(i,DEFAULT)})
json.dump({"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":na,
 "notes":"No hooks in /repo: contracts live in /verif/contracts and are attached to the functions by name; the verifier reads /repo's source on every run."},open('/verif/MANIFEST.json','w'),indent=1)
print(len(checks),'claimed',len(na),'not')
