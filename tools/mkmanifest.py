import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
claimed=json.load(open('/verif/tools/claims.json'))
na=json.load(open('/verif/tools/not_applicable.json'))
checks=[]
for p in props:
    i=p['id']
    if i in claimed:
        c=claimed[i]
        checks.append({"property":i,"quick_cmd":f"bash tools/check.sh {i} quick","thorough_cmd":f"bash tools/check.sh {i} thorough",
          "technique":"contract-based deductive verification of the Go source (go/ssa to SMT, function contracts, loop invariants)",
          "level":"proof","level_note":c})
n=[{"property":p['id'],"reason":na.get(p['id'],"contracts for this property are not written yet")} for p in props if p['id'] not in claimed]
m={"version":1,"setup_cmd":"bash tools/mk.sh","checks":checks,"not_applicable":n,
 "notes":"gocv (in /verif/gocv) is a deductive verifier for Go written for this task; contracts are Go files under /verif/contracts, laid over /repo's packages on every run. No hooks are needed in /repo."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
