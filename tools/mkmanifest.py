#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from the table below and properties.jsonl.
import json
LEVELS={
 "P02":("exploration","explicit-state enumeration of all grammars up to a bound, real FIRST fixpoint against graph-reachability reference",
        "Every grammar of the stated families (up to 4 productions / 5 symbols) is analysed by the real code and every FIRST set compared. Assumes small scope: a defect that needs a larger grammar is not seen; reference model is trusted."),
 "P03":("exploration","explicit-state enumeration of all grammars up to a bound, real FOLLOW fixpoint against graph-reachability reference",
        "As P02, for FOLLOW sets, on accepted and rejected grammars. Small scope assumption; reference model is trusted."),
 "P04":("exploration","explicit-state enumeration of all grammars up to a bound, verdict and error against the textbook LL(1) definition",
        "Every grammar of the families is judged by the real code and by the definition; each reported conflict is checked to exist. Small scope assumption."),
 "P05":("exploration","explicit-state enumeration of all grammars up to a bound, left-recursion verdict against cycle search",
        "Every grammar of the families; reported stacks are checked to be real cycles. Small scope assumption."),
 "P06":("exploration","explicit-state enumeration of all grammars up to a bound, predictive table against FIRST/FOLLOW reference for every token class",
        "Every accepted grammar of the families, every production with alternatives, every token class and end of input. Small scope assumption."),
}
NA={}
exec(open('/verif/tools/levels.py').read())
props=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
checks=[];na=[]
for p in props:
    if p in LEVELS:
        l,t,n=LEVELS[p]
        checks.append({"property":p,"quick_cmd":f"mc/check.sh {p} quick","thorough_cmd":f"mc/check.sh {p} thorough","technique":t,"level":l,"level_note":n})
    else:
        na.append({"property":p,"reason":NA.get(p,"no check built yet")})
m={"version":1,"setup_cmd":"mc/setup.sh","checks":checks,"not_applicable":na,"notes":"No hooks in /repo: the checks drive public interfaces only."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
print(len(checks),'checks',len(na),'not applicable')
