"""tools/fixed.py 'property=Cxx <commit> what': records a repaired defect"""
import json, sys
f = "/verif/known_findings.json"
d = json.load(open(f))
d["fixed"].append("fixed: " + sys.argv[1])
json.dump(d, open(f, "w"), indent=1)
open(f, "a").write("\n")
