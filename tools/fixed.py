"""fixed.py PID COMMIT TEXT: records a repaired defect in known_findings.json."""
import json, subprocess, sys
p = "/verif/known_findings.json"
k = json.load(open(p))
h = subprocess.check_output(["git", "-C", "/repo", "rev-parse", "--short", sys.argv[2]], text=True).strip()
k["fixed"].append("fixed: property=%s %s %s" % (sys.argv[1], h, sys.argv[3]))
json.dump(k, open(p, "w"), indent=1, ensure_ascii=False)
