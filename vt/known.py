"""known.py PROPERTY ID COMMIT TEXT: records a repaired defect."""
import json, sys
p = "/verif/known_findings.json"
d = json.load(open(p))
pid, i, c, t = sys.argv[1:5]
d["findings"] = [x for x in d["findings"] if x["id"] != i] + [dict(property=pid, id=i, status="fixed", what=f"fixed: property={pid} {c} {t}")]
d["findings"].sort(key=lambda x: x["property"])
open(p, "w").write('{"findings": [\n' + ",\n".join(" " + json.dumps(x) for x in d["findings"]) + "\n]}\n")
