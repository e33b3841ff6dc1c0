#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the property texts (vt/texts.py) and the models."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import models, texts

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + "/properties.jsonl", "w") as f:
    for p in texts.PROPERTIES:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
checks, na = [], []
for p in texts.PROPERTIES:
    i = p["id"]
    if i in models.PROPS:
        mods = sorted({m.module for m, _ in models.PROPS[i]["models"]})
        checks.append(dict(
            property=i, quick_cmd=f"python3 /verif/vt/check.py {i} quick", thorough_cmd=f"python3 /verif/vt/check.py {i} thorough",
            evidence_file=f"evidence/{i}.json",
            technique="TLA+ specification (%s) explored by TLC; every explored transition replayed on the real library; recorded executions validated by TLC" % ", ".join(mods),
            level="model_checking",
            level_note=models.PROPS[i]["explain"] + " Trusted: the abstraction function of the driver (reads the public API only), TLC, g++ with AddressSanitizer. "
            "Bounded: the constants given in the evidence file; beyond them, random simulation of the specification with larger constants."))
    else:
        na.append(dict(property=i, reason=texts.NOT_APPLICABLE[i]))
m = dict(version=1, setup_cmd="python3 /verif/vt/build.py",
         hooks=dict(guard="none", enable="no hooks are needed: the driver uses only the public API", source_commits=[]),
         checks=checks, not_applicable=na,
         notes="One TLA+ specification per part of the library under /verif/spec, one driver adapter per specification under /verif/driver. See DESIGN.md.")
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")

# DESIGN.md's generated sections
import glob, re
import explain
def section(text, name, body):
    return re.sub(r"(<!-- generated: %s -->\n).*?(<!-- end: %s -->)" % (name, name), lambda m: m.group(1) + body + m.group(2), text, flags=re.S)
out = []
for p in texts.PROPERTIES:
    i = p["id"]
    out.append("### %s %s\n" % (i, p["title"]))
    if i in models.PROPS:
        out.append(explain.E[i] + "\n")
        lines = []
        for m, tiers in models.PROPS[i]["models"]:
            for tier in ("quick", "thorough"):
                t = tiers.get(tier, {})
                n, s = len(t.get("mc", [])), len(t.get("sim", []))
                if n or s: lines.append("%s %s: %d complete exploration%s, %d simulation%s" % (m.name, tier, n, "s" * (n != 1), s, "s" * (s != 1)))
        out.append("Configurations: " + "; ".join(lines) + ".\n")
    else:
        out.append("Not applicable: " + texts.NOT_APPLICABLE[i] + "\n")
props = "\n".join(out) + "\n"
kf = json.load(open(V + "/known_findings.json"))["findings"]
fnd = "".join("* %s\n" % f["what"] for f in kf)
seed = "| bug | property | needs | caught by |\n|---|---|---|---|\n"
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    s = json.load(open(d))
    seed += "| %s | %s | %s | %s |\n" % (os.path.basename(os.path.dirname(d)), s["property"], s["needs"].replace("|", "/"), s.get("caught_by", s["property"] + " quick"))
t = open(V + "/DESIGN.md").read()
t = section(t, "properties", props); t = section(t, "findings", fnd); t = section(t, "seeded", seed)
open(V + "/DESIGN.md", "w").write(t)
