#!/usr/bin/env python3
"""size.py PROPERTY [tier] [model-substring]: how large each exhaustive configuration is (TLC alone, no replay)."""
import os, re, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vt"))
from core import *
import models
pid, tier, sub = sys.argv[1], (sys.argv[2:] + ["quick"])[0], (sys.argv[3:] + [""])[0]
for md, tiers in models.PROPS[pid]["models"]:
    for c in tiers[tier].get("mc", []):
        if sub not in md.name:
            continue
        defs, subst = constants(c["const"])
        acts = f"VActs == {{a \\in Acts : a.op \\in {cfg_value(set(c.get('ops', ' '.join(md.ops)).split()))}}}\n"
        body = defs + acts + "VView == st\nVNext == \\E a \\in VActs : Step(a)\n"
        cfg = subst + "INIT Init\nNEXT VNext\nVIEW VView\nCHECK_DEADLOCK FALSE\n" + "".join(f"INVARIANT {i}\n" for i in md.invariants)
        with tempfile.TemporaryDirectory() as w:
            rc, out, edges, timed, secs = Tlc(w).run("VSize", md.module + ", TLC", body, cfg, ["-workers", "4"], timeout=90)
        last = [l for l in out if "states generated" in l][-1:] or out[-8:]
        print(md.name, "TIMEOUT" if timed else "", round(secs), last, flush=True)
        if rc and not timed:
            print("\n".join(out[-30:]))
