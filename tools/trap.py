#!/usr/bin/env python3
"""trap.py REPLAY: the backtrace of a crash or a failed assertion of a replay (a developer's tool)."""
import json, os, subprocess, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vt"))
import core, build
d = json.load(open(sys.argv[1]))
b = build.build()
drv = b if isinstance(b, str) else b[0]
with tempfile.TemporaryDirectory() as w:
    with open(w + "/s", "w") as f:
        f.write("@begin" + "".join(f" {k}={core.tok(v)}" for k, v in (d["begin"] or {}).items()) + "\n")
        for o in d["ops"]:
            f.write(core.op_line(o) + "\n")
        f.write("@end\n")
    subprocess.run(["gdb", "-q", "-batch", "-ex", "run", "-ex", "bt 12", "--args", drv, d["model"], w + "/s", w, "60"], env=dict(os.environ, VT_SHOW="1"))
