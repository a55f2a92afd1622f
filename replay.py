#!/usr/bin/env python3
"""replay.py FILE: rebuilds the harness from /repo's working tree and runs the one case of a violation."""
import json, os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
d = json.load(open(sys.argv[1]))
s = tempfile.mkdtemp(prefix="verif-boo-")
try:
    b, mode = B.build(s, d["race_build"])
    p = subprocess.run([b, "-prop", d["property"], "-tier", d["tier"], "-only", str(d["case"])], cwd=s, env=B.env(), stderr=subprocess.PIPE, text=True)
    print(p.stderr[-6000:])
    bad = p.returncode != 0 or '"viol":null' not in p.stderr
    print("REPRODUCED" if bad else "not reproduced")
    sys.exit(1 if bad else 0)
finally:
    shutil.rmtree(s, ignore_errors=True)
