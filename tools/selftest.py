#!/usr/bin/env python3
"""Self-test of the explorer: DPOR against plain enumeration of all interleavings (normal build), and known
racy / race-free programs (race build). Not a registered check. Usage: selftest.py [thorough]"""
import json, os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import build as B
tier = "thorough" if "thorough" in sys.argv[1:] else "quick"
s = tempfile.mkdtemp(prefix="verif-boo-")
bad = 0
try:
    for prop, race, n in (("SELF", False, 8), ("SELFRACE", True, 1)):
        d = os.path.join(s, prop); os.makedirs(d)
        b, mode = B.build(d, race)
        ps = []
        for i in range(n):
            w = os.path.join(d, "w%d" % i); os.makedirs(w)
            e = B.env(); e.update(GORACE="halt_on_error=0 exitcode=0", GOMAXPROCS="2")
            ps.append((subprocess.Popen([b, "-prop", prop, "-tier", tier, "-shard", str(i), "-n", str(n), "-out", w + "/o.json", "-budget", "3000"], cwd=w, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL), w))
        tot = {}
        for p, w in ps:
            p.wait()
            r = json.load(open(w + "/o.json"))
            for k in ("evaluations", "states", "transitions"):
                tot[k] = tot.get(k, 0) + (r.get(k) or 0)
            for v in r.get("viol") or []:
                bad += 1; print(v)
        print(prop, mode, tot)
finally:
    shutil.rmtree(s, ignore_errors=True)
sys.exit(1 if bad else 0)
