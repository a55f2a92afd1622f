#!/usr/bin/env python3
"""check.py ID: decides one property on /repo's working tree (see DESIGN.md).

Exit 0: the property held on everything explored; exit 1 with a VIOLATION line: it is broken."""
import json, os, shutil, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B

VERIF = B.VERIF
ID = sys.argv[1]
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
NPROC = min(8, os.cpu_count() or 1)
RACE = {"C14", "C19", "C22", "C25"}
# these explore goroutines of the library itself: without control over them nothing can be decided
CONTROLLED = {"C12", "C13", "C14", "C15", "C24", "C27", "C28"}
BUDGET = 420 if TIER == "quick" else 3000  # internal deadline of an exploration, s
T0 = time.time()
META = json.load(open(os.path.join(VERIF, "checks.json")))[ID]

def known():
    p = os.path.join(VERIF, "known_findings.json")
    d = json.load(open(p)) if os.path.exists(p) else {}
    return [k for k in d.get("findings", []) if k["property"] == ID]

def launch(binary, work, args, timeout, errname):
    os.makedirs(work, exist_ok=True)
    e = B.env()
    e["GORACE"] = "halt_on_error=0 exitcode=0 history_size=2"
    e["GOMAXPROCS"] = "2"
    e["VERIF_KNOWN"] = os.path.join(VERIF, "known_findings.json")
    err = open(os.path.join(work, errname), "w")
    return subprocess.Popen([binary] + args, cwd=work, env=e, stdout=subprocess.DEVNULL, stderr=err)

def tail(path, n=3000):
    try:
        s = open(path, errors="replace").read()
    except OSError:
        return ""
    return s[:1500] + "\n...\n" + s[-n:] if len(s) > n + 1500 else s

def explore(binary, scratch, tag):
    """Runs all shards; returns (merged reports, list of failures (case, desc, msg))."""
    procs = []
    for i in range(NPROC):
        w = os.path.join(scratch, "w-%s-%d" % (tag, i))
        out = os.path.join(scratch, "o-%s-%d.json" % (tag, i))
        args = ["-prop", ID, "-tier", TIER, "-shard", str(i), "-n", str(NPROC), "-out", out, "-budget", str(BUDGET)]
        procs.append((launch(binary, w, args, None, "err"), w, out, i))
    reports, fails = [], []
    end = time.time() + BUDGET + 240
    for p, w, out, i in procs:
        try:
            rc = p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill(); p.wait()
            reports.append({"truncated": True})
            continue
        if rc == 0 and os.path.exists(out):
            r = json.load(open(out))
            reports.append(r)
            for v in r.get("viol") or []:
                fails.append((v["case"], v["desc"], v["msg"]))
            continue
        msg = tail(os.path.join(w, "err"))
        case = None
        for l in msg.splitlines():
            if l.startswith("HANG case="):
                case = int(l.split("=")[1])
        if case is None:  # the process died: find the case
            args = ["-prop", ID, "-tier", TIER, "-shard", str(i), "-n", str(NPROC), "-list", "-out", out, "-budget", "300"]
            q = launch(binary, w, args, None, "err2")
            try:
                q.wait(400)
            except subprocess.TimeoutExpired:
                q.kill(); q.wait()
            for l in open(os.path.join(w, "err2"), errors="replace"):
                if l.startswith("CASE "):
                    case = int(l.split()[1])
        fails.append((case if case is not None else -1, "process ended with status %d" % rc, msg))
    return reports, fails

def confirm(binary, scratch, tag, f):
    """Runs the failing case alone, five times."""
    case = f[0]
    if case < 0:
        return 0, []
    hits, msgs = 0, []
    hang = "HANG" in f[2]
    for k in range(1 if hang else 5):
        w = os.path.join(scratch, "c-%s-%d" % (tag, k))
        out = os.path.join(w, "out.json")
        p = launch(binary, w, ["-prop", ID, "-tier", TIER, "-only", str(case), "-out", out, "-budget", "300"], None, "err")
        try:
            rc = p.wait(400)
        except subprocess.TimeoutExpired:
            p.kill(); p.wait(); rc = 7
        bad = rc != 0
        if rc == 0 and os.path.exists(out):
            v = json.load(open(out)).get("viol") or []
            bad = bool(v)
            msgs += [x["msg"] for x in v]
        else:
            msgs.append(tail(os.path.join(w, "err")))
        hits += bad
    return hits, msgs

def main():
    scratch = tempfile.mkdtemp(prefix="verif-boo-")
    try:
        return work(scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def work(scratch):
    try:
        bins = [("n",) + B.build(scratch)]
        if ID in RACE:
            s2 = os.path.join(scratch, "race")
            os.makedirs(s2)
            bins.append(("r",) + B.build(s2, race=True))
    except B.BuildError as e:
        print("check %s: %s" % (ID, e), file=sys.stderr)
        return 2
    reports, violations, notes = [], [], []
    for tag, b, mode in bins:
        if mode != "full":
            notes.append("light instrumentation (goroutines not controlled)")
            if ID in CONTROLLED:
                notes.append("not decided: the code uses something the scheduler does not model (capped)")
                continue
        rs, fails = explore(b, scratch, tag)
        reports += rs
        for f in sorted(fails, key=lambda f: f[0])[:3]:
            hits, msgs = confirm(b, scratch, tag, f)
            if hits:
                violations.append((tag, f, hits, msgs))
                break
            notes.append("case %s failed once and not again (%s): %s" % (f[0], f[1][:200], f[2][:300]))
        if violations:
            break
    tot = lambda k: sum(r.get(k) or 0 for r in reports)
    fam = {}
    for r in reports:
        for k, v in (r.get("families") or {}).items():
            fam[k] = fam.get(k, 0) + v
        for n in r.get("notes") or []:
            if n not in notes:
                notes.append(n)
    truncated = any(r.get("truncated") for r in reports)
    samples = []
    for r in reports:
        for s in r.get("samples") or []:
            if len(samples) < 8 and s.split(":")[0] not in [x.split(":")[0] for x in samples]:
                samples.append(s)
    knownhits = sorted({k for r in reports for k in (r.get("known") or [])})
    ev = {
        "property": ID, "tier": TIER, "seed": SEED, "level": "model_checking",
        "coverage": {
            "states": tot("states"), "transitions": tot("transitions"),
            "traces_validated_against_impl": tot("traces") or tot("evaluations"),
            "evaluations": tot("evaluations"), "distinct_nontrivial": tot("nontrivial"),
            "rule": META["rule"], "samples": samples, "families": fam,
            "exhaustive": not truncated and not violations and not any("not again" in n or "capped" in n for n in notes),
            "bounds": META["bounds"], "shards": NPROC,
            "distinct_outcomes_seen": tot("outcomes"), "notes": notes,
        },
        "assumptions": META.get("assumptions", []),
        "wall_s": round(time.time() - T0, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", ID + ".json"), "w"), indent=1)
    for k in knownhits:
        print("KNOWN-FINDING: property=%s %s" % (ID, k))
    if violations:
        tag, f, hits, msgs = violations[0]
        rp = os.path.join(VERIF, "evidence", "replay-%s.json" % ID)
        json.dump({"property": ID, "tier": TIER, "case": f[0], "race_build": tag == "r", "description": f[1], "message": f[2],
                   "reproduced": "%d of 5" % hits, "messages": msgs[:5],
                   "how": "python3 /verif/replay.py %s builds the harness from /repo and runs exactly this case" % rp}, open(rp, "w"), indent=1)
        print("%s\n%s" % (f[1][:1500], f[2][:2500]))
        print("VIOLATION property=%s replay=%s" % (ID, rp))
        return 1
    c = ev["coverage"]
    print("%s %s: %d evaluations, %d states, %d transitions, %d outcomes, exhaustive=%s, %.1f s" % (ID, TIER, c["evaluations"], c["states"], c["transitions"], c["distinct_outcomes_seen"], c["exhaustive"], ev["wall_s"]))
    for n in notes:
        print("note:", n)
    return 0

if __name__ == "__main__":
    sys.exit(main())
