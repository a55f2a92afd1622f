#!/usr/bin/env python3
"""Makes an instrumented scratch copy of /repo and builds the harness in it."""
import os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")

def env():
    e = dict(os.environ)
    go = "/opt/veriftools/go1.27.3/bin"
    if os.path.isdir(go):
        e["PATH"] = go + ":" + e.get("PATH", "")
    e.update(GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", HOME=e.get("HOME", "/root"),
             GOMODCACHE=e.get("GOMODCACHE", "/root/go/pkg/mod"), GOCACHE=e.get("GOCACHE", "/root/.cache/go-build"))
    return e

class BuildError(Exception):
    pass

def run(cmd, cwd, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout

def copy_repo(dst):
    def ignore(d, names):
        return [n for n in names if n == ".git" or n.endswith("_test.go") or n in ("tests", "examples")]
    shutil.copytree(REPO, dst, ignore=ignore, symlinks=True)
    gm = os.path.join(dst, "go.mod")
    out = []
    for l in open(gm):
        if l.startswith("go ") and tuple(int(x) for x in l.split()[1].split(".")[:2]) < (1, 23):
            l = "go 1.23\n"
        out.append(l)
    open(gm, "w").writelines(out)

def build(scratch, race=False):
    """Returns the path of the harness binary."""
    rc, out = run(["go", "build", "-o", os.path.join(scratch, "instr"), "."], os.path.join(VERIF, "instr"))
    if rc:
        raise BuildError("instrumenter: " + out)
    err = ""
    for mode in ("full", "light"):
        d = os.path.join(scratch, "src-" + mode)
        copy_repo(d)
        rc, out = run(["go", "build", "./..."], d)
        if rc:
            raise BuildError("the repository does not build: " + out)
        rc, out = run([os.path.join(scratch, "instr"), "-dir", d, "-mode", mode], d)
        if rc == 0:
            z = os.path.join(d, "zzverif")
            shutil.copytree(os.path.join(VERIF, "rt"), z)
            shutil.copytree(os.path.join(VERIF, "harness"), os.path.join(z, "h"))
            b = os.path.join(scratch, "h-" + mode)
            cmd = ["go", "build", "-o", b]
            if race:
                cmd += ["-race"]
                for p in ("vsched", "vrand", "vrand1"):
                    cmd += ["-gcflags=github.com/rmera/boo/zzverif/%s=-race=false" % p]
            rc, out = run(cmd + ["./zzverif/h"], d)
            if rc == 0:
                return b, mode
        err = out
    raise BuildError("instrumented build: " + err)

if __name__ == "__main__":
    s = tempfile.mkdtemp(prefix="verif-boo-")
    print(build(s, "race" in sys.argv[1:]))
