#!/usr/bin/env python3
"""Applies each behaviour-preserving rewriting of analyzer/cmd/rewrite to the whole repository and
runs the checks: all have to stay quiet.

usage: rewrites.py [-fast | -slow] [KIND... | KIND+KIND... | random=N]
"""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod")
fast = "-fast" in sys.argv
slow = "-slow" in sys.argv
names = [a for a in sys.argv[1:] if a[0] != "-"]
SLOW = {"P01", "P02", "P03", "P28", "P36"}
B = tempfile.mkdtemp(prefix="rw-")
subprocess.run(["go", "build", "-o", B + "/rewrite", "./cmd/rewrite"], cwd=V + "/analyzer", env=ENV, check=True)
ALL = subprocess.run([V + "/analyzer/bin/modesan", "list"], capture_output=True, text=True).stdout.split()
KINDS = subprocess.run([B + "/rewrite", "list"], capture_output=True, text=True).stdout.split()

def one(kind):
    t = tempfile.mkdtemp(prefix="rw-")
    try:
        w = t + "/repo"
        subprocess.run(["cp", "-a", "/repo", w], check=True)
        head = ""
        for k in kind.split("+"):
            x = subprocess.run([B + "/rewrite", w, k], cwd=w, env=ENV, capture_output=True, text=True)
            head += x.stdout.strip() + x.stderr + " "
            if x.returncode:
                return kind, head, "REWRITE"
        for cmd in (["go", "build", "./..."], ["go", "test", "-vet=off", "-count=1", "./..."]):
            x = subprocess.run(cmd, cwd=w, env=ENV, capture_output=True, text=True)
            if x.returncode:
                return kind, head, "BUILD " + "\n".join(l for l in (x.stdout + x.stderr).split("\n") if "no test files" not in l and not l.startswith("ok"))[:1500]
        os.mkdir(t + "/v")
        shutil.copy(V + "/known-findings.txt", t + "/v/")
        ps = [p for p in ALL if not (fast and p in SLOW) and not (slow and p not in SLOW)]
        x = subprocess.run([V + "/analyzer/bin/modesan", "check", "-property", ",".join(ps), "-repo", w, "-verif", t + "/v"], cwd=V, env=ENV, capture_output=True, text=True)
        out = [l for l in x.stdout.split("\n") if not l.startswith("KNOWN") and " discharged, " not in l]
        return kind, head, "\n".join(l[:500] for l in out[:25]).strip() + ("exit code %d\n" % x.returncode + x.stderr[-1500:] if x.returncode not in (0, 1) else "")
    finally:
        shutil.rmtree(t)

todo = [k for k in KINDS if not names or k in names] + [n for n in names if "+" in n]
for n in names:
    if n.startswith("random="):
        import random
        rnd = random.Random(int(os.environ.get("SEED", "1")))
        todo += ["+".join(rnd.sample(KINDS, 2)) for _ in range(int(n[7:]))]
bad = 0
with ThreadPoolExecutor(3) as ex:
    for kind, head, out in ex.map(one, todo):
        print(head, "quiet" if not out else "ALARM\n" + out, flush=True)
        bad += bool(out)
shutil.rmtree(B)
sys.exit(bad > 0)
