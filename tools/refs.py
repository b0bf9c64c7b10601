#!/usr/bin/env python3
"""Runs the checks on edits that keep the behaviour (tools/refs_table.py): all have to stay quiet.

usage: refs.py [-fast] [NAME...]
"""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod")
REFS = []
def ref(name, *edits):
    REFS.append((name, edits))
def body(f, head, new):
    """replaces the function that starts with head"""
    return (f, ("func", head), new)
def sub(s, old, new):
    if isinstance(old, tuple):
        i = s.index("\n" + old[1]) + 1
        j = s.index("\n}\n", i) + 3
        return s[:i] + new.strip("\n") + "\n" + s[j:]
    if s.count(old) != 1:
        raise Exception("%d occurrences of %r" % (s.count(old), old))
    return s.replace(old, new)
exec(open(os.path.join(V, "tools", "refs_table.py")).read())
fast = "-fast" in sys.argv
names = [a for a in sys.argv[1:] if a[0] != "-"]
ALL = subprocess.run([V + "/analyzer/bin/modesan", "list"], capture_output=True, text=True, errors="replace").stdout.split()
SLOW = {"P01", "P02", "P03", "P28", "P36"}

def one(r):
    name, edits = r
    t = tempfile.mkdtemp(prefix="ref-")
    try:
        w = t + "/repo"
        subprocess.run(["cp", "-a", "/repo", w], check=True)
        for f, old, new in edits:
            if old is None:
                open(w + "/" + f, "w").write(new)
                continue
            s = open(w + "/" + f).read()
            try:
                open(w + "/" + f, "w").write(sub(s, old, new))
            except Exception as e:
                return name, "EDIT %s: %s" % (f, e)
        for cmd in (["go", "vet", "./..."], ["go", "test", "-vet=off", "-count=1", "./..."]):
            x = subprocess.run(cmd, cwd=w, env=ENV, capture_output=True, text=True, errors="replace")
            if x.returncode:
                return name, "BUILD " + "\n".join(l for l in (x.stdout + x.stderr).split("\n") if "no test files" not in l and not l.startswith("ok"))[:1500]
        os.mkdir(t + "/v")
        shutil.copy(V + "/known-findings.txt", t + "/v/")
        ps = [p for p in ALL if not (fast and p in SLOW)]
        x = subprocess.run([V + "/analyzer/bin/modesan", "check", "-property", ",".join(ps), "-repo", w, "-verif", t + "/v"], cwd=V, env=ENV, capture_output=True, text=True, errors="replace")
        out = [l for l in x.stdout.split("\n") if not l.startswith("KNOWN") and " discharged, " not in l]
        return name, "\n".join(l[:700] for l in out[:40]).strip() + ("exit code %d\n" % x.returncode + x.stderr[-1500:] if x.returncode not in (0, 1) else "")
    finally:
        shutil.rmtree(t)

bad = 0
with ThreadPoolExecutor(4) as ex:
    for name, out in ex.map(one, [r for r in REFS if not names or r[0] in names]):
        print(name, "quiet" if not out else "ALARM\n" + out, flush=True)
        bad += bool(out)
sys.exit(bad > 0)
