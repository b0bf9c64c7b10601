#!/usr/bin/env python3
"""Makes and confirms the planted bugs of seeded/ from the table in tools/seeds_table.py.

usage: seeds.py [ID...]   makes (or makes again) the named bugs, or those that do not exist yet
Each is confirmed in a scratch copy: it builds, the stable tests pass, and the demonstration
passes without the change and fails with it.
"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod")
BUGS = []

def bug(id, prop, edits, needs, breaks, demo, imports=(), cli=None):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, imports=imports, cli=cli))

SH = '''#!/bin/bash
# Run with the repository as working directory. Exit 0: the behaviour is right.
d=$(cd "$(dirname "$0")" && pwd)
export HOME="${HOME:-/root}" PATH=/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
o=$(mktemp -d) || exit 2
trap 'rm -rf "$o"' EXIT
'''
GOT = SH + '''printf '{"Replace": {"%s/pkg/geo/zz_demo_test.go": "%s/demo_test.go.txt"}}' "$PWD" "$d" > "$o/overlay.json"
go test -overlay "$o/overlay.json" -vet=off -count=1 -run '^TestDemo$' ./pkg/geo
'''
PRE = 'package geo_test\n\nimport (\n\t"testing"\n%s)\n\nfunc TestDemo(t *testing.T) {\n%s}\n'
M = "github.com/twuillemin/modes/pkg/"

exec(open(os.path.join(V, "tools", "seeds_table.py")).read())

def run(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, **k)

def make(b):
    d = os.path.join(V, "seeded", b["id"])
    os.makedirs(d, exist_ok=True)
    if b["cli"]:
        open(d + "/demo.sh", "w").write(SH + b["cli"])
    else:
        imps = ""
        for i in b["imports"]:
            a = ""
            if " " in i:
                a, i = i.split(" ")
                a += " "
            imps += '\t%s"%s"\n' % (a, i if i[0] == "=" else M + i)
        imps = imps.replace('"=', '"')
        body = "".join("\t" + l + "\n" if l else "\n" for l in b["demo"].strip("\n").split("\n"))
        open(d + "/demo_test.go.txt", "w").write(PRE % (imps, body))
        open(d + "/demo.sh", "w").write(GOT)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    t = tempfile.mkdtemp(prefix="seed-")
    try:
        w = t + "/repo"
        run(["git", "worktree", "prune"], "/repo")
        subprocess.run(["cp", "-a", "/repo", w], check=True)
        r = run(["bash", d + "/demo.sh"], w)
        if r.returncode:
            return "demo fails on the unchanged tree:\n" + r.stdout[-3000:] + r.stderr[-2000:]
        for f, old, new in b["edits"]:
            s = open(w + "/" + f).read()
            if s.count(old) != 1:
                return "%s: %d occurrences of %r" % (f, s.count(old), old)
            open(w + "/" + f, "w").write(s.replace(old, new))
        r = run(["go", "build", "./..."], w)
        if r.returncode:
            return "does not build: " + r.stderr
        r = run(["go", "test", "-vet=off", "-count=1", "./..."], w)
        if r.returncode:
            return "tests fail: " + "\n".join(l for l in r.stdout.split("\n") if "FAIL" in l)
        r = run(["bash", d + "/demo.sh"], w)
        if r.returncode == 0:
            return "demo passes with the change"
        diff = run(["git", "diff"], w).stdout
        open(d + "/patch.diff", "w").write(diff)
        r = run(["git", "apply", "--check", d + "/patch.diff"], "/repo")
        return "patch does not apply: " + r.stderr if r.returncode else None
    finally:
        shutil.rmtree(t)

def check(b, props):
    t = tempfile.mkdtemp(prefix="seed-")
    try:
        w = t + "/repo"
        subprocess.run(["cp", "-a", "/repo", w], check=True)
        run(["git", "apply", os.path.join(V, "seeded", b["id"], "patch.diff")], w)
        os.mkdir(t + "/v")
        shutil.copy(V + "/known-findings.txt", t + "/v/")
        r = run([V + "/analyzer/bin/modesan", "check", "-property", props, "-repo", w, "-verif", t + "/v"], V)
        return sorted({l.split("property=")[1].split()[0] for l in r.stdout.split("\n") if l.startswith("VIOLATION")})
    finally:
        shutil.rmtree(t)

if sys.argv[1:2] == ["check"]:
    for b in BUGS:
        if len(sys.argv) < 3 or b["id"] in sys.argv[2:]:
            got = check(b, "all")
            print(b["id"], b["prop"], "CAUGHT" if b["prop"] in got else "MISSED", " ".join(got), flush=True)
else:
    for b in BUGS:
        if b["id"] in sys.argv[1:] or (len(sys.argv) == 1 and not os.path.exists(os.path.join(V, "seeded", b["id"], "patch.diff"))):
            e = make(b)
            print(b["id"], e or "ok", flush=True)
