#!/usr/bin/env python3
"""Samples small changes of the repository (analyzer/cmd/mutate) and tells which of those that
build and pass the tests no check reports.

usage: mutants.py N [-seed S] [-kinds a,b] [-jobs J] [-skip FILE] > log
Each line: ID file:line kind old -> new  VERDICT, where the verdict is the list of properties that
report it, BUILD (does not build), TESTS (the tests notice, no fast check does) or SURVIVED.
"""
import collections, glob, json, os, random, shutil, subprocess, sys, tempfile, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOMAXPROCS="2")
SLOW = ["P01", "P02", "P03", "P28", "P36"]

def opt(n, d):
    return sys.argv[sys.argv.index(n) + 1] if n in sys.argv else d

def sh(cmd, cwd, timeout=900):
    try:
        return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(cmd, 99, "TIMEOUT", "")

def main():
    t = tempfile.mkdtemp(prefix="mutants-")
    sh(["go", "build", "-o", t + "/mutate", "./cmd/mutate"], V + "/analyzer")
    sh(["go", "build", "-o", t + "/modesan", "."], V + "/analyzer")
    all = [json.loads(l) for l in sh([t + "/mutate", "/repo"], V).stdout.splitlines()]
    byfn = {}
    for f in glob.glob(V + "/evidence/P*.json"):
        for fn in json.load(open(f))["coverage"].get("functions", []):
            byfn.setdefault(fn, set()).add(os.path.basename(f)[:-5])
    kinds = opt("-kinds", None)
    ids = opt("-ids", None)
    bykind = collections.defaultdict(list)
    for m in all:
        if (not kinds or m["Kind"] in kinds.split(",")) and (not ids or str(m["ID"]) in ids.split(",")):
            bykind[m["Kind"]].append(m)
    rnd = random.Random(int(opt("-seed", "1")))
    for k in sorted(bykind):
        rnd.shuffle(bykind[k])
    n = int(sys.argv[1])
    todo = []
    while len(todo) < n and any(bykind.values()):
        for k in sorted(bykind):
            # the larger kinds are taken more often
            for _ in range(1 + len(bykind[k]) // 300):
                if bykind[k]:
                    todo.append(bykind[k].pop())
    skip = set(open(opt("-skip", "/dev/null")).read().split())
    todo = [m for m in todo[:n] if str(m["ID"]) not in skip]
    lock = threading.Lock()
    count = collections.Counter()

    def modesan(w, props, v):
        r = sh([t + "/modesan", "check", "-property", ",".join(props), "-repo", w, "-verif", v], V)
        got = sorted({l.split("property=")[1].split()[0] for l in r.stdout.split("\n") if l.startswith("VIOLATION")})
        if r.returncode not in (0, 1) or (r.returncode == 1 and not got):
            got = ["EXIT%d:%s" % (r.returncode, (r.stdout + r.stderr)[-200:].replace("\n", " "))]
        return got

    def work(i):
        w, v = "%s/r%d" % (t, i), "%s/v%d" % (t, i)
        subprocess.run(["cp", "-a", "/repo", w], check=True)
        os.mkdir(v)
        shutil.copy(V + "/known-findings.txt", v)
        while True:
            with lock:
                if not todo:
                    return
                m = todo.pop(0)
            f = w + "/" + m["File"]
            src = open(f, "rb").read()
            end = m["End"]
            if m["Kind"] == "drop-field" and src[end:end+1] == b",":
                end += 1
            open(f, "wb").write(src[:m["Start"]] + m["Repl"].encode() + src[end:])
            try:
                if sh(["go", "build", "./..."], w).returncode:
                    verdict = "BUILD"
                else:
                    props = byfn.get(m["Func"], set()) | byfn.get(m["Func"].replace("(*", "("), set())
                    fast = sorted(props - set(SLOW)) or ["P04"]
                    if m["Func"].endswith(".init"):
                        fast = sorted({p for s in byfn.values() for p in s} - set(SLOW))
                    got = modesan(w, fast, v)
                    if got:
                        verdict = " ".join(got)
                    elif sh(["go", "test", "-vet=off", "-count=1", "./..."], w, 120).returncode:
                        verdict = "TESTS"
                    else:
                        got = modesan(w, SLOW, v)
                        verdict = "slow: " + " ".join(got) if got else "SURVIVED"
            finally:
                open(f, "wb").write(src)
            with lock:
                count[verdict if verdict in ("BUILD", "TESTS", "SURVIVED") else "slow" if verdict.startswith("slow") else "caught"] += 1
                print("%d %s:%d %s [%s] %r -> %r  %s" % (m["ID"], m["File"], m["Line"], m["Func"].split("/")[-1], m["Kind"], m["Old"][:60], m["Repl"][:60], verdict), flush=True)
    ts = [threading.Thread(target=work, args=(i,)) for i in range(int(opt("-jobs", "3")))]
    for x in ts: x.start()
    for x in ts: x.join()
    print(dict(count))
    shutil.rmtree(t)

main()
