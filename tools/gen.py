#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, quant, why, files, mech, observe, technique=None, note="", over=("inputs",), state=()):
    P.append(dict(id=id, title=title, statement=statement, quant=quant, why=why, files=files, mech=mech,
                  observe=observe, technique=technique, note=note, over=list(over), state=list(state)))

AI = "abstract interpretation of go/ssa in a relational bit-level domain (one forward pass with joins)"
TAB = AI + " compared with a reviewed layout table"

READ = "The library readers that turn bytes into values"
ALL7 = "every 7-byte content (all 56 bits unknown at once)"
ALLM = "every 7-byte and 14-byte message, and every other length"

exec(open(os.path.join(V, "tools", "props.py")).read())

def main():
    import subprocess
    built = set(subprocess.run([os.path.join(V, "analyzer/bin/modesan"), "list"], capture_output=True, text=True, check=True).stdout.split())
    global P
    for p in P:
        if p["technique"] and p["id"] not in built:
            print("not built:", p["id"])
    P = [p for p in P if p["technique"] is None or p["id"] in built]
    ids = [p["id"] for p in P]
    assert len(set(ids)) == len(ids)
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in sorted(P, key=lambda p: p["id"]):
            assert len(p["title"]) <= 80, p["title"]
            rec = dict(id=p["id"], title=p["title"], statement=p["statement"],
                       quantifier=dict(over=p["over"], text=p["quant"]), why_tests_cant=p["why"],
                       anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                                    observe_at=p["observe"], hook_needed=None))
            if p["state"]:
                rec["anchors"]["state"] = [dict(name=a, meaning=b) for a, b in p["state"]]
            f.write(json.dumps(rec, ensure_ascii=False) + "\n")
    checks, na = [], []
    for p in sorted(P, key=lambda p: p["id"]):
        if p["technique"] is None:
            na.append(dict(property=p["id"], reason=p["note"]))
            continue
        checks.append(dict(property=p["id"], quick_cmd="bash check.sh %s quick" % p["id"],
                           thorough_cmd="bash check.sh %s thorough" % p["id"],
                           evidence_file="evidence/%s.json" % p["id"], technique=p["technique"], level="other",
                           level_note=(p["note"] + " " if p["note"] else "") + BASE))
    m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na, notes=NOTES)
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")

BASE = ("Sound over every input within the domain: a value, branch or loop that the domain cannot follow is reported as a "
        "violation, never passed over. Trusted: the Go type checker and go/ssa, the transfer functions of analyzer/ai "
        "(including the models of the standard library functions used), and the reviewed tables. Floating point is compared "
        "as real-number expressions, so a change of rounding alone is not seen.")
NOTES = ("All checks are one analyzer (analyzer/, Go, golang.org/x/tools/go/ssa from the module cache) that loads /repo's current "
         "source on each run. No hooks in /repo. The quick tier covers all inputs; the thorough tier repeats each check on the GOARCH=386 "
         "configuration (32-bit int), and P36 on more combinations of lines. Genuine defects found were repaired by the 'fix:' commits listed in known-findings.txt.")
main()
