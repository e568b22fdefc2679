#!/usr/bin/env python3
"""Writes /verif/known_findings.jsonl: the recorded findings (hand-run when a finding is added; no check runs it).
The specific inputs are those the explorer reports on the unchanged tree in the spaces named *big-numbers*,
which hold only versions with a number above 2147483647."""
import json, subprocess
F = "a number above 2147483647 in a version is kept as text, so it orders below 0 and by spelling: "
out = []
for p in ("V02", "V04"):
    r = subprocess.run(["target/release/mc", "list-violations", p, "thorough", "big-numbers"], capture_output=True, text=True).stdout
    for l in r.splitlines():
        key = json.loads(l.split("\t")[2])
        out.append(json.dumps(dict(property=p, status="known", key=key, what=F + key.split(": ", 1)[1])))
g = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%H %s"], capture_output=True, text=True).stdout
WHERE = {  # subject of the fix -> properties it repairs
 "compare_to_version tested": "V05 P01", "comparison stopped at": "V03 V04", "version ordering was not": "V03 V04",
 "local version part was": "V03 V04", "parsing a version with a bad epoch": "V01", "operator specs swallowed": "S04",
 "malformed version specs": "S04", "matching a regex": "S03", "tree equality": "T05", "writing or debug": "T03 T06",
 "a parsed single-spec": "T04", "building a group": "T04", "malformed compound": "T02", "compound and regex": "T04",
 "repodata with an escaped": "D03", "loading a missing": "D02", "the compatible-release": "V05 S02 S04", "building a Python": "P01"}
for l in g.splitlines():
    h, s = l.split(" ", 1)
    if s.startswith("fix: "):
        for pre, ps in WHERE.items():
            if s[5:].startswith(pre):
                for p in ps.split():
                    out.append(f"fixed: property={p} {h} {s[5:]}")
                break
        else:
            raise SystemExit("no property for " + s)
open("known_findings.jsonl", "w").write("\n".join(out) + "\n")
print(len(out))
