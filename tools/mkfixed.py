#!/usr/bin/env python3
"""Rewrites the "fixed" list of known_findings.json from the fix: commits of /repo and the table below."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = {"C06": "9d045af", "C05": "9631469 5a17677 be4685c a5a0d64", "C03": "9c8934d 473f336 d87f205", "C01": "9365e40 6a3e488", "C02": "ef4a241",
 "C04": "0bd9746 6f1a4b4 a4253df", "C07": "d54ddfd 9eabada", "C08": "1ca9d25 b559593 c592066 878a723 2c0355f 00711d5 5eb4aea 88766c5", "C09": "8f37521 a376f4a",
 "C12": "314524d e292b9b 1d9ba87 5dd383e 48e5261", "C10": "9d633ff 3bdaebf 914656d a0aab5a a0ffcae 7097b6a 9d19156 7c6159c aeaae38 317ccd3", "C11": "513f3c0",
 "C16": "e75158f", "C15": "531bc8a f67d3ea 00ca913"}
if os.path.exists(os.path.join(V, "tools", "fixed2.json")):
    for k, v in json.load(open(os.path.join(V, "tools", "fixed2.json"))).items():
        PROPS[k] = (PROPS.get(k, "") + " " + v).strip()
by = {c: p for p, cs in PROPS.items() for c in cs.split()}
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "b86abc9..HEAD"], text=True).splitlines()
out, miss = [], []
for l in log:
    c, s = l.split(" ", 1)
    if not s.startswith("fix:"):
        continue
    if c not in by:
        miss.append(l); continue
    out.append("fixed: property=%s %s %s" % (by[c], c, s[5:]))
k = json.load(open(os.path.join(V, "known_findings.json")))
k["fixed"] = out
json.dump(k, open(os.path.join(V, "known_findings.json"), "w"), indent=1)
print("unattributed:", miss)
