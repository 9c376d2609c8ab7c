#!/usr/bin/env python3
"""rewrites the 'fixed' list of known-findings.json from the fix: commits in /repo"""
import json, subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = json.load(open(os.path.join(V, "tools", "fixmap.json")))
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h%x09%s", "b9a2ddf..HEAD"], capture_output=True, text=True).stdout
out = []
for l in log.splitlines():
    h, s = l.split("\t", 1)
    if s.startswith("fix: "):
        pid = next((p for p, keys in MAP.items() if any(k in s for k in keys)), None)
        assert pid, s
        out.append("fixed: property=%s %s %s" % (pid, h, s[5:]))
p = os.path.join(V, "known-findings.json")
d = json.load(open(p))
d["fixed"] = out
json.dump(d, open(p, "w"), indent=1)
print(len(out))
