#!/usr/bin/env python3
"""single source of properties.jsonl and MANIFEST.json: python3 tools/spec.py"""
import json, os, importlib.util
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []      # properties


def prop(pid, title, statement, over, text, why, files, mechanism, state=(), observe=(), check=None, technique="", level="exploration",
         note="", na=None):
    P.append(dict(pid=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism,
                  state=state, observe=observe, check=check, technique=technique, level=level, note=note, na=na))


spec = importlib.util.spec_from_file_location("props", os.path.join(V, "tools", "props.py"))
m = importlib.util.module_from_spec(spec)
m.prop = prop
spec.loader.exec_module(m)

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        assert p["statement"].count(". ") <= 2, p["pid"]
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]]}
        if p["state"]:
            a["state"] = [{"name": n, "meaning": g, "where": w} for n, g, w in p["state"]]
        if p["observe"]:
            a["observe_at"] = list(p["observe"])
        a["hook_needed"] = False
        f.write(json.dumps({"id": p["pid"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
man = {"version": 1, "setup_cmd": "cd sim && /opt/pymbs-venv/bin/python -m dst.build", "checks": [], "not_applicable": []}
for p in P:
    if p["na"]:
        man["not_applicable"].append({"property": p["pid"], "reason": p["na"]})
    else:
        man["checks"].append({"property": p["pid"], "quick_cmd": "./check %s --tier quick" % p["check"],
                              "thorough_cmd": "./check %s --tier thorough" % p["check"], "technique": p["technique"],
                              "level": p["level"], "level_note": p["note"]})
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(man["checks"]), "checks")
