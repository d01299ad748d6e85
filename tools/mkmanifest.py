"""writes MANIFEST.json from pbt/props and properties.jsonl"""
import json, os
R = "/verif"
props = [json.loads(l) for l in open(R + "/properties.jsonl") if l.strip()]
LEVEL_NOTE = json.load(open(R + "/tools/notes.json"))
NA = LEVEL_NOTE.pop("not_applicable", {})
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists("%s/pbt/props/p%s.py" % (R, i.lower())):
        n = LEVEL_NOTE[i]
        checks.append(dict(property=i, quick_cmd="bin/check " + i, thorough_cmd="VERIF_TIER=thorough bin/check " + i,
                           technique=n["technique"], level="exploration", level_note=n["note"]))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check yet")))
json.dump(dict(version=1, setup_cmd="bin/build", checks=checks, not_applicable=na,
               notes="Property-based testing with Hypothesis; no hooks in /repo are needed: everything is observed through the Python interface of the freshly built library. "
                     "bin/check ID [--replay FILE]; replays are plain JSON cases."), open(R + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
