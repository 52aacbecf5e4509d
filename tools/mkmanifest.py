"""Writes /verif/MANIFEST.json from properties.jsonl and the CLAIMED table."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
exec(open(os.path.join(HERE, "tools", "claims.py")).read())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        checks.append({"property": i,
                       "quick_cmd": "./check %s" % i,
                       "thorough_cmd": "./check %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": TECH.get(i, DEFAULT_TECH),
                       "level": "exploration",
                       "level_note": NOTE.get(i, DEFAULT_NOTE)})
    else:
        na.append({"property": i, "reason": NA[i]})
m = {"version": 1,
     "setup_cmd": "./setup.sh",
     "hooks": {"guard": "none", "enable": "no hooks in /repo: every seam (allocator, random, warnings, os, element callbacks, line events) is installed from /verif before the package is imported", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": NOTES}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
print(len(checks), "claimed", len(na), "not applicable")
