import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOT_APPLICABLE, HOOKS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + "/properties.jsonl", "w") as fp:
    for p in PROPS:
        q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(q["title"]) <= 80, q["title"]
        fp.write(json.dumps(q) + "\n")
na = {x["property"] for x in NOT_APPLICABLE}
m = {"version": 1, "setup_cmd": "python3 vlib/build.py functor generics yosys", "hooks": {"guard": "VOSS_TEST_GC", "enable": "vlib/build.py compiles a scratch copy of /repo's sources with -DVOSS_TEST_GC",
     "source_commits": HOOKS}, "checks": [], "not_applicable": NOT_APPLICABLE}
for p in PROPS:
    if p["id"] in na:
        continue
    m["checks"].append({"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
                        "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                        "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks")
