#!/usr/bin/env python3
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/tools", V + "/checks", V + "/lib"]
import props, registry
NA = getattr(props, "NA", {})
with open(V + "/properties.jsonl", "w") as f:
    for p in props.PROPS:
        assert len(p["title"]) <= 80, p["id"]
        assert p["statement"].count(". ") <= 2, p["id"]
        f.write(json.dumps(p) + "\n")
ids = [p["id"] for p in props.PROPS]
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout
m = {"version": 1, "setup_cmd": "python3 setup.py",
     "hooks": {"guard": "none", "enable": "no hooks are needed: the checks compile the sources of /repo with -fsanitize=thread against their own runtime (rt/vs.cpp)", "source_commits": []},
     "checks": [], "not_applicable": []}
for i in ids:
    if i in registry.CHECKS:
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                            "technique": "TLA+ specification model-checked with TLC; traces of the real code under controlled schedules validated against it; specification-generated histories replayed",
                            "level": "model_checking",
                            "level_note": getattr(props, "NOTES", {}).get(i, "The TLA+ specification is checked exhaustively within small bounds; the implementation is bound to it by trace validation over many controlled schedules (random, priority-based and preemption-bounded systematic) of generated and random programs, so the code side is bounded exploration. Trusts the virtual pthread layer and sequential consistency.")})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "not yet built")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
