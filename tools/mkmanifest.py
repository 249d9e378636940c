#!/usr/bin/env python3
"""writes MANIFEST.json from props.py"""
import json, subprocess, sys
sys.path.insert(0, "/verif")
import props
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
hooks = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines()
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "hooks": {"guard": "verif", "enable": "go build -tags verif", "source_commits": [l.split()[0] for l in hooks if " verif: " in l]},
    "checks": [], "not_applicable": [],
}
for i in ids:
    if i in props.CHECKS:
        m["checks"].append({
            "property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
            "technique": props.TECHNIQUE[props.CHECKS[i][1]], "level": "model_checking", "level_note": props.NOTE[props.CHECKS[i][1]]})
    else:
        m["not_applicable"].append({"property": i, "reason": "its check is not built yet"})
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
