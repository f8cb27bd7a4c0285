#!/usr/bin/env python3
"""Writes MANIFEST.json: every property whose suite is registered is claimed, the others are listed as not built yet."""
import json, subprocess, re, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
src = ''.join(open(os.path.join(here, 'harness', f)).read() for f in os.listdir(os.path.join(here, 'harness')) if f.endswith('.go'))
built = set(re.findall(r'register\(&Suite\{ID: "(C\d\d)"', src))
from notes import NOTES
hook = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H %s'], capture_output=True, text=True).stdout
commits = [l.split()[0] for l in hook.splitlines() if l.split(' ', 1)[1].startswith('verif')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in built:
        t, n = NOTES[i]
        checks.append({"property": i, "quick_cmd": f"./check {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check {i}",
                       "technique": t, "level": "exploration", "level_note": n})
    else:
        na.append({"property": i, "reason": "suite not built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "verif", "enable": "go build -tags verif", "source_commits": commits},
     "checks": checks, "not_applicable": na,
     "notes": "./check <id> [--replay evidence/<id>.replay.json]; known findings and fixed defects in known-findings.txt"}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
open(os.path.join(here, 'MANIFEST.json'), 'a').write('\n')
