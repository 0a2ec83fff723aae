#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks present; validates it and properties.jsonl."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tools')
from techniques import T, NA
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks = []
for i in ids:
    if i in NA: continue
    t, note = T[i]
    checks.append({'property': i, 'quick_cmd': f'python3 check.py {i} quick', 'thorough_cmd': f'python3 check.py {i} thorough', 'evidence_file': f'evidence/{i}.json', 'technique': t, 'level': 'exploration', 'level_note': note})
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': [{'property': i, 'reason': r} for i, r in NA.items()]}
m['hooks'] = {'guard': 'HLC_VERIF_HOOKS', 'enable': '-DHLC_VERIF_HOOKS (lib/hv.py, variant asan)', 'source_commits': [l.split()[0] for l in subprocess.run(['git', '-C', '/repo', 'log', '--format=%H %s', 'b40eb9d..HEAD'], stdout=subprocess.PIPE, text=True).stdout.splitlines() if ' hook' in l]}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); print(len(checks), 'checks', len(NA), 'not applicable')
