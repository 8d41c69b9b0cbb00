"""Writes MANIFEST.json from the table below."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'tools'))
from manifest_data import CHECKS, NOT_APPLICABLE

props = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
checks = []
for pid, (tech, note) in sorted(CHECKS.items()):
    checks.append({'property': pid, 'quick_cmd': 'python3 -m sa.run ' + pid,
                   'thorough_cmd': 'VERIF_TIER=thorough python3 -m sa.run ' + pid,
                   'technique': tech, 'level': 'other', 'level_note': note})
na = [{'property': p, 'reason': NOT_APPLICABLE.get(p, 'no check built yet')} for p in props if p not in CHECKS]
m = {'version': 1, 'setup_cmd': 'python3 -c "import ast, json"', 'checks': checks, 'not_applicable': na,
     'notes': 'All checks are static analyses of /repo (nothing of crazy-complete is imported or run). '
              'The genuine defects found are repaired by the fix: commits and listed in known_findings.json.'}
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
