#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that it stays well-formed)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe=(), state=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                    "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                    "observe_at": list(observe), "hook_needed": None}})
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'props_data.py')).read())
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as fh:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        fh.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P), 'properties')
