#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of claimed properties."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import claims
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
m = {
    'version': 1,
    'setup_cmd': 'python3 tools/setup.py',
    'checks': [],
    'not_applicable': [],
    'notes': 'No hook is needed in /repo: the checks use the public interface and the existing `benchmarking` feature. Known findings and repairs: known-findings.txt. Design: DESIGN.md.',
}
for p in props:
    if p['id'] in claims.CLAIMS:
        t, n = claims.CLAIMS[p['id']]
        m['checks'].append({
            'property': p['id'],
            'quick_cmd': f'python3 check.py {p["id"]} quick',
            'thorough_cmd': f'python3 check.py {p["id"]} thorough',
            'evidence_file': f'evidence/{p["id"]}.json',
            'technique': t,
            'level': 'exploration',
            'level_note': n,
        })
    else:
        m['not_applicable'].append({'property': p['id'], 'reason': claims.LEFT.get(p['id'], 'the check is not built yet')})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
