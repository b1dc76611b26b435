#!/usr/bin/env python3
"""Writes MANIFEST.json from contracts/config.json and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
cfg = json.load(open(os.path.join(V, 'contracts', 'config.json')))
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    c = cfg.get(i)
    if not c or c.get('not_applicable'):
        na.append(dict(property=i, reason=(c or {}).get('not_applicable', 'not built yet')))
        continue
    checks.append(dict(property=i, quick_cmd=f'python3 tools/check.py {i} --tier quick', thorough_cmd=f'python3 tools/check.py {i} --tier thorough',
                       technique=c['technique'], level=c['level'], level_note=c['level_note']))
json.dump(dict(version=1, setup_cmd='bash tools/setup.sh', hooks=dict(guard='none', enable='no hooks: the checks use the public API and extract the source text of private functions', source_commits=[]),
               checks=checks, not_applicable=na,
               notes='See DESIGN.md. Contracts are in contracts/*.vrs, the extraction in tools/assemble.py, bounded stand-ins in harness/.'),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
