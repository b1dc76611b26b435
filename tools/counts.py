#!/usr/bin/env python3
"""Collect the counts of the last run of every check into design_counts.json (for DESIGN.md only)."""
import json, glob, os
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(H)
r = {}
for f in sorted(glob.glob(V + '/evidence/C*.json')):
    e = json.load(open(f)); c = e['coverage']
    r[e['property']] = [c['discharged'], len(c['functions_under_contract']), round(c['smt_ms'] / 1000, 1)]
json.dump(r, open(H + '/design_counts.json', 'w'), indent=0)
print(sum(v[0] for v in r.values()), sum(v[1] for v in r.values()))
