#!/usr/bin/env python3
"""Write DESIGN.md from design_head.md, the contract configuration, the seeded bugs and design_tail.md."""
import json, os, glob
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(H)
cfg = json.load(open(V + '/contracts/config.json'))
props = {}
for l in open(V + '/properties.jsonl'):
    p = json.loads(l); props[p['id']] = p
man = json.load(open(H + '/design_counts.json')) if os.path.exists(H + '/design_counts.json') else {}
o = [open(H + '/design_head.md').read(), '\n## 2. The properties\n']
for pid in sorted(cfg):
    c = cfg[pid]
    if 'not_applicable' in c:
        o.append(f"### {pid} {props.get(pid, {}).get('title', '')}\nNot applicable: {c['not_applicable']}\n"); continue
    n = man.get(pid)
    o.append(f"### {pid} {props[pid]['title']}\n" + (f"{n[0]} obligations over {n[1]} functions of /repo, {n[2]} s solver time.\n" if n else ''))
    o.append(f"* Specified and proved: {c['level_note']}")
    o.append("* Trusted: " + '; '.join(c['trusted']) + '.')
    o.append("* Assumed: " + '; '.join(c['assumptions']) + '.')
    o.append(f"* Bounded part (oracle written independently of the code): {c['bounded']}.\n")
o.append('## 3. Planted bugs\n\nEach is a patch that compiles and passes the existing tests, with a demonstration (`seeded/<id>/`). "obligation" names a failed obligation of the contracts, "input" a failing input on the compiled code.\n')
o.append('| bug | property | what it breaks | caught by |\n|---|---|---|---|')
res = json.load(open(H + '/seeded_results.json')) if os.path.exists(H + '/seeded_results.json') else {}
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    o.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {res.get(i, '?')} |")
o.append('')
o.append(open(H + '/design_tail.md').read())
open(V + '/DESIGN.md', 'w').write('\n'.join(o))
