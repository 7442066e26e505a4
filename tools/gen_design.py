"""Fills the generated parts of DESIGN.md (method table, seeded table) between markers."""
import json, os, re, sys
sys.path.insert(0, os.path.dirname(__file__)); import cases
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = [json.loads(l) for l in open(V + '/properties.jsonl')]
b = []
for p in P:
    i = p['id']
    if i in cases.P:
        c = cases.P[i]
        hs = sorted({cases.H[x['h']]['file'] for x in c['quick'] + c.get('thorough', [])})
        b.append(f"* **{i} {p['title']}.** {c.get('method', cases.METHOD.get(i, ''))} Harness: {', '.join(h + '.cpp' for h in hs)}. Bounds: {c.get('bounds', '')}. Outside: {c.get('outside', '')}.")
    else: b.append(f"* **{i} {p['title']}.** Not applicable: {cases.NA.get(i, 'no check has been built for it yet')}.")
s = []
d = V + '/seeded'
caught = json.load(open(V + '/tools/caught.json')) if os.path.exists(V + '/tools/caught.json') else {}
for n in sorted(os.listdir(d)) if os.path.isdir(d) else []:
    m = json.load(open(f'{d}/{n}/meta.json')); s.append(f"* {n} ({m['property']}): {m['what_it_breaks']} — needs {m['needs']}. {caught.get(n, '')}")
t = open(V + '/tools/DESIGN.in.md').read()
open(V + '/DESIGN.md', 'w').write(t.replace('BODY\n', '\n'.join(b) + '\n').replace('SEEDED\n', '\n'.join(s) + '\n'))
