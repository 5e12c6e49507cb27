#!/usr/bin/env python3-vt
"""Writes the per-property sections, the table of planted bugs and the findings of DESIGN.md from the property modules,
properties.jsonl, known_findings.json, seeded/*/meta.json and tools/caught.json (written by plant.py confirm)."""
import json, os, sys, importlib, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
MARK = '<!-- generated by tools/design.py from here on -->'
ps = [json.loads(l) for l in open(f'{V}/properties.jsonl')]
man = json.load(open(f'{V}/MANIFEST.json'))
kf = json.load(open(f'{V}/known_findings.json'))
na = {x['property'] if isinstance(x, dict) else x: x for x in man.get('not_applicable', [])}
ct = json.load(open(f'{V}/tools/caught.json')) if os.path.exists(f'{V}/tools/caught.json') else {}
o = [MARK, '', '## Properties', '']
for p in sorted(ps, key=lambda p: p['id']):
    i = p['id']
    o += [f"### {i} {p['title']}", '', p['statement'], '']
    if not os.path.exists(f'{V}/props/{i.lower()}.py'):
        continue
    m = importlib.import_module('props.' + i.lower())
    units = m.UNITS(None) if callable(m.UNITS) else m.UNITS
    names = []
    for u in units:
        if u.name not in names:
            names.append(u.name)
    o += [f"- *Proved* (harness/{m.HARNESS}, props/{i.lower()}.py): {m.EXPLANATION}.", f"- *Units under contract* ({len(names)}): {'; '.join(names)}."]
    if hasattr(m, 'CONFIGS'):
        o += [f"- *Configurations* (template arguments; quick runs the first {getattr(m, 'QUICK_CONFIGS', 2)}): {', '.join(c[0] for c in m.CONFIGS)}."]
    if getattr(m, 'BOUNDED', ''):
        o += [f"- *Bounded, never counted as proved* ({', '.join(sorted({d['src'] for d in m.DRIVERS}))}): {m.BOUNDED}."]
    o += ['- *Assumed*: ' + '; '.join(m.ASSUMPTIONS) + '.']
    sd = [os.path.basename(os.path.dirname(f)) for f in sorted(glob.glob(f'{V}/seeded/*/meta.json')) if json.load(open(f))['property'] == i]
    if sd:
        o += [f"- *Planted bugs*: {', '.join(sd)}."]
    o += ['']
o += ['## Not applicable', '']
for x in man.get('not_applicable', []):
    o.append('- ' + ': '.join(str(v) for v in x.values()))
o += ['', '## Defects found in kpsr-core', '', 'All of them were shown on the real code and repaired in /repo (one commit each).', '']
o += ['- ' + x for x in kf['fixed']] + ['- recorded, not repaired: ' + json.dumps(x) for x in kf['findings']]
o += ['', '## Planted bugs and what catches them', '', '| bug | property | what it needs | caught by |', '|---|---|---|---|']
for f in sorted(glob.glob(f'{V}/seeded/*/meta.json')):
    b = os.path.basename(os.path.dirname(f))
    d = json.load(open(f))
    o.append(f"| {b} | {d['property']} | {d['needs']} | {ct.get(b, '?')} |")
t = open(f'{V}/DESIGN.md').read().split(MARK)[0].rstrip('\n')
open(f'{V}/DESIGN.md', 'w').write(t + '\n\n' + '\n'.join(o) + '\n')
