#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the property texts below (kept in one place so they stay in step)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HP = 'high_performance/modules/high_performance/include/klepsydra/high_performance/'
D4 = HP + 'disruptor4cpp/'
P = []
NA = []


def prop(id, title, statement, over, qtext, why, files, mech, state, observe, level='proof', note='', hook=None, technique=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state], observe_at=observe, hook_needed=hook),
                  _level=level, _note=note, _tech=technique))


def na(id, reason):
    NA.append((id, reason))


exec(open(os.path.join(V, 'tools', 'texts.py')).read())

TECH = ('contract-based deductive verification: pre/postconditions, rely/guarantee conditions on shared cells and inferred inductive loop '
        'invariants on the real functions; clang IR of /repo\'s current tree -> verification conditions -> z3/cvc5')
with open(f'{V}/properties.jsonl', 'w') as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}) + '\n')
nas = {a for a, _ in NA}
man = dict(version=1, setup_cmd='true', hooks=dict(guard='KPSR_VERIFY_HOOKS', enable='none: no hooks were needed, the machinery uses the unmodified headers and sources', source_commits=[]),
           checks=[dict(property=p['id'], quick_cmd=f"./check {p['id']}", thorough_cmd=f"VERIF_TIER=thorough ./check {p['id']}", evidence_file=f"evidence/{p['id']}.json",
                        technique=p['_tech'] or TECH, level=p['_level'], level_note=p['_note']) for p in P if p['id'] not in nas],
           not_applicable=[dict(property=a, reason=r) for a, r in NA],
           notes='Each check compiles /repo\'s current headers/sources to LLVM IR, generates verification conditions for every contract and discharges them; bounded drivers replay failures on the real code. See DESIGN.md.')
json.dump(man, open(f'{V}/MANIFEST.json', 'w'), indent=1)
