#!/usr/bin/env python3
"""writes MANIFEST.json and properties.jsonl from one table (props.py)"""
import json, os
from props import PROPS, NOTAPP, MISSED
D = os.path.dirname(os.path.abspath(__file__))
with open(D + '/properties.jsonl', 'w') as f:
    for p in PROPS + NOTAPP:
        q = {k: v for k, v in p.items() if k not in ('note', 'reason', 'tech', 'how')}
        f.write(json.dumps(q) + '\n')
T = 'contract-based deductive verification: contracts, loop invariants and class invariants discharged per function by z3 over LLVM IR extracted from /repo on every run'
man = {'version': 1, 'setup_cmd': 'python3-vt -c "import z3"',
       'checks': [{'property': p['id'], 'quick_cmd': 'python3-vt /verif/run.py %s --tier quick' % p['id'], 'thorough_cmd': 'python3-vt /verif/run.py %s --tier thorough' % p['id'],
                   'technique': p.get('tech', T), 'level': 'proof', 'level_note': p['note']} for p in PROPS],
       'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in NOTAPP]}
json.dump(man, open(D + '/MANIFEST.json', 'w'), indent=1)

import glob
s = open(D + '/design.in.md').read()
rows = ['| seed | property | needs | what it breaks | caught by |', '|---|---|---|---|---|']
for m in sorted(glob.glob(D + '/seeded/*/meta.json')):
    d = json.load(open(m)); rows.append('| %s | %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(m)), d['property'], d['needs'], d['what_it_breaks'], d['property'] if os.path.basename(os.path.dirname(m)) not in MISSED else 'missed: ' + MISSED[os.path.basename(os.path.dirname(m))]))
s = s.replace('@@SEEDS@@', '\n'.join(rows)).replace('@@MORE@@\n', ''.join('| %s | %s | %s | %s |\n' % (p['id'], p['title'], ', '.join(m['name'] for m in p['anchors']['mechanism']), p['how']) for p in PROPS if 'how' in p))
k = json.load(open(D + '/known_findings.json')); listed = set(s.split('## 3.')[1].split('##')[0].replace(',', ' ').split())
s = s.replace('@@FIXES@@\n', ''.join('| %s | %s | %s |\n' % (f.get('commit', f['status']), f['property'], f['what']) for f in k if f.get('commit') not in listed))
s = s.replace('@@NOTAPP@@', '\n'.join('* **%s %s** - %s' % (p['id'], p['title'], p['reason']) for p in NOTAPP))
open(D + '/DESIGN.md', 'w').write(s)
