#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from props import P
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in sorted(P, key=lambda p: p['id']):
        assert len(p['title']) <= 80, p['title']
        d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']},
             'why_tests_cant': p['why'],
             'anchors': {'files': p['files'], 'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in p['state']],
                         'mechanism': [{'name': a, 'where': b} for a, b in p['mech']], 'observe_at': p['observe'], 'hook_needed': None}}
        f.write(json.dumps(d, ensure_ascii=False) + '\n')
m = {'version': 1, 'setup_cmd': 'python3-vt -c "import sys" && chmod +x engine/*.sh check.py',
     'hooks': {'guard': 'none', 'enable': 'no hooks: contract files include /repo sources unchanged', 'source_commits': []},
     'checks': [], 'not_applicable': []}
for p in sorted(P, key=lambda p: p['id']):
    if p['na']:
        m['not_applicable'].append({'property': p['id'], 'reason': p['na']})
    else:
        m['checks'].append({'property': p['id'], 'quick_cmd': 'python3 check.py %s quick' % p['id'], 'thorough_cmd': 'python3 check.py %s thorough' % p['id'],
                            'evidence_file': 'evidence/%s.json' % p['id'],
                            'technique': 'contract-based deductive verification: pre/postconditions on the real functions, obligations from their LLVM IR discharged by algebraic normalisation, z3 and cvc5',
                            'level': p['level'], 'level_note': p['note']})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
print(len(m['checks']), 'checks', len(m['not_applicable']), 'n/a')
# ---- DESIGN.md
T = os.path.join(V, 'tools')
out = open(os.path.join(T, 'design_head.md')).read()
out += '\n## Properties\n'
for p in sorted(P, key=lambda p: p['id']):
    out += '\n### %s %s\n\n%s\n\n' % (p['id'], p['title'], p['statement'])
    if p['na']:
        out += '**Not applicable**: %s\n' % p['na']
        continue
    out += '*How decided*: %s\n\n*Code*: %s\n\n*Why not by tests*: %s\n' % (p['note'], ', '.join(p['files']), p['why'])
kf = json.load(open(os.path.join(V, 'known_findings.json')))
out += '\n## Defects found\n\nRepaired by a `fix:` commit in /repo:\n\n'
for k in kf:
    if k['status'] == 'fixed':
        out += '* %s (%s): %s\n' % (k['property'], k['commit'], k['what'])
out += '\nRecorded, not repaired:\n\n'
for k in kf:
    if k['status'] == 'known':
        out += '* %s (%s): %s\n' % (k['property'], k['harness'], k['what'])
out += '\n## Planted bugs\n\n| bug | property | needs | caught by |\n|---|---|---|---|\n'
try:
    caught = json.load(open(os.path.join(T, 'caught.json')))
except FileNotFoundError:
    caught = {}
sd = os.path.join(V, 'seeded')
for i in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, i, 'meta.json')))
    out += '| %s | %s | %s | %s |\n' % (i, m['property'], m['needs'], caught.get(i, 'not run'))
tail = os.path.join(T, 'design_tail.md')
if os.path.exists(tail):
    out += '\n' + open(tail).read()
open(os.path.join(V, 'DESIGN.md'), 'w').write(out)
