#!/usr/bin/env python3
"""Regenerates MANIFEST.json, properties.jsonl and DESIGN.md from meta.py,
design_head.md and design_tail.md (a maintenance tool, not part of a check)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
TOP = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from meta import META, NOT_APPLICABLE     # noqa: E402

TECH = 'runtime monitoring: reference-model oracle over instrumented executions of the real code'
lines, checks = [], []
design = [open(os.path.join(HERE, 'design_head.md')).read().rstrip(), '']
seen = set()
for m in META:
    assert m['id'] not in seen
    seen.add(m['id'])
    assert len(m['title']) <= 80, m['id']
    assert os.path.exists(os.path.join(TOP, 'props', m['id'].lower() + '.py')), m['id']
    lines.append(json.dumps({
        'id': m['id'], 'title': m['title'], 'statement': m['statement'],
        'quantifier': {'over': m.get('over', ['inputs']), 'text': m['quant']},
        'why_tests_cant': m['why'],
        'anchors': {'files': ['pydatastructs/' + f for f in m['files']],
                    'state': [{'name': a, 'meaning': b} for a, b in m.get('state', [])],
                    'mechanism': [{'name': a, 'where': b} for a, b in m['mech']],
                    'observe_at': m.get('observe', ['public API return values and container contents']),
                    'hook_needed': None}}))
    checks.append({
        'property': m['id'],
        'quick_cmd': 'python3 check.py %s quick' % m['id'],
        'thorough_cmd': 'python3 check.py %s thorough' % m['id'],
        'technique': m.get('tech', TECH), 'level': 'exploration',
        'level_note': m.get('note', 'Holds on every execution observed (sampled, not exhaustive); '
                            'trusts the reference model in props/%s.py, CPython and the compiler.' % m['id'].lower())})
    design += ['### %s %s' % (m['id'], m['title']), '', m['statement'], '',
               '*Decided by:* ' + ' '.join(m['design'].split()), '']
design.append(open(os.path.join(HERE, 'design_tail.md')).read().rstrip())
design += ['', '### Planted bugs', '', '| bug | caught by | what it needs |', '|---|---|---|']
MISSED_FIRST = {'set-node-children', 'queue-dtype-reuse', 'sum-float', 'cart-trickle', 'matmul-identity', 'array-skip-equal',
                'doda-grow-identity', 'list-search-identity', 'segment-skip-equal', 'dinic-sink-identity', 'kmp-identity',
                'select-identity', 'mary-keyless', 'ek-back-flow'}
planted = os.path.join(TOP, 'seeded')
for sid in sorted(os.listdir(planted)) if os.path.isdir(planted) else ():
    m = json.load(open(os.path.join(planted, sid, 'meta.json')))
    design.append('| %s | %s%s | %s |' % (sid, m['property'], ' (after the check was strengthened)' if sid in MISSED_FIRST else '',
                                          m['needs'].replace('|', '/')))
for p in NOT_APPLICABLE:
    lines.append(json.dumps(p['line']))
with open(os.path.join(TOP, 'properties.jsonl'), 'w') as f:
    f.write('\n'.join(lines) + '\n')
with open(os.path.join(TOP, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': 'python3 setup_check.py', 'checks': checks,
               'not_applicable': [{'property': p['line']['id'], 'reason': p['reason']} for p in NOT_APPLICABLE],
               'notes': 'Every check builds the C++ extensions of /repo in a private temporary directory '
                        'and removes it; no hooks are needed in /repo.'}, f, indent=1)
    f.write('\n')
with open(os.path.join(TOP, 'DESIGN.md'), 'w') as f:
    f.write('\n'.join(design) + '\n')
try:
    import jsonschema
    for l in lines:
        jsonschema.validate(json.loads(l), json.load(open('/root/.vp/PROPERTIES.schema.json')))
    jsonschema.validate(json.load(open(os.path.join(TOP, 'MANIFEST.json'))),
                        json.load(open('/root/.vp/MANIFEST.schema.json')))
    print('valid:', len(checks), 'checks')
except ImportError:
    print('written (not validated: run with python3-vt)')
