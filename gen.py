#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from texts.py and props.py."""
import json, props
from texts import TEXTS, NA
with open('properties.jsonl', 'w') as f:
    for pid in sorted(TEXTS):
        t = TEXTS[pid]
        f.write(json.dumps({'id': pid, 'title': t['title'], 'statement': t['statement'], 'quantifier': {'over': t['over'], 'text': t['quant']}, 'why_tests_cant': t['why'],
            'anchors': {'files': t['files'], 'mechanism': [{'name': n, 'where': w} for n, w in t['mech']], 'observe_at': t.get('observe', []), 'hook_needed': None}}) + '\n')
checks = []
for pid in sorted(props.PROPS):
    assert pid in TEXTS, pid
    P = props.PROPS[pid]
    conc = any(e.get('no_native') and e.get('preempt') for e in P['entries'])
    checks.append({'property': pid, 'quick_cmd': 'python3 check.py %s quick' % pid, 'thorough_cmd': 'python3 check.py %s thorough' % pid, 'evidence_file': 'evidence/%s.json' % pid,
        'technique': 'bounded symbolic execution of the LLVM IR of the real code, decided by Z3' + (', with explicit scheduling choices up to a preemption bound and happens-before race detection' if conc else ''),
        'level': 'model_checking', 'level_note': 'Holds for every value, operation sequence and (where threads are involved) schedule within these bounds: ' + '; '.join('%s: %s' % (e['name'], e['bounds']) for e in P['entries'] if e.get('bounds')) + '. ' + TEXTS[pid].get('note', '') + ' Trusted: clang 18, Z3, the models of libstdc++/libc/Poco in symx/rt*.cpp (cross-checked by replaying sampled paths natively where single-threaded).'})
na = [{'property': p, 'reason': r} for p, r in sorted(NA.items())]
assert set(props.PROPS) | set(NA) == set(TEXTS) and not set(props.PROPS) & set(NA), (set(TEXTS) ^ (set(props.PROPS) | set(NA)))
json.dump({'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': checks, 'not_applicable': na, 'notes': 'No hooks in /repo. See DESIGN.md.'}, open('MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
