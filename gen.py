#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os
from props import PROPS, NA
R = os.path.dirname(os.path.abspath(__file__))
with open(R + '/properties.jsonl', 'w') as f:
    for pid in sorted({**PROPS, **NA}):
        p = PROPS.get(pid) or NA[pid]
        f.write(json.dumps({'id': pid, 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['quant']}, 'why_tests_cant': p['why'],
                            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}) + '\n')
checks = []
for pid in sorted(PROPS):
    p = PROPS[pid]
    checks.append({'property': pid, 'quick_cmd': 'python3 check.py ' + pid, 'thorough_cmd': 'python3 check.py %s --tier thorough' % pid, 'technique': p['technique'], 'level': 'other',
                   'level_note': p['note'] or 'static analysis: ' + p['explain']})
json.dump({'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': checks, 'not_applicable': [{'property': k, 'reason': NA[k]['reason']} for k in sorted(NA)],
           'notes': 'All checks read /repo through -I/repo, compile the harnesses to LLVM IR and analyse it; nothing of /repo is executed. Generated by gen.py from props.py.'}, open(R + '/MANIFEST.json', 'w'), indent=1)
