#!/usr/bin/env python3
# -*- coding: utf-8 -*-
"""Writes properties.jsonl and MANIFEST.json from the table in tools/props.py.
A property is claimed when checks/<id>.py exists."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
sys.dont_write_bytecode = True
from props import PROPS, NOT_APPLICABLE  # noqa: E402

PY = '/opt/venv/bin/python'


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w', encoding='utf-8') as f:
        for p in PROPS:
            q = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
            assert len(q['title']) <= 80, q['title']
            for a in q['anchors']['files']:
                assert os.path.exists(os.path.join('/repo', a)), a
            f.write(json.dumps(q, ensure_ascii=False) + '\n')
    checks, na = [], list(NOT_APPLICABLE)
    for p in PROPS:
        i = p['id']
        if os.path.exists(os.path.join(HERE, 'checks', i.lower() + '.py')):
            checks.append({
                'property': i,
                'quick_cmd': '%s run.py %s --tier quick' % (PY, i),
                'thorough_cmd': '%s run.py %s --tier thorough' % (PY, i),
                'evidence_file': 'evidence/%s.json' % i,
                'technique': p['technique'],
                'level': 'exploration',
                'level_note': p['level_note'],
            })
        elif i not in [n['property'] for n in na]:
            na.append({'property': i, 'reason': 'check under construction; not claimed yet'})
    m = {
        'version': 1,
        'setup_cmd': '%s setup_check.py' % PY,
        'checks': checks,
        'not_applicable': na,
        'notes': 'Pure-Python target: no build step, checks import soynlp from /repo directly. '
                 'No hooks are added to /repo; monitors observe the public API at its boundary. '
                 'Replay a violation with: %s run.py <ID> --replay <file>.' % PY,
    }
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w', encoding='utf-8') as f:
        json.dump(m, f, ensure_ascii=False, indent=1)
        f.write('\n')
    print(len(PROPS), 'properties', len(checks), 'checks')


main()
