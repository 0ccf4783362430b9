#!/usr/bin/env python3
# -*- coding: utf-8 -*-
"""Development tool (no check uses it): applies every planted change to a scratch copy of /repo, runs all or only the change's own
quick check on it and rewrites the table in DESIGN.md.   seeded.py [--all-checks] [ids...]"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
ids = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(os.listdir(os.path.join(HERE, 'seeded')))
every = '--all-checks' in sys.argv
CHECKS = [c['property'] for c in json.load(open(os.path.join(HERE, 'MANIFEST.json'), encoding='utf-8'))['checks']]


def one(i):
    src = os.path.join(HERE, 'seeded', i)
    meta = json.load(open(os.path.join(src, 'meta.json'), encoding='utf-8'))
    d = tempfile.mkdtemp(prefix='seeded_')
    try:
        repo, ver = os.path.join(d, 'repo'), os.path.join(d, 'verif')
        shutil.copytree('/repo', repo, symlinks=True, ignore=shutil.ignore_patterns('.git'))
        shutil.copytree(HERE, ver, ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence', 'replays'))
        subprocess.run(['patch', '-s', '-p1', '-i', os.path.join(src, 'patch.diff')], cwd=repo, check=True)
        env = dict(os.environ, SOYNLP_REPO=repo)
        caught, how = [], ''
        for c in (CHECKS if every else [meta['property']]):
            r = subprocess.run([PY, 'run.py', c, '--tier', 'quick', '--seed', '1'], cwd=ver, env=env, text=True, capture_output=True)
            if r.returncode == 1:
                caught.append(c)
                if c == meta['property']:
                    m = re.search(r'^\s+([^:\n]+):', r.stdout, re.M)
                    how = m.group(1) if m else ''
        return i, meta, caught, how
    finally:
        shutil.rmtree(d)


with ThreadPoolExecutor(3 if every else 5) as ex:
    rows = list(ex.map(one, ids))
for i, meta, caught, how in rows:
    print(i, meta['property'], 'caught by', ','.join(caught) or '-', how)
if len(ids) == len(os.listdir(os.path.join(HERE, 'seeded'))):
    p = os.path.join(HERE, 'DESIGN.md')
    s = open(p, encoding='utf-8').read()
    t = '| planted change | property | needs | caught by | first report |\n|---|---|---|---|---|\n' + ''.join(
        '| %s | %s | %s | %s | %s |\n' % (i, m['property'], m['needs'].replace('|', '/').replace('\n', ' '), ', '.join(c) or 'missed', h) for i, m, c, h in rows)
    a, b = '<!-- seeded -->\n', '<!-- /seeded -->'
    if a in s:
        s = s[:s.index(a) + len(a)] + t + s[s.index(b):]
        open(p, 'w', encoding='utf-8').write(s)
