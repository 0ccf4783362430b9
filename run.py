#!/usr/bin/env python3
# -*- coding: utf-8 -*-
"""run.py <ID> [--tier quick|thorough] [--seed N] [--replay FILE]

Runs one property's monitor against the soynlp in /repo's working tree.
exit 0 held on everything observed; 1 violated (VIOLATION line); 2 inconclusive.
"""
import os
import sys

if os.environ.get('PYTHONHASHSEED') != '0' or not sys.dont_write_bytecode:
    os.environ.update(PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1',
                      OMP_NUM_THREADS='2', OPENBLAS_NUM_THREADS='2')
    os.execv(sys.executable, [sys.executable] + sys.argv)

import argparse
import importlib
import json
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.pycache_prefix = None
warnings.simplefilter('ignore')

from mon import core  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--replay')
    a = ap.parse_args()
    only = None
    if a.replay:
        with open(a.replay, encoding='utf-8') as f:
            r = json.load(f)
        a.tier, a.seed = r['tier'], r['seed']
        if r.get('stage') is not None:
            only = (r['stage'], r['index'])

    sys.path.insert(0, core.REPO)
    props = {}
    with open(os.path.join(HERE, 'properties.jsonl'), encoding='utf-8') as f:
        for line in f:
            if line.strip():
                p = json.loads(line)
                props[p['id']] = p
    files = props[a.prop]['anchors']['files']
    m = core.Monitor(a.prop, a.tier, a.seed, files, only,
                     budget_s=float(os.environ.get('VERIF_BUDGET') or (240 if a.tier == 'quick' else 780)))
    m.lines.start()
    try:
        import soynlp
    except Exception as e:
        print('INCONCLUSIVE property=%s cannot import soynlp: %r' % (a.prop, e))
        return 2
    where = os.path.realpath(soynlp.__file__)
    if not where.startswith(os.path.realpath(core.REPO) + os.sep):
        print('INCONCLUSIVE property=%s soynlp imported from %s' % (a.prop, where))
        return 2
    mod = importlib.import_module('checks.%s' % a.prop.lower())
    m.rule = ' '.join((mod.RULE or '').split())
    m.assumptions = list(getattr(mod, 'ASSUMPTIONS', []))
    try:
        mod.run(m)
    except core.TooManyViolations:
        pass
    except Exception as e:
        # objects every case uses are made before the first case: a crash inside soynlp there is an observation too
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        if not tb or not os.path.realpath(tb[-1].filename).startswith(m.lines.root):
            raise
        m.current = None
        try:
            m.fail('exception:%s@%s' % (type(e).__name__, tb[-1].name), '%s: %s' % (type(e).__name__, e),
                   trace=['%s:%s %s' % (os.path.basename(f.filename), f.lineno, f.name) for f in tb][-8:])
        except core.TooManyViolations:
            pass
    m.lines.stop()

    if only is None:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', a.prop + '.json'), 'w', encoding='utf-8') as f:
            json.dump(m.evidence(), f, ensure_ascii=False, indent=1)

    for mech, what in m.known.items():
        print('KNOWN-FINDING: property=%s %s' % (a.prop, what))
    if m.violations:
        d = os.path.join(HERE, 'replays')
        os.makedirs(d, exist_ok=True)
        for i, v in enumerate(m.violations[:6]):
            path = os.path.join(d, '%s-%s-%d.json' % (a.prop, a.tier, i))
            with open(path, 'w', encoding='utf-8') as f:
                json.dump(v, f, ensure_ascii=False, indent=1)
            print('VIOLATION property=%s replay=%s' % (a.prop, path))
            print('  %s: %s' % (v['mechanism'], str(v['what'])[:300]))
            print('  inputs=%s' % json.dumps(v['inputs'], ensure_ascii=False)[:600])
            print('  witness=%s' % json.dumps(v['witness'], ensure_ascii=False)[:800])
        return 1
    missing = [l for l in m.required if not m.events.get(l)]
    if only is None and (missing or not m.decisions or not m.keys):
        print('INCONCLUSIVE property=%s never observed: %s (decisions=%d)' % (a.prop, missing, m.decisions))
        return 2
    print('HELD property=%s tier=%s seed=%d evaluations=%d decisions=%d distinct=%d wall=%.1fs' % (
        a.prop, a.tier, a.seed, m.evaluations, m.decisions, len(m.keys), m.evidence()['wall_s']))
    return 0


if __name__ == '__main__':
    try:
        rc = main()
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
