# -*- coding: utf-8 -*-
"""C37: the same calls give the same results in every process."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from mon.canon import differ, empty
from mon.core import REPO, VERIF

RULE = '''Batches of generated calls to every component (hangle, normalizers, tokenizers, counters and graphs, word and phrase scores, vectors, all noun
extractors, taggers and dictionaries, predicators, lemmas, POS extractors, pattern trainer, and files written by one process and read by
another), with many equal scores. Every batch is run in one process and again in processes that differ in hash randomization,
default text encoding (ASCII locale, UTF-8 mode off), working directory, python -O, state of the global random generators, and in the order
and repetition of the calls (everything called earlier there). Oracle: equal results, lists in order, sets and mappings as such, floats to 8
digits. Non-trivial: a result that is not empty; keyed by component and result.'''

ASSUMPTIONS = ['processes are on one machine with one version of Python, numpy and scikit-learn',
               'mappings and sets are compared as such: the order in which they iterate is not part of a result']

HEAVY = {'pos': (1, 1), 'nouns': (6, 12), 'nouns_v1': (5, 12), 'nouns_news': (5, 12), 'predicators': (6, 14), 'adverbs': (2, 3), '*': (24, 60)}
COMPONENTS = ('characters maxlr scored nounmatch wordscores bigram vectors contexts graphs linecorpus patterns nouns nouns_v1 nouns_news tagged '
              'dictionaries predicators pos lemmas adverbs configurations').split()


def run(m):
    m.require('hash', 'ascii', 'cwd', 'optimized', 'globals', 'reversed', 'shuffled', 'twice', 'file_of_another_process', *COMPONENTS)
    scratch = tempfile.mkdtemp(prefix='verif_c37_')
    merged = {}

    def body(c):
        rng = c.rng
        top = os.path.join(scratch, str(c.index))
        os.makedirs(os.path.join(top, 'elsewhere'))
        # every variant has its own hash seed as well
        seeds = rng.sample(range(1, 4294967295), 8)
        variants = [('hash', {}), ('hash2', {}), ('ascii', {'ascii': True}), ('cwd', {'cwd': True, 'order': 'shuffled'}),
                    ('optimized', {'O': True}), ('globals', {'globals': rng.randrange(2 ** 32), 'order': 'reversed'}),
                    ('twice', {'twice': True, 'order': 'shuffled'})]
        counts = {k: v[m.thorough] for k, v in HEAVY.items()}
        start = {k: c.index * v for k, v in counts.items()}
        c.note(seed=m.seed, start=start, counts=counts, hash_seeds=seeds)

        def launch(name, opts, load):
            out = os.path.join(top, name + '.json')
            cfg = {'verif': VERIF, 'repo': REPO, 'seed': m.seed, 'counts': counts, 'start': start, 'out': out, 'save': os.path.join(top, 'f_' + name),
                   'load': load, 'observe': name == 'base', **{k: opts[k] for k in ('order', 'globals', 'twice') if k in opts}}
            conf = os.path.join(top, name + '.conf')
            with open(conf, 'w', encoding='utf-8') as f:
                json.dump(cfg, f)
            env = {k: v for k, v in os.environ.items() if not k.startswith(('LC_', 'LANG', 'PYTHON'))}
            env.update(PYTHONHASHSEED=str(0 if name == 'base' else seeds[[v[0] for v in variants].index(name)]),
                       PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
            if opts.get('ascii'):
                env.update(LC_ALL='C', PYTHONCOERCECLOCALE='0', PYTHONUTF8='0')
            else:
                env.update(LC_ALL='C.UTF-8', PYTHONUTF8='1')
            err = open(os.path.join(top, name + '.err'), 'w')
            p = subprocess.Popen([sys.executable] + (['-O'] if opts.get('O') else []) + [os.path.join(VERIF, 'checks', 'c37_worker.py'), conf],
                                 env=env, cwd=os.path.join(top, 'elsewhere') if opts.get('cwd') else VERIF, stdout=subprocess.DEVNULL, stderr=err)
            return p, out, err

        def collect(name, p, out, err):
            try:
                p.wait(timeout=600)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                m.must(False, 'no-progress', 'process did not finish', variant=name)
            err.close()
            with open(err.name, errors='replace') as f:
                tail = f.read()[-1500:]
            m.must(p.returncode == 0 and os.path.exists(out), 'process-failed', 'the calls work in another process but not here',
                   variant=name, stderr=tail)
            with open(out, encoding='ascii') as f:
                return json.load(f)
        base = collect('base', *launch('base', {}, None))
        for f, ls in base['lines'].items():
            m.lines.hit[f].update(ls)
        running = [(n, o, launch(n, o, os.path.join(top, 'f_base'))) for n, o in variants]
        results = [(n, o, collect(n, *r)) for n, o, r in running]
        m.seen('file_of_another_process', os.path.exists(os.path.join(top, 'f_base')))
        for k, (v,) in base['results'].items():
            comp = k.split('/')[0]
            raised = isinstance(v, list) and v[:1] == ['raised']
            m.seen('raised_in_%s' % v[3] if raised else 'returned')
            if not raised and not empty(v):
                m.nontrivial(comp, json.dumps(v, sort_keys=True))
                m.seen(comp)
            for n, o, r in results:
                for turn, got in enumerate(r['results'].get(k, [['missing']])):
                    d = differ(v, got)
                    m.expect(d is None, 'differs:' + comp, 'the same call returned something else in another process',
                             call=k, variant=n, turn=turn, where=d and d[0], here=d and d[1], there=d and d[2])
        for n, o, r in results:
            m.seen('hash', r['hash'] != base['hash'])
            m.seen('ascii', bool(o.get('ascii')) and 'utf' not in r['encoding'].lower())
            m.seen('cwd', bool(o.get('cwd')))
            m.seen('optimized', r['optimized'])
            m.seen('globals', 'globals' in o)
            m.seen('twice', bool(o.get('twice')))
            m.seen(o.get('order', 'in_order'))
        shutil.rmtree(top)
    try:
        m.each('batch', m.n(2, 20), body)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
