# -*- coding: utf-8 -*-
"""C36: the word-pattern trainer behind tokenizer building - counts, files, ranks."""
import contextlib
import io
import os
import shutil
import tempfile
from collections import Counter
from mon import text

RULE = '''random corpora (tiny alphabets, Korean words with particles, hostile text, tabs, blank and very short corpora, more than 40 sentences) x lengths x
minimum frequency x verbosity x scanned or caller-supplied word sets x save/load x ranks with several damping factors and iteration limits on the
trained or a supplied graph. Oracle: vocabulary, both graphs and the rank iteration recomputed from a recount. Non-trivial: some parts
reach the minimum and some do not; keyed by (corpus, options).'''


def run(m):
    from soynlp.tokenizer._tokenizer_builder import EojeolPatternTrainer
    m.require('scanned', 'given_sets', 'below_minimum', 'long_word', 'verbose', 'saved', 'ranks', 'converged', 'stopped', 'equal_parts', 'supplied_graph', 'tab', 'again')
    scratch = tempfile.mkdtemp(prefix='verif_c36_')

    def corpus(rng):
        k = rng.random()
        n = rng.choice((1, 3, 20, 39, 41, 100))
        if k < .5:
            ab = rng.choice(('가나', '가나다', 'ab가', '가(:)#>-1'))
            return [' '.join(text.small_words(rng, ab, rng.choice((2, 4, 9))) for _ in range(rng.randrange(0, 6))) for _ in range(n)]
        if k < .8:
            return [rng.choice((' ', '\t', '  ')).join(text.eojeol(rng) for _ in range(rng.randrange(0, 6))) for _ in range(n)]
        return [text.hostile(rng, 12) for _ in range(n)]

    def hits(lr, rl, total, df, iters, tol):
        """-> the ranks after every iteration, whether it converged"""
        L = {l: total / len(lr) for l in lr}
        R = {r: total / len(rl) for r in rl if r}
        done, out = False, []

        def norm(g):
            s = sum(g.values())
            return {w: df * total / s * v + (1 - df) * total / len(g) for w, v in g.items()}
        for _ in range(iters):
            nl = norm({l: sum(k * R[r] for r, k in d.items() if r) for l, d in lr.items()})
            nr = norm({r: sum(k * L[l] for l, k in d.items()) for r, d in rl.items() if r})
            diff = sum(abs(L[w] - nl[w]) for w in L) + sum(abs(R[w] - nr[w]) for w in R)
            L, R = nl, nr
            out.append((L, R, diff))
            if diff < total * tol:
                done = True
                break
        return out, done

    def body(c):
        rng = c.rng
        sents = corpus(rng)
        ml, mr, mf = rng.choice((1, 2, 3, 10)), rng.choice((1, 2, 3, 6)), rng.choice((1, 2, 3, 10))
        kw = dict(max_left_length=ml, max_right_length=mr, min_frequency=mf, verbose=rng.random() < .3)
        if rng.random() < .1:
            kw = {'verbose': kw['verbose']}
            ml, mr, mf = 10, 6, 10
            sents = sents * 4
        if rng.random() < .03:
            mf = kw['min_frequency'] = 150
            kw.setdefault('max_left_length', ml), kw.setdefault('max_right_length', mr)
            sents = sents * rng.choice((30, 60))
            m.seen('frequent')
        if rng.random() < .05:
            sents = sents + ['가' + '나다' * rng.choice((12, 30))] * 12
        c.note(sentences=sents, options=kw)
        m.seen('verbose', kw['verbose'])
        m.seen('tab', any('\t' in s for s in sents))
        words = Counter(w for s in sents for w in s.split())
        m.seen('long_word', any(len(w) > max(ml, mr) for w in words))
        Lc, Rc = Counter(), Counter()
        for w, k in words.items():
            for i in range(1, min(ml, len(w)) + 1):
                Lc[w[:i]] += k
            for i in range(1, min(mr, len(w))):
                Rc[w[-i:]] += k
        args = []
        if rng.random() < .3 and Lc and Rc:
            args = [set(rng.sample(sorted(Lc), rng.randrange(1, len(Lc) + 1))), set(rng.sample(sorted(Rc), rng.randrange(1, len(Rc) + 1)))]
            if rng.random() < .3:      # right words longer than the trainer would find by itself
                args[1].update(w[i:] for w in words for i in (1, 2) if len(w) > 8)
            L, R = set(args[0]), set(args[1])
            c.note(left_words=sorted(L), right_words=sorted(R))
            m.seen('given_sets')
        else:
            L, R = ({w for w, k in t.items() if k >= mf} for t in (Lc, Rc))
            m.seen('scanned')
            m.seen('below_minimum', len(L) < len(Lc))
        given = [set(a) for a in args]
        x = EojeolPatternTrainer(**kw)
        with contextlib.redirect_stdout(io.StringIO()):
            if rng.random() < .2:
                x.train(corpus(rng))
                m.seen('again')
            x.train(list(sents), *args)
        m.expect(args == given, 'given-sets-modified', got=args, want=given)
        m.eq(set(x.wordset_l), L, 'left-words')
        m.eq(set(x.wordset_r), R | {''}, 'right-words')
        lr, rl = {}, {}
        for w, k in words.items():
            for i in range(1, min(ml, len(w)) + 1):
                l, r = w[:i], w[i:]
                if l in L and (r in R or not r):
                    lr.setdefault(l, {})[r] = k
                    rl.setdefault(r, {})[l] = k
        m.eq(x.lrgraph, lr, 'left-graph')
        m.eq(x.rlgraph, rl, 'right-graph')
        if L and len(L) < len(Lc):
            m.nontrivial(sents, sorted(kw.items()), [sorted(a) for a in args])
        if rng.random() < .5:
            p = os.path.join(scratch, 'f%d' % (c.index % 3))
            x.save(p)
            y = EojeolPatternTrainer(max_left_length=7, max_right_length=7, min_frequency=7, verbose=not kw['verbose'])
            if rng.random() < .3:
                with contextlib.redirect_stdout(io.StringIO()):
                    y.train(['다른 말들 있다'] * 8)
            y.load(p)
            m.eq((y.lrgraph, y.rlgraph), (lr, rl), 'loaded-graphs')
            m.eq((y.max_left_length, y.max_right_length, y.min_frequency, bool(y.verbose)), (ml, mr, mf, kw['verbose']), 'loaded-options')
            m.seen('saved')
            x = y
        if not any(r for r in rl) or sum(k for d in lr.values() for r, k in d.items() if r) == 0:
            return
        hk = {}
        if rng.random() < .8:
            hk = dict(sum_of_rank=rng.choice((1, 100, 10000)), decaying_factor=rng.choice((.1, .5, .9)), max_iter=rng.choice((1, 2, 10, 60)),
                      tolerance=rng.choice((1e-12, .0001, .5)))
        if rng.random() < .2:
            hk.update(lrgraph={l: dict(d) for l, d in lr.items()}, rlgraph={r: dict(d) for r, d in rl.items()})
            x = EojeolPatternTrainer(verbose=kw['verbose'])
            m.seen('supplied_graph')
        with contextlib.redirect_stdout(io.StringIO()):
            gl, gr = x.train_hits(**hk)
        total = hk.get('sum_of_rank', 10000)
        tol = hk.get('tolerance', .0001)
        want, done = hits(lr, rl, total, hk.get('decaying_factor', .9), hk.get('max_iter', 10), tol)
        c.note(ranks={k: v for k, v in hk.items() if 'graph' not in k})
        m.eq((set(gl), set(gr)), (set(lr), set(rl) - {''}), 'ranked-words')
        m.close(sum(gl.values()), total, 'rank-sum-left', tol=1e-6 * total)
        m.close(sum(gr.values()), total, 'rank-sum-right', tol=1e-6 * total)
        near = any(abs(d - total * tol) < 1e-9 * total for _, _, d in want)
        wl, wr, _ = want[-1]
        if not near and set(gl) == set(wl) and set(gr) == set(wr):
            m.expect(all(abs(gl[w] - wl[w]) < 1e-7 * total for w in wl) and all(abs(gr[w] - wr[w]) < 1e-7 * total for w in wr), 'ranks',
                     got=(gl, gr), want=(wl, wr))
        m.seen('ranks')
        m.seen('converged' if done else 'stopped')
        m.seen('equal_parts', any(len(d) > len(set(d.values())) for d in rl.values()))
    try:
        m.each('corpora', m.n(1500, 40000), body)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
