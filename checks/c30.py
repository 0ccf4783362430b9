# -*- coding: utf-8 -*-
"""C30: Bigram extractor against a recount."""
import math
from collections import Counter
from mon import text
from mon.canon import spoil

RULE = '''random corpora (repeated words, words repeated in succession, empty and one-word sentences, empty corpus) x minimum frequency x
pruning interval x tokenizer x method x threshold x limit, with repeated extraction and retraining on another corpus; counts, scores and the selection
recomputed. Non-trivial: the threshold or limit removes some but not all held pairs; keyed by (corpus, configuration).'''


def run(m):
    from soynlp.word._phrase import Bigram
    m.require('held', 'below_min', 'threshold_cut', 'topk_cut', 'pmi', 'mikolov', 'frequency', 'pruned', 'retrained', 'empty', 'long', 'vocabulary', 'frequent', 'many', 'many_pairs')

    def body(c):
        rng = c.rng

        def corpus():
            n = rng.choice((0, 1, 4, 12, 40, 90))
            if rng.random() < .008:
                n = rng.choice((2999, 3001, 7000))
                m.seen('large')
            y = rng.random() if cp < 1 or cp > 999 else 1
            if c.index < 5:
                y = (.001, .007, .01, .012, .0128)[c.index]
            if y < .006:
                m.seen('long')
                return [' '.join(rng.choice('가나다') for _ in range(k)) for k in (6001 if c.index == 0 else rng.randrange(201, 900), 3)] * rng.randrange(1, 4)
            if y < .009:
                m.seen('vocabulary')
                return [' '.join('%s%d' % (x, rng.randrange(400)) for x in '가나다가') for _ in range(1200)] * 2
            if y < .011:
                m.seen('frequent')
                return [' '.join(rng.choice(('가', '가', '가', '나')) for _ in range(20))] * 2500 + ['다 다']
            if y < .0125:
                m.seen('many')
                return [' '.join(rng.choice('가나다') + str(rng.randrange(60)) for _ in range(2)) for _ in range(31000)]
            if y < .013:
                m.seen('many_pairs')
                k = rng.choice((70000, 120000))
                ws = ['w%d' % i for i in range(k)]
                return [' '.join(ws[i:i + 50]) for i in range(0, k, 50)] * 2
            return text.small_corpus(rng, n, rng.choice(('가나', '가나다', '가나다라마바')), rng.choice((1, 1, 2)), rng.choice((2, 5, 9)))
        mf = rng.choice((1, 1, 2, 3, 5))
        kw = dict(min_frequency=mf, verbose=rng.random() < .2, score=rng.choice(('frequency', 'pmi', 'mikolov')))
        if mf == 5 and rng.random() < .5:
            kw.pop('min_frequency')
        cp = 100000
        if c.index == 4:
            mf = kw['min_frequency'] = 2
        if rng.random() < .3 and c.index > 4:
            cp = kw['filtering_checkpoint'] = rng.choice((0, -1, 1, 2, 5, 10, 1000, 10000))
        sents = corpus()
        tok = lambda s: s.split()
        name = rng.choice(('split', 'split', 'chars', 'tuple', 'blanks'))
        if name == 'blanks':
            tok = lambda s: s.replace('가', ' ').split(' ')
        if name == 'chars':
            tok = lambda s: [x for x in s if x != ' ']
        elif name == 'tuple':
            tok = lambda s: tuple(s.split())
        if name != 'split':
            kw['tokenizer'] = tok
        c.note(sentences=sents, tokenizer=name, config={k: v for k, v in kw.items() if k != 'tokenizer'})
        b = Bigram(**kw)
        m.expect(not b.is_trained, 'trained-before-training')

        def check(sents):
            frozen = list(sents)
            b.train(sents)
            m.eq(sents, frozen, 'sentences-modified')
            cnt = {}
            for i, s in enumerate(sents):
                if cp > 0 and i % cp == 0:
                    k = {p: f for p, f in cnt.items() if f >= mf}
                    m.seen('pruned', len(k) < len(cnt))
                    cnt = k
                w = list(tok(s))
                for j in range(1, len(w)):
                    cnt[(w[j - 1], w[j])] = cnt.get((w[j - 1], w[j]), 0) + 1
            held = {p: f for p, f in cnt.items() if f >= mf}
            m.seen('held', len(held))
            m.seen('below_min', len(cnt) - len(held))
            m.seen('empty', not sents)
            uni = Counter()
            for (x, y), f in held.items():
                uni[x] += f
                uni[y] += f
            N = 2 * sum(held.values())
            sc = {}
            for p, f in held.items():
                base = uni[p[0]] * uni[p[1]]
                sc[p] = {'frequency': f, 'pmi': math.log(N * f / base), 'mikolov': (f - mf) / base}[kw['score']]
            if held:
                m.seen(kw['score'])
            # everything held, whatever the scores
            spoil(b.extract(threshold=-1e9))
            full = b.extract(threshold=-1e9)
            m.eq({p: s.frequency for p, s in full.items()}, held, 'held-frequencies')
            for p in held:
                m.close(full[p].score, sc[p], 'score', pair=p) if p in full else None
            vals = sorted(sc.values())
            # a pair whose score is the threshold is kept
            for p in rng.sample(sorted(full), min(3, len(full))):
                m.expect(p in b.extract(threshold=full[p].score), 'score-equal-to-threshold', pair=p, score=full[p].score)
            m.eq(dict(b.extract()), dict(b.extract(-1, 0)), 'default-arguments')
            m.expect(set(b.extract()) >= {p for p in full if full[p].score >= 0} and all(s.score >= 0 for s in b.extract().values()), 'default-threshold')
            for _ in range(3):
                th = rng.choice((0, 0, 1, -1, 2, .05, 1.5, 2.5) + ((rng.choice(vals),) if vals else ()))
                k = rng.choice((-1, -1, 0, 1, 2, 3, 10, 600, 1000))
                got = b.extract(k, th) if rng.random() < .5 else b.extract(topk=k, threshold=th)
                near = [p for p in held if abs(sc[p] - th) < 1e-9 * max(1, abs(th)) and kw['score'] != 'frequency']
                sure = {p for p in held if sc[p] >= th} - set(near)
                m.expect(set(got) <= sure | set(near), 'unsupported-pair', got=dict(got), want=sure, threshold=th)
                for p, s in got.items():
                    m.eq(s.frequency, held.get(p), 'frequency', pair=p)
                    m.close(s.score, sc.get(p, math.nan), 'score', pair=p)
                if k <= 0:
                    m.expect(sure <= set(got), 'pair-missing', got=dict(got), want=sure, threshold=th)
                else:
                    m.expect(len(got) <= k, 'limit', got=dict(got), topk=k)
                    m.expect(len(got) >= min(k, len(sure)), 'limit-too-few', got=dict(got), topk=k, available=len(sure))
                    if len(sure) > k:
                        m.seen('topk_cut')
                        worst = min(sc[p] for p in got)
                        m.expect(all(sc[p] <= worst + 1e-9 for p in sure - set(got)), 'not-the-best', got=dict(got), topk=k)
                if 0 < len(sure) < len(held):
                    m.seen('threshold_cut')
                    m.nontrivial(sents, sorted((a, str(v)) for a, v in kw.items() if a != 'tokenizer'), name, k, th)
        check(sents)
        m.expect(bool(b.is_trained) or not b.extract(threshold=-1e9), 'is_trained')
        if rng.random() < .4:
            check(corpus())
            m.seen('retrained')
    m.each('corpora', m.n(2500, 50000), body)
