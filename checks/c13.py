# -*- coding: utf-8 -*-
"""C13: EojeolCounter exact counts and coverage, history monitor."""
from collections import Counter
from mon import text

RULE = '''random corpora (tiny alphabets for heavy repetition, hostile sentences, blank sentences, exotic whitespace) x minimum count,
maximum length, pruning interval, preprocessing; then random histories of lookups, filtered listings, removals (set/list/dict, known,
unknown, empty) compared after each step with a Counter model. Non-trivial: a removal that removed some but not all words; keyed by
(corpus, configuration, history).'''


def model_count(sents, min_count, max_length, cp, pre):
    cnt = {}
    for i, s in enumerate(sents):
        if min_count > 1 and cp > 0 and i > 0 and i % cp == 0:
            cnt = {w: n for w, n in cnt.items() if n >= min_count}
        for w in pre(s).split():
            if len(w) <= max_length:
                cnt[w] = cnt.get(w, 0) + 1
    return {w: n for w, n in cnt.items() if n >= min_count}


def run(m):
    from soynlp.utils import EojeolCounter
    m.require('counted', 'pruned', 'too_long', 'below_min', 'partial_removal', 'preprocess', 'coverage')

    def body(c):
        rng = c.rng
        n = rng.choice((1, 2, 5, 12, 40))
        if rng.random() < .6:
            sents = text.small_corpus(rng, n, rng.choice(('가', '가나', '가나다')), rng.choice((2, 4)))
        else:
            sents = [text.hostile(rng) if rng.random() < .4 else text.sentence(rng) for _ in range(n)]
        if rng.random() < .05:
            sents += [' '.join([rng.choice(('가', '가나', '많은말')) for _ in range(rng.choice((300, 1500)))])]
        if rng.random() < .3:
            sents[rng.randrange(n)] += rng.choice(('\t가나', '\u3000가나', '  가나  ', '\n가\n'))
        kw = {}
        if rng.random() < .7:
            kw['min_count'] = rng.choice((1, 2, 3, 5))
        if rng.random() < .6:
            kw['max_length'] = rng.choice((0, 1, 2, 3, 4, 15, 16, 40))
        if rng.random() < .4:
            kw['filtering_checkpoint'] = rng.choice((1, 2, 3, 7))
        pre = lambda s: s
        if rng.random() < .3:
            pre = rng.choice((lambda s: s.replace('가', '나'), lambda s: s[:5], lambda s: ' '.join(s)))
            kw['preprocess'] = pre
            m.seen('preprocess')
        if rng.random() < .2:
            kw['verbose'] = True
        c.note(sentences=sents, config={k: v for k, v in kw.items() if k != 'preprocess'})
        mc, ml, cp = kw.get('min_count', 1), kw.get('max_length', 15), kw.get('filtering_checkpoint', 0)
        want = model_count(sents, mc, ml, cp, pre)
        true = Counter(w for s in sents for w in pre(s).split())
        if any(want.get(w, 0) < k for w, k in true.items() if k >= mc and len(w) <= ml):
            m.seen('pruned')
        m.seen('too_long', sum(len(w) > ml for w in true))
        m.seen('below_min', sum(k < mc for k in true.values()))
        frozen = list(sents)
        ec = EojeolCounter(sents, **kw)
        m.eq(sents, frozen, 'sentences-modified')
        total = sum(want.values())
        hist = []

        def state():
            m.eq(dict(ec.items()), want, 'counts', history=hist)
            m.eq(len(ec), len(want), 'len')
            m.eq(ec.num_of_unique_uncovered_eojeols, len(want), 'unique')
            m.eq(ec.num_of_uncovered_eojeols, sum(want.values()), 'total', history=hist)
            m.expect(all(n <= true[w] and n >= mc and len(w) <= ml for w, n in ec.items()), 'bounds')
            for w in list(want)[:5] + list(true)[:5] + ['없는말', '']:
                m.eq(ec[w], want.get(w, 0), 'lookup', word=w)
                m.eq(ec.get_eojeol_count(w), want.get(w, 0), 'get-count', word=w)
            k = rng.randrange(0, 6)
            m.eq(dict(ec.get_uncovered_eojeols(k)), {w: n for w, n in want.items() if n >= k}, 'filtered', min_count=k)
            m.eq(dict(ec.get_uncovered_eojeols()), want, 'uncovered')
            mine = ec.get_uncovered_eojeols(*rng.choice(((), (0,), (1,), (k,))))
            mine.clear()
            m.eq(dict(ec.items()), want, 'listing-shared-with-counter')
            cov = ec.coverage
            m.expect(0 <= cov <= 1, 'coverage-range', coverage=cov)
            if total and hist:
                m.close(cov, 1 - sum(want.values()) / total, 'coverage', history=hist)
                m.seen('coverage')
        m.seen('counted', len(want))
        m.eq(ec.coverage, 0, 'initial-coverage')
        state()
        for _ in range(rng.randrange(0, 5)):
            pool = list(want) + ['모르는말']
            rem = [rng.choice(pool) for _ in range(rng.choice((0, 1, 1, 3, len(pool))))]
            arg = rng.choice((set(rem), list(rem), {r: 1 for r in rem}))
            before = len(want)
            ec.remove_covered_eojeols(arg)
            want = {w: n for w, n in want.items() if w not in rem}
            hist.append(rem)
            if 0 < len(want) < before:
                m.seen('partial_removal')
                m.nontrivial(sents, sorted((k, str(v)) for k, v in kw.items() if k != 'preprocess'), hist)
            state()
    m.each('histories', m.n(1500, 25000), body)

    def large(c):
        """as many sentences as the progress output and the usual pruning intervals need"""
        rng = c.rng
        vocab = ['가', '나', '다라', '마바사'] + [chr(0xAC00 + i) + '말' for i in range(rng.choice((400, 9000)))]
        n = 100010 if c.index == 0 else rng.choice((1001, 5000, 20001))
        sents = [' '.join(rng.choice(vocab) for _ in range(rng.randrange(0, 3))) for _ in range(n)]
        if c.index == 1:
            sents += ['다라 ' * 100] * 700      # one word more than 65535 times
        kw = {'min_count': rng.choice((1, 2, 30)), 'verbose': True}
        if c.index and rng.random() < .7:
            kw['filtering_checkpoint'] = rng.choice((100, 1000, 10000, 100000))
        c.note(sentences=n, config=kw)
        want = model_count(sents, kw['min_count'], 15, kw.get('filtering_checkpoint', 0), lambda s: s)
        ec = EojeolCounter(sents, **kw)
        m.eq(dict(ec.items()), want, 'large-counts')
        total = sum(want.values())
        m.eq(ec.num_of_uncovered_eojeols, total, 'large-total')
        ec.remove_covered_eojeols({'가', '다라', '없는말'})
        left = {w: k for w, k in want.items() if w not in ('가', '다라')}
        m.eq(dict(ec.items()), left, 'large-removed')
        m.close(ec.coverage, 1 - sum(left.values()) / total if total else ec.coverage, 'large-coverage')
        rem = {w for w in vocab if rng.random() < .7}
        ec.remove_covered_eojeols(rem if rng.random() < .7 else dict.fromkeys(rem))
        left = {w: k for w, k in left.items() if w not in rem}
        m.eq(dict(ec.items()), left, 'large-removed-many')
        m.eq(ec.num_of_uncovered_eojeols, sum(left.values()), 'large-total-many')
        m.close(ec.coverage, 1 - sum(left.values()) / total if total else ec.coverage, 'large-coverage-many')
        m.nontrivial('large', n, sorted(kw.items()))
    m.each('large', m.n(3, 40), large)

    def reject(c):
        for bad in ([], iter(['가 나']), 3):
            try:
                EojeolCounter(bad)
                m.expect(False, 'bad-corpus-accepted', got=repr(bad))
            except ValueError:
                m.decisions += 1
        ec = EojeolCounter(['가 나'])
        for v in (-.1, 1.1):
            try:
                ec.coverage = v
                m.expect(False, 'bad-coverage-accepted', got=v)
            except ValueError:
                m.decisions += 1
        m.eq(ec.coverage, 0, 'coverage-after-refusal')
    m.each('reject', 1, reject)
