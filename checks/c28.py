# -*- coding: utf-8 -*-
"""C28: word-context co-occurrence against direct pair enumeration."""
from collections import Counter
from mon import text

RULE = '''random sentence collections (tiny vocabularies with repeated words, empty and one-word sentences, no sentence at all) x window x
minimum count x tokenizer x weighting x container (list, tuple, re-iterable object); every cell compared with a sum over ordered pairs of positions.
Non-trivial: several cells, a word below the minimum count in between; keyed by (sentences, configuration).'''


class Again:
    def __init__(self, xs):
        self.xs = xs

    def __iter__(self):
        return iter(list(self.xs))


def run(m):
    from soynlp.vectorizer import sent_to_word_contexts_matrix
    m.require('cells', 'rare_between', 'self_context', 'dynamic', 'isolated_word', 'no_pair', 'no_vocab', 'truncated_window', 'long_sentence', 'huge_count', 'wide_window', 'empty_word')

    def body(c):
        rng = c.rng
        n = rng.choice((0, 1, 2, 5, 15, 40))
        sents = text.small_corpus(rng, n, rng.choice(('가나', '가나다', '가나다라마')), rng.choice((1, 1, 2)), rng.choice((2, 6, 12)))
        if rng.random() < .2:
            sents = [text.sentence(rng, 0, 9) for _ in range(n)]
        if rng.random() < .2:
            sents.append('홀로')
        if rng.random() < .01:
            sents = text.small_corpus(rng, rng.choice((999, 1001, 2100)), '가나다라', 2, 4)
            m.seen('large')
        if rng.random() < .015:
            sents = [' '.join(rng.choice('가나다라마바') for _ in range(rng.choice((300, 1500, 5000)))) for _ in range(2)]
            m.seen('long_sentence')
            if rng.random() < .4:
                sents = sents[:1] * 3 + ['가 나'] * 1000
        w = rng.choice((1, 1, 2, 3, 3, 5, 7, 20))
        mt = rng.choice((0, 1, 1, 2, 3, 10))
        dyn = rng.random() < .5
        kw = dict(windows=w, min_tf=mt, dynamic_weight=dyn, verbose=rng.random() < .2)
        tok = lambda s: s.split()
        if rng.random() < .01:
            w = rng.choice((40, 100, 300))
            sents = [' '.join(rng.choice(('가', '나', '다', '라%d' % rng.randrange(9))) for _ in range(w + rng.randrange(-9, 60))), '가 나']
            kw['windows'] = w
            m.seen('wide_window')
        name = rng.choice(('split', 'split', 'chars', 'tuple', 'len', 'blanks'))
        if name == 'chars':
            tok = lambda s: [x for x in s if x != ' ']
        elif name == 'tuple':
            tok = lambda s: tuple(s.split())
        elif name == 'blanks':      # words may be empty
            tok = lambda s: s.replace('가', ' ').split(' ')
            m.seen('empty_word')
        elif name == 'len':
            tok = lambda s: [(x, len(x)) for x in s.split()]
        if name != 'split':
            kw['tokenizer'] = tok
        if w == 3 and rng.random() < .5:
            kw.pop('windows')
        if mt == 10 and rng.random() < .5:
            kw.pop('min_tf')
        c.note(sentences=sents, config={k: v for k, v in kw.items() if k != 'tokenizer'}, tokenizer=name)
        frozen = list(sents)
        x, idx2 = sent_to_word_contexts_matrix(Again(sents) if rng.random() < .3 else sents, **kw)
        m.eq(sents, frozen, 'sentences-modified')
        tl = [list(tok(s)) for s in sents]
        cnt = Counter(t for ws in tl for t in ws)
        ok = {t for t, k in cnt.items() if k >= mt}
        m.eq(set(idx2), ok, 'vocabulary')
        m.eq(len(idx2), len(ok), 'vocabulary-duplicates')
        f = [cnt[t] for t in idx2]
        m.eq(f, sorted(f, reverse=True), 'descending')
        m.eq(tuple(x.shape), (len(ok), len(ok)), 'square')
        want = Counter()
        for ws in tl:
            for i, a in enumerate(ws):
                for j in range(max(0, i - w), min(len(ws), i + w + 1)):
                    if i != j and a in ok and ws[j] in ok:
                        want[(a, ws[j])] += ((w - abs(i - j) + 1) / w) if dyn else 1
                        if a == ws[j]:
                            m.seen('self_context')
                        if any(t not in ok for t in ws[min(i, j) + 1:max(i, j)]):
                            m.seen('rare_between')
                if w >= len(ws) > 1:
                    m.seen('truncated_window')
        got = {}
        y = x.tocoo()
        for r, cc, v in zip(y.row.tolist(), y.col.tolist(), y.data.tolist()):
            k = (idx2[r], idx2[cc])
            got[k] = got.get(k, 0) + v
        m.eq(set(k for k, v in got.items() if v), set(want), 'cells-present')
        for k, v in want.items():
            m.close(got.get(k, 0), v, 'cell', cell=k)
            m.close(got.get(k, 0), got.get((k[1], k[0]), 0), 'symmetric', cell=k)
        m.seen('cells', len(want))
        m.seen('dynamic', dyn and len(want))
        m.seen('isolated_word', bool(ok - {a for a, _ in want}) and bool(want))
        m.seen('no_pair', bool(ok) and not want)
        m.seen('no_vocab', not ok)
        if len(want) > 2 and len(ok) < len(cnt):
            m.nontrivial(sents, w, mt, dyn, name)
    m.each('sentences', m.n(2500, 50000), body)

    def huge(c):
        """counts beyond 16 bits"""
        ws = c.rng.choice(('가 나', '가', '가 나 다')).split() + ['나', '가'] * 35000
        for w, dyn in ((1, False), (2, True)):
            x, idx = sent_to_word_contexts_matrix([' '.join(ws)], windows=w, min_tf=1, dynamic_weight=dyn, verbose=False)
            want = Counter()
            for k in range(1, w + 1):
                for a, b in zip(ws, ws[k:]):
                    want[a, b] += (w - k + 1) / w if dyn else 1
                    want[b, a] += (w - k + 1) / w if dyn else 1
            for a, ra in enumerate(idx):
                for b, rb in enumerate(idx):
                    m.close(float(x[a, b]), want[ra, rb], 'huge-cell', cell=(ra, rb), windows=w)
            m.seen('huge_count')
    m.each('huge', 1, huge)
