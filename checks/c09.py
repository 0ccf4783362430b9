# -*- coding: utf-8 -*-
"""C09: MaxScoreTokenizer."""
from mon import text

RULE = '''random sentences (tiny alphabets, realistic words, hostile characters, words up to 200 characters), score tables over
random substrings of one to twelve characters with tied/negative values, maximum length 2..12, random default score. Oracle: an
independent greedy selection. Non-trivial: a word with two or more tokens and a known substring; keyed by (word, table, limits).'''


def greedy(w, scores, maxlen, ds):
    n = len(w)
    if n <= 2:
        return [(w, 0, n, scores.get(w, ds), n)]
    cand = [(b, b + r) for b in range(n) for r in range(2, min(maxlen, n) + 1) if b + r <= n]
    key = {be: (-scores.get(w[be[0]:be[1]], ds), -(be[1] - be[0]), be[0]) for be in cand}
    taken = [False] * n
    spans = []
    for b, e in sorted(cand, key=key.get):
        if not any(taken[b:e]):
            taken[b:e] = [True] * (e - b)
            spans.append((b, e))
    spans.sort()
    out, at = [], 0
    for b, e in spans + [(n, n)]:
        if at < b:
            out.append((at, b))
        if b < e:
            out.append((b, e))
        at = e
    return [(w[b:e], b, e, scores.get(w[b:e], ds), e - b) for b, e in out]


def run(m):
    from soynlp.tokenizer import MaxScoreTokenizer
    m.require('short_word', 'leftover', 'known', 'multi', 'long_word')

    def check(c, words, scores, maxlen, ds, default_args=False):
        sep = c.rng.choice((' ', '  ', '\t', '\u3000'))
        sent = sep.join(words)
        c.note(sentence=sent, scores=scores, max_length=maxlen, default=ds)
        frozen = dict(scores)
        tok = MaxScoreTokenizer(scores=scores) if default_args else \
            MaxScoreTokenizer(scores=scores, max_length=maxlen, default_score=ds)
        words = sent.split()
        want = [greedy(w, frozen, maxlen, ds) for w in words]
        got = tok.tokenize(sent, flatten=False)
        m.eq(len(got), len(words), 'word-count')
        for w, g, x in zip(words, got, want):
            g = [tuple(t) for t in g]
            # conservation and offsets, straight from the text
            at, ok = 0, True
            for t, b, e, s, n in g:
                ok = ok and b == at and e > b and w[b:e] == t and n == len(t)
                at = e
            m.expect(ok and at == len(w), 'offsets', word=w, tokens=g)
            m.eq([t[3] for t in g], [frozen.get(t[0], ds) for t in g], 'token-score', word=w, tokens=g)
            m.eq(g, x, 'greedy', word=w)
            if len(w) <= 2:
                m.seen('short_word')
            if any(t[0] in frozen for t in x):
                m.seen('known')
            if len(x) > 1:
                m.seen('multi')
                if any(t[4] < 2 for t in x):
                    m.seen('leftover')
                if any(t[0] in frozen for t in x):
                    m.nontrivial(w, sorted((k, v) for k, v in frozen.items() if k in w), maxlen, ds)
        flat = [t[0] for x in want for t in x]
        m.eq(list(tok.tokenize(sent)), flat, 'flat')
        m.eq(list(tok(sent)), flat, 'call')
        m.eq(''.join(tok.tokenize(sent)), ''.join(words), 'conservation')
        m.eq(scores, frozen, 'scores-modified')

    def body(c):
        rng = c.rng
        mk = rng.choice((lambda: text.small_words(rng, '가나', 8), lambda: text.small_words(rng, '가나다라', 14), lambda: text.small_words(rng, '가나다', 40),
                         lambda: text.eojeol(rng), lambda: ''.join(text.hostile(rng, rng.randrange(1, 14)).split()) or 'x'))
        words = [mk() for _ in range(rng.randrange(0, 5))]
        vals = rng.choice(((.5, 1), (.1, .2, .3, .4, .5), (-1, 0, 1), (.3, .3, .7), (-2, -1, -.5), (.3, .3 + 1e-9, .3 - 1e-9, .3 + 1e-12), (1e-9, 1e9, 123.456)))
        scores = {}
        for w in words:
            for _ in range(rng.randrange(0, 7)):
                b = rng.randrange(len(w))
                scores[w[b:b + rng.randrange(1, rng.choice((13, 13, 30)))]] = rng.choice(vals)
        default = rng.random() < .2
        check(c, words, scores, 10 if default else rng.choice((rng.randrange(2, 13), rng.randrange(12, 32))),
              0.0 if default else rng.choice((0.0, 0.0, .3, -.5, .2)), default)
    m.each('sentences', m.n(2500, 40000), body)

    def long(c):
        rng = c.rng
        w = ''.join(rng.choice('가나다') for _ in range(rng.randrange(60, 201)))
        scores = {}
        for _ in range(rng.randrange(0, 30)):
            b = rng.randrange(len(w))
            scores[w[b:b + rng.randrange(1, 6)]] = rng.choice((.2, .5, .9))
        m.seen('long_word')
        check(c, [w], scores, rng.choice((2, 3, 10)), rng.choice((0.0, .3)))
    m.each('long', m.n(40, 600), long)

    def longest(c):
        """words whose best cover needs hundreds of picks"""
        n = (200, 202, 210, 400, 700)[c.index % 5]
        w = ''.join(c.rng.choice('가나다라마바사') for _ in range(n))
        scores = {w[i:i + 2]: 1.0 for i in range(0, n, 2)}
        m.seen('long_word')
        check(c, [w], scores, 2, 0.0)
    m.each('longest', m.n(5, 30), longest)
