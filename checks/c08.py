# -*- coding: utf-8 -*-
"""C08: LTokenizer."""
from mon import text

RULE = '''random sentences over tiny alphabets and realistic words; score tables hold random prefixes with a small set of score
values (ties, negatives, missing), random default score, tolerance 0 / small / equal to score gaps / large, all output options.
Oracle: direct choice over all prefixes. Non-trivial: a word of 3+ characters with at least two distinct prefix scores; keyed by
(word, its prefix scores, tolerance).'''


def choose(w, scores, ds, tol):
    if len(w) <= 2:
        return w, ''
    cand = [(scores.get(w[:e], ds), e) for e in range(2, len(w) + 1)]
    top = max(s for s, _ in cand)
    if tol > 0:
        e = max(e for s, e in cand if top - s <= tol)
    else:
        e = max(e for s, e in cand if s == top)
    return w[:e], w[e:]


def run(m):
    from soynlp.tokenizer import LTokenizer
    m.require('short_word', 'tie', 'tolerance_moved', 'right_part', 'remove_r', 'nested')

    def body(c):
        rng = c.rng
        mk = rng.choice((lambda: text.small_words(rng, '가나', 6), lambda: text.small_words(rng, '가나다라', 8),
                         lambda: text.eojeol(rng), lambda: ''.join(text.hostile(rng, rng.randrange(1, 9)).split()) or 'x',
                         lambda: text.small_words(rng, '가나다', 40), lambda: text.small_words(rng, '가나다', rng.choice((40, 40, 150)))))
        words = [mk() for _ in range(rng.randrange(0, 8))]
        vals = rng.choice(((0, .5, 1), (.1, .2, .3, .4, .5), (-1, 0, 1), (.25, .5, .75, 1.0), (.3, .3 + 1e-9, .3 - 1e-9), (1e-12, 2e-12, 0, 1e300)))
        scores = {}
        for w in words:
            for e in range(1, len(w) + 1):
                if rng.random() < .5:
                    scores[w[:e]] = rng.choice(vals)
        ds = rng.choice((0.0, 0.0, 0.0, -0.5, 0.5, 0.3))
        tol = rng.choice((0.0, 0.0, .25, .5, 1.0, .05, 3.0))
        sep = rng.choice((' ', '  ', '\t', '\n', '\u3000'))
        sent = rng.choice(('', ' ')) + sep.join(words) + rng.choice(('', ' ', '\n'))
        c.note(sentence=sent, scores=scores, default=ds, tolerance=tol)
        frozen = dict(scores)
        kw = {} if ds == 0.0 and rng.random() < .5 else {'default_score': ds}
        tok = LTokenizer(scores=scores, **kw)
        want = [choose(w, frozen, ds, tol) for w in sent.split()]
        nested = tok.tokenize(sent, tolerance=tol, flatten=False)
        m.seen('nested')
        m.eq([tuple(p) for p in nested], want, 'split')
        m.eq(list(tok.tokenize(sent, tolerance=tol)), [x for p in want for x in p if x], 'flat')
        m.eq(list(tok(sent, tolerance=tol)), [x for p in want for x in p if x], 'call')
        for fl in (True, False):
            m.seen('remove_r')
            m.eq(list(tok.tokenize(sent, tolerance=tol, flatten=fl, remove_r=True)), [l for l, _ in want], 'remove-r')
        for t in (0.0, .3, rng.choice((.05, .25, 1.0)), tol):
            # the same words again with another tolerance
            m.eq([tuple(p) for p in tok.tokenize(sent, tolerance=t, flatten=False)], [choose(w, frozen, ds, t) for w in sent.split()], 'another-tolerance', asked=t)
        m.eq(''.join(tok.tokenize(sent, tolerance=tol)), ''.join(sent.split()), 'conservation')
        if tol == 0:
            m.eq([tuple(p) for p in tok.tokenize(sent, flatten=False)], want, 'default-tolerance')
        m.eq(scores, frozen, 'scores-modified')
        for w, (l, r) in zip(sent.split(), want):
            if len(w) <= 2:
                m.seen('short_word')
                continue
            ps = [frozen.get(w[:e], ds) for e in range(2, len(w) + 1)]
            if len(set(ps)) > 1:
                m.nontrivial(w, ps, tol)
            if ps.count(max(ps)) > 1:
                m.seen('tie')
            if r:
                m.seen('right_part')
            if tol and choose(w, frozen, ds, 0)[0] != l:
                m.seen('tolerance_moved')
    m.each('sentences', m.n(4000, 80000), body)

    def empty(c):
        tok = LTokenizer()
        for w in ('가', '가나', '가나다', '가나다라마'):
            m.eq([tuple(x) for x in tok.tokenize(w, flatten=False)], [choose(w, {}, 0.0, 0)], 'no-scores')
    m.each('no_scores', 1, empty)
