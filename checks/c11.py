# -*- coding: utf-8 -*-
"""C11: noun tokenizers."""
from mon import text
from checks.c09 import greedy

RULE = '''random noun dictionaries (set / dict with tied, zero and positive scores; one- to ten-character nouns over tiny and
realistic alphabets) and sentences gluing nouns, josa and unknown syllables. Oracle: direct greedy longest match (left-match),
independent greedy selection plus span union (noun-match). Non-trivial: a noun found and a leftover in the same word; keyed by
(word, dictionary).'''


def lmatch(w, nouns):
    out, at = [], 0
    while at < len(w):
        e = max((e for e in range(at + 1, len(w) + 1) if w[at:e] in nouns), default=0)
        if not e:
            break
        out.append(w[at:e])
        at = e
    return out


def union(w, spans):
    out = []
    for t, b, e, s, n in spans:
        if out and out[-1][2] == b:
            p = out[-1]
            out[-1] = (w[p[1]:e], p[1], e, max(p[3], s), e - p[1])
        else:
            out.append((t, b, e, s, n))
    return out


def run(m):
    from soynlp.tokenizer import NounLMatchTokenizer, NounMatchTokenizer
    m.require('lmatch', 'no_noun', 'mid_word', 'joined', 'two_spans', 'one_char_noun', 'whole_short', 'long_word')

    def body(c):
        rng = c.rng
        al = rng.choice(('가나', '가나다라', '가나다라마바사아'))
        real = rng.random() < .3
        mk = (lambda k=4: rng.choice(text.NOUNS)) if real else (lambda k=4: text.small_words(rng, al, k))
        nouns = {mk(rng.choice((2, 4, 10, 20, 40))): rng.choice((.1, .5, .5, .9, 1, 0, 1e-6, 3.5, 2)) for _ in range(rng.randrange(0, 8))}
        if nouns and rng.random() < .1:      # long nouns that begin alike
            x = text.small_words(rng, al, 3) * 6
            nouns.update({x + mk(3): .5, x: rng.choice((.1, .9)), x + x[:2]: 1})
        pool = list(nouns)
        words = []
        for _ in range(rng.randrange(0, 5)):
            words.append(''.join(rng.choice(pool) if pool and rng.random() < .6 else
                                 rng.choice((rng.choice(text.JOSA), text.small_words(rng, al, 2), '허', 'a', '1', '허호히'))
                                 for _ in range(rng.randrange(1, 6))))
        if pool and rng.random() < .01:
            words.append(''.join(rng.choice(pool + ['허']) for _ in range(rng.choice((30, 120, 250)) if max(map(len, pool)) < 8 else 30)))
            m.seen('long_word')
        sent = rng.choice((' ', '  ', '\t', '\u3000')).join(words)
        c.note(sentence=sent, nouns=nouns)
        frozen = dict(nouns)
        words = sent.split()
        # left match, dictionary given as set, dict or list
        d = rng.choice((set(nouns), dict(nouns), list(nouns)))
        lt = NounLMatchTokenizer(d)
        want = [x for x in (lmatch(w, frozen) for w in words) if x]
        m.eq(list(lt.tokenize(sent)), [''.join(x) for x in want], 'lmatch-compound')
        m.eq(list(lt(sent)), [''.join(x) for x in want], 'lmatch-call')
        m.eq(list(lt.tokenize(sent, compose_compound=False)), [n for x in want for n in x], 'lmatch-units')
        if want:
            m.seen('lmatch')
        if len(want) < len(words):
            m.seen('no_noun')
        # noun match
        nt = NounMatchTokenizer(nouns)
        raw = [[t for t in greedy(w, frozen, 10, 0.0) if t[3] > 0] for w in words]
        comp = [union(w, x) for w, x in zip(words, raw)]
        for w, x, y in zip(words, raw, comp):
            if x and x[0][1] > 0:
                m.seen('mid_word')
            if len(y) < len(x):
                m.seen('joined')
            if len(y) > 1:
                m.seen('two_spans')
            if any(t[4] == 1 for t in x):
                m.seen('one_char_noun')
            if len(w) == 2 and len(x) == 1 and x[0][4] == 2:
                m.seen('whole_short')
            if x and sum(t[4] for t in x) < len(w):
                m.nontrivial(w, sorted(frozen.items()))
        for got, exp, name in ((nt.tokenize(sent, flatten=False, compose_compound=True), comp, 'compound'),
                               (nt.tokenize(sent, flatten=False, compose_compound=False), raw, 'separate')):
            got = [[tuple(t) for t in x] for x in got]
            m.eq(got, exp, 'match-' + name)
            for w, x in zip(words, got):
                at = 0
                for t, b, e, s, n in x:
                    m.expect(b >= at and e > b and w[b:e] == t and n == len(t), 'span-offsets', word=w, spans=x)
                    if name == 'separate':
                        m.expect(t in frozen and frozen[t] > 0, 'not-a-noun', word=w, span=t)
                    at = e
        m.eq(list(nt.tokenize(sent)), [t[0] for x in comp for t in x], 'match-flat')
        m.eq(list(nt(sent)), [t[0] for x in comp for t in x], 'match-call')
        m.eq(list(nt.tokenize(sent, compose_compound=False)), [t[0] for x in raw for t in x], 'match-flat-separate')
        m.eq(nouns, frozen, 'nouns-modified')
    m.each('sentences', m.n(3000, 50000), body)
