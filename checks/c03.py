# -*- coding: utf-8 -*-
"""C03: cosine and Jaccard distances."""
import math
from collections import Counter
from mon import text

RULE = '''random string pairs: independent, permuted, scaled (s*k), disjoint alphabets, sharing some units; unit functions =
characters, character bigrams, words, letter classes, each as counts (cosine) and sets (Jaccard). Non-trivial: both strings non-empty;
keyed by (pair, unit function).'''


def units(kind, s):
    if kind == 'char':
        return list(s)
    if kind == 'bigram':
        return [s[i:i + 2] for i in range(len(s) - 1)] or [s]
    if kind == 'word':
        return s.split() or [s]
    return [str(ord(c) % 7) for c in s]


def run(m):
    from soynlp.hangle import cosine_distance, jaccard_distance
    m.require('empty', 'permuted', 'disjoint', 'partial')

    def body(c):
        rng = c.rng
        a = text.hostile(rng)
        x = rng.random()
        if x < .2:
            b = list(a * rng.choice((1, 2, 3)))
            rng.shuffle(b)
            b = ''.join(b)
            m.seen('permuted')
        elif x < .3:
            b = ''.join(ch for ch in text.hostile(rng) if ch not in a)
            m.seen('disjoint')
        elif x < .4:
            b = ''
        else:
            b = a[:rng.randrange(len(a) + 1)] + text.hostile(rng)
            m.seen('partial')
        if rng.random() < .5:
            a, b = b, a
        c.note(a=a, b=b)
        if not a or not b:
            m.seen('empty')
            m.eq(cosine_distance(a, b), 2, 'cosine-empty')
            m.eq(jaccard_distance(a, b), 1, 'jaccard-empty')
            return
        for kind in ('default', 'char', 'bigram', 'word', 'mod'):
            k = 'char' if kind == 'default' else kind
            ua, ub = Counter(units(k, a)), Counter(units(k, b))
            kw = {} if kind == 'default' else {'unitfy': lambda s: Counter(units(k, s))}
            kj = {} if kind == 'default' else {'unitfy': lambda s: set(units(k, s))}
            dot = sum(v * ub[u] for u, v in ua.items())
            na, nb = sum(v * v for v in ua.values()), sum(v * v for v in ub.values())
            want = 1 - dot / math.sqrt(na * nb)
            got = float(cosine_distance(a, b, **kw))
            m.close(got, want, 'cosine-value', unit=kind)
            m.close(float(cosine_distance(b, a, **kw)), got, 'cosine-symmetric', unit=kind)
            m.expect(-1e-9 <= got <= 1 + 1e-9, 'cosine-range', got=got)
            # exact Cauchy-Schwarz equality <=> proportional counts
            if dot * dot == na * nb:
                m.expect(abs(got) < 1e-9, 'cosine-zero', got=got)
            if dot == 0:
                m.eq(got, 1.0, 'cosine-one')
            sa, sb = set(ua), set(ub)
            wantj = 1 - len(sa & sb) / len(sa | sb)
            gotj = jaccard_distance(a, b, **kj)
            m.close(gotj, wantj, 'jaccard-value', unit=kind)
            m.close(jaccard_distance(b, a, **kj), gotj, 'jaccard-symmetric')
            m.expect(0 <= gotj <= 1, 'jaccard-range', got=gotj)
            m.nontrivial(a, b, kind)
    m.each('pairs', m.n(1500, 30000), body)

    def weights(c):
        """unit functions with few large counts or many units"""
        rng = c.rng
        big = rng.choice((1, 1000, 70000, 10 ** 6, 10 ** 7))
        # units are any hashable values: strings, numbers, pairs, several types in one string
        pool = rng.choice(('abcdefgh', 'abcdefgh', ('1', 1, '2', 2, 'a', ('a', 'b'), "('a', 'b')", 3.5, '3.5'), (0, 1, 2, 3, -1, -2), (('a', 1), ('a', '1'), ('b', 1), 'b')))
        ua, ub = ({rng.choice(pool): rng.randrange(1, 9) * big + rng.randrange(3) for _ in range(rng.randrange(1, 6))} for _ in range(2))
        c.note(units=[ua, ub])
        dot = sum(v * ub.get(u, 0) for u, v in ua.items())
        want = 1 - dot / math.sqrt(sum(v * v for v in ua.values()) * sum(v * v for v in ub.values())) if big < 10 ** 7 else None
        f = {'x': ua, 'y': ub}
        got = float(cosine_distance('x', 'y', unitfy=lambda s: f[s]))
        if want is not None:
            m.close(got, want, 'cosine-weights')
        else:       # the sums stay exact integers
            m.close(got, 1 - dot / (math.sqrt(sum(v * v for v in ua.values())) * math.sqrt(sum(v * v for v in ub.values()))), 'cosine-weights')
        m.eq(jaccard_distance('x', 'y', unitfy=lambda s: set(f[s])), 1 - len(set(ua) & set(ub)) / len(set(ua) | set(ub)), 'jaccard-weights')
        m.nontrivial(sorted(ua.items(), key=repr), sorted(ub.items(), key=repr))
    m.each('weights', m.n(300, 5000), weights)

    def long(c):
        rng = c.rng
        a = ''.join(rng.choice('가나다 ab') for _ in range(rng.choice((3000, 20000))))
        b = ''.join(rng.choice('가다라 bc') for _ in range(rng.choice((10, 5000))))
        x, y = Counter(a), Counter(b)
        want = 1 - sum(v * y[u] for u, v in x.items()) / math.sqrt(sum(v * v for v in x.values()) * sum(v * v for v in y.values()))
        m.close(float(cosine_distance(a, b)), want, 'cosine-long')
        m.close(float(cosine_distance(a, a)), 0, 'cosine-long-self')
        m.close(jaccard_distance(a, b), 1 - len(set(a) & set(b)) / len(set(a) | set(b)), 'jaccard-long')
        m.nontrivial(len(a), c.index)
    m.each('long', m.n(4, 30), long)
