# -*- coding: utf-8 -*-
"""C02: edit distances equal the minimum edit cost, obey metric laws."""
import functools
from mon import text

RULE = '''random string pairs/triples (shared prefixes, edits of one another, syllables differing in one letter, lone letters,
ASCII; both length orders; long strings with long pieces moved; repeated characters) compared with a full table of minima; custom costs are random dicts over
ordered character pairs. Non-trivial: both strings non-empty and different; keyed by (kind, strings).'''


def ref(a, b, sub):
    d = {}
    for i in range(len(a) + 1):
        for j in range(len(b) + 1):
            if i == 0 or j == 0:
                d[i, j] = i + j
            else:
                d[i, j] = min(d[i - 1, j] + 1, d[i, j - 1] + 1, d[i - 1, j - 1] + sub(a[i - 1], b[j - 1]))
    return d[len(a), len(b)]


def letters(c):
    cp = ord(c)
    if 0xAC00 <= cp <= 0xD7A3:
        i = cp - 0xAC00
        return (text.CHO[i // 588], text.JUNG[i % 588 // 28], text.JONG[i % 28])
    if 0x3131 <= cp <= 0x314E:
        return (c, ' ', ' ')
    if 0x314F <= cp <= 0x3163:
        return (' ', c, ' ')
    return None


def unit(x, y):
    return 0 if x == y else 1


@functools.lru_cache(maxsize=None)
def jsub(x, y):
    if x == y:
        return 0
    a, b = letters(x), letters(y)
    if a is None or b is None:
        return 1
    return ref(a, b, unit) / 3


def word(rng, kinds):
    return ''.join(text.char(rng, kinds) for _ in range(rng.choice((0, 1, 1, 2, 3, 4, 6, 9))))


def mutate(rng, s, kinds):
    s = list(s)
    for _ in range(rng.randrange(0, 4)):
        x = rng.random()
        p = rng.randrange(len(s) + 1)
        if x < .35 or not s:
            s.insert(p, text.char(rng, kinds))
        elif x < .6:
            del s[min(p, len(s) - 1)]
        else:
            p = min(p, len(s) - 1)
            l = letters(s[p])
            if l and l[0] != ' ' and l[1] != ' ':
                l = list(l)
                q = rng.randrange(3)
                l[q] = rng.choice((text.CHO, text.JUNG, text.JONG)[q])
                s[p] = text.compose3(*l)
            else:
                s[p] = text.char(rng, kinds)
    return ''.join(s)


def run(m):
    from soynlp.hangle import levenshtein, jamo_levenshtein
    m.require('first_shorter', 'first_longer', 'custom_cost_used', 'jamo_fraction', 'long', 'uneven', 'blank', 'shifted')

    def pair(rng):
        kinds = rng.choice(('s', 'sj', 'sjma', 'a', 'sjmap', 'jm'))
        if rng.random() < .02:
            al = rng.choice(('가나다라마', '가각간나낙난', 'abcdef'))
            a = ''.join(rng.choice(al) for _ in range(rng.randrange(20, 60)))
            b = ''.join(x for x in a if rng.random() < .9)
            m.seen('long')
            return a, mutate(rng, b, kinds), word(rng, kinds)
        if rng.random() < .012:
            # one string is the other with a long piece moved, dropped or put in front
            m.seen('shifted')
            al = rng.choice(('가나다라마', '가각간나낙난', 'abcdef', '가'))
            n = rng.choice((40, 90, 140, 180)) if rng.random() < .8 else rng.choice((260, 300))
            distinct = rng.random() < .4
            a = ''.join(rng.choice(al) for _ in range(n))
            if distinct:
                a = ''.join(chr(0xAC00 + 17 * i) for i in rng.sample(range(600), n))     # no letter twice: only one alignment is best
            k = rng.choice((3, 17, 30, 70, n // 4, n // 3, n // 2, n))
            b = rng.choice((a[k:] + a[:k], a[k:], ''.join(rng.choice('사아자') for _ in range(k)) + a[:-k], ''.join(rng.choice('사아자') for _ in range(n - k)),
                            a[:n // 3] + a[n // 3 + k:]))
            return (a, b, a[:5]) if rng.random() < .5 else (b, a, b[-5:])
        if rng.random() < .03:
            m.seen('uneven')
            a, b = ''.join(text.char(rng, kinds) for _ in range(rng.randrange(15, 90))), word(rng, kinds)
            if rng.random() < .5:
                b = ''.join(sorted(a[i] for i in rng.sample(range(len(a)), min(len(a), 3))))
            return (a, b, word(rng, kinds)) if rng.random() < .5 else (b, a, word(rng, kinds))
        if rng.random() < .04:
            sp = ''.join(rng.choice((' ', '  ', '\n', 'a', '가')) for _ in range(rng.randrange(0, 5)))
            m.seen('blank', not sp.strip())
            return sp, rng.choice(('', ' ', 'a b', word(rng, kinds))), rng.choice(('', ' '))
        if rng.random() < .3:
            al = rng.choice(('가나', '가각간나', 'ab', 'ㄱㄴ가'))
            mk = lambda: ''.join(rng.choice(al) for _ in range(rng.randrange(0, 8)))
            return mk(), mk(), mk()
        a = word(rng, kinds)
        b = mutate(rng, a, kinds) if rng.random() < .6 else word(rng, kinds)
        c = mutate(rng, b, kinds) if rng.random() < .6 else word(rng, kinds)
        if rng.random() < .5:
            a, b = b, a
        return a, b, c

    def body(c):
        rng = c.rng
        a, b, d = pair(rng)
        c.note(a=a, b=b, c=d)
        m.seen('first_shorter' if len(a) < len(b) else 'first_longer' if len(a) > len(b) else 'same_length')
        if a and b and a != b:
            m.nontrivial('p', a, b)
        for name, f, sub in (('plain', levenshtein, unit), ('jamo', jamo_levenshtein, jsub)):
            got = f(a, b)
            want = ref(a, b, sub)
            m.close(got, want, name + '-minimum', a=a, b=b)
            if name == 'jamo' and abs(want - round(want)) > 1e-9:
                m.seen('jamo_fraction')
            m.close(f(b, a), got, name + '-symmetric', a=a, b=b)
            m.expect((abs(got) < 1e-9) == (a == b), name + '-identity', a=a, b=b, got=got)
            m.expect(abs(len(a) - len(b)) - 1e-9 <= got <= max(len(a), len(b)) + 1e-9, name + '-bounds', a=a, b=b, got=got)
            m.expect(f(a, d) <= got + f(b, d) + 1e-9, name + '-triangle', a=a, b=b, c=d)
        # custom costs
        pairs = [(x, y) for x in set(a) for y in set(b)]
        pairs += [(x, y) for x in set(b) for y in set(a)]
        cost = {p: rng.choice((0, 0.1, 0.5, 0.75, 1, 1.5, 2, 3, rng.random(), 1e-6)) for p in pairs if rng.random() < .6}
        frozen = dict(cost)
        sub = lambda x, y: 0 if x == y else frozen.get((x, y), 1)
        for x, y in ((a, b), (b, a)):
            want = ref(x, y, sub)
            m.close(levenshtein(x, y, cost), want, 'cost-minimum', s1=x, s2=y, cost=[[*k, v] for k, v in frozen.items()])
            if abs(want - ref(x, y, unit)) > 1e-9:
                m.seen('custom_cost_used')
        m.eq(cost, frozen, 'cost-argument-modified')
        # a later call without costs is not affected by an earlier one with them
        m.close(levenshtein(a, b), ref(a, b, unit), 'plain-after-cost')
    m.each('pairs', m.n(1500, 25000), body)

    def jamo_cost(c):
        """single-syllable pairs sweep: letter-level substitution cost"""
        rng = c.rng
        for _ in range(200):
            x = rng.choice((text.syllable(rng), rng.choice(text.JAUM), rng.choice(text.MOUM), text.char(rng)))[:1]
            y = mutate(rng, x, 's')[:1] if rng.random() < .5 else text.syllable(rng)
            if not x or not y:
                continue
            m.close(jamo_levenshtein(x, y), jsub(x, y), 'jamo-substitution', x=x, y=y)
            m.nontrivial('j', x, y)
    m.each('syllable_pairs', m.n(30, 500), jamo_cost)
