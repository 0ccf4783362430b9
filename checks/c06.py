# -*- coding: utf-8 -*-
"""C06: repeat and emoticon normalization."""
from mon import text

RULE = '''hostile strings rich in runs, repeated n-grams and emoticon fragments (lone letter / syllable / lone letter neighbourhoods)
x limits 0..8. Oracles: letter-sequence conservation, independent split-rule model, run-length model, idempotence.
Non-trivial: output differs from input; keyed by (function, limit, input).'''


def parts(ch):
    cp = ord(ch)
    if 0xAC00 <= cp <= 0xD7A3:
        i = cp - 0xAC00
        return text.CHO[i // 588], text.JUNG[i % 588 // 28], text.JONG[i % 28]
    return None


def jaum(ch):
    return 0x3131 <= ord(ch) <= 0x314E


def moum(ch):
    return 0x314F <= ord(ch) <= 0x3163


def flat(s):
    out = []
    for ch in s:
        p = parts(ch)
        out.extend([x for x in p if x != ' '] if p else [ch])
    return ''.join(out)


def ws(s):
    return ' '.join(s.split())


def split_rule(s):
    """what the emoticon rules say about each syllable, from its neighbours in the input"""
    out = []
    for i, ch in enumerate(s):
        p = parts(ch)
        prev, nxt = s[i - 1] if i else '', s[i + 1] if i + 1 < len(s) else ''
        if p is None:
            out.append(ch)
            continue
        cho, jung, jong = p
        pj, nj, nm = bool(prev) and jaum(prev), bool(nxt) and jaum(nxt), bool(nxt) and moum(nxt)
        if pj and nm:
            out.append(cho + jung if (prev, nxt, jong) == (cho, jung, ' ') else ch)
        elif nj:
            out.append(text.compose3(cho, jung) + jong if jong == nxt else ch)
        elif pj:
            out.append(cho + jung if (prev == cho and jong == ' ') else ch)
        else:
            out.append(ch)
    return ''.join(out)


def is_word(ch):
    return ch.isalnum() or ch == '_'


def shorten(s, k, least=3):
    out, i = [], 0
    while i < len(s):
        j = i
        while j < len(s) and s[j] == s[i]:
            j += 1
        n = j - i
        out.append(s[i] * (min(k, n) if k > 0 and n >= least and is_word(s[i]) else n))
        i = j
    return ''.join(out)


def emoji_rule(w):
    """the tokenizer's own split rule, looking only ahead"""
    out = []
    for ch, nx in zip(w, w[1:]):
        p = parts(ch)
        if p and jaum(nx) and p[2] == nx:
            out.append(text.compose3(p[0], p[1]) + nx)
        elif p and moum(nx) and p[2] == ' ' and p[1] == nx:
            out.append(p[0] + p[1])
        else:
            out.append(ch)
    return ''.join(out) + w[-1]


def groups(w, k):
    for n in (4, 3, 2, 1):
        out, i = [], 0
        while i < len(w):
            g = w[i:i + n]
            r = 1
            while len(g) == n and w[i + r * n:i + (r + 1) * n] == g:
                r += 1
            if r >= 4 and all(is_word(x) for x in g):
                out.append(g * min(k, r))
                i += r * n
            else:
                out.append(w[i])
                i += 1
        w = ''.join(out)
    return w


def run(m):
    from soynlp import normalizer as nz
    from soynlp.tokenizer import normalize as tnormalize
    m.require('split', 'kept_syllable', 'shortened', 'tokenizer_norm', 'tokenizer_split', 'tokenizer_group', 'long_run')

    def body(c):
        rng = c.rng
        s = text.hostile(rng, kinds=rng.choice((None, 'sjm', 'jm', 'sj', 'ssjmaw', 'sd')))
        if rng.random() < .5:
            s = s[:rng.randrange(len(s) + 1)] + ''.join(''.join(text.emoticon(rng)) for _ in range(rng.randrange(1, 4))) + s[-2:]
        c.note(text=s)
        # --- emoticon splitting without shortening
        e0 = nz.emoticon_normalize(s, num_repeats=0)
        m.eq(flat(e0), flat(ws(s)), 'emoticon-letters-lost', text=s, out=e0)
        want = ws(split_rule(s))
        m.eq(e0, want, 'emoticon-split', text=s)
        if want != ws(s):
            m.seen('split')
        elif any(parts(ch) for ch in s) and any(jaum(ch) or moum(ch) for ch in s):
            m.seen('kept_syllable')
        if e0 != s:
            m.nontrivial('e', s)
        for k in (1, 2, 3, rng.choice((rng.randrange(4, 9), rng.randrange(9, 30)))):
            r = nz.repeat_normalize(s, num_repeats=k)
            want = ws(shorten(s, k))
            m.eq(r, want, 'repeat', text=s, k=k)
            m.expect(len(r) <= len(s), 'repeat-lengthens', text=s, k=k, out=r)
            m.eq(nz.repeat_normalize(r, num_repeats=k), r, 'repeat-idempotent', text=s, k=k)
            if want != ws(s):
                m.seen('shortened')
                m.nontrivial('r', k, s)
            m.eq(nz.emoticon_normalize(s, num_repeats=k), ws(shorten(split_rule(s), k)), 'emoticon-shortened', text=s, k=k)
        m.eq(nz.repeat_normalize(s, num_repeats=0), ws(s), 'repeat-off', text=s)
        m.eq(nz.repeat_normalize(s), nz.repeat_normalize(s, num_repeats=2), 'repeat-default', text=s)
        m.eq(nz.emoticon_normalize(s), nz.emoticon_normalize(s, num_repeats=2), 'emoticon-default', text=s)
        # --- filter option remove_repeat applies the same shortening to the filtered text
        k = rng.randrange(1, 6)
        base = nz.normalize(s, alphabet=True, number=True, punctuation=True, symbol=True)
        got = nz.normalize(s, alphabet=True, number=True, punctuation=True, symbol=True, remove_repeat=k)
        m.eq(got, shorten(base, k), 'normalize-remove-repeat', text=s, k=k)
        # --- tokenizer normalizer: letters conserved, one output word per input word
        t0 = tnormalize(s, num_repeat=0)
        m.seen('tokenizer_norm')
        m.eq(flat(t0), flat(ws(s)), 'tokenizer-letters-lost', text=s, out=t0)
        m.eq(t0, ' '.join(map(emoji_rule, s.split())), 'tokenizer-split', text=s)
        m.seen('tokenizer_split', t0 != ws(s))
        m.eq(tnormalize(s), tnormalize(s, num_repeat=2), 'tokenizer-default', text=s)
        for k in (1, 2, 3, rng.choice((rng.randrange(4, 9), rng.randrange(9, 30)))):
            t = tnormalize(s, num_repeat=k)
            m.eq(t, ' '.join(groups(emoji_rule(w), k) for w in s.split()), 'tokenizer-groups', text=s, k=k)
            m.seen('tokenizer_group', t != t0)
            m.eq(len(t.split()), len(s.split()), 'tokenizer-words', text=s, out=t)
            m.expect(len(t) <= len(t0), 'tokenizer-lengthens', text=s, out=t)
            run4 = any(is_word(t[i]) and t[i] == t[i + 1] == t[i + 2] == t[i + 3] for i in range(len(t) - 3))
            m.expect(k > 3 or not run4, 'tokenizer-run-left', text=s, k=k, out=t)
            # characters only ever disappear, in order
            it = iter(t0)
            m.expect(all(ch in it for ch in t), 'tokenizer-not-subsequence', text=s, out=t)
    m.each('text', m.n(1200, 25000), body)

    def runs(c):
        """one character or group very many times in a row"""
        rng = c.rng
        n = (30, 255, 256, 257, 1000, 1025, 3000)[c.index % 7] + rng.choice((-1, 0, 1))
        g = rng.choice(('ㅋ', 'ㅜ', '가', 'a', '7', '_', 'ㅋㅎ', '하핫', '오늘은')) if n < 1100 else rng.choice('ㅋ가a')
        s = rng.choice(('', '나', '쿠')) + g * n + rng.choice(('', '나 ', g * 2 + '쿠쿠'))
        c.note(text=s)
        for k in (1, 2, 9, 12, 60, n):
            m.eq(nz.repeat_normalize(s, num_repeats=k), ws(shorten(s, k)), 'repeat', text=s, k=k)
            m.eq(nz.emoticon_normalize(s, num_repeats=k), ws(shorten(split_rule(s), k)), 'emoticon-shortened', text=s, k=k)
            m.eq(tnormalize(s, num_repeat=k), ' '.join(groups(emoji_rule(w), k) for w in s.split()), 'tokenizer-groups', text=s, k=k)
        m.seen('long_run', n > 1000)
    m.each('runs', m.n(21, 210), runs)

    full = m.n(0, 1)

    def table(c):
        """every syllable of one initial-vowel pair between copies of its own letters and of the letters next to them"""
        cho, jung = text.CHO[c.index // 21], text.JUNG[c.index % 21]
        c.note(initial=cho, vowel=jung)
        lone = text.JAUM + text.MOUM
        for k in text.JONG:
            ch = text.compose3(cho, jung, k)
            prevs = {'', cho, k.strip(), jung, lone[c.index % 51], lone[lone.index(cho) - 1], '가'}
            nexts = {'', cho, k.strip(), jung, lone[(c.index * 7) % 51], lone[(lone.index(jung) + 1) % 51], '가', cho * 4, k.strip() * 3, jung * 5}
            for p in prevs:
                for n in nexts:
                    if not full and c.rng.random() < .75:
                        continue
                    s = p + ch + n
                    e0 = nz.emoticon_normalize(s, num_repeats=0)
                    m.eq(e0, split_rule(s), 'emoticon-split', text=s)
                    m.eq(nz.emoticon_normalize(s), shorten(split_rule(s), 2), 'emoticon-shortened', text=s, k=2)
                    m.eq(tnormalize(s, num_repeat=0), emoji_rule(s), 'tokenizer-split', text=s)
        m.nontrivial('table', cho, jung)
    m.each('table', 399, table)
