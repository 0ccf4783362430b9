# -*- coding: utf-8 -*-
"""C04: one-hot encoder round trip and shape."""
from mon import text

RULE = '''`text`: hostile strings (all scripts, runs, exotic whitespace) encoded, decoded and checked index by index against
independent block tables; `exhaustive`: every syllable and lone letter and every BMP character in chunks; `reject`: out-of-block
triples must raise ValueError. Non-trivial: normalized text non-empty; keyed by that text.'''


def keep(ch):
    cp = ord(ch)
    return 0xAC00 <= cp <= 0xD7A3 or 0x3131 <= cp <= 0x3163 or ch == ' ' or '0' <= ch <= '9'


def norm(s):
    return ' '.join(''.join(ch if keep(ch) else ' ' for ch in s).split())


def run(m):
    from soynlp.hangle import ConvolutionHangleEncoder
    enc = ConvolutionHangleEncoder()
    m.require('syllable', 'lone', 'digit', 'space', 'rejected', 'matrix')

    def check(s):
        want = norm(s)
        idx = enc.sent_to_onehot(s)
        m.eq(len(idx), len(want), 'row-count', text=s)
        m.eq(enc.onehot_to_sent(idx), want, 'round-trip', text=s)
        used = {}
        for ch, row in zip(want, idx):
            row = tuple(row)
            cp = ord(ch)
            if 0xAC00 <= cp <= 0xD7A3:
                i = cp - 0xAC00
                m.eq(row, (i // 588, 19 + i % 588 // 28, 40 + i % 28), 'syllable-indices', char=ch)
                m.seen('syllable')
            else:
                m.expect(len(row) == 1 and 0 <= row[0] < 80, 'single-index', char=ch, row=row)
                m.expect(used.setdefault(row, ch) == ch, 'index-collision', char=ch, other=used[row])
                m.seen('digit' if ch.isdigit() else 'space' if ch == ' ' else 'lone')
        if want:
            m.nontrivial(want)
            x = enc.encode(s)
            m.seen('matrix')
            m.eq(tuple(x.shape), (len(want), 80), 'matrix-shape')
            ok = True
            for i, row in enumerate(idx):
                on = [j for j in range(80) if x[i, j] != 0]
                ok = ok and on == sorted(row) and all(x[i, j] == 1 for j in on)
            m.expect(ok, 'matrix-indicator', text=s)

    def body(c):
        s = text.hostile(c.rng)
        c.note(text=s)
        check(s)
    m.each('text', m.n(800, 15000), body)

    def long(c):
        """very long texts; the encoder keeps no state between them"""
        s = ''.join(text.hostile(c.rng, 300) for _ in range((5, 20, 60)[c.index % 3]))
        c.note(length=len(s))
        check(s)
        check('가ㅋ 1')
    m.each('long', m.n(3, 30), long)

    def kept(c):
        """what was returned for one text stays as it was when other texts, of equal or other length, are encoded"""
        rng = c.rng
        texts = [''.join(rng.choice('가각힣ㅋㅏ7 낰') for _ in range(rng.choice((3, 3, 8)))) for _ in range(8)]
        c.note(texts=texts)
        had = [(enc.sent_to_onehot(t), enc.encode(t), t) for t in texts]
        copies = [(list(map(tuple, i)), x.copy()) for i, x, _ in had[:-1]]
        for (i, x, t), (i2, x2) in zip(had, copies):
            y = enc.encode(t)
            m.expect(x.shape == y.shape and (x == y).all() and (x2 == y).all(), 'matrix-changed-afterwards', text=t)
            m.eq(list(map(tuple, i)), enc.sent_to_onehot(t), 'indices-changed-afterwards', text=t)
            x[:] = 7
            m.expect((enc.encode(t) == y).all(), 'matrix-shared-with-caller', text=t)
    m.each('kept', m.n(40, 400), kept)

    def exhaustive(c):
        lo = c.index * 512
        s = ''.join(chr(i) for i in range(lo, lo + 512) if not 0xD800 <= i < 0xE000)
        c.note(first='U+%04X' % lo)
        check(s)
        check('가'.join(s))
    m.each('exhaustive', 128, exhaustive)

    def lone(c):
        out = {}
        for ch in text.JAUM + text.MOUM + list('0123456789'):
            row = tuple(enc.sent_to_onehot(ch)[0])
            m.expect(len(row) == 1 and row not in out, 'index-collision', char=ch, other=out.get(row))
            out[row] = ch
            m.eq(enc.onehot_to_sent([row]), ch, 'lone-round-trip', char=ch)
    m.each('lone', 1, lone)

    def reject(c):
        rng = c.rng
        t = [rng.randrange(19), rng.randrange(19, 40), rng.randrange(40, 68)]
        p = rng.randrange(3)
        lo, hi = ((0, 19), (19, 40), (40, 68))[p]
        t[p] = rng.choice([v for v in list(range(-2, 85)) if not lo <= v < hi])
        c.note(triple=t)
        try:
            r = enc.onehot_to_sent([(0, 19, 40), tuple(t)])
            m.expect(False, 'accepts-bad-triple', triple=t, got=r)
        except ValueError:
            m.seen('rejected')
            m.decisions += 1
    m.each('reject', m.n(200, 2000), reject)

    def edges(c):
        """each block accepts exactly its own range, whatever the other two positions hold"""
        blocks = ((0, 19), (19, 40), (40, 68))
        for p, (lo, hi) in enumerate(blocks):
            for v in range(-3, 90):
                t = [c.rng.randrange(a, b) for a, b in blocks]
                t[p] = v
                try:
                    r = enc.onehot_to_sent([tuple(t)])
                except ValueError:
                    r = None
                want = chr(0xAC00 + (t[0] * 21 + t[1] - 19) * 28 + t[2] - 40) if lo <= v < hi else None
                m.eq(r, want, 'triple-range', triple=t)
    m.each('edges', m.n(3, 40), edges)
