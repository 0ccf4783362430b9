# -*- coding: utf-8 -*-
"""C05: character-filter normalizers."""
import itertools
import re
import warnings
from mon import text

RULE = '''hostile strings x every option combination, compared with a per-character class table, plus idempotence;
`bmp`: every BMP character between two letters. Non-trivial: output non-empty and different from input; keyed by (function, input).'''


def hang(ch):
    return 0xAC00 <= ord(ch) <= 0xD7A3 or 0x3131 <= ord(ch) <= 0x3163


ALPHA = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ')
DIGIT = set('0123456789')
PUNC = set(',.?!')
SYMB = set('()[]{}')
QUOTE = set('\'"')


def filt(s, *classes):
    ok = set().union(*classes) if classes else set()
    return ' '.join(''.join(ch if hang(ch) or ch in ok else ' ' for ch in s).split())


def cut(w):
    n = max((i + 1 for i, ch in enumerate(w) if hang(ch)), default=0)
    return w[:n]


def exactly(s, k):
    return re.sub(r'([^\W])\1\1\1+', lambda x: x.group(1) * k, s)


def run(m):
    from soynlp import normalizer as nz
    from soynlp.hangle import normalize as hnormalize
    m.require('alphabet', 'lrgraph', 'deprecated', 'changed', 'remain', 'long_run')

    def check(name, f, want, s, idem=True):
        got = f(s)
        m.eq(got, want, name, text=s)
        if idem:
            m.eq(f(got), got, name + '-idempotent', text=s)
        if got and got != s:
            m.seen('changed')
            m.nontrivial(name, s)

    def all_for(s, combos):
        for al, nu, pu, sy in combos:
            cl = [QUOTE] + [x for x, on in ((ALPHA, al), (DIGIT, nu), (PUNC, pu), (SYMB, sy)) if on]
            if al:
                m.seen('alphabet')
            check('normalize(%d%d%d%d)' % (al, nu, pu, sy),
                  lambda t: nz.normalize(t, alphabet=bool(al), number=bool(nu), punctuation=bool(pu), symbol=bool(sy)),
                  filt(s, *cl), s)
        m.eq(nz.normalize(s), filt(s, QUOTE), 'normalize-defaults', text=s)
        check('only_hangle', nz.only_hangle, filt(s), s)
        check('only_hangle_number', nz.only_hangle_number, filt(s, DIGIT), s)
        check('only_text', nz.only_text, filt(s, ALPHA, DIGIT, PUNC, SYMB, QUOTE), s)
        words = [cut(w) for w in filt(s, ALPHA, DIGIT, PUNC, QUOTE).split()]
        check('lrgraph', nz.normalize_sent_for_lrgraph, ' '.join(w for w in words if w), s)
        m.seen('lrgraph')
        for w in s.split()[:6]:
            m.seen('remain')
            check('remain_hangle_on_last', nz.remain_hangle_on_last, cut(w), w)
        m.eq(nz.remove_doublespace(s), collapse(s), 'remove_doublespace', text=s)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            for en, nu, pu in ((0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 1)):
                cl = [x for x, on in ((ALPHA, en), (DIGIT, nu), (set('!"\',.?`'), pu)) if on]
                check('hangle.normalize(%d%d%d)' % (en, nu, pu),
                      lambda t: hnormalize(t, english=bool(en), number=bool(nu), punctuation=bool(pu)), filt(s, *cl), s)
            m.eq(hnormalize(s), filt(s), 'hangle.normalize-defaults', text=s)
            for k in (1, 2, 3, 5, 9, 30, 300):
                # every run of four or more equal letters or digits becomes k of them, before filtering
                m.eq(hnormalize(s, english=True, number=True, remove_repeat=k), filt(exactly(s, k), ALPHA, DIGIT), 'hangle.normalize(remove_repeat)', text=s, k=k)
            extra = set(s[:3]) - set(' \t\n\r\x0b\x0c')
            extra = {e for e in extra if not e.isspace()}
            check('hangle.normalize(remains)', lambda t: hnormalize(t, remains=extra), filt(s, extra), s)
            m.seen('deprecated')

    def collapse(s):
        out, ws = [], False
        for ch in s:
            if ch.isspace():
                if not ws:
                    out.append(' ')
                ws = True
            else:
                out.append(ch)
                ws = False
        return ''.join(out)

    combos = list(itertools.product((0, 1), repeat=4))

    def body(c):
        s = text.hostile(c.rng)
        c.note(text=s)
        all_for(s, combos)
    m.each('text', m.n(400, 8000), body)

    def short(c):
        """every text of up to three characters, one of each class"""
        first = '가ㅋaZ1.(\'" -一'[c.index]
        for n in (0, 1, 2):
            for rest in itertools.product('가ㅋaZ1.(\'" -一', repeat=n):
                all_for(first + ''.join(rest), combos if n < 2 or c.index % 4 == len(rest) else combos[::5])
    m.each('short', 12, short)

    def runs(c):
        """a character many times in a row, texts of many characters"""
        rng = c.rng
        n = (30, 255, 256, 257, 1000, 1025, 5000)[c.index % 7] + rng.choice((-1, 0, 1))
        ch = rng.choice('가ㅋㅏ한a7Z')
        s = rng.choice(('', '나', 'b 가')) + ch * n + rng.choice(('', ch + ' ' + ch * 3, ' ' * n + '나', '나다' * n))
        c.note(text=s)
        all_for(s, [(0, 0, 0, 0), (1, 1, 1, 1)])
        for k in (1, 2, 9, 10, 20, n - 1, n, n + 3):
            m.eq(nz.normalize(s, alphabet=True, number=True, remove_repeat=k), re.sub(r'(.)\1\1+', lambda x: x.group()[:k] if not x.group().isspace() else x.group(),
                 filt(s, QUOTE, ALPHA, DIGIT)), 'normalize(remove_repeat)', text=s, k=k)
        m.seen('long_run', n > 1000)
    m.each('runs', m.n(21, 210), runs)

    def bmp(c):
        lo = c.index * 256
        s = ''.join('가%s나' % chr(i) for i in range(lo, lo + 256) if not 0xD800 <= i < 0xE000)
        t = ' '.join('가%s' % chr(i) for i in range(lo, lo + 256) if not 0xD800 <= i < 0xE000)
        c.note(block='U+%04X' % lo)
        all_for(s, [(0, 0, 0, 0), (1, 1, 1, 1), (0, 0, 0, 1), (0, 0, 1, 0), (0, 1, 0, 0), (1, 0, 0, 0)])
        all_for(t, [(0, 0, 0, 0), (1, 1, 1, 1)])
    m.each('bmp', 256, bmp)
