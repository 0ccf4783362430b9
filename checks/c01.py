# -*- coding: utf-8 -*-
"""C01: compose/decompose bijection, exact character classes (exhaustive)."""
import unicodedata

RULE = '''stage `syllables`: every one of the 11,172 syllables, oracle = Unicode NFD jamo mapped to compatibility letters;
stage `triples`: every legal (initial, vowel, final) triple; stage `points`: every code point in a block of 0x1000 through all seven
class predicates and decompose; a block is non-trivial when at least one predicate answered true or a decomposition existed.'''
ASSUMPTIONS = ['unicodedata NFD tables are the reference for syllable structure']

CHO = ['ㄱ', 'ㄲ', 'ㄴ', 'ㄷ', 'ㄸ', 'ㄹ', 'ㅁ', 'ㅂ', 'ㅃ', 'ㅅ', 'ㅆ', 'ㅇ', 'ㅈ', 'ㅉ', 'ㅊ', 'ㅋ', 'ㅌ', 'ㅍ', 'ㅎ']
PUNCT = set('!"\',.?`')


def compat(jamo):
    """conjoining jamo -> compatibility letter, through Unicode names"""
    name = unicodedata.name(jamo)
    for p in ('HANGUL CHOSEONG ', 'HANGUL JUNGSEONG ', 'HANGUL JONGSEONG '):
        name = name.replace(p, 'HANGUL LETTER ')
    return unicodedata.lookup(name)


def run(m):
    from soynlp import hangle as h
    from soynlp.hangle import _hangle as hh
    m.require('syllable_roundtrip', 'triple_roundtrip', 'points')
    lead = [compat(chr(0x1100 + i)) for i in range(19)]
    vow = [compat(chr(0x1161 + i)) for i in range(21)]
    tail = [' '] + [compat(chr(0x11A8 + i)) for i in range(27)]

    def syllables(c):
        lo = 0xAC00 + c.index * 588
        c.note(first=chr(lo), last=chr(lo + 587))
        for cp in range(lo, lo + 588):
            s = chr(cp)
            nfd = unicodedata.normalize('NFD', s)
            want = (compat(nfd[0]), compat(nfd[1]), compat(nfd[2]) if len(nfd) == 3 else ' ')
            got = h.decompose(s)
            m.expect(got is not None and tuple(got) == want, 'decompose', char=s, got=got, want=want)
            m.eq(h.compose(*want), s, 'compose-of-decompose', triple=want)
            m.seen('syllable_roundtrip')
        m.nontrivial('syl', lo)
    m.each('syllables', 19, syllables)

    def triples(c):
        i = c.index
        c.note(initial=lead[i])
        out = set()
        for j in vow:
            for k in tail:
                s = h.compose(lead[i], j, k)
                out.add(s)
                want = unicodedata.normalize('NFC', chr(0x1100 + i) + chr(0x1161 + vow.index(j)) +
                                             ('' if k == ' ' else chr(0x11A7 + tail.index(k))))
                m.eq(s, want, 'compose', triple=(lead[i], j, k))
                d = h.decompose(s)
                m.expect(d is not None and tuple(d) == (lead[i], j, k), 'decompose-of-compose', got=d)
                m.seen('triple_roundtrip')
        m.eq(len(out), 588, 'compose-injective')
        m.nontrivial('tri', i)
    m.each('triples', 19, triples)

    preds = {
        'korean': (h.character_is_korean, lambda i: 0xAC00 <= i <= 0xD7A3 or 0x3131 <= i <= 0x3163),
        'complete': (h.character_is_complete_korean, lambda i: 0xAC00 <= i <= 0xD7A3),
        'jaum': (h.character_is_jaum, lambda i: 0x3131 <= i <= 0x314E),
        'moum': (h.character_is_moum, lambda i: 0x314F <= i <= 0x3163),
        'number': (h.character_is_number, lambda i: 48 <= i <= 57),
        'english': (h.character_is_english, lambda i: 65 <= i <= 90 or 97 <= i <= 122),
        'punctuation': (getattr(h, 'character_is_punctuation', None) or hh.character_is_punctuation, lambda i: chr(i) in PUNCT),
    }

    def points(c):
        lo = c.index * 0x1000
        c.note(block='U+%04X..U+%04X' % (lo, lo + 0xFFF))
        hot = False
        for cp in range(lo, lo + 0x1000):
            s = chr(cp)
            for name, (f, want) in preds.items():
                w = want(cp)
                hot = hot or w
                if bool(f(s)) != w:
                    m.expect(False, 'class-' + name, char='U+%04X' % cp, want=w)
            if not 0xAC00 <= cp <= 0xD7A3:
                d = h.decompose(s)
                if 0x3131 <= cp <= 0x314E:
                    ok = d is not None and tuple(d) == (s, ' ', ' ')
                elif 0x314F <= cp <= 0x3163:
                    ok = d is not None and tuple(d) == (' ', s, ' ')
                else:
                    ok = d is None
                if not ok:
                    m.expect(False, 'decompose-other', char='U+%04X' % cp, got=d)
            m.seen('points')
        m.decisions += 0x1000 * 8
        if hot:
            m.nontrivial('blk', lo)
    m.each('points', 0x110, points)

    def again(c):
        """characters in random order and repeatedly: nothing depends on what was asked before"""
        rng = c.rng
        pool = [chr(rng.choice((rng.randrange(0xAC00, 0xD7A4), rng.randrange(0x3131, 0x3164), rng.randrange(0x110000)))) for _ in range(4000)]
        for s in pool + rng.sample(pool, 2000):
            i = ord(s) - 0xAC00
            w = (lead[i // 588], vow[i % 588 // 28], tail[i % 28]) if 0 <= i < 11172 else \
                (s, ' ', ' ') if 0x3131 <= ord(s) <= 0x314E else (' ', s, ' ') if 0x314F <= ord(s) <= 0x3163 else None
            m.eq(h.decompose(s), w, 'decompose-again', char=s)
            if w and 0 <= i < 11172:
                m.eq(h.compose(*w), s, 'compose-again', triple=w)
            for name in ('korean', 'number', 'punctuation'):
                m.eq(bool(preds[name][0](s)), preds[name][1](ord(s)), 'class-again-' + name, char=s)
        m.nontrivial('again', c.index)
    m.each('again', m.n(4, 60), again)
