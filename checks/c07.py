# -*- coding: utf-8 -*-
"""C07: RegexTokenizer partitions at script boundaries."""
import re
from mon import text

RULE = '''hostile strings over all scripts, numbers with signs/points, possessives, words containing s, symbols and exotic
whitespace. Oracle: concatenation = text without whitespace; every token is a single-class unit; class runs of the input are never
split. Non-trivial: two or more tokens; keyed by the text.'''

LATIN = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ') | {chr(i) for i in range(0xC0, 0x100)}


def cls(ch):
    cp = ord(ch)
    if 0xAC00 <= cp <= 0xD7A3:
        return 'syl'
    if 0x3131 <= cp <= 0x314E:
        return 'jaum'
    if 0x314F <= cp <= 0x3163:
        return 'moum'
    if ch in LATIN:
        return 'latin'
    if ch.isdecimal():
        return 'digit'
    return None


def single(tok):
    kinds = {cls(ch) for ch in tok}
    core = kinds - {None}
    if len(core) > 1:
        return False
    if None not in kinds or not core:
        return True
    k = core.pop()
    if k == 'digit':
        return re.fullmatch(r'[-+]?\d*\.?\d+', tok) is not None
    if k == 'latin':
        rest = tok
        while len(rest) > 2 and rest[-1] == 's' and rest[-2] in "`'":
            rest = rest[:-2]
        return all(ch in LATIN or (ch in "`'" and i and i + 1 < len(rest) and rest[i + 1] == 's')
                   for i, ch in enumerate(rest))
    return False


UNITS = [re.compile(x) for x in (r'[-+]?\d*\.?\d+', '[\uac00-\ud7a3]+', '[\u3131-\u314e]+', '[\u314f-\u3163]+',
                                 "[a-zA-Z\u00c0-\u00ff]+(?:[`']s(?![a-zA-Z\u00c0-\u00ff]))*")]


def pieces(word):
    """cut the word at each number, then the rest at each run of syllables, of consonants, of vowels, then at each English word"""
    out = [(word, False)]
    for unit in UNITS:
        nxt = []
        for p, done in out:
            at = 0
            for mt in ([] if done else unit.finditer(p)):
                nxt += [(p[at:mt.start()], False), (mt.group(), True)]
                at = mt.end()
            nxt.append((p[at:], done))
        out = [x for x in nxt if x[0]]
    return [p for p, _ in out]


def run(m):
    from soynlp.tokenizer import RegexTokenizer
    tok = RegexTokenizer()
    m.require('syl', 'jaum', 'moum', 'latin', 'digit', 'signed', 'possessive', 'symbol', 'long_run')

    def body(c):
        rng = c.rng
        s = text.hostile(rng)
        if rng.random() < .4:
            extra = rng.choice(["list passing", "Bob`s job's", "mississippi", "-1.2", "+3.12같은", "3.1.2.1", "가1나-2다.3",
                                "12-34", "cats] [s", "aÀÿfaf`s-1", "1..2", "-+5", "×a÷", "ㅋㅋㅜㅠ봐", "s's", "12a34b"])
            if rng.random() < .2:
                extra = rng.choice(("Bob’s job", "가·나", "3,000원", "1e5", "a_b", "¼½", "é's", "A's's b`s'", "x'S", "+ 1", "2−1", "ª", "ŝ's", "Ās"))
            if rng.random() < .05:
                extra = ''.join(rng.choice('0가ㅋㅠa.-+`') * rng.choice((1, 1, 40, 130, 300)) for _ in range(rng.randrange(3, 7)))
                m.seen('long_run', max(map(len, re.findall(r'((.)\2*)', extra)[0])) > 100)
            p = rng.randrange(len(s) + 1)
            s = s[:p] + extra + s[p:]
        judge(c, s)

    def judge(c, s):
        c.note(text=s)
        nested = tok.tokenize(s, flatten=False)
        flat = tok.tokenize(s)
        want = [t for t in s.split()]
        m.eq(''.join(flat), ''.join(want), 'conservation', text=s, tokens=flat)
        m.eq([list(p) for p in nested], [pieces(w) for w in want], 'units', text=s)
        m.eq([t for part in nested for t in part if t], list(flat), 'flatten', text=s)
        m.eq([''.join(part) for part in nested], want, 'per-word-conservation', text=s)
        m.eq(list(tok(s, debug=False)), list(flat), 'call-equals-tokenize', text=s)
        for t in flat:
            m.expect(t and not any(ch.isspace() for ch in t), 'blank-token', text=s, tokens=flat)
            m.expect(single(t), 'mixed-token', text=s, token=t, tokens=flat)
            k = {cls(ch) for ch in t}
            for x in k - {None}:
                m.seen(x)
            if None in k and 'digit' in k:
                m.seen('signed')
            if None in k and 'latin' in k:
                m.seen('possessive')
            if k == {None}:
                m.seen('symbol')
        # runs never split: a token boundary inside a word never separates two characters of one class
        for part in nested:
            for a, b in zip(part, part[1:]):
                if a and b and cls(a[-1]) and cls(a[-1]) == cls(b[0]):
                    m.expect(False, 'run-split', text=s, left=a, right=b)
        m.decisions += 1
        for mt in re.finditer("(?<![a-zA-ZÀ-ÿ`'])[a-zA-ZÀ-ÿ]+[`']s(?![a-zA-ZÀ-ÿ`'])", s):
            m.expect(mt.group() in flat, 'possessive-split', text=s, word=mt.group(), tokens=flat)
        for mt in re.finditer(r'(?:(?<=[\s가-힣])|^)[-+](?:\d+\.\d+|\d+)(?=[\s가-힣]|$)', s):
            m.expect(mt.group() in flat, 'number-split', text=s, word=mt.group(), tokens=flat)
        if len(flat) > 1:
            m.nontrivial(s)
    m.each('text', m.n(2500, 60000), body)

    def lengths(c):
        # numbers, possessives and runs of every length up to 160, whole and decimal parts alike
        rng = c.rng
        a, b = c.index % 160 + 1, rng.choice((1, 2, 9, 33, rng.randrange(1, 160)))
        if rng.random() < .5:
            a, b = b, a
        digits = lambda n: ''.join(rng.choice('0123456789') for _ in range(n))
        unit = rng.choice((lambda: rng.choice(('', '-', '+')) + digits(a) + rng.choice(('.', '.', '', '..')) + digits(b),
                           lambda: 'ab' * a + rng.choice("'`") + 's' + rng.choice(('', ' ', '가', "'s", 'k')),
                           lambda: '.'.join(digits(rng.randrange(1, 5)) for _ in range(a)),
                           lambda: "'s".join(rng.choice(('it', 'Bob')) for _ in range(a)) + "'s" * b,
                           lambda: ''.join(rng.choice(('가', 'ㅋ', 'ㅏ', 'z', '7', '.', '-')) for _ in range(a)),
                           lambda: rng.choice('가ㅋㅏé') * a + rng.choice('나ㅎㅣÿ') * b))()
        m.seen('every_length')
        judge(c, rng.choice(('', '약', '가 ', 'x')) + unit + rng.choice(('', '원', ' 끝', '.')))
    m.each('lengths', m.n(1600, 16000), lengths)
