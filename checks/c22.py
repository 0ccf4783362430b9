# -*- coding: utf-8 -*-
"""C22: conjugation against an independent table of its rules, over dictionary products and generated syllables."""
import re
from mon import text

RULE = '''stems and endings: shipped dictionary x shipped dictionary, and generated stems (1-4 syllables, last syllables drawn from every
irregular class or from all 11172 syllables) x generated endings (junction syllables of every class, lone consonants), judged by an
independent rule table written on code points: every documented form present, no form outside the table, stem and ending kept away
from the junction. Chat conjugation, vowel-harmony enforcement, and the stem-surface listing likewise. Non-trivial: an irregular
rule applied; keyed by (stem, ending).'''

CHO = 'ㄱㄲㄴㄷㄸㄹㅁㅂㅃㅅㅆㅇㅈㅉㅊㅋㅌㅍㅎ'
JUNG = 'ㅏㅐㅑㅒㅓㅔㅕㅖㅗㅘㅙㅚㅛㅜㅝㅞㅟㅠㅡㅢㅣ'
JONG = [''] + list('ㄱㄲㄳㄴㄵㄶㄷㄹㄺㄻㄼㄽㄾㄿㅀㅁㅂㅄㅅㅆㅇㅈㅊㅋㅌㅍㅎ')
LONE = 'ㄴㄹㅁㅂㅆ'
POSV, NEGV = 'ㅏㅑㅗㅛ', 'ㅓㅕㅜㅠ'


def syl(c, v, f=''):
    return chr(0xAC00 + (CHO.index(c) * 21 + JUNG.index(v)) * 28 + JONG.index(f))


def split(ch):
    i = ord(ch) - 0xAC00
    if not 0 <= i < 11172:
        return None
    return CHO[i // 588], JUNG[i // 28 % 21], JONG[i % 28]


def reference(s, e):
    """-> {form: rule} that must appear, {form: rule} that may."""
    must, may = {}, {}
    c, v, f = split(s[-1])
    head, last = s[:-1], s[-1]
    r = split(e[0])
    tail = e[1:]
    plain = s + e
    if r is None:
        must[head + syl(c, v, e[0]) + tail] = 'coda'
        return must, may
    rc, rv, rf = r
    vowel = rc == 'ㅇ'
    ae = vowel and rv in 'ㅏㅓ'
    if e[0] == '다':
        must[plain] = '다'
    if f == 'ㄷ' and vowel:
        must[head + syl(c, v, 'ㄹ') + e] = 'ㄷ'
        must[plain] = 'ㄷ regular'
    if last == '르' and ae and len(s) >= 2 and s[-2:] != '푸르':
        pc, pv, pf = split(s[-2])
        (may if pf else must)[s[:-2] + syl(pc, pv, 'ㄹ') + syl('ㄹ', rv, rf) + tail] = '르'
    if last == '르' and vowel and rv == 'ㅓ' and s[-2:] != '구르':
        must[s + syl('ㄹ', 'ㅓ', rf) + tail] = '러'
    if f == 'ㅂ' and vowel:
        if ae:
            w = 'ㅘ' if rv == 'ㅏ' and not (len(s) >= 2 and last in '답곱깝롭') else 'ㅝ'
            must[head + syl(c, v) + syl('ㅇ', w, rf) + tail] = 'ㅂ'
        else:
            must[head + syl(c, v) + e] = 'ㅂ vowel'
    if f == 'ㅅ' and vowel:
        must[plain if last == '벗' else head + syl(c, v) + e] = 'ㅅ'
    if v == 'ㅜ' and not f and vowel and rv == 'ㅓ':
        must[head + (syl('ㅍ', 'ㅓ', rf) if last == '푸' else syl(c, 'ㅝ', rf)) + tail] = '우'
    if v == 'ㅗ' and not f and vowel and rv == 'ㅏ':
        must[head + syl(c, 'ㅘ', rf) + tail] = '오'
    if v == 'ㅡ' and not f and vowel:
        if c == 'ㅇ' and len(s) > 1:
            must[head + e] = '으'
        elif c != 'ㄹ':
            (must if ae else may)[head + syl(c, rv, rf) + tail] = 'ㅡ'
    if e[:2] in ('어라', '아라'):
        if last == '오':
            must[head + '와' + tail] = '너라'
        elif last == '우':
            must[head + '워' + tail] = '어라'
        elif last == '가':
            must[s + tail] = '거라'
        elif v in NEGV:
            must[s + '어' + tail] = '어라'
        else:
            (must if v in POSV else may)[s + '아' + tail] = '아라'
    if last == '하' and ae:
        must[s + syl('ㅇ', 'ㅕ', rf) + tail] = '여'
        must[head + syl('ㅎ', 'ㅐ', rf) + tail] = '해'
    if f == 'ㅎ':
        drop = plain if last in '좋놓' else head + syl(c, v) + e
        (must if rc in 'ㅇㅁㄴ' or last in '좋놓' else may)[drop] = 'ㅎ'
        if rc == 'ㄴ':
            must[plain] = 'ㅎ네'
        elif not must:
            may[plain] = 'ㅎ plain'
        if ae and last != '좋':
            must[head + syl(c, 'ㅐ' if rv == 'ㅏ' else 'ㅔ', rf) + tail] = 'ㅎ contraction'
    if vowel and rv == 'ㅓ' and v == 'ㅣ' and not f:
        must[head + syl(c, 'ㅕ', rf) + tail] = '여 contraction'
        must[plain] = '이어'
    if not must and not may:
        if not f and vowel and rv == v:
            must[head + syl(c, v, rf) + tail] = 'same vowel'
        else:
            must[plain] = 'plain'
    return must, may


def run(m):
    from soynlp.lemmatizer import conjugate, conjugate_chat, _conjugate_stem
    from soynlp.utils.utils import installpath
    words = lambda p: [x.split()[0] for x in open('%s/lemmatizer/dictionary/default/%s' % (installpath, p), encoding='utf-8')]
    stems = [s for s in words('Stem/Adjective.txt') + words('Stem/Verb.txt') if re.fullmatch('[가-힣]+', s)]
    endings = [e for e in words('Eomi/Eomi.txt') if re.fullmatch('[가-힣ㄴㄹㅁㅂㅆ][가-힣]*', e)]
    rules = ('coda', '다', 'ㄷ', 'ㄷ regular', '르', '러', 'ㅂ', 'ㅂ vowel', 'ㅅ', '우', '오', '으', 'ㅡ', '너라', '어라', '거라', '아라',
             '여', '해', 'ㅎ', 'ㅎ네', 'ㅎ contraction', '여 contraction', '이어', 'same vowel', 'plain')
    m.require(*rules, 'chat', 'harmony', 'stem_surface')
    CLASSLAST = '르푸가하오우좋놓벗답곱깝롭퍼그으끄트주비시이지렇랗닫붓깨돕덥서사터켜펴내세'
    FIRST = '아어았었앗엇여였은을음읍으이울운우워왔와우라러려나네는니냐다더던도면고지기게거까자소습'

    def rsyl(rng, f=None):
        return syl(rng.choice(CHO), rng.choice(JUNG), rng.choice(JONG) if f is None else f)

    def rstem(rng):
        k = rng.random()
        if k < .4:
            return rng.choice(stems)
        if k < .7:
            last = rng.choice(CLASSLAST)
        elif k < .85:
            last = rsyl(rng, rng.choice('ㄷㅂㅅㅎㄹ'))
        elif k < .93:
            last = rsyl(rng, '')
        else:
            last = rsyl(rng)
        pre = ''.join(rng.choice((rsyl(rng), '푸', '구', '이', '오', '가', '하')) for _ in range(rng.choice((0, 0, 1, 1, 2, 3))))
        return pre + last

    def rending(rng):
        k = rng.random()
        if k < .4:
            return rng.choice(endings)
        if k < .5:
            return rng.choice(LONE) + ''.join(rng.choice(FIRST) for _ in range(rng.randrange(3)))
        first = rng.choice(FIRST) if k < .75 else syl('ㅇ', rng.choice(JUNG), rng.choice(JONG)) if k < .9 else rsyl(rng)
        return first + ''.join(rng.choice(FIRST + '라라') for _ in range(rng.randrange(3)))

    def judge(s, e):
        got = conjugate(s, e)
        must, may = reference(s, e)
        m.expect(isinstance(got, set) and got, 'nothing-produced', stem=s, ending=e, got=got)
        for w, why in must.items():
            m.expect(w in got, 'form-missing:' + why, stem=s, ending=e, form=w, got=sorted(got))
        for w in got:
            m.expect(w in must or w in may, 'form-without-rule', stem=s, ending=e, form=w, allowed=sorted(must) + sorted(may))
            m.expect(w.startswith(s[:-2]) and w.endswith(e[2:] if len(e) > 1 else ''), 'outside-junction', stem=s, ending=e, form=w)
            m.expect(bool(re.fullmatch('[가-힣]+', w)), 'not-complete', form=w)
        for why in must.values():
            m.seen(why)
        if set(must.values()) - {'plain'}:
            m.nontrivial(s, e)
        return got

    def product(c):
        rng = c.rng
        for _ in range(40):
            s, e = rstem(rng), rending(rng)
            c.note(stem=s, ending=e)
            judge(s, e)

    def dictionary(c):
        rng = c.rng
        s = CLASSLAST[c.index] if c.index < len(CLASSLAST) else rng.choice(stems) if rng.random() < .5 else rstem(rng)
        c.note(stem=s)
        for e in rng.sample(endings, 60):
            judge(s, e)
        L = _conjugate_stem(s)
        m.expect(s in L and all(x.startswith(s[:-2]) for x in L), 'stem-surface', stem=s, got=sorted(L))
        # the listed stem surfaces cover the beginning of a form of each regular class
        c_, v, f = split(s[-1])
        need = set()
        if not f:
            need |= {s[:-1] + syl(c_, v, x) for x in 'ㄴㄹㅂㅆ'}
        if f in ('ㄷ', 'ㅂ') or (f == 'ㅅ' and s[-1] != '벗') or (f == 'ㅎ' and s[-1] != '좋'):
            need.add(s[:-1] + syl(c_, v, 'ㄹ' if f == 'ㄷ' else ''))
        if v == 'ㅗ' and not f:
            need |= {s[:-1] + syl(c_, 'ㅘ', x) for x in ('', 'ㅆ')}
        if v == 'ㅜ' and not f and s[-1] != '푸':
            need |= {s[:-1] + syl(c_, 'ㅝ', x) for x in ('', 'ㅆ')}
        if v == 'ㅡ' and not f:
            need |= {s[:-1] + syl(c_, 'ㅓ', x) for x in ('', 'ㅆ')}
        if s[-1] == '르' and len(s) > 1:
            p = split(s[-2])
            need.add(s[:-2] + syl(p[0], p[1], 'ㄹ'))
        if s[-1] == '하':
            need |= {s[:-1] + '해', s[:-1] + '했'}
        if v == 'ㅣ' and not f:
            need.add(s[:-1] + syl(c_, 'ㅕ', 'ㅆ'))
        if v == 'ㅡ' and c_ == 'ㅇ' and not f and len(s) > 1:
            need.add(s[:-1])
        if f == 'ㅎ' and s[-1] != '좋':
            need |= {s[:-1] + syl(c_, v, x) for x in 'ㄴㄹㅆ'} | {s[:-1] + syl(c_, 'ㅐ', 'ㅆ')}
        m.expect(need <= L, 'stem-surface-missing', stem=s, missing=sorted(need - L))
        m.expect(L <= need | {s}, 'stem-surface-of-no-class', stem=s, extra=sorted(L - need - {s}))
        m.seen('stem_surface')

    def variants(c):
        rng = c.rng
        for _ in range(20):
            s, e = rstem(rng), rending(rng)
            if rng.random() < .4:
                e = rng.choice('ㄱㄲㄴㄷㄸㄹㅁㅂㅃㅅㅆㅇㅈㅉㅊㅋㅌㅍㅎ') + rng.choice(('', 'ㅋ', '요', '다', 'ㅋㅋ', '니다요', 'ㅎㅎㅎㅎ'))
            if rng.random() < .05:
                e = ''
            c.note(stem=s, ending=e)
            got = conjugate_chat(s, e)
            if not e:
                m.eq(got, {s}, 'chat-empty-ending', stem=s)
                continue
            want = conjugate(s, e) if split(e[0]) or e[0] in LONE else set()
            c_, v, _ = split(s[-1])
            if not split(e[0]) and e[0] in JONG:
                want = want | {s[:-1] + syl(c_, v, e[0]) + e[1:]}
            if e[0] == 'ㅇ':
                m.expect(want <= got, 'chat', stem=s, ending=e, got=sorted(got), want=sorted(want))
            else:
                m.eq(got, want, 'chat', stem=s, ending=e)
            m.seen('chat')
        for _ in range(20):
            s, e = rstem(rng), rending(rng)
            c.note(stem=s, ending=e)
            got = conjugate(s, e, enforce_moum_harmoney=True)
            c_, v, f = split(s[-1])
            r = split(e[0])
            w = e
            if r and r[0] == 'ㅇ' and r[1] in POSV + NEGV:
                if f != 'ㅂ' and v in POSV and r[1] in NEGV:
                    w = syl('ㅇ', POSV[NEGV.index(r[1])], r[2]) + e[1:]
                elif (f != 'ㅂ' and v in NEGV or v in 'ㅡㅣ') and r[1] in POSV:
                    w = syl('ㅇ', NEGV[POSV.index(r[1])], r[2]) + e[1:]
            m.eq(got, conjugate(s, w), 'harmony', stem=s, ending=e, harmonised=w)
            m.seen('harmony', w != e)

    def grid(c):
        """every kind of stem end against every kind of ending begin"""
        pre = ['', '오', '부', '아가', '그', '어', '이', '푸', '구'][c.index % 9] if c.index < 9 else ''.join(rsyl(c.rng) for _ in range(c.rng.randrange(1, 3)))
        firsts = sorted(set(FIRST) | {syl('ㅇ', v, f) for v in JUNG for f in ('', 'ㄴ', 'ㅅ', 'ㅆ')}) + list(LONE)
        tails = c.rng.sample(['', '라', '다', '라니까', '서'], 2) + ['라']
        c.note(before=pre)
        for x in CLASSLAST + '거너바오':
            for e in firsts:
                judge(pre + x, e + tails[len(e + x) % 2] if c.rng.random() < .6 else e + c.rng.choice(tails))
        m.seen('grid')

    EVERY = ('어', '아', '었다', '았다', 'ㄴ', 'ㄹ까', 'ㅂ니다', 'ㅆ다', 'ㅁ', '러', '거라', '너라', '여', '네', '면', '으면', '울까', '고')

    def every(c):
        """every syllable at the end of the stem, and every syllable at the start of the ending"""
        k = (c.index + m.seed) % len(EVERY)
        front = ('', '다', '구', '그', '나가', '프')[(c.index + m.seed) // len(EVERY) % 6]
        for i, x in enumerate(CHO):
            for y in JUNG:
                for z in JONG:
                    judge(front + syl(x, y, z), EVERY[k])
        last = (CLASSLAST + '거너바오')[(c.index * 7 + m.seed) % len(CLASSLAST + '거너바오')]
        for x in CHO:
            for y in JUNG:
                for z in JONG:
                    judge(front + last, syl(x, y, z) + ('다' if y in 'ㅏㅗ' else ''))
        m.seen('every_syllable')
    m.require('every_syllable')

    EXAMPLES = [('깨닫', '아', '깨달아'), ('구르', '었다', '굴렀다'), ('더럽', '어서', '더러워서'), ('곱', '아', '고와'), ('아름답', '아', '아름다워'),
                ('돕', '울까', '도울까'), ('이', 'ㅂ니다', '입니다'), ('붓', '어', '부어'), ('벗', '어', '벗어'), ('푸', '어', '퍼'), ('푸', '었다', '펐다'),
                ('주', '어', '줘'), ('돌아오', '았지용', '돌아왔지용'), ('끄', '어', '꺼'), ('트', '었다', '텄다'), ('모으', '았다', '모았다'),
                ('돌아오', '아라', '돌아와라'), ('그리우', '어라', '그리워라'), ('삼가', '아라니까', '삼가라니까'), ('이르', '어', '이르러'),
                ('이르', '었다던', '이르렀다던'), ('푸르', '어', '푸르러'), ('아니하', '았다', '아니하였다'), ('하', '었다', '했다'), ('파랗', '면', '파라면'),
                ('파랗', '았다', '파랬다'), ('시퍼렇', '었다', '시퍼렜다'), ('그렇', '네', '그러네'), ('파랗', '네요', '파랗네요'), ('좋', '았어', '좋았어'),
                ('만지', '었어', '만졌어'), ('받', '았다', '받았다'), ('새롭', '운', '새로운'), ('서툴', 'ㄴ', '서툰'),
                ('내려놓', '은', '내려놓은'), ('동그랗', 'ㄴ', '동그란'), ('먹', '는다', '먹는다'), ('가', '았다', '갔다')]

    def documented(c):
        for s, e, w in EXAMPLES:
            got = judge(s, e)
            m.expect(w in got, 'documented-example', stem=s, ending=e, form=w, got=sorted(got))
    m.each('documented', 1, documented)
    m.each('grid', m.n(9, 300), grid)
    m.each('every', m.n(27, 432), every)
    m.each('dictionary', m.n(900, 20000), dictionary)
    m.each('product', m.n(1500, 40000), product)
    m.each('variants', m.n(300, 6000), variants)
