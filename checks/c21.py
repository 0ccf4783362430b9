# -*- coding: utf-8 -*-
"""C21: lemmatizer soundness (re-conjugation by an independent rule table), dictionary membership, and recovery of generated forms."""
import re
from mon import text
from checks.c22 import reference, split, syl, CHO, JUNG, JONG, LONE

RULE = '''Words: forms of (stem, ending) pairs over the shipped dictionaries and over generated stems of every class, random complete
Hangul words, dictionary stems/endings glued at random; lemmatizers with full, small, list/dict/set dictionaries. Every analysis
reconjugated by the independent rule table; lemmatize compared with the filtered candidates; forms of the inverted rules must be
analysed back. Non-trivial: some analysis reported; keyed by word and dictionaries.'''

ALWAYS = {'plain', '다', 'ㄷ', 'ㄷ regular', 'ㅅ', '르', '우', '오', 'ㅡ', '여 contraction', '이어', 'ㅎ네'}


def recovered(why, s, e):
    """Is the form of this rule one the lemmatizer inverts?"""
    c, v, f = split(s[-1])
    r = split(e[0])
    if why == '여 contraction':
        return r[2] in ('', 'ㅅ', 'ㅆ')
    if why in ALWAYS:
        return True
    if why == 'coda':
        return f in ('', 'ㄹ', 'ㅂ', 'ㅎ') and f != e[0]
    if why == 'ㅂ':
        return not (len(s) >= 2 and s[-1] in '답곱깝롭') or r[1] == 'ㅓ'
    if why == 'ㅂ vowel':
        return False
    if why == '해':
        return r[1] == 'ㅏ'
    if why == '으':
        return r[1] in 'ㅏㅓ' and split(s[-2])[2] == ''
    if why == 'ㅎ contraction':
        return r[2] in ('', 'ㄴ', 'ㄹ', 'ㅂ', 'ㅆ') and s[-1] not in '좋' and v == r[1] and not s.endswith('그렇') and s[-2:-1] != '그'
    return False


def run(m):
    from soynlp.lemmatizer import Lemmatizer, lemma_candidate, lemma_candidate_chat
    from soynlp.utils.utils import installpath
    words = lambda p: [x.split()[0] for x in open('%s/lemmatizer/dictionary/default/%s' % (installpath, p), encoding='utf-8')]
    stems = [s for s in words('Stem/Adjective.txt') + words('Stem/Verb.txt') if re.fullmatch('[가-힣]+', s)]
    endings = [e for e in words('Eomi/Eomi.txt') if re.fullmatch('[가-힣ㄴㄹㅁㅂㅆ][가-힣]*', e)]
    top = endings[:1500]
    stemset, endset = set(stems), set(endings)
    full = Lemmatizer(stemset, endset)
    m.require(*ALWAYS, 'coda', 'ㅂ', '해', '으', 'ㅎ contraction', 'sound', 'only_stem', 'candidates', 'none', 'chat_extra', 'predefined',
              'irregular_only')
    LAST = '으르푸하오우놓벗답롭프그끄트주비시이지랗렇닫듣붓낫돕덥눕가서켜두보'

    def rsyl(rng, f=None):
        return syl(rng.choice(CHO), rng.choice(JUNG), rng.choice(JONG) if f is None else f)

    def rstem(rng):
        if rng.random() < .5:
            return rng.choice(stems)
        if rng.random() < .08:
            return rng.choice(('', '아', '머')) + rng.choice('그어저이거') + rng.choice('랗렇럏')
        return ''.join(rng.choice((rsyl(rng), rng.choice('그어저이요하구푸'))) for _ in range(rng.randrange(3))) + (rng.choice(LAST) if rng.random() < .8 else rsyl(rng))

    def rend(rng):
        k = rng.random()
        if k < .7:
            return rng.choice(top)
        if k < .77:
            return rng.choice(endings) + rng.choice(('', '다더라니까요'))
        if k < .85:
            return syl('ㅇ', rng.choice(JUNG), rng.choice(('', '', 'ㄴ', 'ㅅ', 'ㅆ', 'ㄹ'))) + rng.choice(('', '다', '요', '려서'))
        return rng.choice('아어았었엇앗은을는면다고네ㄴㄹㅂㅆ니려') + rng.choice(('', '다', '요', '서', '던'))

    def sound(w, got, where):
        for s, e in got:
            if not m.expect(bool(s) and bool(e), 'empty-part', word=w, stem=s, ending=e, where=where):
                continue
            must, may = reference(s, e)
            m.expect(w in must or w in may, 'does-not-conjugate-back', word=w, stem=s, ending=e, forms=sorted(must), where=where)
            m.seen('sound')

    def judge(lem, S, E, w):
        got = lem.lemmatize(w)
        m.expect(isinstance(got, set), 'type', got=repr(got)[:80])
        sound(w, got, 'lemmatize')
        for s, e in got:
            m.expect(s in S, 'unknown-stem', word=w, stem=s)
            m.expect(e in E, 'unknown-ending', word=w, ending=e)
        cand = lem.candidates(w)
        sound(w, cand, 'candidates')
        m.eq(got, {(s, e) for s, e in cand if s in S and e in E}, 'not-the-known-candidates', word=w)
        m.eq(lem.lemmatize(w, check_only_stem=True), {(s, e) for s, e in cand if s in S}, 'only-stem', word=w)
        m.seen('only_stem', any(e not in E for s, e in cand if s in S))
        m.seen('candidates', len(cand))
        m.seen('none', not got)
        for i in range(1, len(w)):
            s, e = w[:i], w[i:]
            if s in S and e in E and split(e[0])[2] != 'ㅎ':
                must, may = reference(s, e)
                if w in must:
                    m.expect((s, e) in got, 'plain-split-missed', word=w, stem=s, ending=e, got=sorted(got))
        return got

    def forms(c):
        rng = c.rng
        for _ in range(25):
            s, e = rstem(rng), rend(rng)
            must, _ = reference(s, e)
            if rng.random() < .3:
                lem, S, E = full, stemset, endset
            else:
                S = {s} | set(rng.sample(stems, 3))
                E = {e} | set(rng.sample(top, 3))
                if rng.random() < .3:
                    lem = Lemmatizer(rng.choice((list, tuple, frozenset))(S), {x: 1 for x in E})
                else:
                    lem = Lemmatizer(S, E)
            c.note(stem=s, ending=e, stems=len(S), endings=len(E))
            for w, why in must.items():
                got = judge(lem, S, E, w)
                if s in S and e in E and recovered(why, s, e) and (split(e[0]) or ('', '', ''))[2] != 'ㅎ':
                    m.expect((s, e) in got, 'not-analysed-back:' + why, word=w, stem=s, ending=e, got=sorted(got))
                    m.seen(why)
                m.seen('irregular_only', bool(got) and w != s + e)
                if got:
                    m.nontrivial(w, len(S), len(E))

    def arbitrary(c):
        rng = c.rng
        for _ in range(15):
            k = rng.random()
            w = ''.join(rsyl(rng) for _ in range(rng.randrange(1, 5))) if k < .4 else \
                rng.choice(stems) + rng.choice([x for x in top if split(x[0])]) if k < .7 else \
                ''.join(rng.choice(LAST + '었았다고면서요는은을러라') for _ in range(rng.randrange(1, 6)))
            c.note(word=w)
            got = judge(full, stemset, endset, w)
            if got:
                m.nontrivial(w)
        for _ in range(10):
            l = rng.choice(stems) if rng.random() < .4 else ''.join(rng.choice(LAST + '아니그래했닏랟') for _ in range(rng.randrange(1, 4)))
            if rng.random() < .5:
                x = split(l[-1])
                l = l[:-1] + syl(x[0], x[1], rng.choice('ㄷㅂㅅㅇㅋㅎㄴㄹ'))
            r = rng.choice(('', '', rng.choice([x for x in top if split(x[0])])))
            if rng.random() < .15:
                l = ''.join(rsyl(rng) for _ in range(rng.choice((4, 8, 20)))) + l
            c.note(left=l, right=r)
            plain, chat = lemma_candidate(l, r), lemma_candidate_chat(l, r)
            sound(l + r, plain, 'lemma_candidate')
            x = split(l[-1])
            extra = set()
            if not r and x[2] in ('ㄷ', 'ㅂ', 'ㅅ', 'ㅇ', 'ㅋ', 'ㅎ'):
                bare = l[:-1] + syl(x[0], x[1])
                extra = lemma_candidate(bare, '')
                sound(bare, extra, 'chat')
                m.seen('chat_extra', len(extra - plain))
            m.eq(chat, plain | extra, 'chat-candidates', left=l, right=r)

    def predefined(c):
        rng = c.rng
        for _ in range(10):
            s, e = rstem(rng), rend(rng)
            must, _ = reference(s, e)
            if not must:
                continue
            w = rng.choice(sorted(must))
            i = rng.randrange(1, len(w) + 1)
            bad = (rsyl(rng) + s, e)
            pre = {(w[:i], w[i:]): ((s, e), bad)}
            c.note(stem=s, ending=e, word=w, predefined=[w[:i], w[i:]])
            before = Lemmatizer({s, bad[0]}, {e}).lemmatize(w)
            lem = Lemmatizer({s, bad[0]}, {e}, pre)
            got = lem.lemmatize(w)
            sound(w, got, 'predefined')
            if (split(e[0]) or ('', '', ''))[2] != 'ㅎ':
                m.expect((s, e) in got, 'predefined-missed', word=w, stem=s, ending=e, got=sorted(got))
                m.seen('predefined')
            m.eq(Lemmatizer({s, bad[0]}, {e}).lemmatize(w), before, 'predefined-shared', word=w)
            other = Lemmatizer({s}, {e})
            m.expect(other.lemmatize(w) <= got, 'predefined-removes', word=w)
            m.eq(pre, {(w[:i], w[i:]): ((s, e), bad)}, 'caller-modified')
    # every last syllable that a rule can change, with the endings that make it change
    CLASS = {'': ('어', '아', '었다', '았다', 'ㄴ', 'ㄹ까', 'ㅁ', 'ㅂ니다', 'ㅆ다', '다', '여서', '러'), 'ㄷ': ('어', '아서', '을', '었다'),
             'ㅂ': ('어', '아서', '으면', 'ㄴ', '았다', '네'), 'ㅅ': ('어', '아서', '으면', '었다'), 'ㅎ': ('어', '아서', '았다', 'ㄴ', 'ㄹ', '네', '으면'),
             'ㄹ': ('어', 'ㄴ', 'ㅂ니다', 'ㄹ', 'ㅁ', 'ㅆ다')}
    every = [(x, y, f, e) for f in sorted(CLASS) for x in CHO for y in JUNG for e in CLASS[f]]
    turn = m.seed % 7
    front = ('', '', '다', '그', '닫', '가나', '이')[turn:] + ('', '', '다', '그', '닫', '가나', '이')[:turn]

    def systematic(c):
        for k, (x, y, f, e) in enumerate(every[c.index % 100 * (len(every) // 100 + 1):(c.index % 100 + 1) * (len(every) // 100 + 1)]):
            s = front[(k + c.index // 100) % 7] + syl(x, y, f)
            must, _ = reference(s, e)
            lem = Lemmatizer({s}, {e})
            c.note(stem=s, ending=e)
            for w, why in must.items():
                got = lem.lemmatize(w)
                m.expect(got <= {(s, e)}, 'systematic-unknown', word=w, got=sorted(got))
                if recovered(why, s, e):
                    m.expect(got == {(s, e)}, 'not-analysed-back:' + why, word=w, stem=s, ending=e, got=sorted(got))
                    m.seen('systematic')
    m.require('systematic')
    m.each('systematic', m.n(100, 700), systematic)
    m.each('forms', m.n(400, 9000), forms)
    m.each('arbitrary', m.n(400, 9000), arbitrary)
    m.each('predefined', m.n(150, 3000), predefined)
