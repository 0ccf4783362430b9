# -*- coding: utf-8 -*-
"""C35: the tagger package's corpus extractor (nouns, then predicates of the remaining words), recomputed."""
import contextlib
import copy
import io
import os
import re
import shutil
import tempfile
from collections import Counter
from mon import text
from mon.core import REPO
from checks.c22 import reference
from checks.c23 import predicates, bare_nouns, is_verb
from checks.c32 import learn
from checks.c33 import endings, learned_stems
from checks.nounlib import disguise, Truth, real_corpus, v2_reference, v2_follow, v2_candidates, v2_predict, v2_covered

RULE = '''Corpora of nouns with particles and predicates of known and unknown stems and endings, word counts about the minima (2, 10), words that
begin with a noun, stems learned with the fixed thresholds, samples of the shipped corpus x left/right lengths x verbosity x log file; the shipped
stem and ending lists cut to a sample (the extractor conjugates every pair of them). Oracle: nouns, the words they leave and the predicates
recomputed from a recount of the corpus. Non-trivial: at least one noun and one predicate; keyed by (corpus, options).'''


def run(m):
    from soynlp.postagger import POSExtractor
    from soynlp.predicator import _predicator as P
    from soynlp.lemmatizer import _conjugate_stem
    T0 = Truth()
    m.require('renamed_characters', 'noun', 'predicate', 'covered_word', 'learned_ending', 'learned_stem', 'rare_noun', 'rare_predicate', 'once', 'short_sides',
              'repeat', 'log', 'adjective_and_verb', 'empty_result', 'learned_particle', 'ending_in_proportion', 'stem_in_proportion')
    base = os.path.join(REPO, 'soynlp')
    kor = re.compile('[가-힣]+$')

    def rows(p, k):
        with open(os.path.join(base, 'lemmatizer', 'dictionary', 'default', p), encoding='utf-8') as f:
            return [x.split() for x in f if int(x.split()[1]) >= k]
    with open(os.path.join(base, 'postagger', 'dictionary', 'default', 'Josa', 'josa_chat.txt'), encoding='utf-8') as f:
        JOSA = {x.strip() for x in f}
    scratch = tempfile.mkdtemp(prefix='verif_c35_')
    news = [x.strip() for x in open('/repo/tutorials/doublespace_line_corpus_sample.txt', encoding='utf-8')][:3000]
    adj, verb, eom = rows('Stem/Adjective.txt', 2), rows('Stem/Verb.txt', 2), rows('Eomi/Eomi.txt', 20)
    from checks.c22 import split
    an, vn = {x[0]: x for x in adj}, {x[0]: x for x in verb}
    pairs = [(a, b) for a in an.values() for b in vn.values() if len(a[0]) == len(b[0]) and a[0] != b[0] and a[0][:-1] == b[0][:-1]
             and a[0] not in vn and b[0] not in an and kor.match(a[0]) and kor.match(b[0])
             and split(a[0][-1])[:2] == split(b[0][-1])[:2] and {split(a[0][-1])[2].strip(), split(b[0][-1])[2].strip()} == {'', 'ㄹ'}]

    def dictionaries(rng, i):
        """a folder with a sample of the shipped stems and endings"""
        top = os.path.join(scratch, 'd%d' % i)
        ends = [e for e in eom if re.fullmatch('[가-힣ㄴㄹㅁㅂㅆ][가-힣]*', e[0])]
        A, V = rng.sample(adj, 15), rng.sample(verb, 25)
        if rng.random() < .5:
            V += rng.sample(A, 2)
        Es = ends[:20] + rng.sample(ends, 15)
        if pairs and rng.random() < .4:             # an adjective and a verb with forms in common
            a, b = rng.choice(pairs)
            A, V, Es = A + [a], V + [b], Es + [e for e in ends if e[0][0] in 'ㄴㄹㅂ'][:12]
            if rng.random() < .5:
                A, V = A[-3:], V[-3:]
        for p, ws in (('Stem/Adjective.txt', A), ('Stem/Verb.txt', V), ('Eomi/Eomi.txt', Es)):
            q = os.path.join(top, 'lemmatizer', 'dictionary', 'default', p)
            os.makedirs(os.path.dirname(q), exist_ok=True)
            with open(q, 'w', encoding='utf-8') as f:
                f.write(''.join('%s %s\n' % tuple(x) for x in ws))
        q = os.path.join(top, 'postagger', 'dictionary', 'default', 'Josa')
        os.makedirs(q)
        shutil.copy(os.path.join(base, 'postagger', 'dictionary', 'default', 'Josa', 'josa_chat.txt'), q)
        return top, [x[0] for x in A], [x[0] for x in V], sorted({x[0] for x in Es})

    def corpus(rng, A, V, E):
        T = T0
        syl = rng.sample(T.free, 40)
        jo = [r for r in rng.sample(T.pos_l, 12)] + ['은', '는', '이', '에서']
        count = lambda: rng.choice((1, 2, 3, 9, 10, 11, 30))
        words = []

        def put(w, k=None):
            words.extend([w] * (k or count()))
        nouns = [''.join(syl.pop() for _ in range(rng.choice((1, 2, 2, 3)))) for _ in range(rng.choice((2, 5)))] + rng.sample(text.NOUNS, 2)
        for N in nouns:
            for j in rng.sample(jo, rng.choice((1, 2, 4))):
                put(N + j, rng.choice((1, 2, 3, 5)))
            if rng.random() < .3:
                put(N, rng.choice((1, 5, 14, 15, 16, 40)))
        def form(s, e):
            fs = sorted(reference(s, e)[0])
            return rng.choice(fs) if fs else None
        for s in rng.sample(A + V, min(len(A + V), rng.choice((4, 10)))):
            for e in rng.sample(E, rng.choice((1, 3, 8))):
                w = form(s, e)
                if w:
                    put(w)
                    if rng.random() < .15:
                        put(rng.choice(nouns) + w)
        for _ in range(rng.choice((0, 1, 2))):      # an ending not in the list
            new = ''.join(rng.sample(syl, rng.choice((1, 2))))
            for s in rng.sample(A + V, min(len(A + V), 9)):
                put(rng.choice(sorted(_conjugate_stem(s))) + new)
        if rng.random() < .6:                       # a stem not in the list with every kind of ending
            new = rng.choice(syl) + rng.choice(('하', rng.choice(syl)))
            for e in [e for e in E if len(e) > 1 and kor.match(e)]:
                w = form(new, e)
                if w:
                    put(w, rng.choice((3, 9, 11, 20)))
                    put(form(rng.choice(A + V), e) or w, rng.choice((2, 5)))
        if rng.random() < .4:                       # endings and stems about the minimum score: right and wrong uses in proportion
            new = ''.join(rng.sample(syl, rng.choice((1, 2))))
            k, bad = rng.choice(((13, 7), (7, 3), (14, 7), (12, 8), (8, 2)))
            for s in rng.sample(A + V, 6):
                put(rng.choice(sorted(_conjugate_stem(s))) + new, k)
            for _ in range(6):
                put(syl[0] + rng.choice(T.free) + new, bad)
            m.seen('ending_in_proportion')
        if rng.random() < .4:
            new = rng.choice(syl) + rng.choice(syl)
            fs = sorted({(form(new, e), e) for e in E if len(e) > 1 and kor.match(e)} - {(None, None)}, key=repr)
            good = [(w, e) for w, e in fs if w]
            k = rng.choice((10, 20))
            for w, e in good:
                put(w, k)
                put(form(rng.choice(A + V), e) or w, rng.choice((2, 5)))
            share = rng.choice((.12, .14, .16, .19, .1))        # (p - n) / (p + n) about 0.7
            wrong = round(len(good) * k * share / (1 - share))
            if wrong:
                put(new, wrong)
            m.seen('stem_in_proportion')
        for _ in range(5):
            put(text.eojeol(rng))
        rng.shuffle(words)
        return [' '.join(words[i:i + 7]) for i in range(0, len(words), 7)]

    def particles(rng, stems, E):
        """a particle not in the model, after enough nouns to be learned"""
        syl = rng.sample(T0.free, 40)
        J = [r for r in rng.sample(T0.pos_l, 30) if len(r) < 4]
        J = [r for r in J if not any(x != r and (x.startswith(r) or r.startswith(x)) for x in J)][:4]
        nouns = [syl.pop() + syl.pop() for _ in range(7)]
        r, late = syl.pop() + rng.choice(('', syl.pop())), [syl.pop() + syl.pop() for _ in range(2)]
        words = [N + j for N in nouns for j in J for _ in range(30)] + [nouns[i % 7] + r for i in range(rng.choice((1000, 1200)))]
        words += [N + x for N in late for x in J[:2] + [r] for _ in range(4)]      # nouns thanks to the learned particle
        words += [w for s in rng.sample(stems, 5) for w in sorted(reference(s, rng.choice(E))[0])] * 11
        rng.shuffle(words)
        return [' '.join(words[i:i + 6]) for i in range(0, len(words), 6)]

    def noun_reference(cnt, L, R):
        """-> nouns with (frequency, score), the words they take, nothing when scores equal a limit up to rounding"""
        T = copy.deepcopy(T0)
        follow = v2_follow(cnt, L, R)
        cands = v2_candidates(follow, T.pos)
        pred = v2_predict(cnt, T, follow, cands, .3, 2, 15)
        got = learn(cnt, T, follow, pred, (), .3, 100, .3, 1000, 4, .5, 1.5, lambda *a: None)
        if got:
            new = {r for r in got if r in T.neg}
            T.common |= new
            T.pos |= set(got) - new
        nouns, _ = v2_reference(cnt, T, L, R, .4, 10, 2, 15, compound=False, cands=cands)
        return nouns, v2_covered(cnt, T, follow, nouns), bool(got)

    def body(c, full=False):
        rng = c.rng
        top, A, V, E = dictionaries(rng, c.index)
        old = getattr(P, 'installpath', None)
        kw = {'verbose': rng.random() < .3}
        if rng.random() < .4:
            kw.update(l_max_length=rng.choice((4, 8, 12)), r_max_length=rng.choice((3, 6, 9)))
            m.seen('short_sides')
        if rng.random() < .1:
            kw['logpath'] = os.path.join(scratch, 'logs%d' % c.index, 'x')
            m.seen('log')
        k = rng.random()
        if k < .07:
            sents = particles(rng, A + V, E)
        elif k < .1:
            i = rng.randrange(len(news) - 300)
            sents = news[i:i + 120]
        elif k < .14:
            sents = real_corpus(rng, rng.choice((1, 60, 200)))
        else:
            sents = corpus(rng, A, V, E)
        if rng.random() < .2:
            sents, _ = disguise(rng, sents)
            m.seen('renamed_characters')
        if not any(s.split() for s in sents):
            return
        L, R = kw.get('l_max_length', 10), kw.get('r_max_length', 8)
        c.note(sentences=sents, options={x: y for x, y in kw.items() if x != 'logpath'}, adjectives=A, verbs=V, endings=E)
        P.installpath = top
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                x = POSExtractor(**kw)
                if rng.random() < .15:
                    x.extract(corpus(rng, A, V, E))       # what was extracted before does not matter
                    m.seen('repeat')
                nouns, preds = x.extract(list(sents))
        finally:
            P.installpath = old
            shutil.rmtree(top, ignore_errors=True)
        cnt = Counter(w for s in sents for w in s.split() if len(w) <= L + R)
        m.seen('once', 1 in cnt.values())
        cnt = {w: k for w, k in cnt.items() if k >= 2}
        begin = Counter()
        for w, k in cnt.items():
            for i in range(1, len(w) + 1):
                begin[w[:i]] += k
        for w, s in nouns.items():
            m.expect(10 <= s.frequency <= begin[w] and s.score >= .4, 'noun-limits', noun=w, got=tuple(s), begins=begin[w])
        for w, p in preds.items():
            m.expect(p.frequency == cnt.get(w) and p.frequency >= 10, 'predicate-limits', word=w, got=p.frequency, count=cnt.get(w))
            for s, e in p.lemma:
                must, may = reference(s, e)
                m.expect(w in must or w in may, 'does-not-conjugate-back', word=w, stem=s, ending=e)
            m.expect(bool(p.lemma), 'no-analysis', word=w)
        want, covered, learned = noun_reference(cnt, L, R)
        m.eq({w: s.frequency for w, s in nouns.items()}, {w: s[0] for w, s in want.items()}, 'nouns')
        for w in want:
            if w in nouns:
                m.close(nouns[w].score, want[w][1], 'noun-score', noun=w)
        low, _ = v2_reference(cnt, T0, L, R, .4, 1, 2, 15, compound=False)
        m.seen('learned_particle', learned)
        m.seen('rare_noun', len(low) > len(want))
        left = {w: k for w, k in cnt.items() if w not in covered and any(len(w) - i <= R for i in range(1, min(len(w), L) + 1))}
        m.seen('covered_word', len(covered))
        S = set(A) | set(V)
        N, E2, S2 = bare_nouns(want, S), set(E), set(S)
        base = {w: k for w, k in left.items() if len(w) > 1 and not any(w[:i] in N for i in range(2, len(w) + 1))}
        lo, hi = endings(base, S, N, 5, .3, 1)
        if set(lo) != set(hi):
            return
        E2 |= set(lo)
        S2 |= set(learned_stems(base, S, E2, 10, .5, .7, 100)[0])
        got, _ = predicates([w for w, k in left.items() if k >= 10 and kor.match(w)], S2, E2, N, JOSA)
        wantp = {w: (left[w], sorted(xs)) for w, xs in got.items() if xs}
        m.eq({w: (p.frequency, sorted(p.lemma)) for w, p in preds.items()}, wantp, 'predicates')
        m.seen('rare_predicate', any(2 <= k < 10 for w, k in left.items()))
        m.seen('noun', len(nouns))
        m.seen('predicate', len(preds))
        m.seen('learned_ending', len(E2 - set(E)))
        m.seen('learned_stem', len(S2 - S))
        kinds = [{is_verb(s, got, set(V), set(A)) for s, _ in xs} for xs in got.values()]
        m.seen('adjective_and_verb', any(len(k) > 1 for k in kinds))
        m.seen('empty_result', not nouns or not preds)
        if nouns and preds:
            m.nontrivial(sents, sorted((a, b) for a, b in kw.items() if a != 'logpath'))
    try:
        m.each('corpora', m.n(150, 3000), body)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
