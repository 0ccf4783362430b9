# -*- coding: utf-8 -*-
"""C18: LRNounExtractor_v2 soundness on arbitrary corpora, exactness on corpora with known truth."""
import os
import re
import shutil
import tempfile
from collections import Counter
from mon import text
from checks.nounlib import disguise, Truth, real_corpus, tiny_corpus, eojeols, begins, prefix_free, v2_reference, v2_follow, v2_covered, JOSASET

RULE = '''(1) random corpora - Korean noun+josa/predicate/compound text, words over the alphabets of the endings themselves, hostile
text, blank corpora - x left/right length limits, minima, feature minimum, compound and post-processing options, normalization,
logging: every returned noun recounted, coverage line recomputed from the words left in the graph, compound parts rejoined. (2) planted
corpora whose nouns use syllables found in no ending: exact nouns, frequencies and scores, compounds included. Non-trivial: some
candidate was rejected and some noun returned; keyed by (corpus, configuration).'''


def run(m):
    from soynlp.noun import LRNounExtractor_v2, NounScore
    from soynlp.normalizer import normalize_sent_for_lrgraph
    from soynlp.utils import EojeolCounter
    import contextlib
    import io
    SHIPPED = T = Truth()
    long_pos = sorted(x for x in T.pos if len(x) > 3 and any(x[i:] in T.pos for i in range(2, len(x))))
    far_pos, far_neg = ([x for x in t if len(x) > 3] for t in (sorted(T.pos), sorted(T.neg)))
    m.require('renamed_characters', 'rich', 'own_predictor', 'own_predictors', 'counter', 'graph', 'noun', 'compound', 'covered', 'min_frequency_cut', 'empty_result', 'normalized', 'min_eojeol', 'single_syllable',
              'truth_noun', 'truth_rejected', 'truth_compound', 'truth_negative', 'truth_common', 'logged', 'postprocessing',
              'route: several endings', 'route: nothing left', 'route: frequent word', 'route: often alone', 'route: different beginnings',
              'route: one ending', 'route: compound', 'route: detaching_features', 'route: ignore_features', 'route: ignore_NJ')
    scratch = tempfile.mkdtemp(prefix='verif_c18_')
    COV = re.compile(r'\[Noun Extractor\] (-?[\d.]+) % eojeols are covered')

    def body(c):
        nonlocal T
        T = SHIPPED
        rng = c.rng
        n = rng.choice((1, 5, 20, 60, 150))
        kind = rng.choice(('real', 'real', 'tiny', 'hostile', 'blank', 'stacked', 'stacked', 'long', 'long', 'mixed', 'mixed', 'rich'))
        if c.index % 150 == 7:
            # more candidates than the progress output counts at once
            kind = 'large'
            names = [text.syllable(rng) + text.syllable(rng) + rng.choice(('', '산', '강', '시')) for _ in range(1300)]
            words = [N + j for N in names for j in rng.sample(text.JOSA, 2)] + [N + rng.choice(names) + rng.choice(text.JOSA) for N in names]
            rng.shuffle(words)
            k = rng.choice((1, 7))
            sents = [' '.join(words[i:i + k]) for i in range(0, len(words), k)]
            m.seen('large')
        elif kind == 'real':
            sents = real_corpus(rng, n)
        elif kind == 'tiny':
            sents = tiny_corpus(rng, n)
        elif kind == 'stacked':
            # nouns with many particles, some of the particles followed by further ones
            sents = []
            for N in rng.sample(text.NOUNS, 3):
                J = rng.sample(sorted(JOSASET), rng.randrange(3, 9))
                words = [N + j for j in J for _ in range(rng.choice((1, 2, 5)))] + [N] * rng.choice((0, 2, 40))
                for j in rng.sample(J, 2):
                    words += [N + j + x for x in rng.sample(T.pos_l, rng.randrange(1, 4))] + [N + j] * rng.choice((0, 0, 3, 9))
                rng.shuffle(words)
                sents += [' '.join(words[i:i + 5]) for i in range(0, len(words), 5)]
        elif kind == 'long':
            # long nouns, particles longer than usual, compounds of many parts, few endings in exact proportions
            nouns = [''.join(rng.sample(T.free, rng.choice((2, 2, 3, 5, 7)))) for _ in range(3)] + rng.sample(text.NOUNS, 3)
            words, far = [], sorted(T.pos, key=len)[-60:] if rng.random() < .5 else long_pos
            for N in nouns:
                ends = rng.sample(far, rng.randrange(1, 4)) + rng.sample(sorted(JOSASET), rng.choice((0, 1, 1, 6))) + \
                    rng.sample(T.common_l, rng.choice((0, 1, 1)))
                n_ = 0
                for j in ends:
                    k = rng.choice((1, 1, 2, 7, 14))
                    words += [N + j] * k
                    n_ += k
                words += [N] * rng.choice((0, 0, n_ * 3 // 7, 31, 40))
                if len(ends) > 2:
                    for j in rng.sample(ends, 2):
                        words += [N + j + x for x in rng.sample(T.pos_l, 3)]
            for _ in range(4):
                words += [''.join(rng.choice(nouns) for _ in range(rng.choice((2, 3, 4, 5)))) + rng.choice(('', '', rng.choice(far), '은', '이'))] * rng.choice((1, 3))
            rng.shuffle(words)
            sents = [' '.join(words[i:i + 6]) for i in range(0, len(words), 6)]
        elif kind == 'rich':
            # words with dozens of different right parts, words whose last syllables begin an ending
            words = []
            for N in [''.join(rng.sample(T.free, rng.choice((2, 3)))) for _ in range(2)] + [rng.choice(text.NOUNS)]:
                for r in rng.sample(T.pos_l, rng.randrange(20, 70)) + rng.sample(T.neg_l, rng.choice((0, 20, 70))) + rng.sample(T.common_l, 5):
                    words += [N + r] * rng.choice((1, 1, 2, 9))
                words += [N + ''.join(rng.sample(T.free, rng.choice((1, 2)))) for _ in range(rng.choice((0, 0, 60)))] + [N] * rng.choice((0, 5, 40))
            for _ in range(6):
                f = rng.choice(far_pos if rng.random() < .4 else far_neg)
                i = rng.randrange(2, len(f))
                N = ''.join(rng.sample(T.free, rng.choice((0, 1, 2)))) + f[:i]
                for r in [f[i:]] + rng.sample(T.pos_l, rng.choice((0, 1, 3))) + rng.sample(T.neg_l, rng.choice((0, 1))):
                    words += [N + r] * rng.choice((1, 3, 10))
            rng.shuffle(words)
            sents = [' '.join(words[i:i + 8]) for i in range(0, len(words), 8)]
            m.seen('rich')
        elif kind == 'mixed':
            # few endings, for, against and neither, of words that also stand alone: in all proportions
            words = []
            for N in rng.sample(text.NOUNS, 4) + [''.join(rng.sample(T.free, rng.choice((1, 2, 3)))) for _ in range(6)]:
                n_, lists = 0, [T.pos_l, T.neg_l, T.neg_l, T.common_l, ['숕']]
                if rng.random() < .6:
                    first = rng.choice(T.common_l)[0]
                    lists = [[r for r in x if r[0] == first] or ['숕'] for x in lists]
                for _ in range(rng.randrange(0, 5)):
                    k = rng.choice((1, 1, 2, 3, 9, 30))
                    words += [N + rng.choice(rng.choice(lists))] * k
                    n_ += k
                words += [N] * rng.choice((0, 1, n_ * 3 // 7, n_ * 3 // 7 + 1, n_, 5, 31, 40))
            rng.shuffle(words)
            sents = [' '.join(words[i:i + 6]) for i in range(0, len(words), 6)]
        elif kind == 'hostile':
            sents = [text.hostile(rng) + ' ' + text.sentence(rng) for _ in range(min(n, 20))]
        else:
            sents = [rng.choice(('', ' ', '...')) for _ in range(min(n, 5))]
        if rng.random() < .2:
            sents, _ = disguise(rng, sents)
            m.seen('renamed_characters')
        kw, ex = {'verbose': True}, {}
        if rng.random() < .25:
            kw['max_left_length'] = rng.choice((2, 3, 5, 12, 18))
        if rng.random() < .25:
            kw['max_right_length'] = rng.choice((1, 2, 4, 12))
        if rng.random() < (.7 if kind == 'mixed' else .2):
            kw['min_num_of_features'] = rng.choice((0, 1, 2, 3))
        if rng.random() < .2:
            kw['max_frequency_when_noun_is_eojeol'] = rng.choice((1, 5, 100))
        if rng.random() < .3:
            kw['extract_compound'] = rng.random() < .5
        if rng.random() < .3:
            kw['ensure_normalized'] = True
        if rng.random() < .3:
            kw['postprocessing'] = rng.choice((['detaching_features'], ['ignore_NJ', 'ignore_features'], 'ignore_features', 'ignore_NJ',
                                              ['없는 방법'], ['ignore_features', 'detaching_features', 'ignore_NJ']))
            m.seen('postprocessing')
        if rng.random() < .1:
            kw['logpath'] = os.path.join(scratch, 'log%d' % (c.index % 3), 'x')
        if rng.random() < .1:
            kw['eojeol_counter_filtering_checkpoint'] = 10 ** 6
        if rng.random() < .15:
            # the caller's own predictor files, one or several, some features both positive and negative
            pos, neg, heads = set(), set(), []
            for i in range(rng.choice((1, 1, 2))):
                h = os.path.join(scratch, 'p%d' % i)
                own = rng.sample(T.pos_l, 30) + list(JOSASET)[:20] + ['은', '는', '이', '가'], rng.sample(T.neg_l, 30) + rng.sample(T.pos_l, 3) + ['가', '고', '다']
                if rng.random() < .5:
                    # features that begin inside long words
                    long = [w[rng.randrange(1, 4):] for s in sents for w in s.split() if 7 < len(w) < 20]
                    for x in own:
                        x += rng.sample(long, min(len(long), 4))
                    m.seen('features_inside_words', len(long))
                for x, t, f in zip(own, (pos, neg), ('_pos', '_neg')):
                    t.update(x)
                    with open(h + f, 'w', encoding='utf-8') as fp:
                        fp.write(''.join(y + '\n' for y in x))
                heads.append(h)
            m.seen('own_predictor' if len(heads) == 1 else 'own_predictors')
            kw['predictor_headers'] = heads if len(heads) > 1 or rng.random() < .5 else heads[0]
            T = Truth(pos, neg)
        if rng.random() < .5:
            ex['min_noun_frequency'] = rng.choice((1, 2, 5, 20))
        if rng.random() < .5:
            ex['min_noun_score'] = rng.choice((0, .1, .3, .5, .9, 1.0))
        mef = rng.choice((1, 1, 1, 2, 3))
        ex['reset_lrgraph'] = rng.random() < .5
        c.note(sentences=sents, config=kw, extract=ex, min_eojeol_frequency=mef)
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            e = LRNounExtractor_v2(**kw)
            L, R = kw.get('max_left_length', 10), kw.get('max_right_length', 9)
            pre = normalize_sent_for_lrgraph if kw.get('ensure_normalized') else (lambda s: s)
            inputs = sents
            form = rng.choice(('sents', 'sents', 'sents', 'counter', 'graph'))
            if form != 'sents':
                inputs = EojeolCounter(sents, min_count=mef, max_length=L + R, preprocess=pre, verbose=False)
                if form == 'graph':
                    inputs = inputs.to_lrgraph(L, R)
                m.seen(form)
            if rng.random() < .5:
                got = e.train_extract(inputs, min_eojeol_frequency=mef, **ex)
            else:
                e.train(inputs, mef)
                got = e.extract(**ex)
        cnt = {w: k for w, k in eojeols(sents, pre).items() if k >= mef and len(w) <= L + R}
        beg = begins(cnt)
        mf, ms = ex.get('min_noun_frequency', 1), ex.get('min_noun_score', .3)
        comp = {}
        if kw.get('extract_compound', True):
            comp = getattr(e, '_compounds_components', None)
            if comp is None:
                comp = {w: p for w, p in ((w, e.decompose_compound(w)) for w in got) if len(p) > 1}
        for w, s in got.items():
            m.expect(isinstance(s, NounScore), 'score-type', noun=w, score=repr(s))
            m.expect(bool(w) and beg[w] > 0, 'unsupported-noun', noun=w, score=s)
            m.expect(len(w) <= L or w in comp, 'longer-than-limit', noun=w)
            m.expect(mf <= s.frequency <= beg[w], 'frequency', noun=w, score=s, begins=beg[w], minimum=mf)
            m.expect(s.frequency == int(s.frequency), 'frequency-not-a-count', noun=w, score=s)
            m.expect(ms <= s.score <= 1 and s.score >= -1, 'score', noun=w, score=s, minimum=ms)
            m.seen('single_syllable', len(w) == 1)
        post = kw.get('postprocessing', ('detaching_features', 'ignore_features', 'ignore_NJ'))
        want, routes = v2_reference(cnt, T, L, R, ms, mf, kw.get('min_num_of_features', 1), kw.get('max_frequency_when_noun_is_eojeol', 30),
                                    kw.get('extract_compound', True), (post,) if isinstance(post, str) else post)
        for k, n_ in routes.items():
            m.seen('route: ' + k, n_)
        for w in set(want) | set(got):
            if m.expect(w in want and w in got, 'noun-set', noun=w, got=got.get(w), want=want.get(w)):
                m.expect(got[w].frequency == want[w][0] and abs(got[w].score - want[w][1]) < 1e-9, 'noun-score', noun=w, got=got[w], want=want[w])
        m.seen('noun', len(got))
        m.seen('empty_result', not got)
        m.seen('normalized', bool(kw.get('ensure_normalized')))
        m.seen('min_eojeol', mef > 1 and bool(got))
        for w, parts in comp.items():
            m.eq(''.join(parts), w, 'compound-parts', compound=w, parts=parts)
            m.expect(len(parts) >= 2, 'compound-of-one', compound=w, parts=parts)
            m.eq(tuple(e.decompose_compound(w)), tuple(parts), 'decompose', compound=w)
            m.seen('compound', w in got)
        if kw.get('extract_compound', True):
            for w in list(cnt)[:10]:
                p = ''.join(e.decompose_compound(w))
                m.expect(w == p or (w.startswith(p) and w[len(p):] in T.pos), 'decompose-loses', word=w, parts=e.decompose_compound(w))
        total = sum(cnt.values())
        cov = COV.findall(out.getvalue())
        m.seen('coverage_line', len(cov))
        if cov:
            m.eq(len(cov), 1, 'coverage-line')
            cov = float(cov[0])
            m.expect(0 <= cov <= 100, 'coverage-range', coverage=cov)
            left = dict(e.lrgraph.to_EojeolCounter().items())
            if ex['reset_lrgraph']:
                m.eq(left, cnt, 'graph-not-reset')
            else:
                m.expect(all(0 < k <= cnt.get(w, 0) for w, k in left.items()), 'graph-left', left=left)
                gone = v2_covered(cnt, T, v2_follow(cnt, L, R), got)
                m.eq(left, {w: k for w, k in cnt.items() if w not in gone}, 'words-left')
                want = 100 * (1 - sum(left.values()) / total) if total else 0
                m.expect(abs(cov - want) <= .0051, 'coverage', got=cov, want=want)
                m.seen('covered', cov > 0)
        if ex['reset_lrgraph'] and rng.random() < .4:
            # the same extraction again covers the same words
            again = io.StringIO()
            with contextlib.redirect_stdout(again):
                e.extract(**ex)
            m.eq(COV.findall(again.getvalue()), COV.findall(out.getvalue()), 'coverage-again')
        if 'logpath' in kw:
            m.expect(os.path.exists(kw['logpath'] + '_prediction_score.log'), 'log')
            m.seen('logged')
        if ex.get('min_noun_frequency', 1) > 1:
            base = e.extract(min_noun_score=ms) if ex['reset_lrgraph'] else None
            if base is not None:
                low = {w for w, s in base.items() if s.frequency < mf}
                m.seen('min_frequency_cut', len(low - set(got)))
                m.expect(not low & set(got), 'below-minimum', nouns=low & set(got))
        if got and len(got) < len(beg):
            m.nontrivial(sents, sorted((k, str(v)) for k, v in kw.items()), sorted(ex.items()), mef)

    def planted(c):
        nonlocal T
        T = SHIPPED
        rng = c.rng
        syl = list(T.free)
        rng.shuffle(syl)
        nouns = [''.join(syl.pop() for _ in range(rng.choice((2, 2, 3, 4)))) for _ in range(rng.randrange(2, 7))]
        ms = rng.choice((.1, .3, .3, .5, .8))
        mf = rng.choice((1, 1, 2, 10))
        words, want = Counter(), {}
        single = {}
        for N in nouns:
            P = prefix_free(rng, T.pos_l, rng.randrange(2, 5))
            G = prefix_free(rng, T.neg_l, rng.choice((0, 0, 1, 2)), P)
            C = prefix_free(rng, T.common_l, rng.choice((0, 0, 1)), P + G)
            ends = {}
            for x in P:
                ends[x] = rng.choice((1, 2, 5))
            for x in G:
                ends[x] = rng.choice((1, 3, 9))
            for x in C:
                ends[x] = rng.choice((1, 4))
            pos, neg, com = (sum(ends[x] for x in g) for g in (P, G, C))
            end = rng.choice((0, 0, 1, 6, 50))
            for x, k in ends.items():
                words[N + x] += k
            if end:
                words[N] += end
            s = (pos - neg) / (pos + neg)
            if len(P) + len(G) < 2 or abs(s - ms) < 1e-12:
                continue
            m.seen('truth_negative', neg > 0)
            m.seen('truth_common', com > 0)
            single[N] = (pos, neg, com, end, s)
            if s > ms and pos + end + com >= mf:
                want[N] = (pos + end + com, s)
                m.seen('truth_noun')
            else:
                m.seen('truth_rejected')
        judged = set(single)
        good = [N for N in single if single[N][4] > ms]
        if len(good) >= 2 and rng.random() < .7:
            for _ in range(rng.randrange(1, 3)):
                parts = rng.sample(good, 2)
                X = ''.join(parts)
                if len(X) > 9 or X in judged or len(X) < 4:
                    continue
                J = rng.choice([p for p in T.pos_l if len(X) + len(p) <= 10] or ['은'])
                if J not in T.pos:
                    continue
                a, b = rng.choice((0, 1, 3)), rng.choice((1, 2))
                if a / (a + b) >= .3:
                    a = 0       # otherwise the extractor may take the whole word for a plain noun
                words[X + J] += b
                if a:
                    words[X] += a
                judged.add(X)
                if a + b >= mf:
                    want[X] = (a + b, max(single[p][4] for p in parts))
                    m.seen('truth_compound')
        sents = []
        bag = list(words.elements())
        rng.shuffle(bag)
        while bag:
            k = rng.randrange(1, 6)
            sents.append(' '.join(bag[:k]))
            bag = bag[k:]
        if not sents:
            return
        c.note(words=dict(words), min_noun_score=ms, min_noun_frequency=mf)
        e = LRNounExtractor_v2(verbose=False)
        got = e.train_extract(sents, min_noun_score=ms, min_noun_frequency=mf)
        for w in judged:
            if w in want:
                if m.expect(w in got, 'known-noun-missed', noun=w, want=want[w], stats=single.get(w)):
                    m.eq(got[w].frequency, want[w][0], 'known-noun-frequency', noun=w)
                    m.close(got[w].score, want[w][1], 'known-noun-score', noun=w)
            else:
                m.expect(w not in got, 'rejected-noun-returned', noun=w, got=got.get(w), stats=single.get(w))
        m.expect(set(got) <= judged | set(nouns), 'noun-with-ending-returned', extra=sorted(set(got) - judged - set(nouns)))
        m.nontrivial(sorted(words.items()), ms, mf)
    try:
        m.each('planted', m.n(400, 8000), planted)
        m.each('corpora', m.n(220, 4000), body)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
