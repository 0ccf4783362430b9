# -*- coding: utf-8 -*-
"""C39: progress output, debug output and log files - they change nothing and tell the truth."""
import contextlib
import copy
import io
import os
import re
import shutil
import tempfile
import warnings
from collections import Counter
from mon import text
from mon.canon import canon, counts, differ, empty, inner, lview, rview
from checks.c33 import endings as judge
from checks.nounlib import real_corpus, tiny_corpus, eojeols, begins

RULE = '''Every component that can report progress, print debug output or write log files x generated corpora and queries, some of them larger
than the intervals at which progress is printed x quiet and reporting. Oracle: the result (or the exception) of the reporting run is that of
the quiet run on equal inputs, the inputs are left alone, the totals reported at the end are those of the result, and the rows of a log
account for the result. Non-trivial: the reporting run printed something and returned something; keyed by (component, inputs).'''
AB = '가나다라'


def predicates(rng, n):
    from soynlp.lemmatizer import conjugate
    ends = [e for e in text.ENDS if not e.startswith('ㅂ')]
    out = []
    for _ in range(n):
        ws = []
        for _ in range(rng.randrange(1, 7)):
            k = rng.random()
            if k < .4:
                ws.append(rng.choice(text.NOUNS) + rng.choice(text.JOSA))
            elif k < .8:
                ws.append(rng.choice(sorted(conjugate(rng.choice(text.VERBS), rng.choice(ends))) or ['가']))
            else:
                ws.append(rng.choice(text.NOUNS) + '하' + rng.choice(ends))
        out.append(' '.join(ws))
    return out


def run(m):
    warnings.simplefilter('ignore')
    from soynlp.hangle import decompose
    from soynlp.lemmatizer import conjugate, conjugate_chat, lemma_candidate, lemma_candidate_chat, _conjugate_stem
    from soynlp.noun import LRNounExtractor, LRNounExtractor_v2, NewsNounExtractor
    from soynlp.pos import NewsPOSExtractor, ChatPOSExtractor
    from soynlp.postagger import (Dictionary, EojeolTemplateMatcher, LREvaluator, LRTemplateMatcher, SimpleEojeolEvaluator, SimpleTagger,
                                  UnknowLRPostprocessor)
    from soynlp.predicator import EomiExtractor, PredicatorExtractor, StemExtractor
    from soynlp.tokenizer import MaxLRScoreTokenizer, RegexTokenizer
    from soynlp.tokenizer._tokenizer_builder import EojeolPatternTrainer
    from soynlp.utils import EojeolCounter, LRGraph
    from soynlp.vectorizer import BaseVectorizer, sent_to_word_contexts_matrix
    from soynlp.word import WordExtractor, pmi
    from soynlp.word._phrase import Bigram
    scratch = tempfile.mkdtemp(prefix='verif_c39_')
    tables = {}

    def part(f):
        tables[f.__name__] = f
        return f

    def w_(rng, k, mx=4):
        return [text.small_words(rng, AB, mx) for _ in range(k)]

    def sents_(rng, big):
        """-> sentences, sometimes more than a progress interval of `big`"""
        n = rng.choice((1, 5, 20, 60)) if rng.random() < .8 else big + rng.choice((-1, 0, 1, 2, big))
        return text.small_corpus(rng, n, rng.choice((AB, '가나')), 2, 3 if n > 500 else 7, minw=1)

    def nouns_corpus(rng):
        if rng.random() < .04:
            names = [text.syllable(rng) + text.syllable(rng) + rng.choice(('', '산', '강', '시')) for _ in range(rng.choice((700, 1300)))]
            ws = [N + j for N in names for j in rng.sample(text.JOSA, 2)] + [N + rng.choice(names) + rng.choice(text.JOSA) for N in names]
            rng.shuffle(ws)
            m.seen('many_candidates')
            return [' '.join(ws[i:i + 7]) for i in range(0, len(ws), 7)]
        return rng.choice((real_corpus, tiny_corpus))(rng, rng.choice((1, 10, 40, 100)))

    def total(out, pattern, *want):
        """the numbers of the last report of this form, when there is one"""
        got = re.findall(pattern, out)
        if got:
            got = got[-1] if isinstance(got[-1], tuple) else (got[-1],)
            m.eq(tuple(int(x) for x in got), tuple(want), 'reported-total', output=out[-600:])
            m.seen('reported_total')

    @part
    def words(rng):
        sents, k = sents_(rng, 30), rng.choice((1, 2, 7, 100000))
        kw = dict(min_frequency=rng.choice((1, 2, 5)), min_cohesion_forward=rng.choice((0, .05)), remove_subwords=rng.random() < .3)
        qs, prune = w_(rng, 4), rng.choice((0, 0, 3))

        def go(on, log):
            w = WordExtractor(verbose_points=k if on else rng.choice((0, -1)), **kw)
            w.train(sents, num_for_pruning=prune)
            return (w.extract(), w.word_scores(), w.all_accessor_variety(), w.all_branching_entropy(), w.all_cohesion_scores(), w.L, w.R,
                    [w.cohesion_score(q) if q in w.L else 0 for q in qs], [w.branching_entropy(q) for q in qs])
        return sents, go, None

    @part
    def bigram(rng):
        sents = sents_(rng, 90) if rng.random() < .7 else text.small_corpus(rng, 3000 + rng.choice((-1, 0, 1, 2, 3000)), AB, 2, 3, minw=1)
        score, mf = rng.choice(('frequency', 'pmi', 'mikolov')), rng.choice((1, 1, 2, 4))
        if len(sents) > 2500:
            sents = ['%s 다' % rng.choice(AB), '라 %s' % rng.choice(AB), '나나나 라', '가나다 다'] + sents + ['가나다 라라라', '라 라', '나나나 라'] * 3 + ['가나다 다', '다 다']

        def go(on, log):
            b = Bigram(min_frequency=mf, verbose=on, score=score)
            b.train(sents)
            return b.extract(threshold=-9), b.extract(topk=3), *inner(b, '_unigram', '_counter')

        def report(r, out, log):
            if r[2] is not None and r[3] is not None:
                total(out, r'scanning (\d+) unigrams, (\d+) bigrams', len(r[2]), len(r[3]))
        return sents, go, report

    @part
    def vectors(rng):
        sents, more = sents_(rng, 500), sents_(rng, 500)
        kw = dict(min_tf=rng.choice((0, 2)), max_df=rng.choice((1.0, .5)))

        def go(on, log):
            v = BaseVectorizer(verbose=on, **kw)
            x = v.fit_transform(sents)
            v.to_file(more, os.path.join(scratch, 'x%d' % on))
            with open(os.path.join(scratch, 'x%d' % on), encoding='utf-8') as f:
                return v.vocabulary_, x, v.transform(more), f.read()

        def report(r, out, log):
            total(out, r'(\d+) terms are recognized', len(r[0]))
            total(out, r'writing to file was done\. (\d+) docs', len(more))
        return [sents, more], go, report

    @part
    def contexts(rng):
        sents, kw = sents_(rng, 1000), dict(windows=rng.choice((1, 2, 3)), min_tf=rng.choice((1, 3)), dynamic_weight=rng.random() < .5)

        def go(on, log):
            x, words_ = sent_to_word_contexts_matrix(sents, verbose=on, **kw)
            return words_, x

        def report(r, out, log):
            total(out, r'shape = \((\d+), (\d+)\)', len(r[0]), len(r[0]))
        return sents, go, report

    @part
    def information(rng):
        from scipy.sparse import random as sparse
        import numpy as np
        n = rng.choice((2, 9, 40))
        x = sparse(n, n, density=rng.choice((.1, .5, 1)), format='csr', random_state=np.random.RandomState(rng.randrange(10 ** 6)))
        x.data = np.ceil(x.data * 5)
        x = x + sparse(n, n, density=0)
        x[0, 1] = 1
        kw = dict(min_pmi=rng.choice((0, .5, -1)), alpha=rng.choice((0, .01)), beta=rng.choice((1, .7)))
        from soynlp.word import _pmi
        low = getattr(_pmi, 'pmi_memory_friendly', None)

        def go(on, log):
            a = pmi(x, **kw)
            b = low(x, verbose=on, **kw) if low else None
            return a, b
        return [x.toarray().tolist()], go, None

    @part
    def nouns(rng):
        sents = nouns_corpus(rng)
        kw = dict(extract_compound=rng.random() < .8, extract_determiner=rng.random() < .2, extract_pos_feature=rng.random() < .2)
        if rng.random() < .3:
            kw['postprocessing'] = rng.choice((['detaching_features'], ['ignore_NJ'], ['ignore_features', 'ignore_NJ', 'detaching_features']))
        ms, mf, reset = rng.choice((.1, .3, .5)), rng.choice((1, 2, 5)), rng.random() < .5
        twice = rng.random() < .2

        def go(on, log):
            e = LRNounExtractor_v2(verbose=on, logpath=log, **kw)
            e.train(sents)
            got = e.extract(min_noun_score=ms, min_noun_frequency=mf, reset_lrgraph=reset or twice)
            if twice:
                got = e.extract(min_noun_score=ms, min_noun_frequency=mf, reset_lrgraph=reset)
            ws = sorted(got)[:4] + ['대통령']
            return (got, getattr(e, '_compounds_components', None), lview(e.lrgraph), rview(e.lrgraph), inner(e, '_pos_features', '_common_features'),
                    [e.predict(w, debug=on) for w in ws] if reset else 0)

        def report(r, out, log):
            total(out, r'(\d+) nouns \(\d+ compounds\) with min frequency', len(r[0]))
            if log:
                m.seen('noun_log')
                noun_log(r[0], r[1] if kw['extract_compound'] else {}, log)

        def noun_log(got, comp, log):
            with open(log + '_prediction_score.log', encoding='utf-8') as f:
                rows = [l.rstrip('\n').split(' ') for l in f]
            head, rows = rows[0], rows[1:]
            if not m.expect(sorted(head) == ['frequency', 'noun', 'score'] and all(len(x) == 3 for x in rows), 'log-form', head=head, rows=rows[:3]):
                return
            iw, i_f, i_s = head.index('noun'), head.index('frequency'), head.index('score')
            table = {}
            for x in rows:
                m.expect(x[iw] not in table, 'log-row-twice', row=x)
                table[x[iw]] = float(x[i_f]), float(x[i_s])
            beg = begins(eojeols(sents))
            for w, (f, s) in table.items():
                if not m.expect(f == int(f) and 0 <= f <= beg[w] and -1 <= s <= 1, 'log-row', noun=w, frequency=f, score=s, begins=beg[w]):
                    break
            m.expect([float(x[i_s]) for x in rows] == sorted((float(x[i_s]) for x in rows), reverse=True), 'log-order')
            with open(log + '_postprocessing.log', encoding='utf-8') as f:
                lines = [l.strip() for l in f]
            removed = {l for l in lines if l and not l.startswith('## ')}
            m.seen('removed_logged', len(removed))
            m.expect(not removed & set(got), 'log-removed-but-returned', nouns=removed & set(got))
            if comp is None:        # which nouns are compounds is not to be known
                return
            passed = {w for w, (f, s) in table.items() if s >= ms and f >= mf and w not in comp}
            m.expect(passed <= set(got) | removed, 'log-accepted-but-missing', nouns=passed - set(got) - removed)
            m.expect(removed <= passed | set(comp), 'log-removed-unknown', nouns=removed - passed - set(comp))
            for w, s in got.items():
                if w not in comp and m.expect(w in table, 'log-missing', noun=w):
                    m.expect(table[w] == (s[0], s[1]), 'log-value', noun=w, log=table[w], got=s)
            sections = [l for l in lines if l.startswith('## ')]
            m.eq(len(sections), len(kw.get('postprocessing', (1, 1, 1))), 'log-steps', sections=sections)
        return sents, go, report

    @part
    def nouns_v1(rng):
        sents, mf = nouns_corpus(rng), rng.choice((1, 2))

        def go(on, log):
            e = LRNounExtractor(verbose=on)
            return e.train_extract(sents, min_noun_frequency=mf)
        return sents, go, None

    @part
    def nouns_news(rng):
        sents = nouns_corpus(rng)

        def go(on, log):
            return NewsNounExtractor(verbose=on).train_extract(sents)
        return sents, go, None

    @part
    def predicators(rng):
        sents, known = predicates(rng, rng.choice((5, 20, 60))) * 2, set(rng.sample(text.NOUNS, 5))
        kw = dict(extract_eomi=rng.random() < .6, extract_stem=rng.random() < .6)
        low = rng.random() < .7

        def go(on, log):
            p = PredicatorExtractor(set(known), adjectives={'예쁘', '좋', '많', '없', '크', '작'}, verbs={'가', '먹', '보', '오', '만들', '읽', '하', '크'},
                                    eomis={e for e in text.ENDS if 'ㅂ' not in e}, verbose=on, **kw)
            r = p.train_extract(sents, min_eojeol_frequency=1, min_predicator_frequency=1, **(dict(
                min_num_of_features=1, min_eomi_score=.1, min_eomi_frequency=1, min_num_of_unique_R_char=1, min_entropy_of_R_char=0,
                min_entropy_of_R=0, min_stem_score=.1, min_stem_frequency=1) if low else {}))
            return r, inner(p, '_eomis', '_stems', '_adjective_stems', '_verb_stems')

        def report(r, out, log):
            total(out, r'(\d+) predicators are extracted', len(set(r[0][0]) | set(r[0][1])))
        return [sents, known], go, report

    @part
    def endings(rng):
        sents = predicates(rng, rng.choice((10, 40)))
        stems, ns = set(rng.sample(text.VERBS, 20)), {'대통령', '나라다'}
        k, sc = rng.choice((1, 2, 5)), rng.choice((.1, .3, .6))

        def go(on, log):
            e = EomiExtractor(EojeolCounter(sents).to_lrgraph(), set(stems), set(ns), min_num_of_features=k, verbose=on, logpath=log)
            r = e.extract(min_eomi_score=sc)
            return r, lview(e.lrgraph), e.is_trained

        def report(r, out, log):
            total(out, r'(\d+) eomis extracted', len(r[0]))
            if not log:
                return
            m.seen('ending_log')
            with open(log + '_eomi_prediction_score.log', encoding='utf-8') as f:
                rows = [l.rstrip('\n').rsplit(' ', 2) for l in f]
            head, rows = rows[0], rows[1:]
            if not m.expect(sorted(head) == ['eomi', 'frequency', 'score'] and all(len(x) == 3 for x in rows), 'log-form', head=head, rows=rows[:3]):
                return
            i_f, i_s = head.index('frequency'), head.index('score')
            m.eq(len({x[0] for x in rows}), len(rows), 'log-row-twice')
            s = [float(x[i_s]) for x in rows]
            m.expect(s == sorted(s, reverse=True) and all(-1 <= x <= 1 for x in s), 'log-order')
            judged = {}
            judge({w: n for w, n in eojeols(sents).items() if len(w) <= 15}, stems, ns, k, sc, 0, judged=judged)
            m.eq({x[0]: (float(x[i_f]), round(float(x[i_s]), 9)) for x in rows if x[0]}, {r: (f, round(v, 9)) for r, (f, v) in judged.items()}, 'log-row')
            m.seen('ending_doubtful', sum(-1 < v < sc and f for f, v in judged.values()))
            m.expect(all(v[1] <= max(s, default=-1) + 1e-9 for v in r[0].values()), 'log-value', endings=r[0])
        return [sents, stems, ns], go, report

    @part
    def stems(rng):
        sents = predicates(rng, rng.choice((10, 40)))
        known, ends = set(rng.sample(text.VERBS, 12)), {e for e in text.ENDS if 'ㅂ' not in e}

        def go(on, log):
            g = EojeolCounter(sents).to_lrgraph()
            e = StemExtractor(g, set(known), set(ends), min_num_of_unique_R_char=1, min_entropy_of_R_char=0, min_entropy_of_R=0, verbose=on)
            r = e.extract(min_stem_score=.1, min_stem_frequency=1)
            return r, lview(g)
        return [sents, known, ends], go, None

    @part
    def classes(rng):
        sents, cls = predicates(rng, rng.choice((5, 30))), rng.choice((NewsPOSExtractor, ChatPOSExtractor))
        eomi = rng.random() < .3

        def go(on, log):
            return cls(verbose=on, extract_eomi=eomi).train_extract(sents)
        return sents, go, None

    @part
    def counters(rng):
        sents, kw = sents_(rng, 40), dict(min_count=rng.choice((1, 2)), max_length=rng.choice((2, 15)))

        def go(on, log):
            c = EojeolCounter(sents, verbose=on, **kw)
            return counts(c), c.num_of_uncovered_eojeols, c.coverage

        def report(r, out, log):
            total(out, r'n eojeol = (\d+) from (\d+) sents', len(r[0]), len(sents))
        return sents, go, report

    @part
    def patterns(rng):
        sents, mf = sents_(rng, 45), rng.choice((1, 2))

        def go(on, log):
            t = EojeolPatternTrainer(max_left_length=3, max_right_length=2, min_frequency=mf, verbose=on)
            t.train(sents)
            ok = any(r for r in t.rlgraph)
            return t.lrgraph, t.rlgraph, t.wordset_l, t.wordset_r, t.train_hits(max_iter=4) if ok else 0
        return sents, go, None

    @part
    def tagger(rng):
        table = {t: set(w_(rng, rng.choice((4, 9)), 3)) for t in ('Noun', 'Verb', 'Adjective', 'Adverb', 'Exclamation', 'Josa')}
        s = ' '.join(w_(rng, 4, 7))
        flat = rng.random() < .5
        which = rng.randrange(3)

        def go(on, log):
            d = Dictionary(copy.deepcopy(table))
            t = (SimpleTagger(LRTemplateMatcher(d), LREvaluator(), UnknowLRPostprocessor()) if which == 0 else
                 SimpleTagger(LRTemplateMatcher(d), LREvaluator()) if which == 1 else SimpleTagger(EojeolTemplateMatcher(d), SimpleEojeolEvaluator()))
            if not on:
                return t.tag(s, flatten=flat)
            r, cands = t.tag(s, flatten=flat, debug=True)
            m.eq(len(cands), len(s.split()), 'candidate-lists')
            print(cands)
            return r
        return [table, s], go, None

    @part
    def tokens(rng):
        s = text.hostile(rng)
        L, R = {w: rng.choice((.1, .5, .9)) for w in w_(rng, 6)}, {w: .4 for w in w_(rng, 4, 2)}
        t = ' '.join(w_(rng, 3, 8))

        def go(on, log):
            a = RegexTokenizer().tokenize(s, debug=on, flatten=False)
            k = MaxLRScoreTokenizer(dict(L), dict(R))
            b = k.tokenize(t, debug=on)
            if on:
                b = [x for p in b for x in ((p[0], 'L'), (p[1], 'R')) if x[0]]
                print(b)
            return a, b
        return [s, L, R, t], go, None

    @part
    def forms(rng):
        stem, end = rng.choice(text.VERBS + ['듣', '걷', '푸르', '이르', '그렇', '서툴']), rng.choice(text.ENDS + ['아라', '으니', 'ㄴ', 'ㄹ까', '냐'])
        l = ''.join(rng.choice('가걸들와워여해하했었러라려') for _ in range(rng.randrange(1, 4)))
        r = ''.join(rng.choice('어아다니ㅋ고라었') for _ in range(rng.randrange(0, 3)))
        pre, known = {(l, r): [(l, r)]}, rng.choice(('볶고', '웃는', '굳이', '먹다', '꽂을'))
        pre[known[:1], known[1:]] = [(known[:1], known[1:]), (stem, end)]

        def go(on, log):
            return [f(stem, end, enforce_moum_harmoney=h, debug=on) for f in (conjugate, conjugate_chat) for h in (0, 1)], _conjugate_stem(stem, debug=on), \
                [f(*x, debug=on) for f in (lemma_candidate, lemma_candidate_chat) for x in ((l, r), (l, r, pre), (known[:1], known[1:], pre))]
        return [stem, end, l, r, pre], go, None

    m.require(*tables, 'printed', 'reported_total', 'noun_log', 'ending_log', 'ending_doubtful', 'removed_logged', 'interval', 'many_candidates')

    def attempt(go, on, log):
        out = io.StringIO()
        try:
            with contextlib.redirect_stdout(out):
                r = go(on, log)
        except Exception as e:
            return None, ['raised', type(e).__name__, str(e)[:200]], out.getvalue()
        return r, canon(r), out.getvalue()

    names = list(tables)

    def body(c):
        rng = c.rng
        name = names[c.index % len(names)]
        inputs, go, report = tables[name](rng)
        c.note(component=name, inputs=inputs)
        log = os.path.join(scratch, 'log%d' % (c.index % 5), rng.choice(('x', 'a.b'))) if rng.random() < .5 else None
        frozen = canon(inputs)
        order = (False, True) if rng.random() < .5 else (True, False)
        res = {}
        for on in order:
            res[on] = attempt(go, on, log if on else None)
            m.expect(differ(canon(inputs), frozen) is None, 'inputs-modified', component=name, reporting=on)
        d = differ(res[False][1], res[True][1])
        m.expect(d is None, 'result-depends-on-reporting', component=name, log=bool(log), where=d and d[0], quiet=d and d[1], reporting=d and d[2])
        raised = res[False][0] is None and isinstance(res[False][1], list) and res[False][1][:1] == ['raised']
        m.seen('refused', raised)
        if raised or d is not None:
            return
        m.seen(name)
        m.seen('printed', bool(res[True][2]))
        m.seen('interval', res[True][2].count('\r') > 3)
        if report:
            report(res[True][0], res[True][2], log)
        if res[True][2] and not empty(res[True][1]):
            m.nontrivial(name, repr(frozen))
    try:
        m.each('quiet_and_reporting', m.n(len(names) * 45, len(names) * 900), body)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
